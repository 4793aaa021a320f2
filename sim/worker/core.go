package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
)

// ---- plans ----

// Op is one step of one actor.
type Op struct {
	W int    `json:"w"`           // actor
	K string `json:"k"`           // kind
	C int    `json:"c,omitempty"` // object (connection, request, ...)
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	S string `json:"s,omitempty"`
	D int64  `json:"d,omitempty"` // simulated nanoseconds to wait first
}

// JSON has no way to write a string that is not UTF-8.
const rawMark = "base64:"

type opJSON Op

func (o Op) MarshalJSON() ([]byte, error) {
	if !utf8.ValidString(o.S) || strings.HasPrefix(o.S, rawMark) {
		o.S = rawMark + base64.StdEncoding.EncodeToString([]byte(o.S))
	}
	return json.Marshal(opJSON(o))
}

func (o *Op) UnmarshalJSON(b []byte) error {
	if err := json.Unmarshal(b, (*opJSON)(o)); err != nil {
		return err
	}
	if strings.HasPrefix(o.S, rawMark) {
		raw, err := base64.StdEncoding.DecodeString(o.S[len(rawMark):])
		o.S = string(raw)
		return err
	}
	return nil
}

// Fault is one injected fault.
type Fault struct {
	K string `json:"k"`
	C int    `json:"c"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
}

// Stall suspends whatever goroutine executes the At-th instrumented goji
// statement for For simulated nanoseconds.
type Stall struct {
	At  uint64 `json:"at"`
	For int64  `json:"for"`
}

// Sched is the scheduling strategy of one run.
type Sched struct {
	Strat   int      `json:"strat"`
	Rng     uint64   `json:"rng"`
	Aux     uint64   `json:"aux"`
	Thresh  uint64   `json:"thresh,omitempty"`
	Changes []uint64 `json:"changes,omitempty"`
	NumCPU  int      `json:"numcpu"`
	PoolP   uint64   `json:"poolp,omitempty"`
}

// Plan is everything that determines one run, apart from the scheduling
// decisions a replay file may add.
type Plan struct {
	Scn    string         `json:"scn"`
	Seed   uint64         `json:"seed"`
	Knobs  map[string]int `json:"knobs"`
	Ops    []Op           `json:"ops"`
	Faults []Fault        `json:"faults,omitempty"`
	Stalls []Stall        `json:"stalls,omitempty"`
	Sched  Sched          `json:"sched"`
}

func (p *Plan) knob(k string) int { return p.Knobs[k] }

// actors groups the plan's ops by actor, in order.
func (p *Plan) actors() map[int][]Op {
	m := map[int][]Op{}
	for _, o := range p.Ops {
		m[o.W] = append(m[o.W], o)
	}
	return m
}

func sortedKeys(m map[int][]Op) []int {
	var k []int
	for i := range m {
		k = append(k, i)
	}
	sort.Ints(k)
	return k
}

// ---- seeded random numbers for plan generation ----

type Rand struct{ s uint64 }

func newRand(seed uint64) *Rand { return &Rand{seed} }

func (r *Rand) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64()>>33) % n
}
func (r *Rand) rng(a, b int) int { return a + r.n(b-a+1) }
func (r *Rand) chance(num, den int) bool {
	return r.n(den) < num
}
func (r *Rand) pick(xs ...int) int        { return xs[r.n(len(xs))] }
func (r *Rand) picks(xs ...string) string { return xs[r.n(len(xs))] }

// dur picks a duration: usually zero, sometimes short, sometimes long.
func (r *Rand) dur(ds ...time.Duration) int64 {
	return int64(ds[r.n(len(ds))])
}

func (r *Rand) sched() Sched {
	s := Sched{Rng: r.u64(), Aux: r.u64(), NumCPU: r.pick(1, 1, 2, 4)}
	switch r.n(10) {
	case 0:
		s.Strat = runtime.SimFIFO
	case 1, 2, 3, 4, 5:
		s.Strat = runtime.SimRandom
		s.Thresh = uint64(1) << uint(64-r.rng(1, 6))
	default:
		s.Strat = runtime.SimPCT
		max := r.pick(60, 200, 600, 2000)
		for i, k := 0, r.rng(1, 4); i < k; i++ {
			s.Changes = append(s.Changes, uint64(1+r.n(max)))
		}
	}
	if r.chance(1, 4) {
		s.PoolP = uint64(1) << uint(64-r.rng(1, 3))
	}
	return s
}

func (r *Rand) stalls(max int, span int, ds ...time.Duration) []Stall {
	var out []Stall
	for i, k := 0, r.n(max+1); i < k; i++ {
		out = append(out, Stall{uint64(1 + r.n(span)), r.dur(ds...)})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].At < out[j].At })
	return out
}

// ---- one run ----

type Ev struct {
	Seq     uint64
	G       uint32
	T       int64
	K       string
	A, B, C int64
}

type Fail struct {
	Prop string `json:"prop"`
	Sig  string `json:"sig"`
	Msg  string `json:"msg"`
}

// X is the context of one run. Its methods are called from every goroutine of
// the simulated program. They are excluded from race detection and do not
// synchronise, so that observing the program adds no happens-before edges: only
// one goroutine runs at a time, and it cannot be preempted in here.
type X struct {
	plan   *Plan
	ev     []Ev
	nev    int
	fails  []Fail
	faults map[string]int
	probes map[string]int
	t0     time.Time
	exited bool
	exit   int
	state  interface{}
	dead   bool   // the simulated process has ended
	also   string // a property every failure counts against, too
	fset   []faultKey
	pset   []faultKey
	stop   []func()
	onExit func(code int)
}

type faultKey struct {
	k string
	n int
}

const maxEv = 20000

var evBuf [maxEv]Ev

//go:norace
func (x *X) Ev(k string, a, b, c int64) uint64 {
	runtimeSeq++
	if x.nev < maxEv {
		e := &evBuf[x.nev]
		e.Seq, e.G, e.K, e.A, e.B, e.C = runtimeSeq, runtime.SimGoid(), k, a, b, c
		e.T = int64(time.Since(x.t0))
		x.nev++
	}
	return runtimeSeq
}

// runtimeSeq numbers the events of a run: it is its logical clock.
var runtimeSeq uint64

//go:norace
func (x *X) Seq() uint64 {
	runtimeSeq++
	return runtimeSeq
}

//go:norace
func (x *X) Now() int64 { return int64(time.Since(x.t0)) }

//go:norace
func (x *X) Fail(prop, sig, f string, a ...interface{}) {
	if len(x.fails) >= 20 || x.dead {
		return
	}
	if x.also != "" && prop >= "C10" && prop < x.also {
		x.Fail(x.also, sig, f, a...)
	}
	for i := range x.fails {
		if x.fails[i].Prop == prop && x.fails[i].Sig == sig {
			return
		}
	}
	x.fails = append(x.fails, Fail{prop, sig, fmt.Sprintf(f, a...)})
}

//go:norace
func (x *X) FaultFired(k string) {
	for i := range x.fset {
		if x.fset[i].k == k {
			x.fset[i].n++
			return
		}
	}
	x.fset = append(x.fset, faultKey{k, 1})
}

//go:norace
func (x *X) Probe(k string) {
	for i := range x.pset {
		if x.pset[i].k == k {
			x.pset[i].n++
			return
		}
	}
	x.pset = append(x.pset, faultKey{k, 1})
}

// Y is a scheduling point in harness code.
func Y() { runtime.SimYieldStd(0) }

func sleep(ns int64) {
	if ns > 0 {
		time.Sleep(time.Duration(ns))
	} else {
		Y()
	}
}

// waitAll waits for wg with a simulated deadline, and reports whether it got
// there.
func waitAll(wg *sync.WaitGroup, d time.Duration) bool {
	ch := make(chan struct{})
	go func() {
		wg.Wait()
		close(ch)
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ch:
		return true
	case <-t.C:
		return false
	}
}

// waitCh waits for ch with a simulated deadline.
func waitCh(ch chan struct{}, d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ch:
		return true
	case <-t.C:
		return false
	}
}

// runActors runs the plan's actors, each in its own goroutine, and waits for
// them.
func (x *X) runActors(do func(actor int, o Op)) *sync.WaitGroup {
	m := x.plan.actors()
	var wg sync.WaitGroup
	for _, k := range sortedKeys(m) {
		ops := m[k]
		wg.Add(1)
		go func(k int, ops []Op) {
			defer wg.Done()
			for _, o := range ops {
				sleep(o.D)
				do(k, o)
			}
		}(k, ops)
	}
	return &wg
}

// ---- scenarios ----

type Scenario struct {
	Name string
	// Gen makes the plan for a seed. Some plans are
	// larger than others, more of them in the thorough tier: see bigger.
	Gen func(r *Rand, p *Plan, tier string)
	// Run executes it inside the simulation.
	Run func(x *X)
	// After runs outside the simulation, when every goroutine has stopped.
	After func(x *X)
	// Reset re-initialises goji's package state first.
	Reset bool
	Limit uint64
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.Name] = s }

func stackHas(sub string) bool {
	var pcs [48]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, sub) {
			return true
		}
		if !more {
			return false
		}
	}
}

// callers lists the goji and net/http functions on the stack, innermost first.
func callers() string {
	var pcs [48]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	var out []string
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "zenazn/goji") || strings.HasPrefix(f.Function, "net/http.") {
			fn := f.Function
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			out = append(out, fn)
		}
		if !more {
			break
		}
	}
	return strings.Join(out, "<")
}

// bigger: make this plan a large one?
func bigger(r *Rand, tier string) bool {
	if tier == "thorough" {
		return r.chance(1, 3)
	}
	return r.chance(1, 12)
}
