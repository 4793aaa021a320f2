// Command worker runs simulated executions of goji. It has to be built with
// the overlay that cmd/overlay writes.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Replay is the replay file.
type Replay struct {
	Property  string   `json:"property"`
	Signature string   `json:"signature"`
	Message   string   `json:"message"`
	Race      bool     `json:"race"`
	Tier      string   `json:"tier"`
	Plan      *Plan    `json:"plan"`
	Decisions string   `json:"decisions"` // base64; empty with UseDecisions false: scheduled by plan.sched
	Use       bool     `json:"use_decisions"`
	Digest    string   `json:"digest,omitempty"` // of the event log
	Trace     []string `json:"trace,omitempty"`
	Note      string   `json:"note,omitempty"`
	Crash     string   `json:"crash,omitempty"`
}

// Result is what one run produced.
type Result struct {
	Seed   uint64
	Fails  []Fail
	Sim    runtime.SimResult
	Digest uint64
	Dec    []byte
	SimNS  int64
	Races  int
	X      *X
}

const decCap = 1 << 17

var decBuf = make([]byte, decCap)
var decUsed = decCap

var logBuf bytes.Buffer

type logSink struct{}

//go:norace
func (logSink) Write(b []byte) (int, error) {
	if curX != nil {
		curX.logLine(b)
	}
	return len(b), nil
}

var curX *X
var logLines [4096]string
var logG [4096]uint32
var logSeq [4096]uint64
var nLog int

//go:norace
func (x *X) logLine(b []byte) {
	if nLog < len(logLines) {
		logLines[nLog] = string(b)
		logG[nLog], logSeq[nLog] = runtime.SimGoid(), x.Seq()
		nLog++
	}
}

// stderr is the real standard error.
var stderr *os.File

var keepAlive []interface{}

// runPlan executes one plan.
func runPlan(p *Plan, dec []byte, useDec bool) *Result {
	s := scenarios[p.Scn]
	if s == nil {
		fmt.Fprintln(os.Stderr, "worker: no scenario", p.Scn)
		os.Exit(2)
	}
	x := &X{plan: p}
	curX = x
	nLog = 0
	runtimeSeq = 0
	limit := s.Limit
	if limit == 0 {
		limit = 60000
	}
	runtime.SimNumCPU = p.Sched.NumCPU
	signal.SimReset()
	net.SimDial, net.SimListen, net.SimFileListener = nil, nil, nil
	os.SimNewFile, syscall.SimCloseOnExec = nil, nil
	clearBootEnv()
	log.SetOutput(logSink{})
	log.SetFlags(0)
	runtime.SimExitHook = x.exitHook
	clear(decBuf[:min(decUsed, decCap)])
	runtime.SimSetup(p.Sched.Strat, p.Sched.Rng, p.Sched.Aux, p.Sched.Thresh, p.Sched.Changes, limit, decBuf, dec, useDec)
	var at []uint64
	var dur []int64
	for _, st := range p.Stalls {
		at = append(at, st.At)
		dur = append(dur, st.For)
	}
	runtime.SimStalls(at, dur)
	runtime.SimPool(p.Sched.PoolP)
	races := runtime.SimRaces()
	var end time.Time
	res := runtime.SimRun(func() {
		x.t0 = time.Now()
		if s.Reset {
			resetAll()
		}
		s.Run(x)
		end = time.Now()
	})
	for _, f := range x.stop {
		f()
	}
	if s.After != nil {
		s.After(x)
	}
	r := &Result{Seed: p.Seed, Fails: x.fails, Sim: res, X: x}
	if !end.IsZero() {
		r.SimNS = int64(end.Sub(x.t0))
	}
	r.Races = runtime.SimRaces() - races
	n := res.Decisions
	decUsed = n
	if n > decCap {
		n = decCap
	}
	r.Dec = append([]byte(nil), decBuf[:n]...)
	h := fnv.New64a()
	var b [8]byte
	w := func(v uint64) {
		binary.LittleEndian.PutUint64(b[:], v)
		h.Write(b[:])
	}
	for _, e := range evBuf[:x.nev] {
		w(e.Seq)
		w(uint64(e.G))
		w(uint64(e.T))
		io.WriteString(h, e.K)
		w(uint64(e.A))
		w(uint64(e.B))
		w(uint64(e.C))
	}
	for _, f := range x.fails {
		io.WriteString(h, f.Prop+f.Sig)
	}
	r.Digest = h.Sum64()
	if end.IsZero() {
		x.Fail("*", "main-blocked", "the scenario never finished: deadlock")
		r.Fails = x.fails
	}
	return r
}

// exitHook runs where the program would end.
//
//go:norace
func (x *X) exitHook(code int) {
	x.Ev("exit", int64(code), 0, 0)
	if x.onExit != nil && !x.exited {
		x.onExit(code)
	}
	x.exited = true
	x.exit = code
}

//go:norace
func (x *X) hasExited() bool { return x.exited }

// resetAll makes the process as good as new.
func resetAll() {
	flag.CommandLine = flag.NewFlagSet("sim", flag.ContinueOnError)
	http.DefaultServeMux = http.NewServeMux()
	runtime.SimResetAll()
}

func genPlan(scn string, seed uint64, tier string) *Plan {
	s := scenarios[scn]
	if s == nil {
		fmt.Fprintln(os.Stderr, "worker: no scenario", scn)
		os.Exit(2)
	}
	r := newRand(seed*0x9e3779b97f4a7c15 + 0x1234567)
	r.u64()
	p := &Plan{Scn: scn, Seed: seed, Knobs: map[string]int{}}
	p.Sched = r.sched()
	s.Gen(r, p, tier)
	return p
}

func trace(x *X) []string {
	var out []string
	for _, e := range evBuf[:x.nev] {
		out = append(out, fmt.Sprintf("#%d g%d t=%s %s %d %d %d", e.Seq, e.G, time.Duration(e.T), e.K, e.A, e.B, e.C))
	}
	for i := 0; i < nLog && i < 50; i++ {
		out = append(out, "log: "+strings.TrimRight(logLines[i], "\n"))
	}
	return out
}

// match finds the failure that concerns a property: its own, or one that
// concerns whatever property is being decided.
func match(fs []Fail, prop string) (Fail, bool) {
	for _, f := range fs {
		if f.Prop == prop || f.Prop == "*" {
			f.Prop = prop
			return f, true
		}
	}
	return Fail{}, false
}

func matchSig(fs []Fail, prop, sig string) bool {
	for _, f := range fs {
		if (f.Prop == prop || f.Prop == "*") && f.Sig == sig {
			return true
		}
	}
	return false
}

type Summary struct {
	Runs       int               `json:"runs"`
	SimNS      int64             `json:"sim_ns"`
	Steps      uint64            `json:"steps"`
	Switches   uint64            `json:"switches"`
	Preempts   uint64            `json:"preempts"`
	Decided    uint64            `json:"decided"`
	Goroutines uint64            `json:"goroutines"`
	Faults     map[string]int    `json:"faults"`
	Probes     map[string]int    `json:"probes"`
	Leftover   int               `json:"leftover"`
	Races      int               `json:"races"`
	Hashes     []string          `json:"-"`
	Sites      []uint32          `json:"sites,omitempty"`
	Strat      [3]int            `json:"strat"`
	WallNS     int64             `json:"wall_ns"`
	Samples    []json.RawMessage `json:"samples,omitempty"`
}

type Line struct {
	Type    string   `json:"type"` // "fail", "summary"
	Replay  *Replay  `json:"replay,omitempty"`
	Summary *Summary `json:"summary,omitempty"`
	Index   int      `json:"index"`
}

var progress []byte

func setProgress(seed uint64, state uint64) {
	if progress != nil {
		binary.LittleEndian.PutUint64(progress[0:], seed)
		binary.LittleEndian.PutUint64(progress[8:], state)
	}
}

func mkReplay(prop string, f Fail, tier string, r *Result, p *Plan) *Replay {
	return &Replay{Property: prop, Signature: f.Sig, Message: f.Msg, Race: runtime.SimRace(), Tier: tier, Plan: p,
		Decisions: base64.StdEncoding.EncodeToString(r.Dec), Use: true, Digest: fmt.Sprintf("%016x", r.Digest)}
}

// Servers are not always where UTC is: what depends on it shows.
const simTZ = "America/New_York"

func main() {
	if os.Getenv("GOMAXPROCS") != "1" || os.Getenv("TZ") != simTZ {
		// The simulated scheduler only knows one P.
		os.Setenv("GOMAXPROCS", "1")
		os.Setenv("TZ", simTZ)
		exe, err := os.Executable()
		if err == nil {
			err = syscall.Exec(exe, os.Args, os.Environ())
		}
		fmt.Fprintln(os.Stderr, "worker:", err)
		os.Exit(2)
	}
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 62)
	runtime.MemProfileRate = 0
	signal.SimInit()
	time.Local.String()
	_ = time.Now().Local().String()
	if _, off := time.Unix(0, 0).Zone(); off == 0 {
		fmt.Fprintln(os.Stderr, "worker: no time zones")
		os.Exit(2)
	}
	// debug.PrintStack and friends write there.
	stderr = os.Stderr
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(stderr, "usage: worker batch|one|min|plan ...")
		os.Exit(2)
	}
	if os.Args[1] == "proc" {
		n, _ := strconv.Atoi(os.Args[2])
		procMain(n)
		return
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	scn := fs.String("scn", "", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	base := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 1, "")
	file := fs.String("file", "", "")
	prog := fs.String("progress", "", "")
	hashes := fs.String("hashes", "", "")
	known := fs.String("known", "", "comma separated signatures")
	budget := fs.Duration("budget", 0, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(os.Args[2:])
	if *prog != "" {
		f, err := os.OpenFile(*prog, os.O_RDWR, 0)
		if err == nil {
			progress, _ = syscall.Mmap(int(f.Fd()), 0, 4096+decCap, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if progress != nil {
				// The parent can read the decisions of a run that crashed.
				decBuf = progress[4096:]
			}
		}
	}
	enc := json.NewEncoder(os.Stdout)
	knownSig := map[string]bool{}
	for _, k := range strings.Split(*known, ",") {
		if k != "" {
			knownSig[k] = true
		}
	}
	// The first runs of a process initialise what the standard library sets up
	// lazily; have that behind us.
	warm := func(scn string) {
		if os.Getenv("SIM_NOWARM") == "" {
			setProgress(0, 5)
			for i := uint64(0); i < 40; i++ {
				p := genPlan(scn, 1<<60+i, "quick")
				if i < 4 && scn == "grc" {
					p.Knobs["how"] = howServerTLS
					p.Knobs["tlscfg"], p.Knobs["tlsmax"] = tlsCfgNone, int(i)
				}
				if i < 2 && scn == "goji" {
					p.Knobs["entry"] = entryServeTLS
				}
				runPlan(p, nil, false)
			}
			for i := range runtime.SimSites {
				runtime.SimSites[i] = 0
			}
		}
	}
	if *scn != "" && cmd != "plan" {
		warm(*scn)
	}
	switch cmd {
	case "batch":
		t0 := time.Now()
		var sum Summary
		sum.Faults = map[string]int{}
		sum.Probes = map[string]int{}
		var hf *os.File
		if *hashes != "" {
			hf, _ = os.OpenFile(*hashes, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		}
		var hb []byte
		bad := 0
		seenSig := map[string]bool{}
		for i := 0; i < *n; i++ {
			if *budget > 0 && time.Since(t0) > *budget {
				break
			}
			seed := *base + uint64(i)
			setProgress(seed, 1)
			p := genPlan(*scn, seed, *tier)
			r := runPlan(p, nil, false)
			setProgress(seed, 2)
			sum.add(r)
			if r.Sim.Preempts > 0 || len(r.X.fset) > 0 || r.Sim.Stalls > 0 {
				hb = binary.LittleEndian.AppendUint64(hb, r.Sim.Hash^r.Digest*3)
			}
			if r.Races > 0 {
				r.Fails = append(r.Fails, Fail{"*", "data-race", "the race detector reported a data race (see the trace on standard error)"})
			}
			if len(sum.Samples) < 2 && i%37 == 0 {
				b, _ := json.Marshal(map[string]interface{}{"seed": seed, "plan": p, "decisions": r.Sim.Decisions, "switches": r.Sim.Switches, "events": r.X.nev})
				sum.Samples = append(sum.Samples, b)
			}
			for _, f := range r.Fails {
				if f.Prop != *prop && f.Prop != "*" {
					continue
				}
				if seenSig[f.Sig] {
					continue
				}
				seenSig[f.Sig] = true
				f.Prop = *prop
				enc.Encode(Line{Type: "fail", Replay: mkReplay(*prop, f, *tier, r, p), Index: i})
				if !knownSig[f.Sig] {
					bad++
				}
			}
			if bad > 0 || r.Races > 0 {
				break
			}
			if i%64 == 63 {
				runtime.GC()
			}
		}
		if hf != nil {
			hf.Write(hb)
			hf.Close()
		}
		for i, c := range runtime.SimSites {
			if c > 0 {
				sum.Sites = append(sum.Sites, uint32(i))
			}
		}
		sum.WallNS = int64(time.Since(t0))
		enc.Encode(Line{Type: "summary", Summary: &sum})
		setProgress(0, 3)
	case "one", "min":
		b, err := os.ReadFile(*file)
		if err != nil {
			fmt.Fprintln(stderr, err)
			os.Exit(2)
		}
		var rp Replay
		if err := json.Unmarshal(b, &rp); err != nil {
			fmt.Fprintln(stderr, err)
			os.Exit(2)
		}
		dec, _ := base64.StdEncoding.DecodeString(rp.Decisions)
		warm(rp.Plan.Scn)
		if cmd == "min" {
			minimise(&rp, dec, *budget)
			enc.Encode(&rp)
			return
		}
		r := runPlan(rp.Plan, dec, rp.Use)
		if r.Races > 0 {
			r.Fails = append(r.Fails, Fail{"*", "data-race", "the race detector reported a data race (see the trace on standard error)"})
		}
		f, ok := match(r.Fails, rp.Property)
		if matchSig(r.Fails, rp.Property, rp.Signature) {
			for _, g := range r.Fails {
				if g.Sig == rp.Signature {
					f = g
				}
			}
		}
		out := Replay{Property: rp.Property, Tier: rp.Tier, Race: rp.Race, Plan: rp.Plan, Decisions: base64.StdEncoding.EncodeToString(r.Dec), Use: true, Digest: fmt.Sprintf("%016x", r.Digest), Trace: trace(r.X)}
		if ok {
			out.Signature, out.Message = f.Sig, f.Msg
		}
		if *verbose {
			for _, l := range out.Trace {
				fmt.Fprintln(stderr, l)
			}
			for _, f := range r.Fails {
				fmt.Fprintln(stderr, "FAIL", f.Prop, f.Sig, f.Msg)
			}
			fmt.Fprintf(os.Stderr, "%+v digest %016x\n", r.Sim, r.Digest)
		}
		enc.Encode(&out)
	case "seed":
		// Run one seed and describe it.
		p := genPlan(*scn, *base, *tier)
		pj, _ := json.Marshal(p)
		fmt.Println(string(pj))
		r := runPlan(p, nil, false)
		for _, l := range trace(r.X) {
			fmt.Println(l)
		}
		for _, f := range r.Fails {
			fmt.Println("FAIL", f.Prop, f.Sig, f.Msg)
		}
		fmt.Printf("%+v digest %016x races %d simtime %s\n", r.Sim, r.Digest, r.Races, time.Duration(r.SimNS))
	case "plan":
		pj, _ := json.Marshal(genPlan(*scn, *base, *tier))
		fmt.Println(string(pj))
	case "digest":
		// One line per seed: used to compare executions across processes.
		for i := 0; i < *n; i++ {
			p := genPlan(*scn, *base+uint64(i), *tier)
			if i < *n/2 {
				// As it would come out of a replay file.
				b, _ := json.Marshal(p)
				p = new(Plan)
				if err := json.Unmarshal(b, p); err != nil {
					fmt.Fprintln(stderr, err)
					os.Exit(2)
				}
			}
			r := runPlan(p, nil, false)
			fmt.Printf("%d %016x %016x %d\n", *base+uint64(i), r.Sim.Hash, r.Digest, r.Sim.Decisions)
		}
	case "tally":
		// Development aid: count failures by property and signature.
		t := map[string]int{}
		first := map[string]string{}
		t0 := time.Now()
		var sum Summary
		sum.Faults = map[string]int{}
		sum.Probes = map[string]int{}
		for i := 0; i < *n; i++ {
			seed := *base + uint64(i)
			setProgress(seed, 1)
			p := genPlan(*scn, seed, *tier)
			r := runPlan(p, nil, false)
			sum.add(r)
			if r.Races > 0 {
				r.Fails = append(r.Fails, Fail{"*", "data-race", ""})
			}
			for _, f := range r.Fails {
				k := f.Prop + " " + f.Sig
				t[k]++
				if first[k] == "" {
					first[k] = fmt.Sprintf("seed %d: %s", seed, f.Msg)
				}
			}
			if i%64 == 63 {
				runtime.GC()
			}
		}
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("%6d %s   [%s]\n", t[k], k, first[k])
		}
		sum.Sites = nil
		sum.WallNS = int64(time.Since(t0))
		b, _ := json.Marshal(&sum)
		fmt.Println(string(b))
		fmt.Printf("%d runs in %s\n", *n, time.Since(t0))
	default:
		fmt.Fprintln(stderr, "worker: unknown command", cmd)
		os.Exit(2)
	}
}

func (s *Summary) add(r *Result) {
	s.Runs++
	s.SimNS += r.SimNS
	s.Steps += r.Sim.Steps
	s.Switches += r.Sim.Switches
	s.Preempts += r.Sim.Preempts
	s.Decided += r.Sim.Decided
	s.Goroutines += uint64(r.Sim.Goroutines)
	if r.Sim.Leftover {
		s.Leftover++
	}
	s.Races += r.Races
	for _, f := range r.X.fset {
		s.Faults[f.k] += f.n
	}
	if r.Sim.Stalls > 0 {
		s.Faults["stall"] += r.Sim.Stalls
	}
	if r.Sim.PoolMiss > 0 {
		s.Faults["pool-miss"] += int(r.Sim.PoolMiss)
	}
	for _, f := range r.X.pset {
		s.Probes[f.k] += f.n
	}
	s.Strat[r.X.plan.Sched.Strat]++
}

// minimise shrinks the plan and the schedule of a failing run in place.
func minimise(rp *Replay, dec []byte, budget time.Duration) {
	if budget == 0 {
		budget = 20 * time.Second
	}
	t0 := time.Now()
	tries := 0
	try := func(p *Plan, d []byte, use bool) *Result {
		if time.Since(t0) > budget {
			return nil
		}
		tries++
		if tries%64 == 0 {
			runtime.GC()
		}
		b, _ := json.Marshal(p)
		var q Plan
		json.Unmarshal(b, &q)
		r := runPlan(&q, d, use)
		if r.Races > 0 && rp.Signature == "data-race" {
			r.Fails = append(r.Fails, Fail{"*", "data-race", "the race detector reported a data race"})
		}
		if matchSig(r.Fails, rp.Property, rp.Signature) {
			return r
		}
		return nil
	}
	cur := rp.Plan
	r := try(cur, dec, rp.Use)
	if r == nil {
		rp.Note = "not reproduced in the minimiser"
		return
	}
	clone := func(p *Plan) *Plan {
		b, _ := json.Marshal(p)
		var q Plan
		json.Unmarshal(b, &q)
		return &q
	}
	// attempt tries a smaller plan under the recorded schedule, then under a
	// run of freshly seeded schedules.
	attempt := func(q *Plan) bool {
		if nr := try(q, dec, true); nr != nil {
			cur, dec = q, nr.Dec
			return true
		}
		for k := 0; k < 40; k++ {
			q2 := clone(q)
			q2.Sched.Rng += uint64(k) * 7919
			if k%2 == 1 {
				q2.Sched.Strat = runtime.SimRandom
				q2.Sched.Thresh = 1 << uint(63-k%5)
			}
			if nr := try(q2, nil, false); nr != nil {
				cur, dec = q2, nr.Dec
				return true
			}
		}
		return false
	}
	for changed := true; changed && time.Since(t0) < budget; {
		changed = false
		for sz := len(cur.Ops) / 2; sz >= 1; sz /= 2 {
			for i := 0; i+sz <= len(cur.Ops); {
				q := clone(cur)
				q.Ops = append(q.Ops[:i:i], q.Ops[i+sz:]...)
				if attempt(q) {
					changed = true
				} else {
					i += sz
				}
			}
		}
		for i := 0; i < len(cur.Faults); {
			q := clone(cur)
			q.Faults = append(q.Faults[:i:i], q.Faults[i+1:]...)
			if attempt(q) {
				changed = true
			} else {
				i++
			}
		}
		for i := 0; i < len(cur.Stalls); {
			q := clone(cur)
			q.Stalls = append(q.Stalls[:i:i], q.Stalls[i+1:]...)
			if attempt(q) {
				changed = true
			} else {
				i++
			}
		}
		for i := range cur.Ops {
			if cur.Ops[i].D != 0 {
				q := clone(cur)
				q.Ops[i].D = 0
				if attempt(q) {
					changed = true
				}
			}
		}
		if cur.Sched.PoolP != 0 {
			q := clone(cur)
			q.Sched.PoolP = 0
			attempt(q)
		}
		if cur.Sched.NumCPU != 1 {
			q := clone(cur)
			q.Sched.NumCPU = 1
			attempt(q)
		}
	}
	// Schedule: turn decisions back into the default one by one.
	d := append([]byte(nil), dec...)
	for sz := len(d); sz >= 1; sz /= 2 {
		for i := 0; i < len(d); i += sz {
			e := append([]byte(nil), d...)
			nz := false
			for j := i; j < i+sz && j < len(e); j++ {
				if e[j] != 0 {
					nz = true
					e[j] = 0
				}
			}
			if !nz {
				continue
			}
			if nr := try(cur, e, true); nr != nil {
				d = nr.Dec
			}
		}
		if time.Since(t0) > budget {
			break
		}
	}
	for len(d) > 0 && d[len(d)-1] == 0 {
		d = d[:len(d)-1]
	}
	t0 = time.Now()
	fr := try(cur, d, true)
	if fr == nil {
		rp.Note = "minimised schedule not stable; kept the longer one"
		d = dec
		fr = try(cur, d, true)
		if fr == nil {
			return
		}
	}
	nz := 0
	for _, v := range fr.Dec {
		if v != 0 {
			nz++
		}
	}
	rp.Plan = cur
	rp.Use = true
	rp.Decisions = base64.StdEncoding.EncodeToString(d)
	rp.Digest = fmt.Sprintf("%016x", fr.Digest)
	for _, f := range fr.Fails {
		if f.Sig == rp.Signature {
			rp.Message = f.Msg
		}
	}
	rp.Note = fmt.Sprintf("minimised in %d runs: %d ops, %d faults, %d stalls, %d non-default scheduling decisions", tries, len(cur.Ops), len(cur.Faults), len(cur.Stalls), nz)
	rp.Trace = trace(fr.X)
}
