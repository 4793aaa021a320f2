// Command simdrive builds the simulation workers from the repository's current
// working tree and runs them: it is the check behind every property.
//
//	simdrive build
//	simdrive check -prop C01 [-tier quick|thorough] [-seed N]
//	simdrive replay FILE
package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var (
	verif = env("V", "/verif")
	repo  = env("VERIF_REPO", "/repo")
	gr    = env("GR", "/opt/veriftools/go1.27.3")
	cache = filepath.Join(verif, ".cache")
	work  = env("SIM_WORK", cache)
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simdrive: "+f+"\n", a...)
	os.Exit(2)
}

// ---- building ----

func run(dir string, name string, args ...string) error {
	c := exec.Command(name, args...)
	c.Dir = dir
	out, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%s %s: %v\n%s", filepath.Base(name), strings.Join(args, " "), err, out)
	}
	return nil
}

func build(race bool) {
	sim := filepath.Join(verif, "sim")
	ov := filepath.Join(work, "ov")
	os.MkdirAll(ov, 0o755)
	if err := run(sim, "go", "build", "-o", filepath.Join(work, "overlay"), "./cmd/overlay"); err != nil {
		fatal("%v", err)
	}
	if err := run(sim, filepath.Join(work, "overlay"), "-goroot", gr, "-repo", repo, "-gomod", filepath.Join(verif, "sim", "goji.go.mod"), "-out", ov); err != nil {
		fatal("%v", err)
	}
	var wg sync.WaitGroup
	var errs [2]error
	do := func(i int, args ...string) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = run(sim, "go", append([]string{"build", "-overlay", filepath.Join(ov, "overlay.json")}, args...)...)
		}()
	}
	do(0, "-o", filepath.Join(work, "worker"), "./worker")
	if race {
		do(1, "-race", "-o", filepath.Join(work, "worker.race"), "./worker")
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			fatal("%v", e)
		}
	}
}

func worker(race bool) string {
	if race {
		return filepath.Join(work, "worker.race")
	}
	return filepath.Join(work, "worker")
}

// ---- worker protocol ----

type Fail struct {
	Prop, Sig, Msg string
}

type Replay struct {
	Property  string          `json:"property"`
	Signature string          `json:"signature"`
	Message   string          `json:"message"`
	Race      bool            `json:"race"`
	Tier      string          `json:"tier"`
	Plan      json.RawMessage `json:"plan"`
	Decisions string          `json:"decisions"`
	Use       bool            `json:"use_decisions"`
	Digest    string          `json:"digest,omitempty"`
	Trace     []string        `json:"trace,omitempty"`
	Note      string          `json:"note,omitempty"`
	Crash     string          `json:"crash,omitempty"` // standard error of a run that ended the process
	Cold      bool            `json:"cold,omitempty"`  // run without the warm-up runs, which crash
}

type Summary struct {
	Runs       int               `json:"runs"`
	SimNS      int64             `json:"sim_ns"`
	Steps      uint64            `json:"steps"`
	Switches   uint64            `json:"switches"`
	Preempts   uint64            `json:"preempts"`
	Decided    uint64            `json:"decided"`
	Goroutines uint64            `json:"goroutines"`
	Faults     map[string]int    `json:"faults"`
	Probes     map[string]int    `json:"probes"`
	Leftover   int               `json:"leftover"`
	Races      int               `json:"races"`
	Sites      []uint32          `json:"sites,omitempty"`
	Strat      [3]int            `json:"strat"`
	WallNS     int64             `json:"wall_ns"`
	Samples    []json.RawMessage `json:"samples,omitempty"`
}

type Line struct {
	Type    string   `json:"type"`
	Replay  *Replay  `json:"replay,omitempty"`
	Summary *Summary `json:"summary,omitempty"`
	Index   int      `json:"index"`
}

const decCap = 1 << 17

type chunk struct {
	sh   share
	base uint64
	n    int
}

type outcome struct {
	c       chunk
	lines   []Line
	code    int
	stuck   bool
	killed  bool
	stderr  string
	seed    uint64 // seed in progress when it ended
	state   uint64
	dec     []byte
	elapsed time.Duration
}

var tmpn int
var tmpMu sync.Mutex

func tmp(suffix string) string {
	tmpMu.Lock()
	defer tmpMu.Unlock()
	tmpn++
	return filepath.Join(scratch, fmt.Sprintf("%d%s", tmpn, suffix))
}

var scratch string

func workerEnv() []string {
	e := append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=all", "TZ=America/New_York",
		"GORACE=exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0")
	if cold.Load() {
		e = append(e, "SIM_NOWARM=1")
	}
	return e
}

// cold: do without warm-up runs, because one of them ended its process.
var cold atomic.Bool

const stuckAfter = 60 * time.Second

// exec1 runs the worker under a watchdog.
func exec1(race bool, stop <-chan struct{}, args ...string) outcome {
	var o outcome
	pf := tmp(".progress")
	os.WriteFile(pf, make([]byte, 4096+decCap), 0o644)
	defer os.Remove(pf)
	args = append(args, "-progress", pf)
	c := exec.Command(worker(race), args...)
	c.Env = workerEnv()
	c.Dir = scratch
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var so bytes.Buffer
	se := &capped{max: 1 << 20}
	c.Stdout, c.Stderr = &so, se
	t0 := time.Now()
	runtime.LockOSThread()
	err := c.Start()
	if err != nil {
		fatal("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	var last uint64
	lastT := time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	f, _ := os.Open(pf)
	defer f.Close()
	read := func() (uint64, uint64) {
		var b [16]byte
		f.ReadAt(b[:], 0)
		return binary.LittleEndian.Uint64(b[:]), binary.LittleEndian.Uint64(b[8:])
	}
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-stop:
			o.killed = true
			c.Process.Kill()
			err = <-done
			break loop
		case <-tick.C:
			s, st := read()
			if k := s*4 + st; k != last {
				last = k
				lastT = time.Now()
			} else if time.Since(lastT) > stuckAfter {
				o.stuck = true
				c.Process.Kill()
				err = <-done
				break loop
			}
		}
	}
	runtime.UnlockOSThread()
	o.elapsed = time.Since(t0)
	o.seed, o.state = read()
	o.stderr = se.String()
	if err != nil {
		o.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			o.code = ee.ExitCode()
		}
		o.dec = make([]byte, decCap)
		f.ReadAt(o.dec, 4096)
		for len(o.dec) > 0 && o.dec[len(o.dec)-1] == 0 {
			o.dec = o.dec[:len(o.dec)-1]
		}
	}
	sc := bufio.NewScanner(&so)
	sc.Buffer(nil, 64<<20)
	for sc.Scan() {
		b := sc.Bytes()
		if len(b) == 0 || b[0] != '{' {
			continue
		}
		var l Line
		if json.Unmarshal(b, &l) == nil && l.Type != "" {
			o.lines = append(o.lines, l)
		} else {
			var rp Replay
			if json.Unmarshal(b, &rp) == nil && len(rp.Plan) > 0 {
				o.lines = append(o.lines, Line{Type: "replay", Replay: &rp})
			}
		}
	}
	return o
}

type capped struct {
	mu  sync.Mutex
	b   bytes.Buffer
	max int
}

func (c *capped) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.b.Len() < c.max {
		c.b.Write(b)
	}
	return len(b), nil
}
func (c *capped) String() string { return c.b.String() }

// ---- attributing crashes and races ----

var frameRe = regexp.MustCompile(`^([^\s(][^\s]*)\(`)

func isStd(fn string) bool {
	first := fn
	if i := strings.IndexByte(fn, '/'); i >= 0 {
		first = fn[:i]
		return !strings.Contains(first, ".")
	}
	return !strings.HasPrefix(fn, "main.")
}

// crashSig names a crash by its message and the goji function it happened in;
// ok is false if no goji code was involved.
func crashSig(stderr string, code int) (sig, msg string, ok bool) {
	lines := strings.Split(stderr, "\n")
	what := ""
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "SIM-LIVELOCK") {
			what = l
			start = i
			break
		}
	}
	if what == "" {
		return "", "", false
	}
	kind := "panic"
	if strings.HasPrefix(what, "fatal") {
		kind = "fatal"
	}
	if code == 97 {
		kind = "livelock"
		what = "livelock: a goroutine kept executing without the simulated program getting anywhere"
	}
	// The first goroutine listed after the message is the one that crashed.
	fn := ""
	seen := 0
	for _, l := range lines[start+1:] {
		if strings.HasPrefix(l, "goroutine ") {
			seen++
			if seen > 1 {
				break
			}
			continue
		}
		if m := frameRe.FindStringSubmatch(l); m != nil || strings.HasPrefix(l, "created by ") {
			f := strings.TrimPrefix(l, "created by ")
			if strings.Contains(f, "zenazn/goji") {
				f = f[strings.Index(f, "zenazn/goji"):]
				f = strings.TrimPrefix(f, "zenazn/goji/")
				if strings.Contains(f, "{...}") || strings.Contains(f, "(") {
					if i := strings.LastIndex(f, "("); i > 0 && !strings.HasPrefix(l, "created by") {
						f = f[:i]
					}
				}
				if i := strings.Index(f, " in goroutine"); i > 0 {
					f = f[:i]
				}
				fn = f
				break
			}
		}
	}
	if fn == "" {
		return "", what, false
	}
	return "crash:" + kind + ":" + fn, what + " (in " + fn + ")", true
}

// raceSig looks at race reports: a race counts if, on either side, the
// innermost function outside the standard library is goji's.
func raceSig(stderr string) (string, bool) {
	for _, blk := range strings.Split(stderr, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(blk, "\nGoroutine "); i > 0 {
			blk = blk[:i]
		}
		var fns []string
		in := false
		for _, l := range strings.Split(blk, "\n") {
			if strings.Contains(l, " by goroutine ") || strings.Contains(l, " by main goroutine") {
				in = true
				continue
			}
			t := strings.TrimSpace(l)
			if in && strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "   ") {
				f := t
				if i := strings.LastIndex(f, "("); i > 0 {
					f = f[:i]
				}
				if !isStd(f) {
					fns = append(fns, f)
					in = false
				}
			}
		}
		for _, f := range fns {
			if strings.Contains(f, "zenazn/goji") {
				return strings.Join(fns, " / "), true
			}
		}
	}
	return "", false
}

// ---- known findings ----

type finding struct {
	prop, sig, text string
}

func knownFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	re := regexp.MustCompile(`^known: property=(\S+) signature=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			out = append(out, finding{m[1], m[2], m[3]})
		}
	}
	return out
}

// ---- check ----

type agg struct {
	Summary
	hashes map[uint64]struct{}
	sites  map[uint32]bool
	perScn map[string]map[string]interface{}
	runs   map[string]int
	wall   map[string]int64
}

func (a *agg) add(c chunk, s *Summary) {
	a.Runs += s.Runs
	a.SimNS += s.SimNS
	a.Steps += s.Steps
	a.Switches += s.Switches
	a.Preempts += s.Preempts
	a.Decided += s.Decided
	a.Goroutines += s.Goroutines
	a.Leftover += s.Leftover
	for k, v := range s.Faults {
		a.Faults[k] += v
	}
	for k, v := range s.Probes {
		a.Probes[k] += v
	}
	for i := range s.Strat {
		a.Strat[i] += s.Strat[i]
	}
	for _, i := range s.Sites {
		a.sites[i] = true
	}
	if len(a.Samples) < 4 {
		a.Samples = append(a.Samples, s.Samples...)
	}
	k := c.sh.scn
	if c.sh.race {
		k += "+race"
	}
	a.runs[k] += s.Runs
	a.wall[k] += s.WallNS
}

type violation struct {
	rp   *Replay
	sig  string
	msg  string
	base chunk
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: simdrive build|check|replay ...")
	}
	scratch = filepath.Join(work, fmt.Sprintf("run.%d", os.Getpid()))
	os.MkdirAll(scratch, 0o755)
	code := 0
	switch os.Args[1] {
	case "build":
		build(true)
	case "check":
		code = check(os.Args[2:])
	case "replay":
		if len(os.Args) < 3 {
			fatal("usage: simdrive replay FILE")
		}
		code = replay(os.Args[2])
	default:
		fatal("unknown command %s", os.Args[1])
	}
	os.RemoveAll(scratch)
	os.Exit(code)
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", env("VERIF_TIER", "quick"), "")
	seedf := fs.String("seed", env("VERIF_SEED", "1"), "")
	scale := fs.Float64("scale", 1, "")
	nobuild := fs.Bool("nobuild", false, "")
	fs.Parse(args)
	seed, _ := strconv.ParseUint(*seedf, 10, 64)
	shares := props[*prop]
	if shares == nil {
		fatal("no property %q", *prop)
	}
	t0 := time.Now()
	race := false
	for _, s := range shares {
		race = race || s.race
	}
	if !*nobuild {
		build(race)
	}
	built := time.Since(t0)
	limit := 120 * time.Second
	mult := *scale
	if *tier == "thorough" {
		mult *= thoroughScale
		limit = 13 * time.Minute
	}
	known := map[string]bool{}
	var kf []finding
	for _, f := range knownFindings() {
		if f.prop == *prop {
			known[f.sig] = true
			kf = append(kf, f)
		}
	}
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)

	// Determinism: the same seeds in two processes, at different positions
	// in the process's life, have to be the same executions.
	det, detBad := 0, 0
	for _, s := range shares {
		n := 40
		a := digests(s, seedBase(seed, s), n)
		b := digests(s, seedBase(seed, s)+uint64(n/2), n/2)
		for k, v := range b {
			det++
			if a[k] != v {
				detBad++
				if os.Getenv("SIM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "not deterministic: %s seed %d: %s / %s\n", s.scn, k, a[k], v)
				}
			}
		}
	}

	// The search.
	var chunks []chunk
	for _, s := range shares {
		n := int(float64(s.runs) * mult)
		per := s.chunk
		if per == 0 {
			per = 500
		}
		// Small chunks first, so that shallow violations show quickly.
		for off := 0; off < n; off += per {
			m := per
			if off+m > n {
				m = n - off
			}
			chunks = append(chunks, chunk{s, seedBase(seed, s) + uint64(off), m})
		}
	}
	// Interleave the scenarios.
	chunks = interleave(chunks)
	ag := &agg{hashes: map[uint64]struct{}{}, sites: map[uint32]bool{}, runs: map[string]int{}, wall: map[string]int64{}}
	ag.Faults, ag.Probes = map[string]int{}, map[string]int{}
	var mu sync.Mutex
	var found []violation
	var internal []string
	knownSeen := map[string]int{}
	foreign := 0
	next := 0
	planned := total(chunks)
	deadline := time.Now().Add(limit)
	var wg sync.WaitGroup
	nw := 8
	if c := runtime.NumCPU(); c < nw {
		nw = c
	}
	var searched time.Duration
	violations := 0
	unrepro := 0
	// What cannot be reproduced does not count, and the search goes on.
search:
	tSearch := time.Now()
	stop := make(chan struct{})
	stopOnce := new(sync.Once)
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(chunks) || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				select {
				case <-stop:
					mu.Unlock()
					return
				default:
				}
				c := chunks[next]
				next++
				mu.Unlock()
				retry := 0
				for c.n > 0 {
					hf := tmp(".hash")
					o := exec1(c.sh.race, stop, "batch", "-scn", c.sh.scn, "-prop", *prop, "-tier", *tier,
						"-seed", fmt.Sprint(c.base), "-n", fmt.Sprint(c.n), "-hashes", hf, "-known", strings.Join(ks, ","))
					o.c = c
					hb, _ := os.ReadFile(hf)
					os.Remove(hf)
					if o.killed {
						mu.Lock()
						chunks = append(chunks, c)
						mu.Unlock()
						return
					}
					if (o.code != 0 || o.stuck) && o.state == 5 && !cold.Swap(true) {
						continue
					}
					if (o.code != 0 || o.stuck) && o.state == 5 && retry == 0 {
						// It was started before the switch.
						retry++
						continue
					}
					mu.Lock()
					for i := 0; i+8 <= len(hb); i += 8 {
						ag.hashes[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
					}
					ran := 0
					for _, l := range o.lines {
						if l.Type == "summary" {
							ag.add(c, l.Summary)
							ran = l.Summary.Runs
						}
						if l.Type == "fail" {
							sig := l.Replay.Signature
							if sig == "data-race" {
								if _, ok := raceSig(o.stderr); !ok {
									foreign++
									continue
								}
							}
							if known[sig] {
								knownSeen[sig]++
								continue
							}
							found = append(found, violation{l.Replay, sig, l.Replay.Message, c})
							stopOnce.Do(func() { close(stop) })
						}
					}
					if o.code != 0 {
						ran = int(o.seed-c.base) + 1
						ag.Runs += ran - 1
						sig, msg, ok := crashSig(o.stderr, o.code)
						switch {
						case o.stuck:
							sig, msg, ok = "stuck", fmt.Sprintf("the run did not finish within %s of real time", stuckAfter), true
						case o.state != 1:
							ok = false
						}
						if !ok {
							retry++
							if retry <= 1 {
								// Perhaps the machine ran out of memory.
								mu.Unlock()
								continue
							}
							internal = append(internal, fmt.Sprintf("worker %s seed %d ended with %d: %s", c.sh.scn, o.seed, o.code, tail(o.stderr)))
							stopOnce.Do(func() { close(stop) })
						} else if known[sig] {
							knownSeen[sig]++
						} else {
							rp := crashReplay(*prop, *tier, sig, msg, o)
							found = append(found, violation{rp, sig, msg, c})
							stopOnce.Do(func() { close(stop) })
						}
					}
					mu.Unlock()
					if ran == 0 {
						return
					}
					c.base += uint64(ran)
					c.n -= ran
				}
			}
		}()
	}
	wg.Wait()
	searched += time.Since(tSearch)

	// Confirm, minimise and report.
	sort.SliceStable(found, func(i, j int) bool { return found[i].sig < found[j].sig })
	seen := map[string]int{}
	for _, v := range found {
		if seen[v.sig] >= 3 || violations >= 2 {
			continue
		}
		seen[v.sig]++
		rp := confirm(v)
		if rp == nil {
			unrepro++
			fmt.Printf("NOT-REPRODUCED property=%s signature=%s %s\n", *prop, v.sig, v.msg)
			continue
		}
		violations++
		seen[v.sig] = 3
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0o755)
		fn := filepath.Join(dir, *prop+"-"+clean(v.sig)+".json")
		b, _ := json.MarshalIndent(rp, "", " ")
		os.WriteFile(fn, b, 0o644)
		fmt.Printf("%s: %s\n", v.sig, rp.Message)
		if rp.Note != "" {
			fmt.Println(rp.Note)
		}
		for i, l := range rp.Trace {
			if i >= 60 {
				fmt.Println("  ...")
				break
			}
			fmt.Println("  " + l)
		}
		fmt.Printf("replay with: /verif/bin/replay %s\n", fn)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, fn)
	}
	again := len(found) > 0 && violations == 0 && unrepro < 10 && len(internal) == 0 && time.Now().Before(deadline)
	found = nil
	if again {
		goto search
	}
	for _, f := range kf {
		fmt.Printf("KNOWN-FINDING: property=%s %s [signature %s, seen %d times in this run]\n", *prop, f.text, f.sig, knownSeen[f.sig])
	}
	if foreign > 0 {
		fmt.Fprintf(os.Stderr, "simdrive: %d race reports concern the harness only\n", foreign)
	}
	evidence(*prop, *tier, seed, ag, evInfo{det: det, detBad: detBad, foreign: foreign, unrepro: unrepro, violations: violations,
		built: built, searched: searched, wall: time.Since(t0), knownSeen: knownSeen, shares: shares, planned: planned})
	for _, s := range internal {
		fmt.Fprintln(os.Stderr, "simdrive: internal:", s)
	}
	if violations > 0 {
		return 1
	}
	if len(internal) > 0 || unrepro > 0 {
		return 2
	}
	fmt.Printf("OK property=%s tier=%s: %d simulated runs, %d distinct non-trivial executions, %.1fs\n", *prop, *tier, ag.Runs, len(ag.hashes), time.Since(t0).Seconds())
	return 0
}

func total(cs []chunk) int {
	n := 0
	for _, c := range cs {
		n += c.n
	}
	return n
}

func seedBase(seed uint64, s share) uint64 {
	h := uint64(14695981039346656037)
	for _, b := range []byte(s.scn) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	b := seed<<32 + (h&0xff)<<22
	if s.race {
		b += 1 << 31
	}
	return b
}

func interleave(cs []chunk) []chunk {
	by := map[string][]chunk{}
	var ks []string
	for _, c := range cs {
		k := fmt.Sprint(c.sh.scn, c.sh.race)
		if by[k] == nil {
			ks = append(ks, k)
		}
		by[k] = append(by[k], c)
	}
	var out []chunk
	pos := map[string]float64{}
	for len(out) < len(cs) {
		// Pick the list that is least far along.
		best := ""
		for _, k := range ks {
			if len(by[k]) == 0 {
				continue
			}
			if best == "" || pos[k] < pos[best] {
				best = k
			}
		}
		n := 0
		for _, c := range cs {
			if fmt.Sprint(c.sh.scn, c.sh.race) == best {
				n++
			}
		}
		out = append(out, by[best][0])
		by[best] = by[best][1:]
		pos[best] += 1 / float64(n)
	}
	return out
}

func digests(s share, base uint64, n int) map[uint64]string {
	o := exec1raw(s.race, "digest", "-scn", s.scn, "-seed", fmt.Sprint(base), "-n", fmt.Sprint(n))
	m := map[uint64]string{}
	for _, l := range strings.Split(o, "\n") {
		f := strings.SplitN(l, " ", 2)
		if len(f) == 2 {
			k, err := strconv.ParseUint(f[0], 10, 64)
			if err == nil {
				m[k] = f[1]
			}
		}
	}
	return m
}

func exec1raw(race bool, args ...string) string {
	c := exec.Command(worker(race), args...)
	c.Env = workerEnv()
	c.Dir = scratch
	var so bytes.Buffer
	c.Stdout = &so
	c.Stderr = io.Discard
	c.Start()
	t := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
	c.Wait()
	t.Stop()
	return so.String()
}

func tail(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '.' {
			return r
		}
		return '_'
	}, s)
}

func crashReplay(prop, tier, sig, msg string, o outcome) *Replay {
	plan := exec1raw(o.c.sh.race, "plan", "-scn", o.c.sh.scn, "-seed", fmt.Sprint(o.seed), "-tier", tier)
	return &Replay{Property: prop, Signature: sig, Message: msg, Race: o.c.sh.race, Tier: tier, Plan: json.RawMessage(strings.TrimSpace(plan)),
		Use: false, Crash: tail(o.stderr), Cold: cold.Load()}
}

func isCrash(sig string) bool { return strings.HasPrefix(sig, "crash:") || sig == "stuck" }

// one runs a replay in a fresh process and returns it with what it produced,
// or nil if it does not show the signature.
func one(rp *Replay) *Replay {
	fn := tmp(".json")
	b, _ := json.Marshal(rp)
	os.WriteFile(fn, b, 0o644)
	defer os.Remove(fn)
	o := exec1(rp.Race, nil, "one", "-file", fn)
	if isCrash(rp.Signature) {
		if o.code == 0 {
			return nil
		}
		out := *rp
		if o.stuck {
			if rp.Signature != "stuck" {
				return nil
			}
			return &out
		}
		sig, msg, ok := crashSig(o.stderr, o.code)
		if !ok || sig != rp.Signature {
			return nil
		}
		out.Message = msg
		out.Crash = tail(o.stderr)
		if !out.Use {
			out.Use = true
			out.Decisions = base64.StdEncoding.EncodeToString(o.dec)
		}
		return &out
	}
	for _, l := range o.lines {
		if l.Type == "replay" && l.Replay.Signature == rp.Signature {
			if rp.Signature == "data-race" {
				s, ok := raceSig(o.stderr)
				if !ok {
					return nil
				}
				l.Replay.Message = "data race: " + s
				l.Replay.Crash = tail(o.stderr)
			}
			return l.Replay
		}
	}
	return nil
}

// confirm reproduces a violation in a fresh process, minimises it, and
// reproduces the result twice.
func confirm(v violation) *Replay {
	v.rp.Cold = cold.Load()
	base := one(v.rp)
	if base == nil {
		// The recorded schedule failed; try the seed itself.
		c := *v.rp
		c.Use = false
		if base = one(&c); base == nil {
			return nil
		}
	}
	var min *Replay
	switch {
	case v.sig == "stuck":
		return base
	case isCrash(v.sig):
		min = minCrash(base, 20*time.Second)
	default:
		fn := tmp(".json")
		b, _ := json.Marshal(base)
		os.WriteFile(fn, b, 0o644)
		o := exec1(base.Race, nil, "min", "-file", fn, "-budget", "20s")
		os.Remove(fn)
		for _, l := range o.lines {
			if l.Type == "replay" {
				min = l.Replay
			}
		}
	}
	if min != nil {
		a := one(min)
		b := one(min)
		if a != nil && b != nil && a.Digest == b.Digest {
			a.Decisions = min.Decisions
			a.Use = min.Use
			a.Note = min.Note
			a.Property = v.rp.Property
			a.Cold = v.rp.Cold
			return a
		}
	}
	base.Note = "not minimised"
	base.Cold = v.rp.Cold
	return base
}

// minCrash shrinks a run that ends the process, one process per attempt.
func minCrash(rp *Replay, budget time.Duration) *Replay {
	t0 := time.Now()
	cur := rp
	tries := 0
	try := func(mod func(p map[string]interface{}) bool) bool {
		if time.Since(t0) > budget {
			return false
		}
		var p map[string]interface{}
		d := json.NewDecoder(bytes.NewReader(cur.Plan))
		d.UseNumber()
		d.Decode(&p)
		if !mod(p) {
			return false
		}
		b, _ := json.Marshal(p)
		for k := 0; k < 4; k++ {
			c := *cur
			c.Plan = b
			if k > 0 {
				if time.Since(t0) > budget {
					return false
				}
				sch := p["sched"].(map[string]interface{})
				sch["rng"] = json.Number(fmt.Sprint(uint64(k) * 7919))
				sch["strat"] = json.Number(fmt.Sprint(1))
				sch["thresh"] = json.Number(fmt.Sprint(uint64(1) << uint(63-k)))
				c.Plan, _ = json.Marshal(p)
				c.Use = false
				c.Decisions = ""
			}
			tries++
			if r := one(&c); r != nil {
				cur = r
				return true
			}
		}
		return false
	}
	for changed := true; changed && time.Since(t0) < budget; {
		changed = false
		for _, key := range []string{"ops", "faults", "stalls"} {
			n := func() int {
				var p map[string]interface{}
				json.Unmarshal(cur.Plan, &p)
				l, _ := p[key].([]interface{})
				return len(l)
			}
			for sz := n(); sz >= 1; sz /= 2 {
				for i := 0; i+sz <= n(); {
					ok := try(func(p map[string]interface{}) bool {
						l, _ := p[key].([]interface{})
						p[key] = append(append([]interface{}{}, l[:i]...), l[i+sz:]...)
						return true
					})
					if ok {
						changed = true
					} else {
						i += sz
					}
					if time.Since(t0) > budget {
						break
					}
				}
			}
		}
	}
	d, _ := base64.StdEncoding.DecodeString(cur.Decisions)
	for sz := len(d); sz >= 1 && time.Since(t0) < budget; sz /= 2 {
		for i := 0; i < len(d) && time.Since(t0) < budget; i += sz {
			e := append([]byte(nil), d...)
			nz := false
			for j := i; j < i+sz && j < len(e); j++ {
				nz = nz || e[j] != 0
				e[j] = 0
			}
			if !nz {
				continue
			}
			c := *cur
			c.Use = true
			c.Decisions = base64.StdEncoding.EncodeToString(e)
			tries++
			if r := one(&c); r != nil {
				d = e
				cur = r
			}
		}
	}
	nz := 0
	for _, b := range d {
		if b != 0 {
			nz++
		}
	}
	cur.Note = fmt.Sprintf("minimised in %d processes; %d non-default scheduling decisions", tries, nz)
	return cur
}

func replay(fn string) int {
	b, err := os.ReadFile(fn)
	if err != nil {
		fatal("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatal("%v", err)
	}
	build(rp.Race)
	cold.Store(rp.Cold)
	r := one(&rp)
	if r == nil {
		fmt.Println("the replay does not show the violation on the current tree")
		return 0
	}
	for _, l := range r.Trace {
		fmt.Println("  " + l)
	}
	if r.Crash != "" {
		fmt.Println(r.Crash)
	}
	fmt.Printf("%s: %s\n", r.Signature, r.Message)
	if rp.Digest != "" && r.Digest != rp.Digest {
		fmt.Printf("(the execution differs from the recorded one: digest %s, recorded %s)\n", r.Digest, rp.Digest)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, fn)
	return 1
}

// ---- evidence ----

type evInfo struct {
	det, detBad, foreign, unrepro, violations, planned int
	built, searched, wall                              time.Duration
	knownSeen                                          map[string]int
	shares                                             []share
}

func evidence(prop, tier string, seed uint64, a *agg, i evInfo) {
	siteTotal, siteHit := map[string]int{}, map[string]int{}
	if b, err := os.ReadFile(filepath.Join(work, "ov", "sites.txt")); err == nil {
		for n, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			d := filepath.Dir(strings.SplitN(l, ":", 2)[0])
			siteTotal[d]++
			if a.sites[uint32(n)] {
				siteHit[d]++
			}
		}
	}
	sites := map[string]string{}
	for d, n := range siteTotal {
		sites[d] = fmt.Sprintf("%d of %d", siteHit[d], n)
	}
	if a.Samples == nil {
		a.Samples = []json.RawMessage{}
	}
	if len(a.Samples) > 4 {
		a.Samples = a.Samples[:4]
	}
	hours := i.searched.Hours()
	rate := 0.0
	if hours > 0 {
		rate = float64(a.Runs) / hours
	}
	cov := map[string]interface{}{
		"evaluations":         a.Runs,
		"distinct_nontrivial": len(a.hashes),
		"rule": "One evaluation is one simulated run of a scenario, generated from its seed: operations, faults, stalls and a scheduling strategy. " +
			"It counts as non-trivial if the scheduler preempted a goroutine at a point where it could have gone on, or at least one fault or stall took effect; " +
			"two runs are distinct if the hashes of their scheduling decisions (which goroutine ran next, at which statement) and of their event logs differ.",
		"samples":                   a.Samples,
		"planned_runs":              i.planned,
		"runs_by_scenario":          a.runs,
		"seeds_per_hour":            int64(rate),
		"simulated_seconds":         float64(a.SimNS) / 1e9,
		"faults_injected":           a.Faults,
		"rare_states_reached":       a.Probes,
		"statements_executed":       a.Steps,
		"scheduling_decisions":      a.Decided,
		"goroutine_switches":        a.Switches,
		"preemptions":               a.Preempts,
		"goroutines":                a.Goroutines,
		"runs_by_strategy":          map[string]int{"fifo": a.Strat[0], "random": a.Strat[1], "pct": a.Strat[2]},
		"statement_sites_reached":   sites,
		"determinism_sample":        map[string]int{"executions_compared_across_processes": i.det, "differing": i.detBad},
		"unattributed_race_reports": i.foreign,
		"unreproduced_failures":     i.unrepro,
		"known_findings_seen":       i.knownSeen,
		"real_components":           realOf(i.shares),
		"simulated_components":      stubOf(i.shares),
		"build_s":                   i.built.Seconds(),
		"search_s":                  i.searched.Seconds(),
		"runs_left_with_stuck_goroutines_after_the_end": a.Leftover,
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s": i.wall.Seconds(), "violations": i.violations,
		"assumptions": []string{
			"preemption happens between statements of goji (and of net/http's server), at operations on the simulated network, and where a goroutine blocks: not inside an expression, except that compound assignments and calls of sync/atomic are split",
			"weak memory effects are not simulated; the runs under the race detector report unsynchronised accesses instead",
			"a run that panics, deadlocks, livelocks or races in goji's code counts against whichever property is being checked",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}
