package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"os/signal"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/zenazn/goji/graceful"
	"github.com/zenazn/goji/graceful/listener"
)

// Scenario "grc": package graceful with real net/http servers on simulated
// sockets, simulated clients, and shutdowns by call and by signal.

const (
	rqQuick = iota
	rqSlow
	rqPost
	rqStream
	rqHijack
	rqPanic
	rqClose
	rqPartial
	rqBig
	rqHead
	rqKinds
)

// How a server is served.
const (
	howServe        = iota // graceful.Serve
	howServer              // Server.Serve
	howWrap                // http.Server.Serve on a graceful.WrapListener
	howPre                 // the same, but the listener had been wrapped before
	howListen              // graceful.ListenAndServe
	howServerListen        // Server.ListenAndServe
	howTLS                 // graceful.ListenAndServeTLS
	howServerTLS           // Server.ListenAndServeTLS
)

// own: a Server of the caller's own, with settings and a ConnState callback.
func (sv *grcServer) own() bool {
	return sv.how == howServer || sv.how == howServerListen || sv.how == howServerTLS
}

// listens: the call does its own listening.
func (sv *grcServer) listens() bool { return sv.how >= howListen }

func (sv *grcServer) tls() bool { return sv.tlsOn || sv.how == howTLS || sv.how == howServerTLS }

type grcReq struct {
	id      int // index in the run
	c       int
	kind    int
	ms      int
	split   int // the request is sent in two pieces, cut here
	gap     int64
	piped   bool // sent before the previous response was complete
	sole    bool
	start   int // offset in the client's stream
	end     int
	sent    bool // completely sent
	readAt  int64
	readSeq uint64

	enter, exit uint64
	enterN      int
	enterT      int64
	exitT       int64
	respOK      bool
	respErr     string
	resolved    uint64
	closeT      int64
	handlerErr  string
}

type grcConn struct {
	cs         *CS
	srv        int
	gone       bool // the client hung up or reset
	reqs       []*grcReq
	sentN      int
	hijacking  bool // Hijack was called: the connection may have left the listener's care
	hijack     bool // Hijack returned
	hijackT    uint64
	hijDone    bool // its handler closed it
	hijDead    bool // closed by force before it was hijacked
	cl         *Client
	tls        *tls.Conn
	tlsSeen    int // callbacks of the TLSConfig that were called
	br         *bufio.Reader
	states     []http.ConnState
	echoed     int
	active     int    // handlers running
	entered    uint64 // the last handler was entered
	refused    bool
	partial    bool
	closedBy   string
	closeT     int64
	forced     bool
	readCalled bool
	acceptedT  int64
}

type grcServer struct {
	ln        *SListener
	how       int
	addr      string // what to listen on
	listened  bool
	listenErr bool // listening fails
	badCert   bool // there is no certificate
	tlsOn     bool
	started   bool
	serveInv  uint64
	returned  bool
	retSeq    uint64
	retT      int64
	err       error
	extClose  uint64
}

type hookCall struct {
	n     int
	g     uint32
	begin uint64
	end   uint64
	sig   os.Signal
}

type grcState struct {
	x     *X
	conns []*grcConn
	reqs  []*grcReq
	srvs  []*grcServer
	wg    sync.WaitGroup

	npre, npost   int
	regBegin      [2][]uint64 // when each hook was registered: post, pre
	regEnd        [2][]uint64
	pre, post     []hookCall
	tol           int64 // how long anything may be held up by stalls, hooks and slow closes
	forceAfterPre []int64
	tol0          int64 // the same, hooks aside
	preDoneT      int64 // when the last pre hook ended, plus one

	firstTrigger uint64
	triggers     []trigger
	forceInv     uint64 // ShutdownNow called
	forceInvT    int64
	sigT         []int64
	window, tout int64
	windows      []setting // what they were and became
	touts        []setting
	varies       bool // they change on the way
	shutRet      uint64
	shutRetT     int64
	waitRet      uint64
	shutErrs     int
	trigWG       sync.WaitGroup
	shared       *graceful.Server
	trigRet      int
	goji         bool
	boot         *boot
	ended        bool
	died         bool
	sigOff       bool // ResetSignals has returned, and nothing was added since
	sigEver      bool // ResetSignals was ever called
	handlers     int
}

type trigger struct {
	seq uint64
	sig os.Signal
	t   int64
}

var grcDelays = []time.Duration{0, 0, 0, time.Millisecond, 2 * time.Millisecond, 5 * time.Millisecond, 20 * time.Millisecond}

func grcGen(r *Rand, p *Plan, tier string) {
	k := p.Knobs
	k["servers"] = r.pick(1, 1, 1, 2)
	nc, reqs, trigs := r.rng(1, 4), 3, []int{1, 1, 1, 2, 2, 3}
	if bigger(r, tier) {
		k["servers"] = r.rng(1, 3)
		nc, reqs, trigs = r.rng(3, 12), 8, []int{1, 2, 3, 4, 6}
		if r.chance(1, 8) {
			nc, reqs = r.rng(20, 45), 2
		}
	}
	k["conns"] = nc
	k["how"] = r.pick(howServe, howServe, howServer, howServer, howServer, howWrap, howPre, howListen, howServerListen)
	if r.chance(1, 32) {
		k["how"] = r.pick(howTLS, howServerTLS)
	}
	k["tcp"] = r.pick(0, 1)
	k["addr"] = r.pick(0, 1, 1)
	k["pre"] = r.rng(0, 2)
	k["post"] = r.rng(0, 2)
	if r.chance(1, 16) {
		k["pre"], k["post"] = r.pick(0, 3, 9, 20), r.pick(0, 3, 9, 20)
	}
	k["predur"] = r.pick(0, 0, 0, 1, 5, 60)
	k["postdur"] = r.pick(0, 0, 0, 1, 5)
	k["timeout"] = r.pick(0, 0, 0, 10, 100)
	k["window"] = r.pick(0, 3, 30, 2000)
	k["callback"] = r.pick(0, 0, 0, 1)
	k["hookreg"] = r.pick(0, 0, 0, 0, 2, 3)
	k["share"] = r.pick(0, 1)
	k["preset"] = r.pick(0, 0, 0, 0, 0, 1, 2, 4, 7)
	k["settings"] = r.pick(0, 0, 1)
	k["readto"] = r.pick(0, 0, 0, 0, 50)
	k["tlscfg"] = r.n(tlsCfgs)
	k["tlsmax"] = r.pick(0, 0, 0, 0, 1, 2, 3)
	k["tlsfiles"] = r.pick(0, 0, 1)
	add := func(o Op) { p.Ops = append(p.Ops, o) }
	focus := r.n(6)
	for c := 0; c < nc; c++ {
		w := 100 + c
		add(Op{W: w, K: "dial", C: c, A: r.n(k["servers"]), D: r.dur(grcDelays...)})
		n := r.rng(0, reqs)
		if focus == 0 {
			n = r.rng(1, 2)
		}
		for i := 0; i < n; i++ {
			kind := r.pick(rqQuick, rqQuick, rqSlow, rqSlow, rqPost, rqStream, rqClose, rqBig, rqHead)
			if r.chance(1, 8) {
				kind = r.pick(rqHijack, rqPanic, rqPartial)
			}
			if focus == 0 && r.chance(2, 3) {
				kind = r.pick(rqSlow, rqStream)
			}
			if focus == 1 && r.chance(1, 2) {
				kind = rqHijack
			}
			o := Op{W: w, K: "req", C: c, A: kind, B: r.pick(0, 1, 3, 10, 30, 120), D: r.dur(grcDelays...)}
			if r.chance(1, 4) {
				o.S = strconv.Itoa(r.rng(1, 40)) + "," + strconv.Itoa(r.pick(0, 1, 3, 8, 6000))
			}
			if r.chance(1, 8) {
				o.K = "pipe"
			}
			add(o)
			if kind == rqPartial {
				break
			}
		}
		if r.chance(1, 5) {
			add(Op{W: w, K: r.picks("hup", "abort"), C: c, D: r.dur(grcDelays...)})
		}
	}
	// Servers that start late.
	for i := 0; i < k["servers"]; i++ {
		d := int64(0)
		if r.chance(1, 6) {
			d = r.dur(time.Millisecond, 5*time.Millisecond, 20*time.Millisecond)
		}
		add(Op{W: 50 + i, K: "serve", C: i, D: d})
	}
	if r.chance(1, 10) {
		add(Op{W: 60, K: "lnclose", C: r.n(k["servers"]), D: r.dur(grcDelays...)})
	}
	// Triggers.
	nt := r.pick(trigs...)
	for i := 0; i < nt; i++ {
		w := 300 + i
		switch {
		case focus == 2 || r.chance(1, 2):
			add(Op{W: w, K: "signal", A: r.pick(0, 0, 0, 1), D: r.dur(append(grcDelays, 5*time.Millisecond, 40*time.Millisecond)...)})
			if r.chance(1, 3) {
				add(Op{W: w, K: "signal", A: r.pick(0, 0, 1), D: r.dur(0, time.Millisecond, 10*time.Millisecond, 100*time.Millisecond, time.Second, 5*time.Second)})
			}
		case r.chance(1, 6):
			add(Op{W: w, K: "now", D: r.dur(append(grcDelays, 5*time.Millisecond, 40*time.Millisecond)...)})
		default:
			add(Op{W: w, K: "shutdown", D: r.dur(append(grcDelays, 5*time.Millisecond, 40*time.Millisecond)...)})
		}
	}
	if focus == 2 && r.chance(1, 3) {
		// A series of signals around the window, with a long request.
		k["window"] = r.pick(3, 30, 100)
		k["timeout"] = r.pick(0, 0, 0, 500)
		add(Op{W: 100, K: "req", A: r.pick(rqSlow, rqStream), B: r.pick(300, 1000)})
		w := int64(k["window"]) * int64(time.Millisecond)
		for i, m := 0, r.rng(2, 5); i < m; i++ {
			add(Op{W: 319, K: "signal", A: r.pick(0, 0, 0, 1), D: r.dur(time.Duration(w/3), time.Duration(w/2), time.Duration(w+w/3), time.Duration(w*2), time.Duration(w*4))})
		}
	}
	if r.chance(1, 10) || focus == 2 && r.chance(1, 3) {
		// The settings change on the way.
		for i, m := 0, r.rng(1, 3); i < m; i++ {
			add(Op{W: 330, K: r.picks("timeout", "timeout", "window"), A: r.pick(0, 10, 30, 100, 500, 3000, -5), D: r.dur(append(grcDelays, 5*time.Millisecond, 40*time.Millisecond)...)})
		}
	}
	if r.chance(1, 12) {
		k["resets"] = 1
		add(Op{W: 310, K: "resetsig", A: r.pick(0, 1), D: r.dur(grcDelays...)})
	}
	for i, m := 0, r.n(3); i < m; i++ {
		add(Op{W: 320 + i, K: "wait", D: r.dur(grcDelays...)})
	}
	for c := 0; c < nc; c++ {
		if r.chance(1, 6) {
			p.Faults = append(p.Faults, Fault{K: "short-read", C: c, A: r.pick(1, 2, 7)})
		}
		if r.chance(1, 10) {
			p.Faults = append(p.Faults, Fault{K: "close-error", C: c})
		}
		if r.chance(1, 10) {
			p.Faults = append(p.Faults, Fault{K: "slow-close", C: c, A: r.pick(1, 3, 50)})
		}
		if r.chance(1, 8) {
			p.Faults = append(p.Faults, Fault{K: "read-delay", C: c, A: r.pick(1, 3)})
		}
		if r.chance(1, 12) {
			p.Faults = append(p.Faults, Fault{K: "write-error", C: c, A: r.pick(1, 100, 5000)})
		}
		if r.chance(1, 8) {
			p.Faults = append(p.Faults, Fault{K: "slow-reader", C: c, A: r.pick(16, 512)})
		}
	}
	if r.chance(1, 6) {
		p.Faults = append(p.Faults, Fault{K: "accept-temp", C: r.n(3), A: r.n(k["servers"])})
	}
	if r.chance(1, 16) {
		p.Faults = append(p.Faults, Fault{K: "accept-perm", C: r.n(3), A: r.n(k["servers"]), B: r.n(len(permErrs))})
	}
	if r.chance(1, 16) {
		p.Faults = append(p.Faults, Fault{K: "accept-perm-closing", A: r.n(k["servers"]), B: r.n(len(permErrs))})
	}
	if r.chance(1, 16) {
		p.Faults = append(p.Faults, Fault{K: "slow-lclose", A: r.n(k["servers"]), B: r.pick(1, 3, 50)})
	}
	if r.chance(1, 16) {
		p.Faults = append(p.Faults, Fault{K: r.picks("listen-error", "listen-error", "bad-cert"), A: r.n(k["servers"])})
	}
	if r.chance(1, 5) {
		p.Faults = append(p.Faults, Fault{K: "slow-accept", C: r.n(nc), A: r.n(k["servers"]), B: r.pick(1, 3, 10)})
	}
	if r.chance(1, 3) {
		p.Stalls = r.stalls(2, 800, time.Millisecond, 4*time.Millisecond, 15*time.Millisecond)
	}
}

var sigs = []os.Signal{os.Interrupt, syscall.SIGTERM, syscall.SIGUSR2}

func grcSetup(x *X, s *grcState) {
	p := x.plan
	for i := 0; i < p.knob("servers"); i++ {
		sv := &grcServer{ln: newSListener(x, "server:"+itoa(80+i)), how: p.knob("how")}
		i := i
		if sv.listens() {
			sv.ln.unbound = true
			sv.addr = sv.ln.name
			if p.knob("addr") == 0 && p.knob("servers") == 1 {
				// The default.
				sv.addr = ""
			}
		}
		sv.ln.onAccept = func(cs *CS) {
			s.conns[cs.id].acceptedT = x.Now()
			s.bootAccept()
		}
		sv.ln.onClose = func() { s.lnClosed(i) }
		s.srvs = append(s.srvs, sv)
	}
	for i := 0; i < p.knob("conns"); i++ {
		c := &grcConn{cs: newCS(x, i)}
		c.cs.onClose = func() { s.onClose(c) }
		c.cs.onRead = func(n int, err error) { s.onRead(c, n, err) }
		c.cl = &Client{cs: c.cs, timeout: time.Hour}
		c.br = bufio.NewReader(c.cl)
		s.conns = append(s.conns, c)
	}
	applyConnFaults(p, func(i int) *CS {
		if i < len(s.conns) {
			return s.conns[i].cs
		}
		return nil
	})
	if p.knob("how") == howTLS || p.knob("how") == howServerTLS || s.goji && p.knob("entry") == entryServeTLS {
		for _, c := range s.conns {
			// The handshake would multiply these.
			c.cs.readDelay, c.cs.outCap = 0, 0
		}
	}
	net.SimListen = s.listen
	s.tol = int64(time.Millisecond)
	for _, f := range p.Faults {
		switch f.K {
		case "listen-error", "bad-cert":
			if f.A < len(s.srvs) && s.srvs[f.A].listens() {
				if f.K == "listen-error" {
					s.srvs[f.A].listenErr = true
				} else if s.srvs[f.A].tls() {
					s.srvs[f.A].badCert = true
				}
			}
		case "accept-temp", "accept-perm", "accept-perm-closing", "slow-lclose", "slow-accept":
			if f.A >= len(s.srvs) {
				continue
			}
			ln := s.srvs[f.A].ln
			switch f.K {
			case "accept-temp":
				ln.errAt[f.C] = 1
				s.tol += int64(2 * time.Second)
			case "accept-perm":
				ln.errAt[f.C] = 2
				ln.permKind = f.B
			case "accept-perm-closing":
				ln.permClosing = true
				ln.closeDelay += int64(time.Millisecond)
				s.tol += 4 * int64(time.Millisecond)
				ln.permKind = f.B
			case "slow-lclose":
				ln.closeDelay += int64(f.B) * int64(time.Millisecond)
				// Both shutdowns may close all listeners before they
				// drain the first.
				s.tol += 4 * int64(f.B) * int64(time.Millisecond)
			default:
				ln.delayAt[f.C] = int64(f.B) * int64(time.Millisecond)
				s.tol += int64(f.B) * int64(time.Millisecond)
			}
		case "slow-close", "read-delay":
			s.tol += int64(f.A) * int64(time.Millisecond) * 4
		}
	}
	for _, st := range p.Stalls {
		s.tol += st.For
	}
	s.npre, s.npost = p.knob("pre"), p.knob("post")
	s.tol0 = s.tol
	s.tol += int64(s.npre*p.knob("predur")+s.npost*p.knob("postdur")) * int64(time.Millisecond)
	s.window = int64(p.knob("window")) * int64(time.Millisecond)
	s.tout = int64(p.knob("timeout")) * int64(time.Millisecond)
	s.windows = []setting{{v: s.window, end: 1 << 62}}
	s.touts = []setting{{v: s.tout, end: 1 << 62}}
	for _, o := range p.Ops {
		s.varies = s.varies || o.K == "timeout" || o.K == "window"
	}
}

// A setting was in force for some or all of the time between inv, when it was
// asked for, and end, when the next one had been made.
type setting struct{ v, inv, end int64 }

// between returns the values a setting may have had between two moments.
func between(ss []setting, a, b int64) []int64 {
	var out []int64
	for _, t := range ss {
		if t.inv <= b && t.end >= a {
			out = append(out, t.v)
		}
	}
	return out
}

// certain returns the value a setting had all the time between two moments, or
// -1.
func certain(ss []setting, a, b int64) int64 {
	if vs := between(ss, a, b); len(vs) == 1 {
		return vs[0]
	}
	return -1
}

// change makes a new setting. Only one actor does.
func (s *grcState) change(o Op) {
	f, l := graceful.Timeout, &s.touts
	if o.K == "window" {
		f, l = graceful.DoubleKickWindow, &s.windows
	}
	d := time.Duration(o.A) * time.Millisecond
	if d >= 0 {
		s.changeBegin(l, int64(d))
	}
	f(d)
	if d >= 0 {
		s.changeEnd(l)
	}
}

//go:norace
func (s *grcState) changeBegin(l *[]setting, v int64) {
	s.x.Ev("setting", v, 0, 0)
	*l = append(*l, setting{v, s.x.Now(), 1 << 62})
}

//go:norace
func (s *grcState) changeEnd(l *[]setting) {
	s.x.Ev("setting-ret", 0, 0, 0)
	(*l)[len(*l)-2].end = s.x.Now()
}

// settings sets the double-kick window and the timeout: the last setting
// counts, and negative ones do not.
func (s *grcState) settings(window bool) {
	how := s.x.plan.knob("preset")
	set := func(w, t time.Duration) {
		if window {
			graceful.DoubleKickWindow(w)
		}
		graceful.Timeout(t)
	}
	if how&1 != 0 {
		set(-1, -time.Minute)
	}
	if how&2 != 0 {
		set(7*time.Second, time.Nanosecond)
	}
	set(time.Duration(s.window), time.Duration(s.tout))
	if how&4 != 0 {
		set(-time.Hour, -1)
	}
}

func grcRun(x *X) {
	s := &grcState{x: x}
	s.trigWG.Add(1)
	x.state = s
	grcSetup(x, s)
	s.settings(true)
	graceful.HandleSignals()
	graceful.AddSignal(syscall.SIGTERM)
	s.hooks()
	if x.plan.knob("share") == 1 && !s.srvs[0].listens() {
		s.shared = s.newServer(http.HandlerFunc(s.handle), func(nc net.Conn, st http.ConnState) { s.connState(nc, st) })
	}
	s.play()
}

// hooks registers all of the hooks, one after the other or, with the knob
// "hookreg", from that many goroutines at the same time.
func (s *grcState) hooks() {
	for k, n := range []int{s.npost, s.npre} {
		s.regBegin[k], s.regEnd[k] = make([]uint64, n), make([]uint64, n)
	}
	n := s.x.plan.knob("hookreg")
	if n <= 1 {
		s.regHooks(0, 1)
		return
	}
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.regHooks(w, n)
		}()
	}
	wg.Wait()
}

func (s *grcState) regHooks(w, n int) {
	for i := w; i < s.npre; i += n {
		i := i
		s.reg(1, i, false)
		if i%2 == 0 {
			graceful.PreHookWithSignal(func(sig os.Signal) { s.hook(true, i, sig) })
		} else {
			graceful.PreHook(func() { s.hook(true, i, nil) })
		}
		s.reg(1, i, true)
	}
	for i := w; i < s.npost; i += n {
		i := i
		s.reg(0, i, false)
		if i%2 == 0 {
			graceful.PostHookWithSignal(func(sig os.Signal) { s.hook(false, i, sig) })
		} else {
			graceful.PostHook(func() { s.hook(false, i, nil) })
		}
		s.reg(0, i, true)
	}
}

//go:norace
func (s *grcState) reg(k, i int, end bool) {
	e := s.x.Ev("register", int64(k), int64(i), 0)
	if end {
		s.regEnd[k][i] = e
	} else {
		s.regBegin[k][i] = e
	}
}

func (s *grcState) play() {
	x := s.x
	wg := x.runActors(s.do)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	waitCh(done, 30*time.Second)
	s.finish(done, graceful.Shutdown)
}

// finish lets the run come to an end and checks that it does.
func (s *grcState) finish(done chan struct{}, shutdown func()) {
	x := s.x
	// Whoever stopped in the middle of a request goes away now.
	for _, c := range s.conns {
		if c.partial {
			c.cs.Hangup()
		}
	}
	sleep(int64(8 * time.Second))
	all := make(chan struct{})
	go func() {
		s.trig(nil, false)
		shutdown()
		s.shutdownReturned(false)
		s.trigWG.Done() // its own share
		s.trigWG.Wait()
		close(all)
	}()
	// Everything a handler or client does takes less than this.
	if !waitCh(all, 10*time.Minute) {
		x.Fail("C12", "shutdown-hang", "a shutdown did not return although no request was being handled: %s", s.openConns())
	}
	sleep(int64(time.Minute))
	for _, sv := range s.srvs {
		if sv.started && !sv.returned {
			x.Fail("C12", "serve-hang", "Serve did not return after the shutdown")
		}
	}
	// Clients get no more answers.
	for _, c := range s.conns {
		c.cs.SendEOF()
	}
	sleep(int64(2 * time.Hour))
	if !waitCh(done, 3*time.Hour) {
		x.Fail("C12", "client-hang", "a client is still waiting for the server after the shutdown")
	}
	s.final()
}

//go:norace
func (s *grcState) openConns() string {
	var out []string
	for _, c := range s.conns {
		if c.cs.acceptedSeq != 0 && !c.cs.isClosed() && !c.hijack {
			out = append(out, fmt.Sprintf("connection %d open (handlers running: %d)", c.cs.id, c.active))
		}
	}
	return strings.Join(out, ", ")
}

// ---- hooks ----

func (s *grcState) hook(pre bool, i int, sig os.Signal) {
	k := "posthook"
	d := s.x.plan.knob("postdur")
	if pre {
		k = "prehook"
		d = s.x.plan.knob("predur")
	}
	s.hookBegin(pre, k, i, sig)
	sleep(int64(d) * int64(time.Millisecond))
	if i == 0 && s.x.plan.knob("callback") == 1 {
		// Hooks may use the package themselves.
		if !s.varies {
			graceful.Timeout(time.Duration(s.tout))
			graceful.DoubleKickWindow(time.Duration(s.window))
		}
		graceful.PreHook(func() {})
	}
	s.hookEnd(pre, k, i)
}

//go:norace
func (s *grcState) hookBegin(pre bool, k string, i int, sig os.Signal) {
	x := s.x
	e := x.Ev(k, int64(i), 0, 0)
	l, reg := &s.pre, 1
	if !pre {
		l, reg = &s.post, 0
	}
	if x.plan.knob("hookreg") <= 1 && len(*l) != i {
		x.Fail("C10", "hook-order", "%s %d was called as number %d", k, i, len(*l))
	}
	for _, h := range *l {
		if h.n == i || s.regEnd[reg][i] < s.regBegin[reg][h.n] {
			x.Fail("C10", "hook-order", "%s %d was called after %s %d", k, i, k, h.n)
		}
		if h.end == 0 {
			x.Fail("C10", "hook-overlap", "%s %d runs while %d is still running", k, i, h.n)
		}
		if h.sig != sig && h.n%2 == i%2 && i%2 == 0 {
			x.Fail("C10", "hook-signal", "%ss were given different signals: %v and %v", k, h.sig, sig)
		}
	}
	g := runtime.SimGoid()
	for _, h := range *l {
		if h.g != g {
			x.Fail("C10", "hook-goroutine", "%s %d runs in another goroutine than %s %d did", k, i, k, h.n)
		}
	}
	*l = append(*l, hookCall{n: i, g: g, begin: e, sig: sig})
	if i%2 == 0 {
		ok := false
		for _, t := range s.triggers {
			if t.sig == sig {
				ok = true
			}
		}
		if !ok {
			x.Fail("C10", "hook-signal", "%s %d was given %v, which triggered nothing", k, i, sig)
		}
	}
	if len(s.triggers) == 0 {
		x.Fail("C10", "hook-untriggered", "%s %d was called before any shutdown was requested", k, i)
	}
	if pre {
		for j, sv := range s.srvs {
			if sv.ln.closeSeq != 0 && sv.extClose == 0 && sv.serveInv != 0 && !sv.ln.permFired {
				x.Fail("C10", "close-before-prehook", "listener %d was closed before %s %d was called", j, k, i)
			}
		}
		if s.shutRet != 0 || s.waitRet != 0 {
			x.Fail("C10", "late-hook", "%s %d was called after the shutdown was complete", k, i)
		}
		return
	}
	if len(s.pre) != s.npre {
		x.Fail("C10", "hook-order", "%s %d was called before all of the pre hooks", k, i)
	}
	for _, c := range s.conns {
		if c.readCalled && !c.hijacking && !c.cs.isClosed() {
			x.Fail("C10", "posthook-early", "%s %d was called while connection %d was still open", k, i, c.cs.id)
		}
	}
	for j, sv := range s.srvs {
		if sv.serveInv != 0 && sv.ln.closeSeq == 0 && sv.ln.acceptsNow() > 0 {
			x.Fail("C10", "posthook-early", "%s %d was called before listener %d was closed", k, i, j)
		}
	}
	if s.shutRet != 0 || s.waitRet != 0 {
		x.Fail("C10", "late-hook", "%s %d was called after Shutdown or Wait had returned", k, i)
	}
}

//go:norace
func (s *grcState) hookEnd(pre bool, k string, i int) {
	e := s.x.Ev(k+"-end", int64(i), 0, 0)
	l := s.pre
	if !pre {
		l = s.post
	}
	for j := range l {
		if l[j].n == i && l[j].end == 0 {
			l[j].end = e
		}
	}
	if pre && len(l) == s.npre && s.preDoneT == 0 {
		s.preDoneT = s.x.Now() + 1
		for _, t := range s.forceAfterPre {
			s.expectForce(t)
		}
		s.expectClosing()
	}
}

// expectClosing: the shutdown has begun and the pre hooks are done. All
// listeners have to be closed now, whatever else there is to wait for.
//
//go:norace
func (s *grcState) expectClosing() {
	var open []int
	for i, sv := range s.srvs {
		if sv.serveInv != 0 && sv.ln.closeSeq == 0 && sv.ln.acceptsNow() > 0 {
			open = append(open, i)
		}
	}
	t := s.x.Now()
	time.AfterFunc(time.Duration(s.tol0), func() {
		if s.ended {
			return
		}
		for _, i := range open {
			if sv := s.srvs[i]; sv.ln.closeSeq == 0 && sv.ln.acceptsNow() > 0 {
				s.x.Fail("C12", "listening-late", "the listeners were to be closed at %s, and number %d is still open at %s", time.Duration(t), i, time.Duration(s.x.Now()))
			}
		}
	})
}

// complete checks what has to hold when Shutdown, ShutdownNow or Wait returns.
//
//go:norace
func (s *grcState) complete(what string) {
	x := s.x
	if len(s.triggers) == 0 {
		x.Fail("C10", "wait-untriggered", "%s returned before any shutdown was requested", what)
	}
	n := 0
	for _, h := range s.pre {
		if h.end != 0 {
			n++
		}
	}
	if n != s.npre {
		x.Fail("C10", "hooks-missing", "%s returned after %d of %d pre hooks", what, n, s.npre)
	}
	n = 0
	for _, h := range s.post {
		if h.end != 0 {
			n++
		}
	}
	if n != s.npost {
		x.Fail("C10", "hooks-missing", "%s returned after %d of %d post hooks", what, n, s.npost)
	}
	for _, c := range s.conns {
		if c.readCalled && !c.hijacking && !c.cs.isClosed() {
			x.Fail("C12", "open-after-shutdown", "%s returned while connection %d was still open", what, c.cs.id)
		}
		if c.active > 0 && !c.hijacking && !c.closedFirst() && !s.forcePossible(x.Now()) && !c.gone && c.cs.wErrAt == 0 && s.srvs[c.srv].how != howWrap {
			sig := "handler-after-shutdown"
			if strings.Contains(c.closedBy, "closeIdleConns") {
				sig = "handler-cut-by-keepalive-sweep"
			}
			x.Fail("C12", sig, "%s returned while a request was still being handled on connection %d", what, c.cs.id)
		}
	}
	for j, sv := range s.srvs {
		if sv.serveInv != 0 && sv.ln.closeSeq == 0 && sv.ln.acceptsNow() > 0 {
			x.Fail("C12", "listening-after-shutdown", "%s returned while listener %d was still open", what, j)
		}
	}
}

//go:norace
func (s *grcState) shutdownReturned(wait bool) {
	what := "Shutdown"
	if wait {
		what = "Wait"
	}
	e := s.x.Ev(what+"-ret", 0, 0, 0)
	if wait {
		if s.waitRet == 0 {
			s.waitRet = e
		}
	} else if s.shutRet == 0 {
		s.shutRet = e
	}
	if s.shutRetT == 0 {
		s.shutRetT = s.x.Now()
	}
	s.complete(what)
}

//go:norace
func (s *grcState) trig(sig os.Signal, force bool) {
	e := s.x.Ev("trigger", b2i(sig != nil), b2i(force), 0)
	s.triggers = append(s.triggers, trigger{e, sig, s.x.Now()})
	if len(s.triggers) == 1 && s.npre == 0 {
		s.expectClosing()
	}
	if force && s.forceInv == 0 {
		s.forceInv = e
		s.forceInvT = s.x.Now()
		s.expectForce(s.x.Now())
	}
	if sig != nil {
		now := s.x.Now()
		// Signals that come too close after one another may be merged.
		clear := true
		for i := 1; i < len(s.sigT); i++ {
			if s.sigT[i]-s.sigT[i-1] <= s.tol0 {
				clear = false
			}
		}
		n := len(s.sigT)
		gap := int64(1) << 62
		if n > 0 {
			gap = now - s.sigT[n-1]
		}
		s.sigT = append(s.sigT, now)
		// It is acted upon between now and soon.
		soon := now + s.tol0
		act := func() {
			if n > 0 && !(clear && gap > s.tol0) {
				return
			}
			if w := certain(s.windows, now, soon); n > 0 && w > 0 && gap+s.tol0 < w {
				s.x.Probe("double-kick")
				s.expectForce(now)
				return
			} else if n > 0 && w > 0 && gap > w+s.tol0 {
				s.x.Probe("second-signal-outside-window")
			} else if n > 0 && w != 0 {
				return
			}
			if t := certain(s.touts, now, soon); t > 0 {
				if n > 0 {
					s.x.Probe("timeout-from-later-signal")
				}
				s.expectForce(now + t)
			}
		}
		if !s.varies {
			act()
		} else {
			time.AfterFunc(time.Duration(s.tol0+1), func() {
				if !s.ended {
					act()
				}
			})
		}
	}
}

// forcePossible: something may by now have forced the shutdown.
//
//go:norace
func (s *grcState) forcePossible(now int64) bool {
	if s.forceInv != 0 {
		return true
	}
	for i, a := range s.sigT {
		for _, t := range between(s.touts, a, a+s.tol) {
			if t > 0 && now >= a+t {
				return true
			}
		}
		for _, b := range s.sigT[i+1:] {
			for _, w := range between(s.windows, b, b+s.tol) {
				if w > 0 && b-a < w+s.tol0 {
					return true
				}
			}
		}
	}
	return false
}

// expectForce: from t on, or from the end of the pre hooks, connections have to
// be closed whether or not they are in use.
//
//go:norace
func (s *grcState) expectForce(t int64) {
	if s.npre > 0 && s.preDoneT == 0 {
		s.forceAfterPre = append(s.forceAfterPre, t)
		return
	}
	if t < s.preDoneT-1 {
		t = s.preDoneT - 1
	}
	time.AfterFunc(time.Duration(t+s.tol0-s.x.Now()), func() { s.checkForced(t) })
}

//go:norace
func (s *grcState) checkForced(t int64) {
	if s.ended {
		return
	}
	s.x.Probe("forced")
	for _, c := range s.conns {
		if c.readCalled && !c.hijacking && c.acceptedT < t && !c.cs.gone() {
			s.x.Fail("C13", "force-late", "connection %d is still open although the shutdown was to be forced at %s (now %s)", c.cs.id, time.Duration(t), time.Duration(s.x.Now()))
		}
	}
}

// ---- actors ----

func (s *grcState) do(w int, o Op) {
	x := s.x
	switch o.K {
	case "serve":
		if o.C < len(s.srvs) {
			if s.goji {
				s.serveGoji(s.srvs[o.C])
			} else {
				s.serve(s.srvs[o.C])
			}
		}
	case "lnclose":
		if o.C < len(s.srvs) {
			s.extClose(s.srvs[o.C])
			s.srvs[o.C].ln.Close()
		}
	case "signal":
		sig := sigs[o.A%len(sigs)]
		if s.goji && !signal.SimWanted(sig) {
			// Too early: the process would just die.
			return
		}
		if s.unlistened(sig) {
			return
		}
		s.trig(sig, false)
		if !signal.SimDeliver(sig) {
			x.Fail("C10", "signal-ignored", "nothing was listening for signal %v", sig)
		}
		Y()
	case "timeout", "window":
		s.change(o)
	case "resetsig":
		graceful.ResetSignals()
		s.sigReset(true)
		if o.A == 1 {
			sleep(int64(5 * time.Millisecond))
			s.sigReset(false)
			graceful.AddSignal(syscall.SIGTERM)
		}
	case "ready":
		if s.goji {
			s.readyByHand()
		}
	case "shutdown", "now":
		s.trigWG.Add(1)
		go func() {
			defer s.trigWG.Done()
			s.trig(nil, o.K == "now")
			if o.K == "now" {
				graceful.ShutdownNow()
			} else {
				graceful.Shutdown()
			}
			s.shutdownReturned(false)
		}()
		Y()
	case "wait":
		s.trigWG.Add(1)
		go func() {
			defer s.trigWG.Done()
			graceful.Wait()
			s.shutdownReturned(true)
		}()
		Y()
	case "dial", "req", "pipe", "hup", "abort":
		if o.C < len(s.conns) {
			s.client(s.conns[o.C], o)
		}
	}
}

//go:norace
func (s *grcState) sigReset(on bool) {
	s.x.Ev("resetsig", b2i(on), 0, 0)
	s.sigOff = on
	s.sigEver = true
}

// unlistened: nobody listens for the signal, as ResetSignals has been called.
//
//go:norace
func (s *grcState) unlistened(sig os.Signal) bool {
	if s.x.plan.knob("resets") == 0 {
		return false
	}
	w := signal.SimWanted(sig)
	switch {
	case w && s.sigOff:
		s.x.Fail("C10", "signals-not-reset", "signal %v would still shut the program down after ResetSignals", sig)
	case !w && !s.sigEver:
		// ResetSignals is on its way.
		s.x.Probe("signal-while-resetting")
	case !w:
		s.x.Probe("signal-after-reset")
	}
	return !w
}

//go:norace
func (s *grcState) extClose(sv *grcServer) {
	if sv.extClose == 0 {
		sv.extClose = s.x.Ev("ext-close", 0, 0, 0)
	}
}

//go:norace
func (s *grcState) lnClosed(i int) {
	sv := s.srvs[i]
	if sv.extClose != 0 || sv.ln.permFired {
		return
	}
	if len(s.triggers) == 0 {
		s.x.Fail("C10", "closed-untriggered", "listener %d was closed although no shutdown was requested", i)
	}
	n := 0
	for _, h := range s.pre {
		if h.end != 0 {
			n++
		}
	}
	if n != s.npre {
		s.x.Fail("C10", "close-before-prehook", "listener %d was closed after %d of %d pre hooks", i, n, s.npre)
	}
}

// server is what the next Serve call is made on. Two listeners may be served
// by one Server.
func (s *grcState) server(h http.Handler, st func(net.Conn, http.ConnState)) *graceful.Server {
	if s.shared != nil {
		return s.shared
	}
	return s.newServer(h, st)
}

func (s *grcState) newServer(h http.Handler, st func(net.Conn, http.ConnState)) *graceful.Server {
	srv := &graceful.Server{Handler: h, ConnState: st}
	srv.ReadTimeout = time.Duration(s.x.plan.knob("readto")) * time.Millisecond
	if s.x.plan.knob("settings") == 1 {
		srv.Addr = "sim:80"
		srv.WriteTimeout = 1001 * time.Hour
		srv.IdleTimeout = 1002 * time.Hour
		srv.ReadHeaderTimeout = 1003 * time.Hour
		srv.MaxHeaderBytes = 54321
		srv.ErrorLog = log.New(io.Discard, "sim", 0)
		srv.BaseContext = func(l net.Listener) context.Context {
			return context.WithValue(context.Background(), ctxKey("base"), s)
		}
		srv.ConnContext = func(ctx context.Context, nc net.Conn) context.Context {
			return context.WithValue(ctx, ctxKey("conn"), s.connOf(nc))
		}
	}
	return srv
}

type ctxKey string

// checkSettings: the server at work has the settings of the one it was made of.
func (s *grcState) checkSettings(rq *http.Request, c *grcConn) {
	if s.x.plan.knob("settings") != 1 || !s.srvs[c.srv].own() {
		return
	}
	x := s.x
	if rq.Context().Value(ctxKey("base")) != s {
		x.Fail("C17", "settings", "the server's BaseContext is not that of its requests")
	}
	if rq.Context().Value(ctxKey("conn")) != c {
		x.Fail("C17", "settings", "the server's ConnContext is not that of its requests")
	}
	srv, _ := rq.Context().Value(http.ServerContextKey).(*http.Server)
	if srv == nil {
		return
	}
	rt := time.Duration(x.plan.knob("readto")) * time.Millisecond
	if srv.ReadTimeout != rt || srv.WriteTimeout != 1001*time.Hour || srv.IdleTimeout != 1002*time.Hour || srv.ReadHeaderTimeout != 1003*time.Hour || srv.MaxHeaderBytes != 54321 || srv.ErrorLog == nil || srv.ErrorLog.Prefix() != "sim" {
		x.Fail("C17", "settings", "the server at work does not have the timeouts, limits or log of the Server that was served")
	}
}

func fieldsOf(t reflect.Type) []string {
	var out []string
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).IsExported() {
			out = append(out, t.Field(i).Name)
		}
	}
	return out
}

var settingNames = fieldsOf(reflect.TypeOf(http.Server{}))
var tlsNames = fieldsOf(reflect.TypeOf(tls.Config{}))

// settingsOf lists the exported fields of what p points to.
func settingsOf(p interface{}) []interface{} {
	v := reflect.ValueOf(p).Elem()
	var out []interface{}
	for i := 0; i < v.NumField(); i++ {
		if !v.Type().Field(i).IsExported() {
			continue
		}
		out = append(out, v.Field(i).Interface())
	}
	return out
}

func sameSetting(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == b
	}
	v, w := reflect.ValueOf(a), reflect.ValueOf(b)
	if v.Type() != w.Type() {
		return false
	}
	switch v.Kind() {
	case reflect.Func:
		return sameFn(a, b)
	case reflect.Map, reflect.Pointer:
		return v.Pointer() == w.Pointer()
	case reflect.Slice:
		return v.Len() == w.Len() && v.Pointer() == w.Pointer()
	}
	return !v.Comparable() || a == b
}

func (s *grcState) serve(sv *grcServer) {
	h := http.HandlerFunc(s.handle)
	s.serveBegin(sv)
	var err error
	st := func(nc net.Conn, st http.ConnState) { s.connState(nc, st) }
	var ln net.Listener = sv.ln
	if s.x.plan.knob("tcp") == 1 {
		ln = net.SimTCPListener(sv.ln)
	}
	cert, key := certFile, keyFile
	if n := s.x.plan.knob("tlsmax"); n == 1 || n == 2 {
		// Those versions cannot do with the other one.
		cert, key = certFile256, keyFile256
	}
	if sv.badCert {
		cert = os.DevNull
		s.x.FaultFired("bad-certificate")
	}
	switch sv.how {
	case howServe:
		err = graceful.Serve(ln, h)
	case howListen:
		err = graceful.ListenAndServe(sv.addr, h)
	case howTLS:
		if sv.badCert && s.x.plan.knob("tlsfiles") == 1 {
			key = ""
		}
		err = graceful.ListenAndServeTLS(sv.addr, cert, key, h)
	case howServer, howServerListen, howServerTLS:
		srv := s.server(h, st)
		if sv.listens() {
			srv.Addr = sv.addr
		}
		if sv.how == howServerTLS {
			srv.TLSConfig = s.tlsConfig()
			switch n := s.x.plan.knob("tlscfg"); {
			case n >= tlsCfgGetCert && !sv.badCert && s.x.plan.knob("tlsfiles") == 0,
				n == tlsCfgNone && sv.badCert && s.x.plan.knob("tlsfiles") == 1:
				cert, key = "", ""
			}
		}
		before := settingsOf((*http.Server)(srv))
		var tlsBefore []interface{}
		if srv.TLSConfig != nil {
			tlsBefore = settingsOf(srv.TLSConfig)
		}
		switch sv.how {
		case howServer:
			err = srv.Serve(ln)
		case howServerListen:
			err = srv.ListenAndServe()
		default:
			err = srv.ListenAndServeTLS(cert, key)
		}
		after := settingsOf((*http.Server)(srv))
		for i := range before {
			if !sameSetting(before[i], after[i]) {
				s.x.Fail("C17", "server-modified", "Serve modified the caller's Server: field %s", settingNames[i])
			}
		}
		if tlsBefore != nil && srv.TLSConfig != nil {
			for i, a := range settingsOf(srv.TLSConfig) {
				if !sameSetting(tlsBefore[i], a) {
					s.x.Fail("C17", "server-modified", "Serve modified the caller's Server: field %s of its TLSConfig", tlsNames[i])
				}
			}
		}
	case howWrap:
		// The low level way: somebody else's http.Server.
		srv := &http.Server{Handler: h, ConnState: st}
		err = srv.Serve(graceful.WrapListener(ln))
	case howPre:
		// And in another mode.
		lt := listener.Wrap(ln, listener.Automatic)
		srv := &http.Server{Handler: h, ConnState: func(nc net.Conn, to http.ConnState) {
			switch to {
			case http.StateActive:
				listener.MarkInUse(nc)
			case http.StateIdle:
				listener.MarkIdle(nc)
			case http.StateHijacked:
				listener.Disown(nc)
			}
			st(nc, to)
		}}
		w := graceful.WrapListener(lt)
		if w != net.Listener(lt) {
			s.x.Fail("C17", "double-wrap", "WrapListener wrapped a listener of package listener again")
		}
		err = srv.Serve(w)
	}
	s.serveEnd(sv, err)
}

// What TLSConfig a Server has.
const (
	tlsCfgNone    = iota
	tlsCfgHooks   // callbacks
	tlsCfgGetCert // its certificate comes from a callback, not from files
	tlsCfgCerts   // it comes with its certificate
	tlsCfgConf    // a callback has the whole configuration
	tlsCfgs
)

// tlsMin is the lowest version of TLS the server has to do with, as far as that
// is documented.
//
//go:norace
func (s *grcState) tlsMin(sv *grcServer) uint16 {
	n := s.x.plan.knob("tlscfg")
	switch {
	case sv.how == howTLS, sv.how == howServerTLS && n == tlsCfgNone:
		return tls.VersionTLS10
	case sv.how == howServerTLS && n == tlsCfgHooks:
		return tls.VersionTLS12
	}
	return 0
}

// tlsMax is the highest version the clients of the server can do.
//
//go:norace
func (s *grcState) tlsMax(sv *grcServer) uint16 {
	if n := s.x.plan.knob("tlsmax"); n == 3 || n > 0 && s.tlsMin(sv) != 0 {
		return tls.VersionTLS10 + uint16(n) - 1
	}
	return tls.VersionTLS13
}

func (s *grcState) tlsConfig() *tls.Config {
	switch s.x.plan.knob("tlscfg") {
	case tlsCfgHooks:
		return &tls.Config{
			MinVersion: tls.VersionTLS12,
			NextProtos: []string{"sim/1", "http/1.1"},
			GetConfigForClient: func(h *tls.ClientHelloInfo) (*tls.Config, error) {
				s.tlsSeen(h.ServerName, 1)
				return nil, nil
			},
			VerifyConnection: func(cs tls.ConnectionState) error {
				s.tlsSeen(cs.ServerName, 2)
				return nil
			},
		}
	case tlsCfgGetCert:
		return &tls.Config{GetCertificate: func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
			s.tlsSeen(h.ServerName, 3)
			c := theCert()
			return &c, nil
		}}
	case tlsCfgCerts:
		return &tls.Config{Certificates: []tls.Certificate{theCert()}}
	case tlsCfgConf:
		return &tls.Config{GetConfigForClient: func(h *tls.ClientHelloInfo) (*tls.Config, error) {
			s.tlsSeen(h.ServerName, 3)
			return &tls.Config{Certificates: []tls.Certificate{theCert()}, NextProtos: []string{"http/1.1"}}, nil
		}}
	}
	return nil
}

//go:norace
func (s *grcState) tlsSeen(name string, bits int) {
	for _, c := range s.conns {
		if name == tlsName(c.cs.id) {
			c.tlsSeen |= bits
		}
	}
}

// checkTLS: the server's TLSConfig was in force.
//
//go:norace
func (s *grcState) checkTLS(c *grcConn, t *tls.ConnectionState) {
	if s.srvs[c.srv].how != howServerTLS || t == nil {
		return
	}
	want := 0
	proto := "http/1.1"
	switch s.x.plan.knob("tlscfg") {
	case tlsCfgHooks:
		want, proto = 3, "sim/1"
	case tlsCfgGetCert, tlsCfgConf:
		want = 3
	}
	if c.tlsSeen != want || t.NegotiatedProtocol != proto {
		s.x.Fail("C17", "settings", "the TLSConfig of the Server is not in force: callbacks %d of %d were called, protocol %q", c.tlsSeen, want, t.NegotiatedProtocol)
	}
	s.x.Probe("tls-config")
}

//go:norace
func (s *grcState) serveBegin(sv *grcServer) {
	sv.serveInv = s.x.Ev("serve", 0, 0, 0)
	sv.started = true
}

// listen stands in for opening a listening socket.
func (s *grcState) listen(network, addr string) (net.Listener, error) {
	sv := s.listening(network, addr)
	Y()
	if sv == nil || sv.listenErr {
		return nil, errInUse
	}
	sv.ln.Bind()
	return sv.ln, nil
}

//go:norace
func (s *grcState) listening(network, addr string) *grcServer {
	x := s.x
	x.Ev("listen", 0, 0, 0)
	for _, sv := range s.srvs {
		want := sv.addr
		if want == "" {
			want = ":http"
			if sv.tls() {
				want = ":https"
			}
		}
		if !sv.listens() || addr != want {
			continue
		}
		if network != "tcp" {
			x.Fail("C17", "listen-network", "the server listens on network %q", network)
		}
		if sv.listened {
			x.Fail("C15", "listened-twice", "the server listened on %q twice", addr)
			return nil
		}
		sv.listened = true
		if sv.listenErr {
			x.FaultFired("listen-error")
		} else {
			x.Probe("listened")
		}
		return sv
	}
	x.Fail("C17", "listen-address", "a server listened on %s %q, which nobody asked for", network, addr)
	return nil
}

//go:norace
func (s *grcState) serveEnd(sv *grcServer, err error) {
	x := s.x
	sv.retSeq = x.Ev("serve-ret", b2i(err != nil), 0, 0)
	sv.retT = x.Now()
	sv.returned = true
	sv.err = err
	if sv.how == howWrap || sv.how == howPre {
		return
	}
	switch {
	case sv.badCert:
		if err == nil {
			x.Fail("C15", "certificate-error-swallowed", "there was no certificate to serve with, and no error was returned")
		}
		if sv.listened {
			x.Fail("C15", "listening-without-certificate", "there was no certificate to serve with, but a socket was opened")
		}
	case sv.listens() && !sv.listened:
		x.Fail("C15", "not-listened", "the call returned %v without having tried to listen", err)
	case sv.listenErr:
		if !isInUse(err) {
			x.Fail("C15", "listen-error-swallowed", "listening failed with %q, and %v was returned", errInUse, err)
		}
	case sv.ln.permFired:
		if !errors.Is(err, sv.ln.permErr()) {
			x.Fail("C15", "error-swallowed", "Accept failed with %q, Serve returned %v", sv.ln.permErr(), err)
		}
	case sv.ln.closeSeq == 0:
		x.Fail("C15", "serve-stopped", "Serve returned %v although its listener is open and nothing failed", err)
	case sv.extClose != 0 && len(s.triggers) == 0:
		if err == nil {
			x.Fail("C15", "close-swallowed", "the listener was closed although no shutdown was under way, and Serve returned no error")
		}
	case sv.extClose == 0 || s.closedByUs(sv):
		if err != nil {
			x.Fail("C15", "shutdown-error", "Serve returned %q (%T) because of a shutdown", err, err)
		}
		x.Probe("serve-returned-nil")
	}
}

//go:norace
func (s *grcState) closedByUs(sv *grcServer) bool { return sv.extClose == 0 }

//go:norace
func (s *grcState) connOf(nc net.Conn) *grcConn {
	a := nc.RemoteAddr().String()
	for _, c := range s.conns {
		if a == "client:"+itoa(c.cs.id) {
			return c
		}
	}
	return nil
}

//go:norace
func (s *grcState) connState(nc net.Conn, st http.ConnState) {
	c := s.connOf(nc)
	if c == nil {
		return
	}
	s.x.Ev("state", int64(c.cs.id), int64(st), 0)
	n := len(c.states)
	bad := false
	if n == 0 {
		bad = st != http.StateNew
	} else {
		switch last := c.states[n-1]; st {
		case http.StateNew:
			bad = true
		case http.StateIdle, http.StateHijacked:
			bad = last != http.StateActive
		case http.StateActive:
			bad = last != http.StateNew && last != http.StateIdle
		case http.StateClosed:
			bad = last == http.StateHijacked || last == http.StateClosed
		}
	}
	if bad {
		s.x.Fail("C17", "conn-states", "the server's ConnState callback saw %v, then %v on one connection", c.states, st)
	}
	c.states = append(c.states, st)
}

// ---- what the sockets see ----

//go:norace
func (s *grcState) onRead(c *grcConn, n int, err error) {
	if !c.readCalled && (c.cs.kaSet && !c.cs.ka || c.cs.kaPeriod > 24*time.Hour || c.cs.kaPeriod < 0) {
		s.x.Fail("C17", "keep-alive", "TCP keep-alives are off on an accepted connection")
	}
	c.readCalled = true
	if err != nil || n == 0 {
		return
	}
	for _, r := range c.reqs {
		if r.readSeq == 0 && c.cs.inTotal > r.start {
			r.readSeq = c.cs.lastRead
			r.readAt = s.x.Now()
		}
	}
}

//go:norace
func (s *grcState) onClose(c *grcConn) {
	now := s.x.Now()
	if c.closeT == 0 {
		c.closeT = now
		c.closedBy = c.cs.closeStack
		c.forced = s.forcePossible(now)
	}
	if c.hijack && !c.hijDone && s.srvs[c.srv].how != howWrap {
		s.x.Fail("C14", "hijacked-closed", "hijacked connection %d was closed by somebody else than its handler (%s)", c.cs.id, c.cs.closeStack)
		return
	}
	if c.active > 0 && !c.hijacking && !c.forced && s.srvs[c.srv].how != howWrap && sweeping(c.cs.closeStack) {
		s.x.Fail("C13", "forced-without-cause", "connection %d was closed while a request was being handled although nothing asked for a forced shutdown (%s)", c.cs.id, c.cs.closeStack)
	}
}

// sweeping: the close came from package listener's own initiative.
func sweeping(stack string) bool {
	return strings.Contains(stack, "T).Drain") || strings.Contains(stack, "T).CloseIdle")
}

// ---- clients ----

func (s *grcState) client(c *grcConn, o Op) {
	x := s.x
	switch o.K {
	case "dial":
		if o.A >= len(s.srvs) {
			o.A = 0
		}
		ln := s.srvs[o.A].ln
		for i := 0; i < 30 && ln.isUnbound(); i++ {
			// Nobody is listening yet.
			sleep(int64(time.Millisecond))
		}
		ok := ln.Dial(c.cs)
		s.dialled(c, o.A, ok)
		if ok && s.srvs[o.A].tls() {
			max := s.tlsMax(s.srvs[o.A])
			t := tlsClient(c.cl, c.cs.id, max)
			if err := t.Handshake(); err != nil {
				s.handshakeFailed(c, err)
				return
			}
			if v := t.ConnectionState().Version; v != max || max < s.tlsMin(s.srvs[o.A]) {
				s.x.Fail("C17", "settings", "a client that can do TLS version %#x agreed on %#x with a server that requires %#x", max, v, s.tlsMin(s.srvs[o.A]))
			}
			s.x.Probe("tls-handshake")
			c.tls, c.br = t, bufio.NewReader(t)
		}
		return
	case "hup":
		s.setGone(c)
		x.FaultFired("client-hangup")
		c.cs.Hangup()
		return
	case "abort":
		s.setGone(c)
		x.FaultFired("client-reset")
		c.cs.Abort()
		return
	}
	if c.refused || c.partial || c.gone || c.hijack {
		return
	}
	split, gap := 0, 0
	if o.S != "" {
		f := strings.Split(o.S, ",")
		split, _ = strconv.Atoi(f[0])
		gap, _ = strconv.Atoi(f[1])
	}
	if o.K == "pipe" {
		a := s.newReq(c, o.A, o.B, true)
		b := s.newReq(c, rqSlow, o.B, true)
		if o.A == rqHijack || o.A == rqPartial || o.A == rqClose || o.A == rqPanic {
			b = nil
		}
		s.send(c, a, split, gap)
		if b != nil {
			s.send(c, b, 0, 0)
		}
		if !s.receive(c, a) || b != nil && !s.receive(c, b) {
			s.giveUp(c)
		}
		return
	}
	r := s.newReq(c, o.A, o.B, false)
	s.send(c, r, split, gap)
	if !s.receive(c, r) {
		s.giveUp(c)
	}
}

// giveUp: the client has no more use for the connection.
func (s *grcState) giveUp(c *grcConn) {
	if c.partial {
		return
	}
	s.setGone(c)
	c.cs.Hangup()
}

//go:norace
func (s *grcState) setGone(c *grcConn) { c.gone = true }

// write sends bytes the way the connection requires.
func (c *grcConn) write(b []byte) error {
	if c.tls != nil {
		_, err := c.tls.Write(b)
		return err
	}
	return c.cs.Send(b)
}

func (s *grcState) handshakeFailed(c *grcConn, err error) {
	s.handshakeError(c, err)
	c.cs.Hangup()
}

//go:norace
func (s *grcState) handshakeError(c *grcConn, err error) {
	c.gone = true
	if sv := s.srvs[c.srv]; s.tlsMax(sv) < s.tlsMin(sv) {
		s.x.Probe("tls-version-refused")
		return
	}
	if c.cs.closeSeq == 0 && c.cs.wErrAt == 0 && !c.cs.reset && err != errCliReset {
		s.x.Fail("C17", "handshake", "the TLS handshake failed: %v", err)
	}
}

//go:norace
func (s *grcState) dialled(c *grcConn, srv int, ok bool) {
	c.srv = srv
	c.refused = !ok
	s.x.Ev("dial", int64(c.cs.id), int64(srv), b2i(ok))
	if ok && s.shutRet != 0 && s.srvs[srv].ln.acceptSeq != 0 && s.srvs[srv].ln.acceptSeq < s.firstTrig() {
		s.x.Fail("C12", "dial-after-shutdown", "a client could connect after the shutdown was complete")
	}
}

//go:norace
func (s *grcState) firstTrig() uint64 {
	if len(s.triggers) == 0 {
		return 1 << 62
	}
	return s.triggers[0].seq
}

//go:norace
func (s *grcState) newReq(c *grcConn, kind, ms int, piped bool) *grcReq {
	r := &grcReq{id: len(s.reqs), c: c.cs.id, kind: kind, ms: ms, piped: piped}
	s.reqs = append(s.reqs, r)
	c.reqs = append(c.reqs, r)
	return r
}

func grcBody(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%23)
	}
	return b
}

func (s *grcState) send(c *grcConn, r *grcReq, split, gap int) {
	var b bytes.Buffer
	method := "GET"
	if r.kind == rqPost {
		method = "POST"
	}
	if r.kind == rqHead {
		method = "HEAD"
	}
	path := "/r/"
	if s.goji && r.kind == rqQuick {
		method, path = gojiTarget(r.id)
	}
	fmt.Fprintf(&b, "%s %s%d HTTP/1.1\r\nHost: sim\r\n", method, path, r.id)
	if r.kind == rqClose {
		b.WriteString("Connection: close\r\n")
	}
	if r.kind == rqPost {
		b.WriteString("Content-Length: 20\r\n")
	}
	b.WriteString("\r\n")
	if r.kind == rqPost {
		b.Write(grcBody(20))
	}
	msg := b.Bytes()
	s.sendBegin(c, r, len(msg))
	if r.kind == rqPartial {
		s.setPartial(c)
		c.write(msg[:1+r.ms%15])
		return
	}
	if split > 0 && split < len(msg) {
		if c.write(msg[:split]) != nil {
			return
		}
		sleep(int64(gap) * int64(time.Millisecond))
		s.x.Probe("request-in-two-pieces")
		c.write(msg[split:])
	} else {
		c.write(msg)
	}
	s.sendEnd(r)
}

//go:norace
func (s *grcState) setPartial(c *grcConn) { c.partial = true }

//go:norace
func (s *grcState) sendBegin(c *grcConn, r *grcReq, n int) {
	r.start = c.sentN
	if c.tls != nil {
		r.start = c.cs.sent
	}
	c.sentN += n
	r.end = c.sentN
	s.x.Ev("send", int64(c.cs.id), int64(r.id), int64(r.kind))
}

//go:norace
func (s *grcState) sendEnd(r *grcReq) { r.sent = true }

// receive reads the response; false means the connection is of no more use.
func (s *grcState) receive(c *grcConn, r *grcReq) bool {
	if r.kind == rqPartial {
		return false
	}
	if r.kind == rqHijack {
		return s.hijackClient(c, r)
	}
	method := "GET"
	if r.kind == rqHead {
		method = "HEAD"
	}
	if s.goji && r.kind == rqQuick {
		method, _ = gojiTarget(r.id)
	}
	resp, err := http.ReadResponse(c.br, &http.Request{Method: method})
	if err != nil {
		s.resolve(c, r, "no response: "+err.Error())
		return false
	}
	body, err := io.ReadAll(resp.Body)
	if err != nil {
		s.resolve(c, r, fmt.Sprintf("response cut after %d bytes of body: %v", len(body), err))
		return false
	}
	want := s.expected(r)
	code := 200
	if s.goji {
		code, want = s.gojiExpect(r, resp, want)
	}
	if method == "HEAD" {
		want = nil
	}
	if resp.StatusCode != code || !bytes.Equal(body, want) {
		s.resolve(c, r, fmt.Sprintf("wrong response: status %d, %d bytes of body (want %d)", resp.StatusCode, len(body), len(want)))
		return false
	}
	s.resolve(c, r, "")
	return !resp.Close
}

func (s *grcState) expected(r *grcReq) []byte {
	switch r.kind {
	case rqPost:
		return grcBody(20)
	case rqBig:
		return grcBody(9000)
	case rqStream:
		return grcBody(60)
	}
	return []byte("r" + itoa(r.id))
}

// hijackClient talks to a hijacked connection: the handler sends a greeting,
// then echoes until the client closes its end.
func (s *grcState) hijackClient(c *grcConn, r *grcReq) bool {
	b := make([]byte, 5)
	if _, err := io.ReadFull(c.br, b); err != nil || string(b) != "hello" {
		s.resolve(c, r, "no greeting")
		return false
	}
	for i := 0; i < 3; i++ {
		sleep(int64(r.ms) * int64(time.Millisecond))
		c.write([]byte("ping"))
		b = b[:4]
		if _, err := io.ReadFull(c.br, b); err != nil || string(b) != "ping" {
			s.resolve(c, r, "echo missing")
			return false
		}
		s.echo(c)
	}
	s.resolve(c, r, "")
	c.cs.SendEOF()
	return false
}

//go:norace
func (s *grcState) echo(c *grcConn) {
	c.echoed++
	s.x.Ev("echo", int64(c.cs.id), 0, 0)
	if s.shutRet != 0 {
		s.x.Probe("hijacked-alive-after-shutdown")
	}
}

// resolve records how a request ended for the client.
//
//go:norace
func (s *grcState) resolve(c *grcConn, r *grcReq, err string) {
	x := s.x
	r.resolved = x.Ev("resp", int64(c.cs.id), int64(r.id), b2i(err != ""))
	r.respOK = err == ""
	r.respErr = err
	if err == "" {
		if len(s.triggers) > 0 && r.enter != 0 && r.exit > s.triggers[0].seq {
			x.Probe("answered-during-shutdown")
		}
		return
	}
	sv := s.srvs[c.srv]
	// Excuses.
	if c.gone || c.partial || c.cs.wErrAt > 0 || r.kind == rqPanic && !s.goji || r.kind == rqPartial || s.x.plan.knob("readto") > 0 && sv.own() {
		return
	}
	for _, q := range c.reqs {
		if q == r {
			break
		}
		if !q.respOK {
			return
		}
	}
	now := x.Now()
	if c.forced || c.closeT == 0 && s.forcePossible(now) {
		return
	}
	taken := r.enter != 0
	if r.piped && (taken && c.closeT != 0 && c.cs.closeSeq < r.enter || sv.how == howPre && c.cs.closeSeq != 0) {
		// It was read along with the request before it, and the
		// connection counted as idle until the server got to it.
		x.Probe("pipelined-request-lost-before-it-was-noticed")
		return
	}
	if r.kind == rqHijack {
		if taken && c.hijack && sv.how != howWrap {
			sig := "hijacked-broken"
			if strings.Contains(c.closedBy, "closeIdleConns") {
				sig = "hijacked-cut-by-keepalive-sweep"
			}
			x.Fail("C14", sig, "hijacked connection %d: %s (closed by %s)", c.cs.id, err, c.closedBy)
		}
		return
	}
	if !taken && !r.piped && r.readSeq != 0 && c.closeT > r.readAt+s.tol {
		taken = true
	}
	if !taken {
		x.Probe("request-lost-before-it-was-read")
		if len(s.triggers) == 0 && c.cs.closeSeq != 0 && sv.ln.closeSeq == 0 && !sv.returned {
			x.Fail("C17", "closed-unasked", "connection %d was closed before its request %d was read, and nobody had asked for a shutdown: %s (closed by %s)", c.cs.id, r.id, err, c.closedBy)
		}
		return
	}
	sig := "request-cut"
	switch {
	case sv.how == howWrap && r.readSeq != 0 && c.cs.rdlSeq > r.readSeq && !strings.Contains(c.closedBy, "http.(*conn).close"):
		sig = "request-cut-in-deadline-mode"
	case strings.Contains(c.closedBy, "closeIdleConns"):
		sig = "request-cut-by-keepalive-sweep"
	}
	x.Fail("C11", sig, "request %d on connection %d was accepted by the server and not answered: %s (closed by %s)", r.id, c.cs.id, err, c.closedBy)
}

// ---- the handler ----

func (s *grcState) handle(w http.ResponseWriter, rq *http.Request) {
	id, err := strconv.Atoi(rq.URL.Path[strings.LastIndex(rq.URL.Path, "/")+1:])
	if err != nil || id >= len(s.reqs) {
		http.Error(w, "?", 404)
		return
	}
	r := s.reqs[id]
	c := s.conns[r.c]
	s.enter(c, r)
	defer s.leave(c, r)
	s.checkSettings(rq, c)
	if sv := s.srvs[c.srv]; sv.tls() && (rq.TLS == nil || !rq.TLS.HandshakeComplete) || !sv.tls() && rq.TLS != nil {
		s.x.Fail("C17", "request-tls", "a request that came by TLS (%v) has TLS state %v", sv.tls(), rq.TLS != nil)
	}
	s.checkTLS(c, rq.TLS)
	ms := func(n int) { sleep(int64(n) * int64(time.Millisecond)) }
	switch r.kind {
	case rqPost:
		b, err := io.ReadAll(rq.Body)
		ms(r.ms)
		if err == nil {
			w.Write(b)
		}
	case rqStream:
		b := grcBody(60)
		for i := 0; i < 3; i++ {
			w.Write(b[i*20 : i*20+20])
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
			ms(r.ms)
		}
	case rqBig:
		b := grcBody(9000)
		for len(b) > 0 {
			n := 3000
			w.Write(b[:n])
			b = b[n:]
			ms(r.ms)
		}
	case rqHijack:
		s.hijackServer(w, c, r)
	case rqPanic:
		ms(r.ms)
		panic("handler")
	case rqQuick:
		w.Write([]byte("r" + itoa(r.id)))
	default:
		ms(r.ms)
		w.Write([]byte("r" + itoa(r.id)))
	}
}

func (s *grcState) hijackServer(w http.ResponseWriter, c *grcConn, r *grcReq) {
	s.hijackBegin(c)
	nc, rw, err := w.(http.Hijacker).Hijack()
	if err != nil {
		s.x.Fail("C14", "hijack-failed", "Hijack: %v", err)
		return
	}
	s.hijacked(c)
	defer nc.Close()
	defer s.hijackOver(c)
	nc.SetDeadline(time.Time{})
	rw.WriteString("hello")
	if rw.Flush() != nil {
		return
	}
	b := make([]byte, 4)
	for {
		if _, err := io.ReadFull(rw, b); err != nil {
			return
		}
		if _, err := nc.Write(b); err != nil {
			return
		}
	}
}

//go:norace
func (s *grcState) hijackBegin(c *grcConn) { c.hijacking = true }

//go:norace
func (s *grcState) hijacked(c *grcConn) {
	c.hijack = true
	c.hijackT = s.x.Ev("hijacked", int64(c.cs.id), 0, 0)
	s.x.Probe("hijacked")
	if c.cs.gone() {
		c.hijDone = true
	}
	if len(s.triggers) > 0 {
		s.x.Probe("hijacked-during-shutdown")
	}
}

//go:norace
func (s *grcState) hijackOver(c *grcConn) {
	c.hijDone = true
	s.x.Ev("hijack-over", int64(c.cs.id), 0, 0)
}

//go:norace
func (s *grcState) enter(c *grcConn, r *grcReq) {
	r.enter = s.x.Ev("handler", int64(c.cs.id), int64(r.id), 0)
	r.enterT = s.x.Now()
	r.enterN++
	c.active++
	s.handlers++
	if r.enterN > 1 {
		s.x.Fail("C11", "handled-twice", "request %d was handled twice", r.id)
	}
	c.entered = r.enter
	if s.shutRet != 0 && !s.forcePossible(s.x.Now()) && s.srvs[c.srv].how != howWrap && !c.closedFirst() {
		s.x.Fail("C12", "handler-after-shutdown", "a request was handled after the shutdown was complete")
	}
}

// closedFirst: the connection was closed as an idle one before the server
// noticed the request it is handling, as a keep-alive connection may be.
//
//go:norace
func (c *grcConn) closedFirst() bool {
	return c.cs.closeSeq != 0 && c.cs.closeSeq < c.entered
}

//go:norace
func (s *grcState) leave(c *grcConn, r *grcReq) {
	r.exit = s.x.Ev("handler-end", int64(c.cs.id), int64(r.id), 0)
	r.exitT = s.x.Now()
	c.active--
}

//go:norace
func (s *grcState) final() {
	s.ended = true
	x := s.x
	for i, sv := range s.srvs {
		if sv.started && sv.ln.closeSeq == 0 && !sv.ln.permFired && !sv.ln.unbound {
			x.Fail("C12", "listening-after-shutdown", "listener %d is still open after the shutdown", i)
		}
	}
	if s.npre != len(s.pre) || s.npost != len(s.post) {
		x.Fail("C10", "hooks-missing", "%d of %d pre hooks and %d of %d post hooks were called", len(s.pre), s.npre, len(s.post), s.npost)
	}
	for _, c := range s.conns {
		if c.hijack && c.cs.closeCalls > 2 {
			x.Fail("C14", "hijacked-closed", "hijacked connection %d was closed %d times", c.cs.id, c.cs.closeCalls)
		}
		if n := len(c.states); n > 0 && c.cs.isClosed() {
			if l := c.states[n-1]; l != http.StateClosed && l != http.StateHijacked {
				x.Fail("C17", "conn-states", "the server's ConnState callback never saw connection %d end: %v", c.cs.id, c.states)
			}
		}
		if len(c.states) == 0 && c.readCalled && (s.srvs[c.srv].own() || s.srvs[c.srv].how == howWrap || s.srvs[c.srv].how == howPre) {
			x.Fail("C17", "conn-states", "the server's ConnState callback was never called for connection %d", c.cs.id)
		}
	}
	_ = listener.Manual
}

func init() {
	register(&Scenario{Name: "grc", Gen: grcGen, Run: grcRun, Reset: true, Limit: 400000})
}
