package main

import (
	"net"
	"runtime"
	"sync"
	"time"
	"weak"

	"github.com/zenazn/goji/graceful/listener"
)

// Scenario "lis": package graceful/listener driven directly, in all three
// modes, by acceptors, connection owners, rogue users of the same connections,
// and controllers that close idle connections, drain and close.

type lisConn struct {
	cs      *CS
	wc      net.Conn
	ready   chan struct{}
	refused bool

	acceptRet uint64
	acceptErr bool

	useInFlight  int
	anyUseStart  uint64 // latest start of an operation that may mark in use
	useStart     uint64 // latest start among completed operations that did
	idleInFlight int
	idleStart    uint64 // latest start among completed idle operations
	idleRet      uint64 // latest completion of an idle operation
	lastUseRet   uint64

	closeInvoked  uint64
	closeInFlight int
	closeNil      int
	closeRets     int
	disownInvoked uint64
	disownDone    uint64
	disownNil     int
	closeDisowned int // explicit closes invoked after the disown completed
	uses          int
	soloUse       uint64 // an operation that may mark in use, begun alone
}

type lisState struct {
	x           *X
	mode        int
	ln          *SListener
	t           *listener.T
	conns       []*lisConn
	drainInv    uint64
	drainAllInv uint64
	drainRet    uint64
	draining    int
	closers     int // CloseIdle, Drain and DrainAll calls in flight
	closerSeq   uint64
	accWG       sync.WaitGroup
	drainWG     sync.WaitGroup
}

const (
	modeManual = iota
	modeAutomatic
	modeDeadline
)

func lisGen(r *Rand, p *Plan, tier string) {
	k := p.Knobs
	k["mode"] = r.n(3)
	nc := r.rng(1, 5)
	k["acceptors"] = r.rng(1, 2)
	steps, rogues, ctls := 3, 3, 3
	if bigger(r, tier) {
		// More than there are shards, sometimes.
		nc = r.rng(4, 24)
		k["acceptors"] = r.rng(1, 4)
		steps, rogues, ctls = 8, 9, 6
	}
	if r.chance(1, 400) {
		nc = r.pick(40, 90, 200)
	}
	k["conns"] = nc
	if p.Scn == "lisleak" {
		nc = r.rng(1, 3)
		k["conns"] = nc
	}
	delays := []time.Duration{0, 0, 0, time.Millisecond, 2 * time.Millisecond, 5 * time.Millisecond}
	add := func(o Op) { p.Ops = append(p.Ops, o) }
	for c := 0; c < nc; c++ {
		w := 100 + c
		add(Op{W: w, K: "dial", C: c, D: r.dur(delays...)})
		for i, m := 0, r.rng(0, 3); i < m; i++ {
			add(Op{W: w, K: "send", C: c, A: r.pick(1, 3, 10), D: r.dur(delays...)})
		}
		if r.chance(1, 4) {
			add(Op{W: w, K: r.picks("eof", "abort"), C: c, D: r.dur(delays...)})
		}
		// The owner.
		w = 10 + c
		for i, m := 0, r.rng(0, steps); i < m; i++ {
			d := r.dur(delays...)
			switch r.n(5) {
			case 0, 1:
				add(Op{W: w, K: "read", C: c, A: r.pick(1, 4, 16), D: d})
			case 2:
				add(Op{W: w, K: "inuse", C: c, D: d})
			case 3:
				add(Op{W: w, K: "srd", C: c, A: r.pick(0, 3, 1000), D: d})
				add(Op{W: w, K: "read", C: c, A: 8})
			case 4:
				add(Op{W: w, K: "write", C: c, A: 5, D: d})
			}
			switch r.n(4) {
			case 0, 1:
				add(Op{W: w, K: "idle", C: c, D: r.dur(delays...)})
			case 2:
				add(Op{W: w, K: "srd", C: c, A: 0, D: r.dur(delays...)})
			}
		}
		switch r.n(6) {
		case 0, 1, 2:
			add(Op{W: w, K: "close", C: c, D: r.dur(delays...)})
		case 3:
			add(Op{W: w, K: "disown", C: c, D: r.dur(delays...)})
			if r.chance(1, 2) {
				add(Op{W: w, K: r.picks("read", "write", "idle", "inuse", "srd", "close", "disown"), C: c, A: 4, D: r.dur(delays...)})
			}
			if r.chance(1, 3) {
				add(Op{W: w, K: "close", C: c, D: r.dur(delays...)})
			}
		}
	}
	// Rogue users of somebody's connection.
	for i, m := 0, r.n(rogues); i < m; i++ {
		w := 200 + i
		for j, q := 0, r.rng(1, 3); j < q; j++ {
			add(Op{W: w, K: r.picks("close", "close", "disown", "idle", "idle", "inuse", "srd", "read", "disown"), C: r.n(nc), A: r.pick(1, 8), D: r.dur(delays...)})
		}
	}
	// Controllers.
	nctl := r.rng(1, ctls)
	drained := false
	for i := 0; i < nctl; i++ {
		w := 300 + i
		for j, q := 0, r.rng(1, 3); j < q; j++ {
			d := r.dur(delays...)
			switch r.n(6) {
			case 0, 1, 2:
				add(Op{W: w, K: "closeidle", D: d})
			case 3, 4:
				if r.chance(1, 2) {
					add(Op{W: w, K: "lclose", D: d})
				}
				if r.chance(1, 4) {
					add(Op{W: w, K: "drainall", D: r.dur(delays...)})
				} else {
					add(Op{W: w, K: "drain", D: r.dur(delays...)})
				}
				drained = true
			case 5:
				add(Op{W: w, K: "lclose", D: d})
			}
		}
	}
	if !drained && r.chance(2, 3) {
		add(Op{W: 310, K: "drain", D: r.dur(delays...)})
	}
	for c := 0; c < nc; c++ {
		if r.chance(1, 6) {
			p.Faults = append(p.Faults, Fault{K: "short-read", C: c, A: r.pick(1, 2)})
		}
		if r.chance(1, 8) {
			p.Faults = append(p.Faults, Fault{K: "close-error", C: c})
		}
		if r.chance(1, 8) {
			p.Faults = append(p.Faults, Fault{K: "slow-close", C: c, A: r.pick(1, 3, 50)})
		}
		if r.chance(1, 6) {
			p.Faults = append(p.Faults, Fault{K: "read-delay", C: c, A: r.pick(1, 3)})
		}
		if r.chance(1, 8) {
			p.Faults = append(p.Faults, Fault{K: "read-timeout", C: c, A: 1})
		}
		if r.chance(1, 12) {
			p.Faults = append(p.Faults, Fault{K: "read-data-and-error", C: c, A: r.pick(1, 1, 3)})
		}
		if r.chance(1, 10) {
			p.Faults = append(p.Faults, Fault{K: "write-error", C: c, A: 3})
		}
	}
	if r.chance(1, 6) {
		p.Faults = append(p.Faults, Fault{K: "accept-temp", C: r.n(3)})
	}
	if r.chance(1, 4) {
		p.Faults = append(p.Faults, Fault{K: "slow-accept", C: r.n(nc), A: r.pick(1, 3)})
	}
	p.Stalls = r.stalls(2, 300, time.Millisecond, 4*time.Millisecond)
}

func applyConnFaults(p *Plan, get func(i int) *CS) {
	for _, f := range p.Faults {
		cs := get(f.C)
		if cs == nil {
			continue
		}
		switch f.K {
		case "short-read":
			cs.maxRead = f.A
		case "close-error":
			cs.closeErr = true
		case "slow-close":
			cs.closeDelay = int64(f.A) * int64(time.Millisecond)
		case "read-delay":
			cs.readDelay = int64(f.A) * int64(time.Millisecond)
		case "read-timeout":
			cs.tempRead = f.A
		case "read-data-and-error":
			cs.bothRead = f.A
		case "write-error":
			cs.wErrAt = f.A
		case "slow-reader":
			cs.outCap = f.A
		}
	}
}

func lisRun(x *X) {
	p := x.plan
	s := &lisState{x: x, mode: p.knob("mode")}
	x.state = s
	s.ln = newSListener(x, "server:80")
	for i := 0; i < p.knob("conns"); i++ {
		c := &lisConn{cs: newCS(x, i), ready: make(chan struct{})}
		c.cs.onClose = func() { s.onClose(c) }
		s.conns = append(s.conns, c)
	}
	applyConnFaults(p, func(i int) *CS {
		if i < len(s.conns) {
			return s.conns[i].cs
		}
		return nil
	})
	for _, f := range p.Faults {
		switch f.K {
		case "accept-temp":
			s.ln.errAt[f.C] = 1
		case "slow-accept":
			s.ln.delayAt[f.C] = int64(f.A) * int64(time.Millisecond)
		}
	}
	switch s.mode {
	case modeManual:
		s.t = listener.Wrap(s.ln, listener.Manual)
	case modeAutomatic:
		s.t = listener.Wrap(s.ln, listener.Automatic)
	default:
		s.t = listener.Wrap(s.ln, listener.Deadline)
	}
	for i := 0; i < p.knob("acceptors"); i++ {
		s.accWG.Add(1)
		go s.acceptor()
	}
	wg := x.runActors(s.do)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	ok := waitCh(done, time.Second)
	// Everything has had plenty of time: whatever still runs is blocked in a
	// read nobody answers, or in a drain.
	sleep(int64(10 * time.Second))
	s.quiesce()
	s.ln.Close()
	for _, c := range s.conns {
		c.cs.SendEOF()
	}
	if !waitAll(&s.accWG, time.Hour) {
		x.Fail("C03", "accept-hang", "Accept did not return after its listener was closed")
	}
	// Unblock owners of connections that never arrived.
	for _, c := range s.conns {
		s.giveUp(c)
	}
	if !ok && !waitCh(done, time.Hour) {
		x.Fail("C03", "op-hang", "an operation on a connection or listener never returned")
	}
	// The server finishes with every connection that is left.
	for _, c := range s.conns {
		if c.wc != nil && c.disownDone == 0 && !c.cs.isClosed() {
			s.explicitClose(c)
		}
	}
	if !waitAll(&s.drainWG, time.Hour) {
		x.Fail("C03", "drain-hang", "Drain did not return although every connection was closed or disowned")
	}
	s.final()
	if p.Scn != "lisleak" {
		return
	}
	for _, c := range s.conns {
		c.wc = nil
	}
}

func (s *lisState) giveUp(c *lisConn) {
	select {
	case <-c.ready:
	default:
		c.refused = true
		close(c.ready)
	}
}

// ---- acceptor ----

func (s *lisState) acceptor() {
	defer s.accWG.Done()
	errs := 0
	for {
		st := s.x.Seq()
		before := s.ln.acceptsNow()
		_ = before
		nc, err := s.t.Accept()
		if err != nil {
			s.acceptFailed(err)
			errs++
			if s.ln.isClosed() || errs > 20 {
				return
			}
			continue
		}
		c := s.accepted(nc, st)
		if c != nil {
			close(c.ready)
		}
	}
}

//go:norace
func (l *SListener) acceptsNow() int { return l.accepts }

//go:norace
func (l *SListener) isClosed() bool { return l.closeSeq != 0 }

//go:norace
func (s *lisState) acceptFailed(err error) {
	s.x.Ev("accept-err", 0, 0, 0)
}

//go:norace
func (s *lisState) accepted(nc net.Conn, start uint64) *lisConn {
	ra := nc.RemoteAddr()
	for _, c := range s.conns {
		if ra.String() == "client:"+itoa(c.cs.id) {
			c.wc = nc
			c.acceptRet = s.x.Ev("accept", int64(c.cs.id), 0, 0)
			if s.drainRet != 0 && start > s.drainRet {
				s.x.Fail("C04", "accept-after-drain", "Accept, called after Drain had returned, returned connection %d", c.cs.id)
			} else if s.drainRet != 0 && c.cs.closeSeq == 0 {
				s.x.Fail("C04", "live-accept-after-drain", "Accept returned open connection %d after Drain had returned", c.cs.id)
				s.x.Fail("C03", "live-accept-after-drain", "Accept returned open connection %d after Drain had returned", c.cs.id)
			}
			return c
		}
	}
	return nil
}

// ---- the operations ----

func (s *lisState) do(w int, o Op) {
	switch o.K {
	case "closeidle", "drain", "drainall", "lclose":
		s.control(o)
		return
	}
	if o.C >= len(s.conns) {
		return
	}
	c := s.conns[o.C]
	switch o.K {
	case "dial":
		if !s.ln.Dial(c.cs) {
			s.x.Ev("refused", int64(o.C), 0, 0)
		}
		return
	case "send":
		c.cs.Send(make([]byte, o.A))
		return
	case "eof":
		s.x.FaultFired("client-eof")
		c.cs.SendEOF()
		return
	case "abort":
		s.x.FaultFired("client-reset")
		c.cs.Abort()
		return
	}
	<-c.ready
	if c.refused {
		return
	}
	id := int64(o.C)
	switch o.K {
	case "read":
		buf := make([]byte, o.A)
		st := s.useBegin(c, s.mode != modeManual)
		n, err := c.wc.Read(buf)
		s.readEnd(c, st, n, err)
	case "write":
		n, err := c.wc.Write(make([]byte, o.A))
		s.x.Ev("write", id, int64(n), b2i(err != nil))
	case "inuse":
		st := s.useBegin(c, true)
		err := listener.MarkInUse(c.wc)
		s.useEnd(c, st, true, true)
		s.managed("MarkInUse", err)
	case "idle":
		st := s.idleBegin(c, true)
		err := listener.MarkIdle(c.wc)
		s.idleEnd(c, st, true)
		s.managed("MarkIdle", err)
	case "srd":
		st := s.idleBegin(c, s.mode == modeDeadline)
		var t time.Time
		if o.A > 0 {
			t = time.Now().Add(time.Duration(o.A) * time.Millisecond)
		}
		c.wc.SetReadDeadline(t)
		s.idleEnd(c, st, s.mode == modeDeadline)
	case "close":
		s.explicitClose(c)
	case "disown":
		s.disownBegin(c)
		err := listener.Disown(c.wc)
		s.disownEnd(c, err)
	}
}

//go:norace
func (s *lisState) managed(what string, err error) {
	if err != nil {
		s.x.Fail("C01", "not-managed", "%s on an accepted connection: %v", what, err)
	}
}

//go:norace
func (s *lisState) useBegin(c *lisConn, uses bool) uint64 {
	st := s.x.Ev("use-begin", int64(c.cs.id), 0, 0)
	if uses {
		if c.useInFlight == 0 {
			c.soloUse = st
		}
		c.useInFlight++
		c.uses++
		c.anyUseStart = st
	}
	return st
}

//go:norace
func (s *lisState) useEnd(c *lisConn, st uint64, uses, certain bool) {
	s.x.Ev("use-end", int64(c.cs.id), b2i(uses), b2i(certain))
	if uses {
		c.useInFlight--
		c.lastUseRet = runtimeSeq
		if certain && st > c.useStart {
			c.useStart = st
		}
	}
}

//go:norace
func (s *lisState) readEnd(c *lisConn, st uint64, n int, err error) {
	from := st
	data := err == nil || n > 0
	if data && c.soloUse == st && c.useInFlight == 1 && c.anyUseStart == st && c.cs.lastRead > st {
		// The data came in then: whatever called the connection idle before
		// spoke of the time before that.
		from = c.cs.lastRead
	}
	s.useEnd(c, from, s.mode != modeManual, data)
	s.x.Ev("read", int64(c.cs.id), int64(n), b2i(err != nil))
	// A read that finished after the connection had been closed under it
	// must not hand out data.
	if data && c.cs.closeSeq != 0 && c.cs.closeSeq < c.cs.lastRead && c.disownInvoked == 0 && c.cs.lastRead > st && !c.othersRead(st) {
		s.x.Fail("C02", "read-after-close", "Read on connection %d returned %d bytes and error %v although the connection had been closed before the read finished", c.cs.id, n, err)
	}
}

//go:norace
func (c *lisConn) othersRead(st uint64) bool {
	return c.useInFlight > 0 || c.anyUseStart != st && c.anyUseStart != 0 && c.anyUseStart > st
}

//go:norace
func (s *lisState) idleBegin(c *lisConn, idles bool) uint64 {
	st := s.x.Ev("idle-begin", int64(c.cs.id), b2i(idles), 0)
	if idles {
		c.idleInFlight++
	}
	return st
}

//go:norace
func (s *lisState) idleEnd(c *lisConn, st uint64, idles bool) {
	e := s.x.Ev("idle-end", int64(c.cs.id), b2i(idles), 0)
	if idles {
		c.idleInFlight--
		c.idleRet = e
		if st > c.idleStart {
			c.idleStart = st
		}
		// Drain already returned, so nobody will come back for it.
		if s.drainRet != 0 && s.drainRet < st && s.definitelyIdle(c, st) && !c.cs.gone() && c.disownInvoked == 0 && c.closeInvoked == 0 {
			s.x.Fail("C04", "idle-after-drain", "connection %d became idle after Drain and is still open", c.cs.id)
		}
	}
}

//go:norace
func (c *CS) gone() bool { return c.closeSeq != 0 }

func (s *lisState) explicitClose(c *lisConn) {
	s.closeBegin(c)
	err := c.wc.Close()
	s.closeEnd(c, err)
}

//go:norace
func (s *lisState) closeBegin(c *lisConn) {
	e := s.x.Ev("close-begin", int64(c.cs.id), 0, 0)
	if c.closeInvoked == 0 {
		c.closeInvoked = e
	}
	if c.disownDone != 0 {
		c.closeDisowned++
	}
	c.closeInFlight++
}

//go:norace
func (s *lisState) closeEnd(c *lisConn, err error) {
	s.x.Ev("close-end", int64(c.cs.id), b2i(err != nil), 0)
	c.closeInFlight--
	c.closeRets++
	if err == nil {
		c.closeNil++
		if c.closeNil > 1 && c.disownInvoked == 0 {
			s.x.Fail("C06", "close-twice-nil", "two Close calls on connection %d both reported success", c.cs.id)
		}
	}
	if !c.cs.isClosed() {
		s.x.Fail("C06", "close-no-effect", "Close on connection %d returned (%v) but the connection underneath is still open", c.cs.id, err)
	}
}

//go:norace
func (s *lisState) disownBegin(c *lisConn) {
	e := s.x.Ev("disown-begin", int64(c.cs.id), 0, 0)
	if c.disownInvoked == 0 {
		c.disownInvoked = e
	}
}

//go:norace
func (s *lisState) disownEnd(c *lisConn, err error) {
	e := s.x.Ev("disown-end", int64(c.cs.id), b2i(err != nil), 0)
	if err == nil {
		c.disownNil++
		if c.disownNil > 1 {
			s.x.Fail("C05", "disown-twice", "connection %d was disowned twice without an error", c.cs.id)
		}
		if c.disownDone == 0 {
			c.disownDone = e
		}
		s.x.Probe("disowned")
		if c.cs.gone() {
			s.x.Probe("disowned-after-close")
		}
	} else if c.disownNil == 0 && !c.cs.gone() && c.disownInFlightOnly(err) {
		s.x.Fail("C05", "disown-refused", "the only Disown of open connection %d failed: %v", c.cs.id, err)
	}
}

//go:norace
func (c *lisConn) disownInFlightOnly(err error) bool {
	return c.closeInvoked == 0 && c.disownInvoked != 0 && c.disownCalls() == 1
}

//go:norace
func (c *lisConn) disownCalls() int {
	n := 0
	for i := 0; i < curX.nev && i < maxEv; i++ {
		if evBuf[i].K == "disown-begin" && evBuf[i].A == int64(c.cs.id) {
			n++
		}
	}
	return n
}

// definitelyInUse: some operation that marks the connection in use has
// completed, and no operation that marks it idle overlapped or followed it.
//
//go:norace
func (s *lisState) definitelyInUse(c *lisConn) bool {
	return c.useStart != 0 && c.idleInFlight == 0 && c.idleRet < c.useStart
}

// definitelyIdle: since from at the latest, no operation has run that could
// have marked the connection in use after it was last marked idle.
//
//go:norace
func (s *lisState) definitelyIdle(c *lisConn, from uint64) bool {
	if c.useInFlight > 0 || c.acceptRet == 0 {
		return false
	}
	if c.uses == 0 {
		return c.acceptRet < from
	}
	return c.idleStart != 0 && c.lastUseRet < c.idleStart && c.idleRet <= from || c.idleStart == from && c.lastUseRet < c.idleStart
}

//go:norace
func (s *lisState) onClose(c *lisConn) {
	if c.disownDone != 0 {
		if c.closeInvoked == 0 {
			s.x.Fail("C05", "disowned-closed", "connection %d was closed after Disown by somebody else than its owner (%s)", c.cs.id, c.cs.closeStack)
		}
		return
	}
	if c.closeInvoked == 0 && c.disownInvoked == 0 && s.closers == 0 && s.drainInv == 0 {
		s.x.Fail("C04", "closed-for-nothing", "connection %d was closed although no CloseIdle is running and nobody has called Drain, DrainAll or its Close (%s)", c.cs.id, c.cs.closeStack)
	}
	if c.acceptRet == 0 || c.disownInvoked != 0 {
		return
	}
	if c.closeInvoked == 0 && s.drainAllInv == 0 && s.definitelyInUse(c) {
		s.x.Fail("C01", "in-use-closed", "connection %d was closed while in use: nobody had called Close on it or DrainAll (%s)", c.cs.id, c.cs.closeStack)
	}
	if s.definitelyInUse(c) {
		s.x.Probe("in-use-closed-by-force-or-owner")
	}
	if c.closeInvoked == 0 {
		s.x.Probe("closed-by-listener")
	}
}

// ---- controllers ----

func (s *lisState) control(o Op) {
	switch o.K {
	case "lclose":
		s.x.Ev("t-close", 0, 0, 0)
		s.t.Close()
	case "closeidle":
		st := s.ctlBegin("closeidle")
		s.t.CloseIdle()
		s.closeIdleEnd(st)
	case "drain", "drainall":
		s.drainWG.Add(1)
		go func() {
			defer s.drainWG.Done()
			st := s.ctlBegin(o.K)
			if o.K == "drain" {
				s.t.Drain()
			} else {
				s.t.DrainAll()
			}
			s.drainEnd(st)
		}()
		Y()
	}
}

//go:norace
func (s *lisState) ctlBegin(k string) uint64 {
	e := s.x.Ev(k, 0, 0, 0)
	s.closers++
	if k == "drain" || k == "drainall" {
		s.draining++
		if s.drainInv == 0 {
			s.drainInv = e
		}
	}
	if k == "drainall" && s.drainAllInv == 0 {
		s.drainAllInv = e
	}
	return e
}

//go:norace
func (s *lisState) closeIdleEnd(st uint64) {
	s.x.Ev("closeidle-end", 0, 0, 0)
	s.closers--
	alone := s.closers == 0 && s.closerSeq < st
	s.closerSeq = runtimeSeq
	for _, c := range s.conns {
		if c.acceptRet != 0 && c.acceptRet < st && s.definitelyIdle(c, st) && c.disownInvoked == 0 && c.closeInvoked == 0 && !c.cs.gone() && alone {
			s.x.Fail("C04", "idle-survives", "connection %d was idle all through CloseIdle and is still open", c.cs.id)
		}
	}
}

//go:norace
func (s *lisState) drainEnd(st uint64) {
	e := s.x.Ev("drain-end", 0, 0, 0)
	s.closers--
	s.closerSeq = e
	s.draining--
	if s.drainRet == 0 {
		s.drainRet = e
	}
	s.x.Probe("drain-returned")
	for _, c := range s.conns {
		if c.acceptRet != 0 && c.disownInvoked == 0 && !c.cs.isClosed() {
			s.x.Fail("C03", "drain-early", "Drain returned while connection %d was still open", c.cs.id)
			if s.definitelyIdle(c, st) {
				s.x.Fail("C04", "idle-survives", "Drain returned while idle connection %d was still open", c.cs.id)
			}
		}
	}
}

// quiesce looks at the state when nothing can move any more.
//
//go:norace
func (s *lisState) quiesce() {
	e := s.x.Ev("quiesce", 0, 0, 0)
	for _, c := range s.conns {
		if c.acceptRet == 0 || c.disownInvoked != 0 || c.cs.gone() || c.closeInvoked != 0 {
			continue
		}
		if s.drainInv != 0 && s.draining > 0 {
			if s.definitelyIdle(c, e) {
				s.x.Fail("C04", "idle-in-drain", "a drain is in progress and idle connection %d is still open", c.cs.id)
			}
			if s.definitelyInUse(c) {
				s.x.Probe("drain-waits-for-in-use")
			}
		}
	}
}

//go:norace
func (s *lisState) final() {
	for _, c := range s.conns {
		if c.cs.acceptedSeq == 0 {
			continue
		}
		if c.acceptRet == 0 {
			// Handed to Accept, which refused it.
			s.x.Probe("accept-refused")
			if s.drainInv == 0 {
				s.x.Fail("C04", "refused-for-nothing", "Accept refused connection %d although nobody has called Drain or DrainAll", c.cs.id)
			}
			if !c.cs.isClosed() {
				s.x.Fail("C04", "refused-left-open", "Accept refused connection %d without closing it", c.cs.id)
			}
		}
		if c.disownInvoked == 0 {
			if c.cs.closeCalls > 1 {
				s.x.Fail("C06", "closed-twice", "the connection under connection %d was closed %d times", c.cs.id, c.cs.closeCalls)
			}
			if !c.cs.isClosed() {
				s.x.Fail("C06", "never-closed", "connection %d was never closed", c.cs.id)
			}
		} else if c.disownDone != 0 && c.cs.closeCalls > c.closeRets+1 {
			s.x.Fail("C06", "closed-twice", "the connection under disowned connection %d was closed %d times for %d Close calls", c.cs.id, c.cs.closeCalls, c.closeRets)
		}
		if c.disownDone != 0 && !c.cs.gone() {
			s.x.Probe("disowned-survives")
		}
	}
}

// After (lisleak): a connection the listener is done with must be collectable
// while the listener is alive.
func lisAfter(x *X) {
	s := x.state.(*lisState)
	for _, c := range s.conns {
		c.wc = nil
	}
	runtime.GC()
	runtime.GC()
	for _, c := range s.conns {
		if c.cs.weakConn == (weak.Pointer[SConn]{}) {
			continue
		}
		if c.cs.gone() || c.disownDone != 0 {
			if c.cs.weakConn.Value() != nil {
				what := "closed"
				if c.disownDone != 0 {
					what = "disowned"
				}
				x.Fail("C07", "retained-"+what, "the listener still holds %s connection %d", what, c.cs.id)
			} else {
				x.Probe("collected")
			}
		}
	}
	runtime.KeepAlive(s.t)
}

func init() {
	register(&Scenario{Name: "lis", Gen: lisGen, Run: lisRun})
	register(&Scenario{Name: "lisleak", Gen: lisGen, Run: lisRun, After: lisAfter})
}
