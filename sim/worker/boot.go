package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"os/signal"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/zenazn/goji/bind"
)

// The environment a goji program starts in: flags, environment variables,
// descriptors passed by Einhorn or systemd, and Einhorn's control socket.

var bootVars = []string{"GOJI_BIND", "PORT", "EINHORN_MASTER_PID", "EINHORN_FD_COUNT", "EINHORN_SOCK_PATH",
	"EINHORN_FD_0", "EINHORN_FD_1", "EINHORN_FD_2", "LISTEN_PID", "LISTEN_FDS"}

func clearBootEnv() {
	for _, v := range bootVars {
		os.Unsetenv(v)
	}
	os.Args = os.Args[:1]
}

const (
	noSupervisor = iota
	superOK
	superStale   // the variables were meant for some other process
	superGarbled // the number of descriptors is garbled
	superPartial // Einhorn: the last descriptor's number is missing
	superNoPid   // there is no word of whom the variables were meant for
	superBadPid  // the same, but garbled
)

// bindArgs are the values of -bind and GOJI_BIND that are tried.
var bindArgs = []string{"", ":9001", "127.0.0.1:9002", "[::1]:80", "/run/sim.sock", "./sim.sock", ".sim.sock", "../sim/sock",
	"fd@3", "fd@4", "fd@17", "einhorn@0", "einhorn@1", "einhorn@2",
	"fd@x", "einhorn@", "einhorn@9", "einhorn@-1", "bogus", "8000"}

const einhornSock = "/run/einhorn.sock"

func bootGen(r *Rand, p *Plan) {
	k := p.Knobs
	if r.chance(1, 2) {
		k["einhorn"] = r.pick(superOK, superOK, superOK, superOK, superStale, superGarbled, superPartial, superNoPid, superBadPid)
	}
	k["einhornfds"] = r.pick(0, 1, 1, 2, 3)
	k["stalewho"] = r.n(4)
	k["staleextra"] = r.pick(0, 0, 1)
	if r.chance(1, 3) {
		k["systemd"] = r.pick(superOK, superOK, superOK, superStale, superGarbled, superNoPid, superBadPid)
	}
	k["systemdfds"] = r.pick(0, 1, 1, 2)
	if r.chance(1, 4) {
		k["port"] = 7000 + r.n(10)
	}
	if r.chance(1, 8) {
		k["gojibind"] = r.n(len(bindArgs))
	}
	if r.chance(1, 7) {
		k["flag"] = r.n(len(bindArgs))
		k["flagform"] = r.n(3)
	}
	k["readies"] = r.pick(0, 0, 0, 1, 3)
	for i := 0; i < k["readies"]; i++ {
		p.Ops = append(p.Ops, Op{W: 400 + i, K: "ready", D: r.dur(0, 0, time.Millisecond, 5*time.Millisecond)})
	}
	if k["einhorn"] == superOK || k["einhorn"] == superGarbled {
		for i := range p.Ops {
			if p.Ops[i].K == "signal" && r.chance(1, 2) {
				p.Ops[i].A = 2
			}
		}
	}
	if k["entry"] == entryListener {
		return
	}
	if r.chance(1, 12) {
		p.Faults = append(p.Faults, Fault{K: "bind-error"})
	}
}

// bootFaults adds what can go wrong with the acknowledgement.
func bootFaults(r *Rand, p *Plan) {
	if p.Knobs["einhorn"] == 0 {
		return
	}
	if r.chance(1, 8) {
		p.Faults = append(p.Faults, Fault{K: r.picks("ack-refused", "ack-broken", "ack-short"), A: r.pick(0, 5, 20)})
	}
	if r.chance(1, 5) {
		p.Faults = append(p.Faults, Fault{K: "ack-slow", A: r.pick(1, 5, 30)})
	}
}

// boot is the environment and what was seen of it.
type boot struct {
	s *grcState

	// What is expected.
	einhorn bool // the program runs under Einhorn
	nfds    int
	efd     [3]int
	sysfds  int
	network string
	addr    string
	fd      int    // the descriptor to use, or -1
	master  bool   // the parent is Einhorn, whatever else is wrong
	sniff   string // what the environment suggests
	fatal   string // why the program has to end before serving

	// Faults.
	bindErr            bool
	ackRefused         bool
	ackBroken          int // fails after so many bytes, or -1
	ackSlow            int64
	ackFailed          bool
	exited             bool
	bound              int
	boundSeq           uint64
	files              []bootFile
	cloexec            map[int]bool
	dials              int
	acks               int
	ackSeq             uint64
	ackConns           []*ackConn
	readyRet, readyInv int
	served             bool
}

type bootFile struct {
	f  *os.File
	fd int
}

func (s *grcState) bootSetup() {
	p := s.x.plan
	b := &boot{s: s, fd: -1, ackBroken: -1, cloexec: map[int]bool{}}
	s.boot = b
	for _, f := range p.Faults {
		switch f.K {
		case "bind-error":
			b.bindErr = true
		case "ack-refused":
			b.ackRefused = true
		case "ack-broken":
			b.ackBroken = 0
		case "ack-short":
			b.ackBroken = 1 + f.A
		case "ack-slow":
			b.ackSlow += int64(f.A) * int64(time.Millisecond)
		}
	}
	s.tol += b.ackSlow
	s.tol0 += b.ackSlow
	for i := range b.efd {
		b.efd[i] = 7 + 2*i
	}
	// The supervisors' variables.
	set := func(k, v string) { os.Setenv(k, v) }
	if e := p.knob("einhorn"); e != noSupervisor {
		pid, n := os.Getppid(), p.knob("einhornfds")
		if e == superStale {
			pid = []int{pid + 1, os.Getpid(), -pid, 0}[p.knob("stalewho")%4]
		}
		switch e {
		case superNoPid:
		case superBadPid:
			set("EINHORN_MASTER_PID", "x"+strconv.Itoa(pid))
		default:
			set("EINHORN_MASTER_PID", strconv.Itoa(pid))
		}
		set("EINHORN_FD_COUNT", strconv.Itoa(n))
		if e == superGarbled {
			set("EINHORN_FD_COUNT", "many")
		}
		set("EINHORN_SOCK_PATH", einhornSock)
		for i := 0; i < n; i++ {
			if e != superPartial || i < n-1 {
				set("EINHORN_FD_"+itoa(i), strconv.Itoa(b.efd[i]))
			}
		}
		if p.knob("staleextra") == 1 {
			// Left over from somebody else.
			for i := n; i < len(b.efd); i++ {
				set("EINHORN_FD_"+itoa(i), strconv.Itoa(b.efd[i]))
			}
		}
		b.master = e == superOK || e == superGarbled || e == superPartial
		if (e == superOK || e == superPartial) && n > 0 {
			b.einhorn, b.nfds = true, n
			if e == superPartial {
				b.fatal = "Einhorn did not say what its last descriptor is"
			}
		}
	}
	if e := p.knob("systemd"); e != noSupervisor {
		pid := os.Getpid()
		if e == superStale {
			pid = []int{pid + 1, os.Getppid(), -pid, 0}[p.knob("stalewho")%4]
		}
		switch e {
		case superNoPid:
		case superBadPid:
			set("LISTEN_PID", strconv.Itoa(pid)+" ")
		default:
			set("LISTEN_PID", strconv.Itoa(pid))
		}
		set("LISTEN_FDS", strconv.Itoa(p.knob("systemdfds")))
		if e == superGarbled {
			set("LISTEN_FDS", "x")
		}
		if e == superOK {
			b.sysfds = p.knob("systemdfds")
		}
	}
	if n := p.knob("port"); n != 0 {
		set("PORT", strconv.Itoa(n))
	}
	gb := bindArgs[p.knob("gojibind")%len(bindArgs)]
	if gb != "" {
		set("GOJI_BIND", gb)
	}
	fl := bindArgs[p.knob("flag")%len(bindArgs)]
	os.Args = os.Args[:1]
	if fl != "" {
		switch p.knob("flagform") {
		case 0:
			os.Args = append(os.Args, "-bind", fl)
		case 1:
			os.Args = append(os.Args, "-bind="+fl)
		default:
			os.Args = append(os.Args, "--bind="+fl)
		}
	}
	// What to bind to: the flag, else the environment, else the default.
	switch {
	case gb != "":
		b.sniff = gb
	case b.einhorn:
		b.sniff = "einhorn@0"
	case b.sysfds > 0:
		b.sniff = "fd@3"
	case p.knob("port") != 0:
		b.sniff = ":" + strconv.Itoa(p.knob("port"))
	}
	arg := ":8000"
	if b.sniff != "" {
		arg = b.sniff
	}
	if fl != "" {
		arg = fl
	}
	if p.knob("entry") != entryListener {
		b.resolve(arg)
		s.srvs[0].ln.unbound = true
		s.srvs[0].tlsOn = p.knob("entry") == entryServeTLS
		if b.bindErr && b.fatal == "" {
			b.fatal = "the socket cannot be had"
		}
	}
	if b.einhorn && (b.ackRefused || b.ackBroken >= 0) {
		b.ackFailed = true
	}
	net.SimListen = b.listen
	net.SimFileListener = b.fileListener
	net.SimDial = b.dial
	os.SimNewFile = b.newFile
	syscall.SimCloseOnExec = b.closeOnExec
	s.x.stop = append(s.x.stop, func() {
		for _, f := range b.files {
			f.f.Close()
		}
	})
}

// bootSniff checks what the program thinks of its environment.
func (s *grcState) bootSniff() {
	if got := bind.Sniff(); got != s.boot.sniff {
		s.x.Fail("C50", "sniff", "in this environment Sniff returns %q instead of %q", got, s.boot.sniff)
	}
}

// resolve works out what a bind argument means.
func (b *boot) resolve(arg string) {
	bad := func(why string) {
		if b.fatal == "" {
			b.fatal = why
		}
	}
	switch {
	case strings.Contains(arg, ":"):
		b.network, b.addr = "tcp", arg
	case strings.HasPrefix(arg, "/"), strings.HasPrefix(arg, "."):
		b.network, b.addr = "unix", arg
	case strings.HasPrefix(arg, "fd@"):
		n, err := strconv.Atoi(arg[3:])
		if err != nil {
			bad("there is no descriptor " + arg)
			return
		}
		b.fd = n
	case strings.HasPrefix(arg, "einhorn@"):
		n, err := strconv.Atoi(arg[8:])
		if err != nil || !b.einhorn || n < 0 || n >= b.nfds {
			bad("there is no socket " + arg)
			return
		}
		b.fd = b.efd[n]
	default:
		bad("there is no such thing as " + arg)
	}
}

func (b *boot) describe() string {
	if b.fatal != "" {
		return ""
	}
	return fmt.Sprintf(" (%s)", strings.Join(lastLog(), "; "))
}

//go:norace
func lastLog() []string {
	if nLog > 0 && nLog <= len(logLines) {
		return []string{strings.TrimSpace(logLines[nLog-1])}
	}
	return nil
}

// fatalOK: there is a reason for the program to end early.
//
//go:norace
func (b *boot) fatalOK() bool { return b.fatal != "" || b.ackFailed }

var errAck = errors.New("sim: connection refused")

func (b *boot) listen(network, addr string) (net.Listener, error) {
	err := b.noteBind(network, addr, -1)
	Y()
	if err {
		return nil, errInUse
	}
	b.s.srvs[0].ln.Bind()
	return b.s.srvs[0].ln, nil
}

func (b *boot) newFile(fd uintptr, name string) *os.File {
	f, err := os.Open(os.DevNull)
	if err != nil {
		return nil
	}
	b.noteFile(f, int(fd))
	return f
}

//go:norace
func (b *boot) noteFile(f *os.File, fd int) {
	b.s.x.Ev("newfile", int64(fd), 0, 0)
	b.files = append(b.files, bootFile{f, fd})
}

//go:norace
func (b *boot) fdOf(f *os.File) int {
	for _, x := range b.files {
		if x.f == f {
			return x.fd
		}
	}
	return -2
}

func (b *boot) fileListener(f *os.File) (net.Listener, error) {
	err := b.noteBind("", "", b.fdOf(f))
	Y()
	if err {
		return nil, syscall.ENOTSOCK
	}
	b.s.srvs[0].ln.Bind()
	if b.s.x.plan.Seed%3 == 0 {
		return b.s.srvs[0].ln, nil
	}
	return net.SimTCPListener(b.s.srvs[0].ln), nil
}

//go:norace
func (b *boot) noteBind(network, addr string, fd int) bool {
	x := b.s.x
	x.Ev("bind", int64(fd), 0, 0)
	got := network + " " + addr
	if fd != -1 {
		got = "descriptor " + itoa(fd)
	}
	want := b.network + " " + b.addr
	if b.fd >= 0 {
		want = "descriptor " + itoa(b.fd)
	}
	switch {
	case x.plan.knob("entry") == entryListener:
		x.Fail("C50", "bound-uninvited", "a program that was given its listener opened %s", got)
	case b.network == "" && b.fd < 0:
		x.Fail("C50", "bound-nonsense", "%s, but the program opened %s", b.fatal, got)
	case got != want:
		x.Fail("C50", "bound-wrong", "the program opened %s instead of %s", got, want)
	}
	b.bound++
	b.boundSeq = x.Seq()
	if b.bound > 1 {
		x.Fail("C50", "bound-twice", "the program opened a second socket: %s", got)
	}
	if b.bindErr {
		x.FaultFired("bind-error")
		return true
	}
	if fd >= 0 {
		x.Probe("bound-descriptor")
	} else {
		x.Probe("bound-" + network)
	}
	return false
}

//go:norace
func (b *boot) closeOnExec(fd int) {
	b.cloexec[fd] = true
}

// ready checks what has to hold when the program is up: as it accepts its
// first connection, or tells Einhorn that it will.
//
//go:norace
func (b *boot) up(what string) {
	x := b.s.x
	for i := 0; i < b.nfds; i++ {
		if !b.cloexec[b.efd[i]] {
			x.Fail("C50", "descriptor-inherited", "%s: Einhorn's descriptor %d would be passed on to child processes", what, b.efd[i])
		}
	}
	for i := 0; i < b.sysfds; i++ {
		if !b.cloexec[3+i] {
			x.Fail("C50", "descriptor-inherited", "%s: systemd's descriptor %d would be passed on to child processes", what, 3+i)
		}
	}
	for _, f := range b.files {
		if fdNow(f.f) {
			x.Fail("C50", "descriptor-open", "%s: descriptor %d is still open besides the listener made from it, and would keep the socket open", what, f.fd)
		}
	}
	if x.plan.knob("entry") != entryListener && b.bound == 0 {
		x.Fail("C51", "unbound", "%s before the socket was opened", what)
	}
	if w := signal.SimWanted(syscall.SIGUSR2); w != b.master {
		x.Fail("C51", "einhorn-signal", "%s: the program takes care of SIGUSR2: %v; its parent is Einhorn: %v", what, w, b.master)
	}
	if !signal.SimWanted(os.Interrupt) {
		x.Fail("C16", "signals-unhandled", "%s although an interrupt would still kill the program", what)
	}
}

func fdNow(f *os.File) bool { return f.Fd() != ^uintptr(0) }

// ---- Einhorn's control socket ----

type ackConn struct {
	b      *boot
	mu     sync.Mutex
	got    []byte
	closed bool
	broken bool
	done   bool
}

func (b *boot) dial(network, addr string) (net.Conn, error) {
	refused := b.noteDial(network, addr)
	Y()
	if b.ackSlow > 0 {
		b.s.x.FaultFired("ack-slow")
		time.Sleep(time.Duration(b.ackSlow))
	}
	if refused {
		b.s.x.FaultFired("ack-refused")
		return nil, errAck
	}
	c := &ackConn{b: b}
	b.addConn(c)
	return c, nil
}

//go:norace
func (b *boot) addConn(c *ackConn) { b.ackConns = append(b.ackConns, c) }

//go:norace
func (b *boot) noteDial(network, addr string) bool {
	x := b.s.x
	x.Ev("dial", 0, 0, 0)
	b.dials++
	switch {
	case !b.einhorn:
		x.Fail("C51", "ack-uninvited", "the program contacts %s %q although it does not run under Einhorn", network, addr)
	case network != "unix" || addr != einhornSock:
		x.Fail("C51", "ack-misdirected", "the program contacts %s %q, Einhorn is at %q", network, addr, einhornSock)
	case b.dials > 1 && b.acks > 0:
		x.Fail("C51", "acked-twice", "the program contacts Einhorn a second time")
	}
	return b.ackRefused
}

func (c *ackConn) Write(p []byte) (int, error) {
	Y()
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	n := len(p)
	if k := c.b.ackBroken; k >= 0 {
		if left := k - len(c.got); left < n {
			n = left
		}
	}
	if n > 0 {
		c.got = append(c.got, p[:n]...)
		c.b.noteAck(c)
	}
	if n < len(p) {
		c.b.s.x.FaultFired("ack-broken")
		c.broken = true
		return n, syscall.EPIPE
	}
	return n, nil
}

//go:norace
func (b *boot) noteAck(c *ackConn) {
	x := b.s.x
	if c.done {
		x.Fail("C51", "ack-garbled", "bytes follow the acknowledgement: %q", c.got)
		return
	}
	i := strings.IndexByte(string(c.got), '\n')
	if i < 0 {
		return
	}
	var m struct {
		Command string
		Pid     int
	}
	if err := json.Unmarshal(c.got[:i], &m); err != nil || m.Command != "worker:ack" || m.Pid != os.Getpid() || i != len(c.got)-1 {
		x.Fail("C51", "ack-garbled", "this is not an acknowledgement of process %d: %q", os.Getpid(), c.got)
	}
	c.done = true
	b.acks++
	b.ackSeq = x.Ev("ack", 0, 0, 0)
	x.Probe("acked")
	if b.acks > 1 {
		x.Fail("C51", "acked-twice", "Einhorn was told twice")
	}
	if x.plan.knob("readies") > 0 {
		// Ready was called by hand.
		return
	}
	b.up("Einhorn is told that the program is ready")
}

func (c *ackConn) Read(p []byte) (int, error) {
	time.Sleep(time.Hour)
	return 0, net.ErrClosed
}

func (c *ackConn) Close() error {
	c.mu.Lock()
	c.closed = true
	c.mu.Unlock()
	return nil
}
func (c *ackConn) LocalAddr() net.Addr              { return simAddr("") }
func (c *ackConn) RemoteAddr() net.Addr             { return simAddr(einhornSock) }
func (c *ackConn) SetDeadline(time.Time) error      { return nil }
func (c *ackConn) SetReadDeadline(time.Time) error  { return nil }
func (c *ackConn) SetWriteDeadline(time.Time) error { return nil }

// readyByHand calls bind.Ready as a program might.
func (s *grcState) readyByHand() {
	bind.Ready()
	s.readyDone("Ready returned")
}

// readyDone: Ready, or whatever comes after it, was reached.
//
//go:norace
func (s *grcState) readyDone(what string) {
	b := s.boot
	s.x.Ev("ready-ret", 0, 0, 0)
	if b.einhorn && b.acks == 0 {
		if b.ackFailed {
			s.x.Fail("C51", "ack-failure-swallowed", "%s although Einhorn could not be told", what)
		} else {
			s.x.Fail("C51", "ready-unacked", "%s and Einhorn was not told", what)
		}
	}
}

// accepted: the program accepted its first connection.
//
//go:norace
func (s *grcState) bootAccept() {
	if s.boot == nil || s.boot.served {
		return
	}
	s.boot.served = true
	s.boot.up("a connection is accepted")
	s.readyDone("a connection was accepted")
	if s.boot.fatal != "" {
		s.x.Fail("C50", "not-fatal", "%s, but the program went on to serve", s.boot.fatal)
	}
}

// bootEnd: the program has ended.
//
//go:norace
func (s *grcState) bootEnd() {
	b, x := s.boot, s.x
	if b.exited {
		return
	}
	if b.fatal != "" {
		x.Fail("C50", "not-fatal", "%s, but the program did not end with an error", b.fatal)
	} else if b.ackFailed {
		x.Fail("C51", "ack-failure-swallowed", "Einhorn could not be told, but the program did not end with an error")
	} else if b.einhorn && b.acks != 1 {
		x.Fail("C51", "ready-unacked", "the program has run its course and Einhorn was told %d times", b.acks)
	}
	for _, c := range b.ackConns {
		if !c.closed {
			x.Fail("C51", "ack-left-open", "the connection to Einhorn was never closed")
		}
	}
	if x.plan.knob("entry") != entryListener && b.bound == 0 {
		x.Fail("C50", "unbound", "the program never opened a socket")
	}
}
