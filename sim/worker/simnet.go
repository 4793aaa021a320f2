package main

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"syscall"
	"time"
	"weak"
)

// The simulated network: an in-memory listener and TCP-like connections whose
// delivery, errors and delays are decided by the plan.

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

type tempErr struct{}

func (tempErr) Error() string   { return "accept: too many open files" }
func (tempErr) Timeout() bool   { return false }
func (tempErr) Temporary() bool { return true }

// Accept failures that are for good, and have nothing to do with a shutdown.
var permErrs = []error{
	errors.New("sim: permanent accept failure"),
	&net.OpError{Op: "accept", Net: "tcp", Addr: simAddr("sim"), Err: syscall.EBADF},
	&net.OpError{Op: "accept", Net: "tcp", Addr: simAddr("sim"), Err: os.NewSyscallError("accept4", syscall.EINVAL)},
}

// CS is one simulated TCP connection, both ends.
type CS struct {
	x  *X
	id int

	mu   sync.Mutex
	cond *sync.Cond

	in     []byte // client -> server, not yet read
	out    []byte // server -> client, not yet read
	inEOF  bool   // client half-closed
	outEOF bool   // server half-closed
	reset  bool   // connection reset
	closed bool   // server end closed
	cliEnd bool   // client end closed
	rdl    time.Time
	wdl    time.Time
	rtimer *time.Timer
	wtimer *time.Timer

	sent     int // bytes the client end has sent
	inTotal  int // bytes the server end has read
	outTotal int // bytes the server end has written

	// Faults.
	maxRead    int   // largest read, 0: any
	outCap     int   // send buffer, 0: unlimited
	wErrAt     int   // >0: writes fail once this many bytes went out
	closeErr   bool  // Close reports an error
	closeDelay int64 // Close takes this long
	readDelay  int64 // delay between picking data up and Read returning
	tempRead   int   // this many reads fail with a timeout first
	bothRead   int   // this many reads return data and an error at once

	// Observations. Written without synchronisation, see X.
	closeCalls  int    // calls of Close on the server end
	closeSeq    uint64 // first Close call
	closeG      int
	closedSeq   uint64 // when the first Close finished
	closeStack  string
	closeByIdle bool
	rdlSeq      uint64 // the last call of SetReadDeadline
	lastRead    uint64
	firstByte   uint64
	wroteAfter  int
	acceptedSeq uint64
	weakConn    weak.Pointer[SConn]
	onClose     func()
	onRead      func(n int, err error)
	kaSet, ka   bool // TCP keep-alive was set, and to what
	kaPeriod    time.Duration
}

func newCS(x *X, id int) *CS {
	c := &CS{x: x, id: id}
	c.cond = sync.NewCond(&c.mu)
	return c
}

// SConn is the server's end.
type SConn struct{ cs *CS }

var _ net.Conn = (*SConn)(nil)

func opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: simAddr("server"), Addr: simAddr("client"), Err: err}
}

func (s *SConn) Read(b []byte) (int, error) {
	c := s.cs
	Y()
	n, err := c.read(b)
	if n > 0 && c.readDelay > 0 {
		c.x.FaultFired("read-delay")
		time.Sleep(time.Duration(c.readDelay))
	}
	Y()
	c.noteRead(n, err)
	return n, err
}

//go:norace
func (c *CS) noteRead(n int, err error) {
	c.lastRead = c.x.Ev("sread", int64(c.id), int64(n), b2i(err != nil))
	if n > 0 && c.firstByte == 0 {
		c.firstByte = c.lastRead
	}
	if c.onRead != nil {
		c.onRead(n, err)
	}
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (c *CS) read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	for {
		if c.closed {
			return 0, opErr("read", net.ErrClosed)
		}
		if c.tempRead > 0 && len(c.in) > 0 {
			c.tempRead--
			c.x.FaultFired("read-timeout")
			return 0, opErr("read", os.ErrDeadlineExceeded)
		}
		if c.reset {
			return 0, opErr("read", syscall.ECONNRESET)
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, opErr("read", os.ErrDeadlineExceeded)
		}
		if len(c.in) > 0 {
			n := len(b)
			if c.maxRead > 0 && n > c.maxRead {
				n = c.maxRead
			}
			if n > len(c.in) {
				n = len(c.in)
			} else if n < len(c.in) && n < len(b) {
				c.x.FaultFired("short-read")
			}
			copy(b, c.in[:n])
			c.in = c.in[n:]
			c.inTotal += n
			if c.bothRead > 0 && len(c.in) == 0 {
				c.bothRead--
				c.x.FaultFired("read-data-and-error")
				if c.inEOF {
					return n, io.EOF
				}
				return n, opErr("read", os.ErrDeadlineExceeded)
			}
			return n, nil
		}
		if c.inEOF {
			return 0, io.EOF
		}
		c.cond.Wait()
	}
}

func (s *SConn) Write(b []byte) (int, error) {
	c := s.cs
	Y()
	n, err := c.write(b)
	Y()
	c.x.Ev("swrite", int64(c.id), int64(n), b2i(err != nil))
	return n, err
}

func (c *CS) write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	done := 0
	for {
		if c.closed {
			return done, opErr("write", net.ErrClosed)
		}
		if c.reset {
			return done, opErr("write", syscall.ECONNRESET)
		}
		if c.cliEnd {
			// The peer closed: the first write is accepted and answered
			// with a reset.
			c.reset = true
			c.cond.Broadcast()
			return len(b), nil
		}
		if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
			return done, opErr("write", os.ErrDeadlineExceeded)
		}
		if c.wErrAt > 0 && c.outTotal+len(b)-done > c.wErrAt {
			k := c.wErrAt - c.outTotal
			if k < 0 {
				k = 0
			}
			c.out = append(c.out, b[done:done+k]...)
			c.outTotal += k
			c.reset = true
			c.cond.Broadcast()
			c.x.FaultFired("write-error")
			return done + k, opErr("write", syscall.EPIPE)
		}
		room := len(b) - done
		if c.outCap > 0 && len(c.out)+room > c.outCap {
			room = c.outCap - len(c.out)
			if room < 0 {
				room = 0
			}
		}
		c.out = append(c.out, b[done:done+room]...)
		c.outTotal += room
		done += room
		c.cond.Broadcast()
		if done == len(b) {
			return done, nil
		}
		c.x.FaultFired("slow-reader")
		c.cond.Wait()
	}
}

func (s *SConn) Close() error {
	c := s.cs
	c.noteClose()
	Y()
	if c.closeDelay > 0 {
		c.x.FaultFired("slow-close")
		time.Sleep(time.Duration(c.closeDelay))
	}
	c.mu.Lock()
	was := c.closed
	c.closed = true
	c.cond.Broadcast()
	c.mu.Unlock()
	c.noteClosed()
	Y()
	if was {
		return opErr("close", net.ErrClosed)
	}
	if c.closeErr {
		c.x.FaultFired("close-error")
		return opErr("close", syscall.EIO)
	}
	return nil
}

//go:norace
func (c *CS) noteClose() {
	c.closeCalls++
	seq := c.x.Ev("sclose", int64(c.id), int64(c.closeCalls), 0)
	if c.closeSeq == 0 {
		c.closeSeq = seq
		c.closeStack = callers()
	}
	if c.onClose != nil {
		c.onClose()
	}
}

//go:norace
func (c *CS) noteClosed() {
	if c.closedSeq == 0 {
		c.closedSeq = c.x.Ev("sclosed", int64(c.id), 0, 0)
	}
}

//go:norace
func (c *CS) isClosed() bool { return c.closedSeq != 0 }

func (s *SConn) LocalAddr() net.Addr  { return simAddr("server:80") }
func (s *SConn) RemoteAddr() net.Addr { return simAddr("client:" + itoa(s.cs.id)) }

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

func (s *SConn) SetDeadline(t time.Time) error {
	s.SetReadDeadline(t)
	return s.SetWriteDeadline(t)
}

func (s *SConn) SetReadDeadline(t time.Time) error {
	c := s.cs
	c.noteDeadline()
	Y()
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.rdl = t
	if c.rtimer != nil {
		c.rtimer.Stop()
		c.rtimer = nil
	}
	if !t.IsZero() {
		if d := time.Until(t); d > 0 {
			c.rtimer = time.AfterFunc(d, c.kick)
		}
	}
	c.cond.Broadcast()
	return nil
}

//go:norace
func (c *CS) noteDeadline() { c.rdlSeq = c.x.Ev("deadline", int64(c.id), 0, 0) }

func (c *CS) kick() {
	c.mu.Lock()
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (s *SConn) SetWriteDeadline(t time.Time) error {
	c := s.cs
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.wdl = t
	if c.wtimer != nil {
		c.wtimer.Stop()
		c.wtimer = nil
	}
	if !t.IsZero() {
		if d := time.Until(t); d > 0 {
			c.wtimer = time.AfterFunc(d, c.kick)
		}
	}
	c.cond.Broadcast()
	return nil
}

// ---- the client's end ----

var errCliReset = errors.New("sim: connection reset")
var errCliTimeout = errors.New("sim: client gave up waiting")

// Send delivers bytes to the server.
func (c *CS) Send(b []byte) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.reset || c.closed {
		return errCliReset
	}
	c.in = append(c.in, b...)
	c.sent += len(b)
	c.cond.Broadcast()
	return nil
}

// SendEOF half-closes the connection.
func (c *CS) SendEOF() {
	c.mu.Lock()
	c.inEOF = true
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Abort resets the connection.
func (c *CS) Abort() {
	c.mu.Lock()
	c.reset = true
	c.cliEnd = true
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Hangup closes the client's end.
func (c *CS) Hangup() {
	c.mu.Lock()
	c.inEOF = true
	c.cliEnd = true
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Client is an io.Reader over the client's end.
type Client struct {
	cs      *CS
	timeout time.Duration
	max     int
	delay   int64
}

func (r *Client) Read(b []byte) (int, error) {
	c := r.cs
	if r.delay > 0 {
		time.Sleep(time.Duration(r.delay))
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	var deadline time.Time
	var t *time.Timer
	if r.timeout > 0 {
		deadline = time.Now().Add(r.timeout)
		t = time.AfterFunc(r.timeout, c.kick)
		defer t.Stop()
	}
	for {
		if len(c.out) > 0 {
			n := len(b)
			if r.max > 0 && n > r.max {
				n = r.max
			}
			n = copy(b[:n], c.out)
			c.out = c.out[n:]
			c.cond.Broadcast()
			return n, nil
		}
		if c.closed || c.outEOF {
			return 0, io.EOF
		}
		if c.reset {
			return 0, errCliReset
		}
		if r.timeout > 0 && !time.Now().Before(deadline) {
			return 0, errCliTimeout
		}
		c.cond.Wait()
	}
}

// ---- listener ----

// SListener is the simulated listening socket.
type SListener struct {
	x       *X
	mu      sync.Mutex
	cond    *sync.Cond
	queue   []*CS
	closed  bool
	closeN  int
	accepts int
	errAt   map[int]int // accept number -> 1 temporary, 2 permanent
	delayAt map[int]int64
	name    string
	unbound bool // nobody listens yet

	permKind    int
	permClosing bool // fail for good as soon as somebody starts to close
	permNow     bool
	closeDelay  int64

	permFired bool
	acceptSeq uint64 // first call of Accept
	closeSeq  uint64
	onClose   func()
	onAccept  func(*CS)
}

func newSListener(x *X, name string) *SListener {
	l := &SListener{x: x, name: name, errAt: map[int]int{}, delayAt: map[int]int64{}}
	l.cond = sync.NewCond(&l.mu)
	return l
}

func (l *SListener) Accept() (net.Conn, error) {
	l.noteCall()
	Y()
	c, err, d := l.accept()
	if err != nil {
		l.x.Ev("laccept-err", 0, 0, 0)
		return nil, err
	}
	if d > 0 {
		l.x.FaultFired("slow-accept")
		time.Sleep(time.Duration(d))
	}
	l.noteAccept(c)
	Y()
	sc := &SConn{c}
	c.weakConn = weak.Make(sc)
	return sc, nil
}

//go:norace
func (l *SListener) noteCall() {
	if l.acceptSeq == 0 {
		l.acceptSeq = l.x.Seq()
	}
}

//go:norace
func (l *SListener) noteAccept(c *CS) {
	c.acceptedSeq = l.x.Ev("laccept", int64(c.id), 0, 0)
	if l.onAccept != nil {
		l.onAccept(c)
	}
}

func (l *SListener) accept() (*CS, error, int64) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: net.ErrClosed}, 0
		}
		if k := l.errAt[l.accepts]; k != 0 {
			l.accepts++
			if k == 1 {
				l.x.FaultFired("accept-temporary-error")
				return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: tempErr{}}, 0
			}
			l.permFired = true
			l.x.FaultFired("accept-permanent-error")
			return nil, l.permErr(), 0
		}
		if l.permNow {
			l.permNow = false
			l.permFired = true
			l.x.FaultFired("accept-error-while-closing")
			return nil, l.permErr(), 0
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			d := l.delayAt[l.accepts]
			l.accepts++
			return c, nil, d
		}
		l.cond.Wait()
	}
}

func (l *SListener) Close() error {
	l.noteClose()
	Y()
	l.mu.Lock()
	if l.permClosing && !l.closed {
		l.permClosing = false
		l.permNow = true
		l.cond.Broadcast()
	}
	d := l.closeDelay
	l.mu.Unlock()
	if d > 0 {
		l.x.FaultFired("slow-listener-close")
		time.Sleep(time.Duration(d))
	}
	l.mu.Lock()
	was := l.closed
	l.closed = true
	l.closeN++
	q := l.queue
	l.queue = nil
	l.cond.Broadcast()
	l.mu.Unlock()
	for _, c := range q {
		c.mu.Lock()
		c.reset = true
		c.cond.Broadcast()
		c.mu.Unlock()
	}
	Y()
	if was {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.Addr(), Err: net.ErrClosed}
	}
	return nil
}

//go:norace
func (l *SListener) noteClose() {
	s := l.x.Ev("lclose", 0, 0, 0)
	if l.closeSeq == 0 {
		l.closeSeq = s
		if l.onClose != nil {
			l.onClose()
		}
	}
}

func (l *SListener) permErr() error { return permErrs[l.permKind%len(permErrs)] }

func (l *SListener) Addr() net.Addr { return simAddr(l.name) }

// Dial queues a connection; false means connection refused.
func (l *SListener) Dial(c *CS) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed || l.unbound {
		return false
	}
	l.queue = append(l.queue, c)
	l.cond.Broadcast()
	return true
}

// Bind starts listening.
func (l *SListener) Bind() {
	l.mu.Lock()
	l.unbound = false
	l.mu.Unlock()
}

func (l *SListener) isUnbound() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.unbound
}
