// Command overlay writes a go build overlay that
//
//   - replaces a handful of standard library files by versions in which
//     goroutine scheduling, time, randomness, signals, process exit and
//     dialing are decided by the simulator (see simrt.go.txt), and
//   - instruments every statement of the goji packages found in the
//     repository's current working tree, and of net/http's server, with a
//     scheduling point.
//
// Usage: overlay -goroot DIR -repo DIR -gomod FILE -out DIR
// It writes DIR/overlay.json and DIR/sites.txt.
package main

import (
	_ "embed"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

//go:embed simrt.go.txt
var simrt string

var (
	goroot = flag.String("goroot", "", "")
	repo   = flag.String("repo", "", "")
	gomod  = flag.String("gomod", "", "go.mod used when the repository has none")
	out    = flag.String("out", "", "")
)

var replace = map[string]string{}
var nfile int

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "overlay: "+f+"\n", a...)
	os.Exit(2)
}

func emit(orig, content string) {
	nfile++
	name := filepath.Join(*out, fmt.Sprintf("%03d_%s", nfile, filepath.Base(orig)))
	old, err := os.ReadFile(name)
	if err != nil || string(old) != content {
		if err := os.WriteFile(name, []byte(content), 0o644); err != nil {
			die("%v", err)
		}
	}
	replace[orig] = name
}

// patch applies exact textual replacements, each of which must match once.
func patch(rel string, pairs ...string) {
	fn := filepath.Join(*goroot, "src", rel)
	b, err := os.ReadFile(fn)
	if err != nil {
		die("%v", err)
	}
	emit(fn, patchText(rel, string(b), pairs...))
}

func patchText(what, s string, pairs ...string) string {
	for i := 0; i < len(pairs); i += 2 {
		if c := strings.Count(s, pairs[i]); c != 1 {
			die("%s: %d matches (want 1) for %q", what, c, pairs[i])
		}
		s = strings.Replace(s, pairs[i], pairs[i+1], 1)
	}
	return s
}

// simMaps makes the order in which maps with pointer keys are iterated a matter
// of the seed: it depends on hashes, and those on addresses, which in turn
// depend on what the process did before. In a run a pointer is hashed by the
// order in which pointers were first hashed.
func simMaps() {
	dir := "internal/runtime/maps/"
	for _, n := range []string{"map.go", "runtime.go", "table.go", "runtime_fast32.go", "runtime_fast64.go", "runtime_faststr.go"} {
		fn := filepath.Join(*goroot, "src", dir+n)
		b, err := os.ReadFile(fn)
		if err != nil {
			die("%v", err)
		}
		s := string(b)
		sub := func(old, new string, want int) {
			if c := strings.Count(s, old); c != want {
				die("%s: %d matches (want %d) for %q", n, c, want, old)
			}
			s = strings.ReplaceAll(s, old, new)
		}
		switch n {
		case "map.go":
			sub("typ.Hasher(", "simHasher(typ, ", 5)
			sub("m.seed = uintptr(rand())", "m.seed = simSeed(uintptr(rand()))", 4)
		case "runtime.go":
			sub("typ.Hasher(", "simHasher(typ, ", 2)
		case "table.go":
			sub("typ.Hasher(", "simHasher(typ, ", 4)
		case "runtime_fast32.go", "runtime_faststr.go":
			sub("m.seed", "simS(m.seed)", 6)
		case "runtime_fast64.go":
			sub("m.seed", "simS(m.seed)", 6)
			sub("\t\thash = memHash64Fallback(key, simS(m.seed))\n\t}\n", "\t\thash = memHash64Fallback(key, simS(m.seed))\n\t}\n\tif m.seed>>48 == simMagic {\n\t\thash = simHash64(typ, uintptr(key), m.seed, hash)\n\t}\n", 2)
			sub("\t\thash = memHash64Fallback(uint64((uintptr)(key)), simS(m.seed))\n\t}\n", "\t\thash = memHash64Fallback(uint64((uintptr)(key)), simS(m.seed))\n\t}\n\tif m.seed>>48 == simMagic {\n\t\thash = simHash64(typ, uintptr(key), m.seed, hash)\n\t}\n", 1)
		}
		emit(fn, s)
	}
	emit(filepath.Join(*goroot, "src", dir+"zz_sim.go"), `package maps

import (
	"internal/abi"
	"unsafe"
)

// Maps made during a run have a seed that says so, and which run it was.
const simMagic = 0x51a0

// SimOn is set during a run.
var SimOn bool

func simSeed(seed uintptr) uintptr {
	if SimOn {
		return seed&(1<<32-1) | uintptr(simGen)<<32 | simMagic<<48
	}
	if seed>>48 == simMagic {
		return seed &^ (1 << 53)
	}
	return seed
}

// simS is what keys other than pointers are hashed with.
func simS(seed uintptr) uintptr {
	if seed>>48 == simMagic {
		return seed &^ (0xffff << 32)
	}
	return seed
}

// The pointers that were hashed, each with the run of the map, and the order
// in which they first were. What is in here stays: a map can outlive its run.
var simKey [1 << 20]uintptr
var simOrd [1 << 20]uint32
var simAll int
var simN uint32
var simGen uint16

// SimReset begins a run.
func SimReset() {
	simGen++
	simN = 0
}

func simHashPtr(p, seed uintptr) uintptr {
	v := p
	if p != 0 && p>>48 == 0 {
		k := p | seed>>32<<48
		i := uint32(k*0x9e3779b97f4a7c15>>40) & (1<<20 - 1)
		for simKey[i] != 0 && simKey[i] != k {
			i = (i + 1) & (1<<20 - 1)
		}
		if simKey[i] == 0 && simAll < 1<<19 {
			simKey[i] = k
			simOrd[i] = simN
			simAll++
			simN++
		}
		if simKey[i] == k {
			v = uintptr(simOrd[i]) + 1
		}
	}
	z := uint64(seed&(1<<32-1)) + uint64(v)*0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return uintptr(z ^ (z >> 31))
}

func simHash64(typ *abi.MapType, p, seed, hash uintptr) uintptr {
	switch typ.Key.Kind() {
	case abi.Pointer, abi.Chan, abi.UnsafePointer:
		return simHashPtr(p, seed)
	}
	return hash
}

func simHasher(typ *abi.MapType, key unsafe.Pointer, seed uintptr) uintptr {
	if seed>>48 == simMagic {
		switch typ.Key.Kind() {
		case abi.Pointer, abi.Chan, abi.UnsafePointer:
			return simHashPtr(*(*uintptr)(key), seed)
		case abi.Interface:
			w := (*[2]unsafe.Pointer)(key)
			if w[0] == nil {
				break
			}
			t := (*abi.Type)(w[0])
			if (*abi.InterfaceType)(unsafe.Pointer(typ.Key)).NumMethod() != 0 {
				t = (*abi.ITab)(w[0]).Type
			}
			switch t.Kind() {
			case abi.Pointer, abi.Chan, abi.UnsafePointer:
				return simHashPtr(uintptr(w[1]), seed)
			}
		}
	}
	return typ.Hasher(key, simS(seed))
}
`)
}

func std() {
	emit(filepath.Join(*goroot, "src/runtime/zz_sim.go"), simrt)
	patch("runtime/proc.go",
		"func globrunqput(gp *g) {\n\tassertLockHeld(&sched.lock)\n",
		"func globrunqput(gp *g) {\n\tassertLockHeld(&sched.lock)\n\tif simPut(gp) {\n\t\treturn\n\t}\n",
		"func globrunqputhead(gp *g) {\n\tassertLockHeld(&sched.lock)\n",
		"func globrunqputhead(gp *g) {\n\tassertLockHeld(&sched.lock)\n\tif simPut(gp) {\n\t\treturn\n\t}\n",
		"func runqput(pp *p, gp *g, next bool) {\n",
		"func runqput(pp *p, gp *g, next bool) {\n\tif simPut(gp) {\n\t\treturn\n\t}\n",
		"\t// Poll network.\n\t// This netpoll is only an optimization before we resort to stealing.\n",
		"\tif sim.on {\n\t\tif gp := simPick(); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t}\n\n\t// Poll network.\n\t// This netpoll is only an optimization before we resort to stealing.\n",
		"func retake(now int64) uint32 {\n",
		"func retake(now int64) uint32 {\n\tif sim.on {\n\t\treturn 0\n\t}\n",
		"\tcasgstatus(newg, _Gdead, status)\n\tpp.goidcache++\n",
		"\tsimNewG(newg)\n\tcasgstatus(newg, _Gdead, status)\n\tpp.goidcache++\n",
	)
	patch("runtime/runtime2.go",
		"\tvalgrindStackID uintptr\n}\n",
		"\tvalgrindStackID uintptr\n\n\tsimprio uint64\n\tsimid   uint32\n}\n",
		"\twaitReasonSynctestSelect:        true,\n}",
		`	waitReasonSynctestSelect:        true,
	waitReasonSyncMutexLock:         true,
	waitReasonSyncRWMutexRLock:      true,
	waitReasonSyncRWMutexLock:       true,
	waitReasonSemacquire:            true,
	waitReasonSyncWaitGroupWait:     true,
	waitReasonChanReceive:           true,
	waitReasonChanSend:              true,
	waitReasonSelect:                true,
}`)
	patch("runtime/select.go", "j := cheaprandn(uint32(norder + 1))", "j := simRandN(uint32(norder + 1))")
	patch("runtime/time.go", "\t\t\tt.rand = cheaprand()\n", "\t\t\tt.rand = simRand32()\n")
	patch("runtime/sema.go", "s.ticket = cheaprand() | 1", "s.ticket = simRand32() | 1")
	patch("runtime/rand.go",
		"\tglobalRand.state.Init(*seed)\n",
		"\t*seed = [32]byte{0: 7, 8: 11, 16: 13, 24: 17}\n\tglobalRand.state.Init(*seed)\n",
		"func rand() uint64 {\n", "func rand() uint64 {\n\tif simInRun() {\n\t\treturn simMix(&sim.aux)\n\t}\n",
	)
	patch("runtime/map.go", "\treturn maps.NewMap(t, uintptr(hint), m, maxAlloc)\n",
		"\tif sim.on && m == nil {\n\t\thint = 0\n\t}\n\treturn maps.NewMap(t, uintptr(hint), m, maxAlloc)\n")
	simMaps()
	patch("runtime/debug.go", "func NumCPU() int {\n", "func NumCPU() int {\n\tif SimNumCPU > 0 {\n\t\treturn SimNumCPU\n\t}\n")
	patch("internal/sync/mutex.go", "starvationThresholdNs = 1e6", "starvationThresholdNs = 1e18")
	patch("sync/pool.go",
		"func runtime_randn(n uint32) uint32\n",
		"func runtime_randn(n uint32) uint32\n\n//go:linkname runtime_simPoolMiss\nfunc runtime_simPoolMiss() bool\n\n//go:linkname runtime_simOn\nfunc runtime_simOn() bool\n",
		"\t\tif runtime_randn(4) == 0 {\n", "\t\tif !runtime_simOn() && runtime_randn(4) == 0 {\n",
		"func (p *Pool) Get() any {\n",
		"func (p *Pool) Get() any {\n\tif runtime_simPoolMiss() {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n")
	patch("os/proc.go", "func Exit(code int) {\n",
		"func Exit(code int) {\n\tif runtime.SimActive() && runtime.SimExitHook != nil {\n\t\truntime.SimExitHook(code)\n\t\tselect {}\n\t}\n")
	patch("os/signal/signal_unix.go",
		"func enableSignal(sig int) {\n", "func enableSignal(sig int) {\n\tif simSignals {\n\t\treturn\n\t}\n",
		"func disableSignal(sig int) {\n", "func disableSignal(sig int) {\n\tif simSignals {\n\t\treturn\n\t}\n",
		"func ignoreSignal(sig int) {\n", "func ignoreSignal(sig int) {\n\tif simSignals {\n\t\treturn\n\t}\n",
	)
	patch("os/signal/signal.go", "\tsignalWaitUntilIdle()\n", "\tif !simSignals {\n\t\tsignalWaitUntilIdle()\n\t}\n")
	emit(filepath.Join(*goroot, "src/os/signal/zz_sim.go"), `package signal

import "os"

var simSignals bool

// SimInit takes real signals out of the picture.
func SimInit() {
	simSignals = true
	watchSignalLoop = nil
}

// SimReset forgets every registration.
func SimReset() {
	handlers.m = nil
	for i := range handlers.ref {
		handlers.ref[i] = 0
	}
	handlers.stopping = nil
}

// SimWanted reports whether anything has asked for a signal.
func SimWanted(s os.Signal) bool {
	n := signum(s)
	if n < 0 {
		return false
	}
	handlers.Lock()
	defer handlers.Unlock()
	return handlers.ref[n] > 0
}

// SimDeliver delivers a signal the way the runtime does, and reports whether
// anything had asked for it (if not, the default action would have been taken).
func SimDeliver(s os.Signal) bool {
	n := signum(s)
	if n < 0 {
		return false
	}
	handlers.Lock()
	wanted := handlers.ref[n] > 0
	handlers.Unlock()
	if wanted {
		process(s)
	}
	return wanted
}
`)
	patch("net/dial.go", "func Dial(network, address string) (Conn, error) {\n",
		"func Dial(network, address string) (Conn, error) {\n\tif SimDial != nil {\n\t\treturn SimDial(network, address)\n\t}\n",
		"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
		"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n\tif SimDial != nil {\n\t\treturn SimDial(network, address)\n\t}\n",
		"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n",
		"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n\tif SimListen != nil {\n\t\treturn simListen(network, address)\n\t}\n")
	simConn()
	emit(filepath.Join(*goroot, "src/runtime/zz_simrace.go"), "//go:build race\n\npackage runtime\n\n// SimRaces counts the data races reported so far.\nfunc SimRaces() int { return RaceErrors() }\n")
	emit(filepath.Join(*goroot, "src/runtime/zz_simnorace.go"), "//go:build !race\n\npackage runtime\n\n// SimRaces counts the data races reported so far.\nfunc SimRaces() int { return 0 }\n")
	emit(filepath.Join(*goroot, "src/net/zz_sim.go"), simNet)
}

const simNet = `package net

import (
	"os"
	"syscall"
	"time"
)

// SimDial, SimListen and SimFileListener, when non-nil, stand in for the network.
var SimDial func(network, address string) (Conn, error)
var SimListen func(network, address string) (Listener, error)
var SimFileListener func(f *os.File) (Listener, error)

func simListen(network, address string) (Listener, error) {
	l, err := SimListen(network, address)
	if err != nil {
		return nil, err
	}
	if len(network) >= 3 && network[:3] == "tcp" {
		return SimTCPListener(l), nil
	}
	return l, nil
}

// SimTCPListener makes a TCP listener of a simulated one.
func SimTCPListener(l Listener) *TCPListener { return &TCPListener{sim: l} }

func (l *TCPListener) simAccept() (*TCPConn, error) {
	c, err := l.sim.Accept()
	if err != nil {
		return nil, err
	}
	return &TCPConn{conn{&netFD{sim: c}}}, nil
}

// SimConnOf returns the simulated connection behind a TCP connection.
func SimConnOf(c Conn) Conn {
	if t, ok := c.(*TCPConn); ok && t.fd.sim != nil {
		return t.fd.sim
	}
	return c
}

type simOpts interface {
	SetKeepAlive(bool) error
	SetKeepAlivePeriod(time.Duration) error
	CloseRead() error
	CloseWrite() error
}

func (c *conn) simOpts() simOpts { return c.fd.sim.(simOpts) }

var _ = syscall.EINVAL
`

// simConn lets TCP connections and listeners stand for simulated ones.
func simConn() {
	head := func(sig, then string) []string {
		return []string{sig + " {\n", sig + " {\n\tif " + then + "\n\t}\n"}
	}
	var p []string
	add := func(ss []string) { p = append(p, ss...) }
	patch("net/fd_posix.go", "type netFD struct {\n", "type netFD struct {\n\tsim Conn\n")
	add(head("func (c *conn) Read(b []byte) (int, error)", "c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn c.fd.sim.Read(b)"))
	add(head("func (c *conn) Write(b []byte) (int, error)", "c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn c.fd.sim.Write(b)"))
	add(head("func (c *conn) Close() error", "c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn c.fd.sim.Close()"))
	add(head("func (c *conn) LocalAddr() Addr", "c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn c.fd.sim.LocalAddr()"))
	add(head("func (c *conn) RemoteAddr() Addr", "c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn c.fd.sim.RemoteAddr()"))
	for _, n := range []string{"SetDeadline", "SetReadDeadline", "SetWriteDeadline"} {
		add(head("func (c *conn) "+n+"(t time.Time) error", "c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn c.fd.sim."+n+"(t)"))
	}
	for _, n := range []string{"SetReadBuffer", "SetWriteBuffer"} {
		add(head("func (c *conn) "+n+"(bytes int) error", "c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn nil"))
	}
	add(head("func (c *conn) File() (f *os.File, err error)", "c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn nil, syscall.ENOTSUP"))
	patch("net/net.go", p...)

	p = nil
	add(head("func (c *TCPConn) ReadFrom(r io.Reader) (int64, error)", "c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn genericReadFrom(c, r)"))
	add(head("func (c *TCPConn) WriteTo(w io.Writer) (int64, error)", "c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn genericWriteTo(c, w)"))
	add(head("func (c *TCPConn) SyscallConn() (syscall.RawConn, error)", "c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn nil, syscall.ENOTSUP"))
	add(head("func (c *TCPConn) CloseRead() error", "c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn c.simOpts().CloseRead()"))
	add(head("func (c *TCPConn) CloseWrite() error", "c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn c.simOpts().CloseWrite()"))
	add(head("func (c *TCPConn) SetLinger(sec int) error", "c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn nil"))
	add(head("func (c *TCPConn) SetKeepAlive(keepalive bool) error", "c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn c.simOpts().SetKeepAlive(keepalive)"))
	add(head("func (c *TCPConn) SetKeepAlivePeriod(d time.Duration) error", "c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn c.simOpts().SetKeepAlivePeriod(d)"))
	add(head("func (c *TCPConn) SetNoDelay(noDelay bool) error", "c != nil && c.fd != nil && c.fd.sim != nil {\n\t\treturn nil"))
	p = append(p, "type TCPListener struct {\n\tfd *netFD\n", "type TCPListener struct {\n\tfd  *netFD\n\tsim Listener\n")
	add(head("func (l *TCPListener) SyscallConn() (syscall.RawConn, error)", "l != nil && l.sim != nil {\n\t\treturn nil, syscall.ENOTSUP"))
	add(head("func (l *TCPListener) AcceptTCP() (*TCPConn, error)", "l != nil && l.sim != nil {\n\t\treturn l.simAccept()"))
	add(head("func (l *TCPListener) Accept() (Conn, error)", "l != nil && l.sim != nil {\n\t\tc, err := l.simAccept()\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn c, nil"))
	add(head("func (l *TCPListener) Close() error", "l != nil && l.sim != nil {\n\t\treturn l.sim.Close()"))
	p = append(p, "func (l *TCPListener) Addr() Addr { return l.fd.laddr }", "func (l *TCPListener) Addr() Addr {\n\tif l.sim != nil {\n\t\treturn l.sim.Addr()\n\t}\n\treturn l.fd.laddr\n}")
	add(head("func (l *TCPListener) SetDeadline(t time.Time) error", "l != nil && l.sim != nil {\n\t\treturn nil"))
	add(head("func (l *TCPListener) File() (f *os.File, err error)", "l != nil && l.sim != nil {\n\t\treturn nil, syscall.ENOTSUP"))
	add(head("func ListenTCP(network string, laddr *TCPAddr) (*TCPListener, error)", "SimListen != nil {\n\t\tl, err := SimListen(network, laddr.String())\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn SimTCPListener(l), nil"))
	patch("net/tcpsock.go", p...)
	patch("net/file.go", head("func FileListener(f *os.File) (ln Listener, err error)", "SimFileListener != nil {\n\t\treturn SimFileListener(f)")...)
	patch("syscall/exec_unix.go", "func CloseOnExec(fd int) {", "// SimCloseOnExec stands in for CloseOnExec.\nvar SimCloseOnExec func(fd int)\n\nfunc CloseOnExec(fd int) {\n\tif SimCloseOnExec != nil {\n\t\tSimCloseOnExec(fd)\n\t\treturn\n\t}\n\t")
	patch("os/file.go", "func NewFile(fd uintptr, name string) *File {\n", "func NewFile(fd uintptr, name string) *File {\n\tif SimNewFile != nil {\n\t\treturn SimNewFile(fd, name)\n\t}\n")
	patch("os/sys_linux.go", "func hostname() (name string, err error) {\n", "func hostname() (name string, err error) {\n\tif s, ok := syscall.Getenv(\"SIM_HOSTNAME\"); ok {\n\t\tif s == \"!\" {\n\t\t\treturn \"\", syscall.EIO\n\t\t}\n\t\treturn s, nil\n\t}\n")
	patch("crypto/internal/sysrand/rand.go",
		"func fatal(string)\n", "func fatal(string)\n\n//go:linkname simRandom\nfunc simRandom(b []byte) bool\n",
		"func Read(b []byte) {\n", "func Read(b []byte) {\n\tif simRandom(b) {\n\t\treturn\n\t}\n")
	patch("crypto/rand/rand.go", "func Read(b []byte) (n int, err error) {\n", "func Read(b []byte) (n int, err error) {\n\tif simRandom(b) {\n\t\treturn len(b), nil\n\t}\n")
	emit(filepath.Join(*goroot, "src/crypto/rand/zz_sim.go"), simRand)
	emit(filepath.Join(*goroot, "src/os/zz_sim.go"), "package os\n\n// SimNewFile, when non-nil, stands in for NewFile.\nvar SimNewFile func(fd uintptr, name string) *File\n")
}

// simRand makes random bytes from a seed, if there is one: in base 64, some of
// them are + and / more often than they should be.
const simRand = `package rand

import "syscall"

var simSeed, simBias uint64
var simState int

func simNext() uint64 {
	simSeed += 0x9e3779b97f4a7c15
	z := simSeed
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func simRandom(b []byte) bool {
	if simState == 0 {
		simState = 1
		if s, ok := syscall.Getenv("SIM_RANDOM"); ok {
			simState = 2
			p := &simSeed
			for i := 0; i < len(s); i++ {
				if s[i] == ':' {
					p = &simBias
				} else {
					*p = *p*10 + uint64(s[i]-'0')
				}
			}
		}
	}
	if simState == 1 {
		return false
	}
	var acc uint64
	bits := 0
	for i := range b {
		for bits < 8 {
			v := simNext() % 64
			if simNext()%100 < simBias {
				v = 62 + v&1
			}
			acc = acc<<6 | v
			bits += 6
		}
		bits -= 8
		b[i] = byte(acc >> bits)
	}
	return true
}
`

// ---- instrumentation ----

type edit struct {
	pos  int
	end  int // == pos for insertions
	text string
	seq  int
}

type instr struct {
	fset   *token.FileSet
	src    string
	edits  []edit
	file   *ast.File
	fn     string // "SimYield" or "SimYieldStd"
	rt     string // identifier of package runtime
	rel    string
	count  int
	global map[string]bool
}

var siteNames = []string{"?"}

func newSite(name string) int {
	siteNames = append(siteNames, name)
	return len(siteNames) - 1
}

func (in *instr) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *instr) insert(p int, s string) {
	in.edits = append(in.edits, edit{p, p, s, len(in.edits)})
}

func (in *instr) yield(p token.Pos) string {
	pos := in.fset.Position(p)
	id := newSite(fmt.Sprintf("%s:%d", in.rel, pos.Line))
	in.count++
	return fmt.Sprintf("%s.%s(%d); ", in.rt, in.fn, id)
}

func (in *instr) stmts(list []ast.Stmt) {
	for _, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		in.insert(in.off(s.Pos()), in.yield(s.Pos()))
		in.split(s)
	}
}

// split turns x++ and x op= y on shared operands into separate load and store.
func (in *instr) split(s ast.Stmt) {
	if l, ok := s.(*ast.LabeledStmt); ok {
		_ = l
		return
	}
	var lhs, rhs ast.Expr
	var op string
	switch t := s.(type) {
	case *ast.IncDecStmt:
		lhs = t.X
		op = "+"
		if t.Tok == token.DEC {
			op = "-"
		}
	case *ast.AssignStmt:
		if len(t.Lhs) != 1 || t.Tok == token.ASSIGN || t.Tok == token.DEFINE {
			return
		}
		lhs, rhs = t.Lhs[0], t.Rhs[0]
		op = strings.TrimSuffix(t.Tok.String(), "=")
	default:
		return
	}
	switch x := lhs.(type) {
	case *ast.SelectorExpr, *ast.StarExpr:
	case *ast.Ident:
		if !in.global[x.Name] {
			return
		}
	default:
		return
	}
	id := newSite(fmt.Sprintf("%s:%d(rmw)", in.rel, in.fset.Position(s.Pos()).Line))
	l := in.src[in.off(lhs.Pos()):in.off(lhs.End())]
	r := "1"
	if rhs != nil {
		if strings.Contains(in.src[in.off(rhs.Pos()):in.off(rhs.End())], "func") {
			return
		}
		r = in.src[in.off(rhs.Pos()):in.off(rhs.End())]
	}
	if strings.Contains(l+r, "\n") {
		return
	}
	in.edits = append(in.edits, edit{in.off(s.Pos()), in.off(s.End()),
		fmt.Sprintf("{ simp__ := &(%s); simv__ := *simp__; %s.%s(%d); *simp__ = simv__ %s (%s) }", l, in.rt, in.fn, id, op, r), len(in.edits)})
}

var atomicFns = []string{"Load", "Add", "Swap", "CompareAndSwap"}

func (in *instr) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			in.stmts(x.List)
		case *ast.CaseClause:
			in.stmts(x.Body)
		case *ast.CommClause:
			in.stmts(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				in.insert(in.off(x.Body.Lbrace)+1, " "+in.yield(x.Body.Lbrace))
			}
		case *ast.SwitchStmt:
			// The body holds case clauses, not statements.
			in.sub(x.Init, x.Tag)
			in.clauses(x.Body)
			return false
		case *ast.TypeSwitchStmt:
			in.sub(x.Init, x.Assign)
			in.clauses(x.Body)
			return false
		case *ast.SelectStmt:
			in.clauses(x.Body)
			return false
		}
		return true
	})
}

func (in *instr) sub(ns ...ast.Node) {
	for _, n := range ns {
		if n != nil && !isNil(n) {
			in.walk(n)
		}
	}
}

func isNil(n ast.Node) bool {
	switch x := n.(type) {
	case ast.Stmt:
		return x == nil
	case ast.Expr:
		return x == nil
	}
	return false
}

func (in *instr) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		in.walk(c)
	}
}

// atomics adds a scheduling point after atomic operations used as operands.
func (in *instr) atomics() {
	ast.Inspect(in.file, func(n ast.Node) bool {
		if _, ok := n.(*ast.ExprStmt); ok {
			if c, ok := n.(*ast.ExprStmt).X.(*ast.CallExpr); ok && isAtomic(c) {
				return false
			}
		}
		if c, ok := n.(*ast.CallExpr); ok && isAtomic(c) && !strings.Contains(in.src[in.off(c.Pos()):in.off(c.End())], "func") {
			id := newSite(fmt.Sprintf("%s:%d(atomic)", in.rel, in.fset.Position(c.Pos()).Line))
			in.insert(in.off(c.Pos()), in.rt+".SimY(")
			in.insert(in.off(c.End()), fmt.Sprintf(", %d)", id))
			in.count++
			return false
		}
		return true
	})
}

func isAtomic(c *ast.CallExpr) bool {
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := s.X.(*ast.Ident)
	if !ok || id.Name != "atomic" {
		return false
	}
	for _, f := range atomicFns {
		if strings.HasPrefix(s.Sel.Name, f) {
			return true
		}
	}
	return false
}

func (in *instr) apply() string {
	// Drop edits that lie inside a replaced range.
	var rs []edit
	for _, e := range in.edits {
		if e.end > e.pos {
			rs = append(rs, e)
		}
	}
	var es []edit
	for _, e := range in.edits {
		inside := false
		for _, r := range rs {
			if e.seq != r.seq && e.pos >= r.pos && e.end <= r.end && !(e.pos == r.pos && e.end == e.pos && e.seq < r.seq) {
				inside = true
			}
		}
		if !inside {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].pos != es[j].pos {
			return es[i].pos < es[j].pos
		}
		return es[i].seq < es[j].seq
	})
	var b strings.Builder
	at := 0
	for _, e := range es {
		b.WriteString(in.src[at:e.pos])
		b.WriteString(e.text)
		at = e.end
	}
	b.WriteString(in.src[at:])
	return b.String()
}

func funcsOnly(f *ast.File, fn func(*ast.FuncDecl)) {
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			fn(fd)
		}
	}
}

func instrumentStd(rel string, pre func(string) string, only func(name string) bool) {
	fn := filepath.Join(*goroot, "src", rel)
	b, err := os.ReadFile(fn)
	if err != nil {
		die("%v", err)
	}
	src := string(b)
	if pre != nil {
		src = pre(src)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	in := &instr{fset: fset, src: src, file: f, fn: "SimYieldStd", rt: "simrt__", rel: rel}
	funcsOnly(f, func(fd *ast.FuncDecl) {
		if only == nil || only(fd.Name.Name) {
			in.walk(fd.Body)
		}
	})
	in.insert(in.off(f.Name.End()), `; import simrt__ "runtime"`)
	emit(fn, in.apply())
}

func goji() {
	var dirs []string
	filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != *repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "example" || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	sort.Strings(dirs)
	for _, d := range dirs {
		gojiDir(d)
	}
	if _, err := os.Stat(filepath.Join(*repo, "go.mod")); err != nil {
		b, err := os.ReadFile(*gomod)
		if err != nil {
			die("%v", err)
		}
		emit(filepath.Join(*repo, "go.mod"), string(b))
	}
}

func gojiDir(dir string) {
	ctx := build.Default
	ctx.CgoEnabled = false
	ents, _ := os.ReadDir(dir)
	fset := token.NewFileSet()
	type unit struct {
		name, src string
		f         *ast.File
	}
	var units []unit
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), b, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		if f.Name.Name == "main" {
			return
		}
		units = append(units, unit{n, string(b), f})
	}
	if len(units) == 0 {
		return
	}
	pkg := units[0].f.Name.Name
	// Package-level variables, in initialisation order.
	global := map[string]bool{}
	var files []*ast.File
	for _, u := range units {
		files = append(files, u.f)
	}
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: noImporter{}, Error: func(error) {}, FakeImportC: true}
	conf.Check(pkg, fset, files, info)

	type reset struct {
		file int
		body string
	}
	var zero []reset               // var x T
	byPos := map[token.Pos]reset{} // initialiser expr -> assignment
	var varOrder []token.Pos       // textual fallback
	simInits := []string{}
	for ui, u := range units {
		in := &instr{fset: fset, src: u.src, file: u.f, fn: "SimYield", rt: "simrt__"}
		for _, d := range u.f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				for _, n := range vs.Names {
					global[n.Name] = true
				}
				txt := func(a, b token.Pos) string { return u.src[in.off(a):in.off(b)] }
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						if n.Name != "_" {
							zero = append(zero, reset{ui, fmt.Sprintf("%s = *new(%s)", n.Name, txt(vs.Type.Pos(), vs.Type.End()))})
						}
					}
					continue
				}
				if len(vs.Values) == len(vs.Names) {
					for i, n := range vs.Names {
						if n.Name == "_" {
							continue
						}
						v := vs.Values[i]
						if _, ok := v.(*ast.FuncLit); ok {
							continue
						}
						byPos[v.Pos()] = reset{ui, fmt.Sprintf("%s = %s", n.Name, txt(v.Pos(), v.End()))}
						varOrder = append(varOrder, v.Pos())
					}
				} else {
					var names []string
					for _, n := range vs.Names {
						names = append(names, n.Name)
					}
					v := vs.Values[0]
					byPos[v.Pos()] = reset{ui, fmt.Sprintf("%s = %s", strings.Join(names, ", "), txt(v.Pos(), v.End()))}
					varOrder = append(varOrder, v.Pos())
				}
			}
		}
	}
	var order []reset
	seen := map[token.Pos]bool{}
	for _, io := range info.InitOrder {
		if r, ok := byPos[io.Rhs.Pos()]; ok && !seen[io.Rhs.Pos()] {
			seen[io.Rhs.Pos()] = true
			order = append(order, r)
		}
	}
	for _, p := range varOrder {
		if !seen[p] {
			order = append(order, byPos[p])
		}
	}
	rel, _ := filepath.Rel(*repo, dir)
	for ui, u := range units {
		in := &instr{fset: fset, src: u.src, file: u.f, fn: "SimYield", rt: "simrt__", rel: filepath.Join(rel, u.name), global: global}
		funcsOnly(u.f, func(fd *ast.FuncDecl) {
			in.walk(fd.Body)
			if fd.Recv == nil && fd.Name.Name == "init" {
				n := fmt.Sprintf("simInit%d__", len(simInits))
				simInits = append(simInits, n)
				in.edits = append(in.edits, edit{in.off(fd.Name.Pos()), in.off(fd.Name.End()), n, len(in.edits)})
			}
		})
		in.atomics()
		// Function literals in variable initialisers.
		for _, d := range u.f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok {
				ast.Inspect(gd, func(n ast.Node) bool {
					if fl, ok := n.(*ast.FuncLit); ok {
						in.walk(fl.Body)
						return false
					}
					return true
				})
			}
		}
		var res strings.Builder
		for i, list := range [][]reset{zero, order} {
			fmt.Fprintf(&res, "\n//go:norace\nfunc simVars%d_%d__(i int) {\n\tswitch i {\n", i, ui)
			for k, r := range list {
				if r.file == ui {
					fmt.Fprintf(&res, "\tcase %d:\n\t\t%s\n", k, r.body)
				}
			}
			res.WriteString("\t}\n}\n")
		}
		text := ""
		if in.count > 0 {
			in.insert(in.off(u.f.Name.End()), `; import simrt__ "runtime"`)
		}
		text = in.apply() + res.String()
		emit(filepath.Join(dir, u.name), text)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport simrt__ \"runtime\"\n\nfunc init() {\n\tsimrt__.SimRegisterReset(simReset__)\n\tsimInits__()\n}\n\nfunc simInits__() {\n", pkg)
	for _, n := range simInits {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	b.WriteString("}\n\n//go:norace\nfunc simReset__() {\n")
	for i, list := range [][]reset{zero, order} {
		fmt.Fprintf(&b, "\tfor i := 0; i < %d; i++ {\n", len(list))
		for ui := range units {
			fmt.Fprintf(&b, "\t\tsimVars%d_%d__(i)\n", i, ui)
		}
		b.WriteString("\t}\n")
	}
	b.WriteString("\tsimInits__()\n}\n")
	emit(filepath.Join(dir, "zz_sim_reset.go"), b.String())
}

type noImporter struct{}

func (noImporter) Import(path string) (*types.Package, error) {
	return nil, fmt.Errorf("not imported")
}

func main() {
	flag.Parse()
	if *goroot == "" || *repo == "" || *out == "" {
		die("missing flag")
	}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	std()
	instrumentStd("net/http/server.go", nil, nil)
	goji()
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(*out, "sites.txt"), []byte(strings.Join(siteNames, "\n")+"\n"), 0o644); err != nil {
		die("%v", err)
	}
}
