package main

import (
	"fmt"
	"net/http"
	"net/url"
	"os"
	"regexp"
	"strconv"
	"strings"
	"syscall"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
)

// Scenario "proc": generations of a program. Each op is a process that starts,
// gives out some request IDs, and dies; what it starts with - the host's name,
// or none, and its random bytes - is up to the plan. The processes are real
// ones, this program once more: what is simulated is what the kernel tells
// them (see the overlays of os.Hostname and crypto/rand).

var procHosts = []string{"web7", "db.example.com", "h", "!", "-", strings.Repeat("n", 63), "UPPER-case.x"}

func procGen(r *Rand, p *Plan, tier string) {
	n := r.rng(2, 4)
	if bigger(r, tier) {
		n = r.rng(4, 10)
	}
	host := r.picks(procHosts...)
	for i := 0; i < n; i++ {
		if r.chance(1, 4) {
			host = r.picks(procHosts...)
		}
		p.Ops = append(p.Ops, Op{W: 1, K: "proc", A: r.pick(1, 2, 12), B: r.pick(0, 10, 40, 60, 70), S: host, D: int64(r.n(1 << 30))})
	}
}

// procMain is one of the processes.
func procMain(n int) {
	c := web.C{}
	h := middleware.RequestID(&c, http.HandlerFunc(func(http.ResponseWriter, *http.Request) {}))
	for i := 0; i < n; i++ {
		c.Env = nil
		h.ServeHTTP(&rwCore{h: http.Header{}}, &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: http.Header{}})
		fmt.Println(middleware.GetReqID(c))
	}
}

// procStart runs one and returns what it has written.
func procStart(o Op) (string, string) {
	var p [2]int
	if err := syscall.Pipe2(p[:], syscall.O_CLOEXEC|syscall.O_NONBLOCK); err != nil {
		panic(err)
	}
	defer syscall.Close(p[0])
	var env []string
	for _, v := range os.Environ() {
		if !strings.HasPrefix(v, "SIM_HOSTNAME=") && !strings.HasPrefix(v, "SIM_RANDOM=") {
			env = append(env, v)
		}
	}
	env = append(env, "SIM_HOSTNAME="+strings.TrimPrefix(o.S, "-"), fmt.Sprintf("SIM_RANDOM=%d:%d", o.D, o.B))
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	defer null.Close()
	pid, err := syscall.ForkExec(exe, []string{exe, "proc", strconv.Itoa(o.A)}, &syscall.ProcAttr{
		Env: env, Files: []uintptr{null.Fd(), uintptr(p[1]), null.Fd()}})
	syscall.Close(p[1])
	if err != nil {
		panic(err)
	}
	// It takes milliseconds, unless it never ends.
	var out []byte
	b := make([]byte, 4096)
	hung := true
	for i := 0; i < 20000; i++ {
		n, err := syscall.Read(p[0], b)
		if err == syscall.EAGAIN {
			syscall.Nanosleep(&syscall.Timespec{Nsec: 1000000}, nil)
			continue
		}
		if n <= 0 && err != syscall.EINTR {
			hung = false
			break
		}
		out = append(out, b[:max(n, 0)]...)
	}
	if hung {
		syscall.Kill(pid, syscall.SIGKILL)
	}
	var ws syscall.WaitStatus
	for {
		if _, err = syscall.Wait4(pid, &ws, 0, nil); err != syscall.EINTR {
			break
		}
	}
	switch {
	case hung:
		return "", "does not start"
	case ws.Signaled():
		return "", "was killed by " + ws.Signal().String()
	case ws.ExitStatus() != 0:
		return "", fmt.Sprintf("exits with status %d", ws.ExitStatus())
	}
	return string(out), ""
}

var reProcID = regexp.MustCompile(`^([^/]+)/([0-9A-Za-z]{10})-(\d+)$`)

func procAfter(x *X) {
	seen := map[string]int{}
	for i, o := range x.plan.Ops {
		out, bad := procStart(o)
		what := fmt.Sprintf("process %d (host name %q)", i, o.S)
		if o.S == "!" || o.S == "-" {
			x.FaultFired("no-hostname")
		}
		if o.B > 40 {
			x.FaultFired("biased-random-bytes")
		}
		x.FaultFired("process-restart")
		if bad != "" {
			x.Fail("C31", "start", "%s %s", what, bad)
			return
		}
		ids := strings.Fields(out)
		last, random := uint64(0), ""
		for j, id := range ids {
			m := reProcID.FindStringSubmatch(id)
			if m == nil {
				x.Fail("C31", "format", "%s gave out ID %q, which is not of the form host/random-number", what, id)
				return
			}
			if o.S != "!" && o.S != "-" && m[1] != o.S {
				x.Fail("C31", "host", "%s gave out ID %q", what, id)
				return
			}
			if j > 0 && m[2] != random {
				x.Fail("C31", "format", "%s gave out ID %q, after others with %q", what, id, random)
				return
			}
			random = m[2]
			n, err := strconv.ParseUint(m[3], 10, 64)
			if err != nil || j > 0 && n <= last {
				x.Fail("C31", "order", "%s gave out ID %q after number %d", what, id, last)
				return
			}
			last = n
		}
		if len(ids) != o.A {
			x.Fail("C31", "start", "%s gave out %d IDs, want %d", what, len(ids), o.A)
			return
		}
		if k, ok := seen[random]; ok {
			x.Fail("C31", "two-processes", "processes %d and %d call themselves %q", k, i, random)
			return
		}
		seen[random] = i
	}
}

func init() {
	register(&Scenario{Name: "proc", Gen: procGen, Run: func(x *X) {
		for i, o := range x.plan.Ops {
			x.Ev("process", int64(i), int64(o.A), int64(o.B))
		}
	}, After: procAfter, Limit: 10000})
}
