package main

import (
	"crypto/tls"
	"net/http"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/zenazn/goji"
	"github.com/zenazn/goji/graceful"
	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
)

// Scenario "goji": a whole program whose main is goji.ServeListener or
// goji.Serve, with the default mux and middleware, from start to exit, in an
// environment that may be that of Einhorn or systemd.

// How the program serves.
const (
	entryListener = iota // goji.ServeListener
	entryServe           // goji.Serve
	entryServeTLS        // goji.ServeTLS
)

func gojiGen(r *Rand, p *Plan, tier string) {
	grcGen(r, p, tier)
	k := p.Knobs
	k["servers"] = 1
	k["how"] = 0
	k["readto"] = 0
	k["resets"] = 0
	k["setwindow"] = r.pick(0, 1)
	if k["setwindow"] == 0 {
		k["window"] = 2000
	}
	k["entry"] = r.pick(entryListener, entryServe)
	if r.chance(1, 40) {
		k["entry"] = entryServeTLS
	}
	var ops []Op
	served := false
	for _, o := range p.Ops {
		switch o.K {
		case "serve":
			if served {
				continue
			}
			served = true
			o.C = 0
		case "dial":
			o.A = 0
		case "wait", "resetsig":
			continue
		case "lnclose":
			o.C = 0
			if !r.chance(1, 3) || k["entry"] != entryListener {
				continue
			}
		}
		ops = append(ops, o)
	}
	p.Ops = ops
	for i := range p.Faults {
		switch p.Faults[i].K {
		case "accept-temp", "accept-perm", "accept-perm-closing", "slow-lclose", "slow-accept":
			p.Faults[i].A = 0
		}
	}
	bootGen(r, p)
	bootFaults(r, p)
}

func gojiRun(x *X) {
	s := &grcState{x: x, goji: true}
	s.trigWG.Add(1)
	x.state = s
	x.also = "C16"
	grcSetup(x, s)
	x.onExit = s.exited
	s.bootSetup()
	up := make(chan struct{})
	go func() {
		resetAll()
		close(up)
	}()
	if !waitCh(up, time.Minute) {
		// The program ended before it began.
		if !x.hasExited() {
			x.Fail("C50", "init-hang", "initialising the program takes forever")
		}
		return
	}
	s.bootSniff()
	s.settings(x.plan.knob("setwindow") != 0)
	graceful.AddSignal(syscall.SIGTERM)
	s.gojiRoutes()
	s.hooks()
	s.play()
	s.bootEnd()
}

var gojiMethods = []string{"CONNECT", "DELETE", "HEAD", "GET", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"}

// gojiTarget is where a quick request goes.
func gojiTarget(id int) (method, path string) {
	switch id % 4 {
	case 1:
		return "GET", "/std/"
	case 2:
		return gojiMethods[id/4*5%len(gojiMethods)], "/v/"
	case 3:
		if id%8 == 3 {
			return "OPTIONS", "/o/"
		}
		return "GET", "/none/"
	}
	return "GET", "/r/"
}

// gojiRoutes sets up the default mux by the functions of package goji.
func (s *grcState) gojiRoutes() {
	goji.Handle("/r/:id", s.gojiHandle)
	http.HandleFunc("/std/", s.handle)
	for _, m := range []struct {
		name string
		f    func(web.PatternType, web.HandlerType)
	}{{"CONNECT", goji.Connect}, {"DELETE", goji.Delete}, {"HEAD", goji.Head}, {"GET", goji.Get}, {"OPTIONS", goji.Options},
		{"PATCH", goji.Patch}, {"POST", goji.Post}, {"PUT", goji.Put}, {"TRACE", goji.Trace}} {
		name := m.name
		m.f("/v/:id", func(w http.ResponseWriter, r *http.Request) {
			if r.Method != name {
				s.x.Fail("C16", "route", "the handler of the %s route was given a %s request", name, r.Method)
			}
			s.handle(w, r)
		})
	}
	goji.Handle("/v/*", func(w http.ResponseWriter, r *http.Request) {
		s.x.Fail("C16", "route", "no route of its own was found for a %s request", r.Method)
		s.handle(w, r)
	})
	goji.Post("/o/:id", s.gojiHandle)
	goji.Get("/o/:id", s.gojiHandle)
	goji.NotFound(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(404)
		s.handle(w, r)
	})
	layer := func(name string) func(*web.C, http.Handler) http.Handler {
		return func(c *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				if id := middleware.GetReqID(*c); id == "" {
					s.x.Fail("C16", "default-middleware", "a request has no ID")
				} else if !loggedHere("[" + id + "] Started ") {
					s.x.Fail("C16", "default-middleware", "a request has not been logged")
				}
				w.Header().Add("X-Layer", name)
				h.ServeHTTP(w, r)
			})
		}
	}
	a, b, d := layer("a"), layer("b"), layer("d")
	goji.Use(a)
	goji.Use(d)
	if err := goji.Insert(b, d); err != nil {
		s.x.Fail("C16", "layers", "Insert: %v", err)
	}
	if err := goji.Abandon(a); err != nil {
		s.x.Fail("C16", "layers", "Abandon: %v", err)
	}
}

// gojiExpect is how the response to a request should look.
func (s *grcState) gojiExpect(r *grcReq, resp *http.Response, body []byte) (int, []byte) {
	code, layers := 200, "b d"
	_, path := gojiTarget(r.id)
	switch {
	case r.kind == rqPanic:
		return 500, []byte("Internal Server Error\n")
	case r.kind == rqQuick && path == "/none/":
		code = 404
	case r.kind == rqQuick && path == "/o/":
		s.x.Probe("options-answered")
		if got := strings.Join(resp.Header["Allow"], " "); got != "GET, HEAD, POST, OPTIONS" {
			s.x.Fail("C16", "default-middleware", "a request for the OPTIONS of a path was answered with %q", got)
		}
		body = nil
	case r.kind == rqQuick && path == "/std/":
		layers = ""
	}
	if got := strings.Join(resp.Header["X-Layer"], " "); got != layers && resp.StatusCode == code {
		s.x.Fail("C16", "layers", "a request to the default mux went through the layers %q instead of %q", got, layers)
	}
	return code, body
}

func (s *grcState) gojiHandle(c web.C, w http.ResponseWriter, r *http.Request) {
	if "/r/"+c.URLParams["id"] != r.URL.Path {
		s.x.Fail("C16", "route", "the handler of /r/:id was given id %q for %s", c.URLParams["id"], r.URL.Path)
	}
	s.handle(w, r)
}

// loggedHere reports whether this goroutine has logged a line that begins so.
//
//go:norace
func loggedHere(s string) bool {
	g := runtime.SimGoid()
	for i := nLog - 1; i >= 0; i-- {
		if logG[i] == g && strings.HasPrefix(ansi.ReplaceAllString(logLines[i], ""), s) {
			return true
		}
	}
	return nLog == len(logLines)
}

// exited: the program ended through os.Exit (log.Fatal).
//
//go:norace
func (s *grcState) exited(code int) {
	sv := s.srvs[0]
	switch {
	case s.boot.fatalOK():
		s.x.Probe("fatal-at-boot")
	case sv.ln.permFired:
		s.x.Probe("fatal-accept-error")
	case sv.extClose != 0 && len(s.triggers) == 0:
		s.x.Probe("fatal-listener-closed")
	case sv.extClose != 0 && sv.extClose == sv.ln.closeCause():
		// Closed by somebody else while a shutdown was starting.
		s.x.Probe("fatal-listener-closed")
	default:
		s.x.Fail("C16", "fatal-exit", "the program was ended with status %d although its listener had not failed%s", code, s.boot.describe())
	}
	if code == 0 {
		s.x.Fail("C16", "exit-status", "the program ended with status 0 although its listener failed")
	}
	s.boot.exited = true
	s.x.dead = true
}

// closeCause: see SListener.closeSeq; an outside close is announced just before.
//
//go:norace
func (l *SListener) closeCause() uint64 {
	if l.closeSeq == 0 {
		return 0
	}
	return l.closeSeq - 1
}

func (s *grcState) serveGoji(sv *grcServer) {
	s.serveBegin(sv)
	switch s.x.plan.knob("entry") {
	case entryListener:
		goji.ServeListener(sv.ln)
	case entryServe:
		goji.Serve()
	case entryServeTLS:
		goji.ServeTLS(&tls.Config{Certificates: []tls.Certificate{theCert()}, NextProtos: []string{"http/1.1"}})
	}
	s.gojiReturned(sv)
}

var cert1 tls.Certificate

// theCert is loaded once, before anything is simulated.
func theCert() tls.Certificate { return cert1 }

//go:norace
func (s *grcState) gojiReturned(sv *grcServer) {
	x := s.x
	sv.retSeq = x.Ev("serve-ret", 0, 0, 0)
	sv.retT = x.Now()
	sv.returned = true
	x.Probe("serve-listener-returned")
	if len(s.triggers) == 0 {
		x.Fail("C16", "returned-untriggered", "ServeListener returned although no shutdown was requested")
	}
	if sv.ln.permFired {
		x.Fail("C16", "error-swallowed", "ServeListener returned although accepting failed with %q", sv.ln.permErr())
	}
	s.complete("ServeListener")
	if s.waitRet == 0 {
		// The program ends now: hooks that are still to run never will.
		s.waitRet = sv.retSeq
	}
}

func init() {
	var err error
	if cert1, err = tls.LoadX509KeyPair(certFile, keyFile); err != nil {
		os.Stderr.WriteString("worker: " + err.Error() + "\n")
		os.Exit(2)
	}
	_ = runtime.NumCPU
	register(&Scenario{Name: "goji", Gen: gojiGen, Run: gojiRun, Limit: 400000})
}
