package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"maps"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"regexp"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"github.com/zenazn/goji/web/mutil"
)

// Scenario "mw": stacks of the package's middleware, in any order, under
// concurrent requests whose handlers use (and abuse) their response writers in
// every way, with clients that are slow or go away. Observers sit between all
// layers.

const (
	lRequestID = 1 + iota
	lLogger
	lRecoverer
	lOptions
	lWrap
	lEnvInit
	lRealIP
	lNoCache
	lURLQuery
	nLayer
)

// Capabilities of response writers.
const (
	capF = 1 << iota
	capH
	capR
	capP
)

var mwCaps = []int{0, capF, capF | capH | capR, capF | capP, capF | capH | capR | capP, capF | capH | capR,
	capF | capH, capF | capR, capH, capR, capH | capR, capF | capH | capR}

func mwGen(r *Rand, p *Plan, tier string) {
	k := p.Knobs
	k["muxes"] = r.pick(1, 1, 2)
	for m := 0; m < k["muxes"]; m++ {
		n := 0
		add := func(l int) { k[fmt.Sprintf("m%dl%d", m, n)] = l; n++ }
		if r.chance(1, 3) {
			// The default stack.
			for _, l := range []int{lRequestID, lLogger, lRecoverer, lOptions} {
				add(l)
			}
		} else {
			for i, c := 0, r.rng(1, 6); i < c; i++ {
				add(r.rng(1, nLayer-1))
			}
		}
		k[fmt.Sprintf("m%dn", m)] = n
		k[fmt.Sprintf("m%drouter", m)] = r.pick(0, 0, 0, 1)
	}
	k["customnf"] = r.pick(0, 0, 1)
	if r.chance(1, 4000) {
		k["burst"] = 1200000
	}
	actors, most := r.rng(1, 4), 4
	if bigger(r, tier) {
		actors, most = r.rng(2, 8), 10
	}
	id := 0
	for a := 0; a < actors; a++ {
		for i, c := 0, r.rng(1, most); i < c; i++ {
			id++
			p.Ops = append(p.Ops, Op{W: a, K: "req", C: id, A: r.n(len(mwCaps)), B: r.n(1<<14)<<13 | r.n(20)<<8 | r.n(256), S: mwBodies[r.n(len(mwBodies))], D: r.dur(0, 0, 0, time.Millisecond, 600*time.Millisecond)})
			acts := r.pick(0, 1, 2, 3, 4, 6)
			opts := r.chance(1, 8)
			if opts {
				// OPTIONS, where there are routes for other methods.
				q := &p.Ops[len(p.Ops)-1]
				q.B, q.S = q.B&^(31<<8)|2<<8, "/q/"
			}
			for j := 0; j < acts; j++ {
				o := Op{W: a, C: id}
				act := r.n(24)
				if opts && j < 2 {
					act = r.pick(act, 0, 4)
				}
				switch act {
				case 0, 1, 2, 3:
					o.K = "header"
					o.A = r.pick(200, 200, 201, 204, 301, 304, 400, 404, 404, 500, 503, 103, 199, 100, 101)
					if r.chance(1, 5) {
						// A status too many.
						p.Ops = append(p.Ops, o)
						o.A = r.pick(404, 404, 200)
					}
				case 4, 5, 6, 7:
					o.K = "write"
					o.A = r.pick(0, 1, 10, 100, 1000, 5000)
				case 8, 9:
					o.K = "flush"
				case 10, 11:
					o.K = "copy"
					o.A = r.pick(0, 1, 100, 600, 5000, 70000)
					o.B = r.pick(0, 0, 0, 1, 2) // the source fails
				case 12, 13:
					o.K = "sleep"
					o.D = r.dur(time.Millisecond, 20*time.Millisecond, 499*time.Millisecond, 700*time.Millisecond, 6*time.Second)
				case 14:
					o.K = "push"
				case 15:
					o.K = "hijack"
				case 16:
					o.K = "error"
					o.A = r.pick(400, 404, 404, 500)
					o.B = r.n(3)
				case 17, 18:
					o.K = "panic"
					o.A = r.n(8)
				case 19:
					o.K = "set"
					o.A = r.n(3)
				case 22, 23:
					o.K = "length"
				default:
					// Only the wrapping layers react to these.
					o.K = "tee"
					o.A = r.pick(0, 1, 1, 1)
					o.B = r.pick(-1, -1, 0, 5, 500)
				}
				p.Ops = append(p.Ops, o)
			}
			if r.chance(1, 4) {
				p.Faults = append(p.Faults, Fault{K: r.picks("write-fail", "write-short", "write-slow"), C: id, A: r.pick(0, 1, 50, 700, 4000), B: r.pick(1, 100, 600)})
			}
			if r.chance(1, 8) && acts > 0 {
				p.Faults = append(p.Faults, Fault{K: "client-gone", C: id, A: r.n(acts)})
			}
			if r.chance(1, 12) {
				p.Faults = append(p.Faults, Fault{K: "hijack-fail", C: id})
			}
		}
	}
	p.Stalls = r.stalls(2, 4000, time.Millisecond, 300*time.Millisecond)
}

// What a request asks for.
var mwBodies = []string{"/q/", "/q/", "/any/", "/any/", "/any/", "/none/"}

// ---- response writers ----

var errGone = errors.New("sim: client went away")
var errShort = errors.New("sim: short write")

// rwCore is the bottom of everything: what the client gets. Its behaviour is
// that of net/http's response writers.
type rwCore struct {
	q      *mwReq
	h      http.Header
	infos  []int
	status int // final status; 0: not sent yet
	sent   http.Header
	body   []byte
	flush  int
	push   int
	hij    bool
	super  int // superfluous WriteHeader calls
	fail   *Fault
	slow   *Fault
	hfail  bool
	off    int // bytes accepted, failing writes included
	broken bool
	caps   int
}

func informational(c int) bool { return c >= 100 && c <= 199 && c != 101 }

func (w *rwCore) Header() http.Header { return w.h }

func (w *rwCore) WriteHeader(c int) {
	Y()
	if w.hij || w.status != 0 {
		w.super++
		return
	}
	if informational(c) {
		w.infos = append(w.infos, c)
		return
	}
	w.status = c
	w.sent = w.h.Clone()
}

func (w *rwCore) Write(b []byte) (int, error) {
	if w.slow != nil {
		w.q.s.x.FaultFired("write-slow")
		sleep(int64(w.slow.B) * int64(time.Millisecond))
	} else {
		Y()
	}
	if w.hij {
		return 0, http.ErrHijacked
	}
	if w.status == 0 {
		w.WriteHeader(200)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if w.status == 204 || w.status == 304 || w.status == 101 {
		return 0, http.ErrBodyNotAllowed
	}
	if w.broken {
		return 0, errGone
	}
	n := len(b)
	var err error
	if f := w.fail; f != nil && w.off+n > f.A {
		w.q.s.x.FaultFired(f.K)
		n = f.A - w.off
		err = errShort
		if f.K == "write-fail" {
			w.broken = true
			err = errGone
		} else {
			w.fail = nil
		}
	}
	w.off += n
	w.body = append(w.body, b[:n]...)
	return n, err
}

func (w *rwCore) doFlush() {
	Y()
	if w.hij {
		return
	}
	if w.status == 0 {
		w.WriteHeader(200)
	}
	w.flush++
}

func (w *rwCore) doHijack() (net.Conn, *bufio.ReadWriter, error) {
	Y()
	if w.hij {
		return nil, nil, http.ErrHijacked
	}
	if w.hfail {
		w.q.s.x.FaultFired("hijack-fail")
		return nil, nil, errGone
	}
	w.hij = true
	return w.q.conn, w.q.brw, nil
}

type justWriter struct{ io.Writer }
type justReader struct{ io.Reader }

func (w *rwCore) doReadFrom(r io.Reader) (int64, error) {
	return io.CopyBuffer(justWriter{w}, justReader{r}, make([]byte, 2048))
}

func (w *rwCore) doPush(t string, o *http.PushOptions) error {
	Y()
	w.push++
	if w.push%2 == 0 {
		return http.ErrNotSupported
	}
	return nil
}

// doer is what capability wrappers are made of.
type doer interface {
	http.ResponseWriter
	doFlush()
	doHijack() (net.Conn, *bufio.ReadWriter, error)
	doReadFrom(r io.Reader) (int64, error)
	doPush(t string, o *http.PushOptions) error
}

type capF_ struct{ doer }

func (w capF_) Flush() { w.doFlush() }

type capH_ struct{ doer }

func (w capH_) Hijack() (net.Conn, *bufio.ReadWriter, error) { return w.doHijack() }

type capR_ struct{ doer }

func (w capR_) ReadFrom(r io.Reader) (int64, error) { return w.doReadFrom(r) }

type capP_ struct{ doer }

func (w capP_) Push(t string, o *http.PushOptions) error { return w.doPush(t, o) }

// withCaps makes a response writer with just these capabilities. It is a
// pointer, so that it can be compared.
func withCaps(d doer, caps int) http.ResponseWriter {
	F, H, R, P := capF_{d}, capH_{d}, capR_{d}, capP_{d}
	switch caps {
	case capF:
		return &struct {
			http.ResponseWriter
			http.Flusher
		}{d, F}
	case capH:
		return &struct {
			http.ResponseWriter
			http.Hijacker
		}{d, H}
	case capF | capH:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Hijacker
		}{d, F, H}
	case capR:
		return &struct {
			http.ResponseWriter
			io.ReaderFrom
		}{d, R}
	case capF | capR:
		return &struct {
			http.ResponseWriter
			http.Flusher
			io.ReaderFrom
		}{d, F, R}
	case capH | capR:
		return &struct {
			http.ResponseWriter
			http.Hijacker
			io.ReaderFrom
		}{d, H, R}
	case capF | capH | capR:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Hijacker
			io.ReaderFrom
		}{d, F, H, R}
	case capP:
		return &struct {
			http.ResponseWriter
			http.Pusher
		}{d, P}
	case capF | capP:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Pusher
		}{d, F, P}
	case capH | capP:
		return &struct {
			http.ResponseWriter
			http.Hijacker
			http.Pusher
		}{d, H, P}
	case capF | capH | capP:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Hijacker
			http.Pusher
		}{d, F, H, P}
	case capR | capP:
		return &struct {
			http.ResponseWriter
			io.ReaderFrom
			http.Pusher
		}{d, R, P}
	case capF | capR | capP:
		return &struct {
			http.ResponseWriter
			http.Flusher
			io.ReaderFrom
			http.Pusher
		}{d, F, R, P}
	case capH | capR | capP:
		return &struct {
			http.ResponseWriter
			http.Hijacker
			io.ReaderFrom
			http.Pusher
		}{d, H, R, P}
	case capF | capH | capR | capP:
		return &struct {
			http.ResponseWriter
			http.Flusher
			http.Hijacker
			io.ReaderFrom
			http.Pusher
		}{d, F, H, R, P}
	}
	return &struct{ http.ResponseWriter }{d}
}

func capsOf(w http.ResponseWriter) int {
	c := 0
	if _, ok := w.(http.Flusher); ok {
		c |= capF
	}
	if _, ok := w.(http.Hijacker); ok {
		c |= capH
	}
	if _, ok := w.(io.ReaderFrom); ok {
		c |= capR
	}
	if _, ok := w.(http.Pusher); ok {
		c |= capP
	}
	return c
}

// rec passes everything on to w and keeps track of what went through.
type rec struct {
	q      *mwReq
	w      http.ResponseWriter
	status int // final status sent
	infos  []int
	codes  []int       // every WriteHeader call
	header string      // what sent the header
	hsent  http.Header // what it was then
	h      http.Header // what it was at the start of the operation
	body   []byte
	flush  int
	push   int
	hij    int
	hijOK  bool
	hj     struct {
		c   net.Conn
		brw *bufio.ReadWriter
		err error
	}
	werr   error // of the last write
	perr   error
	before func(what string)
	after  func(what string, b []byte, n int64, err error)
}

func (w *rec) pre(what string) {
	if w.hsent == nil {
		w.h = w.w.Header().Clone()
	}
	if w.before != nil {
		w.before(what)
	}
}

func (w *rec) post(what string, b []byte, n int64, err error) {
	if w.hsent == nil && w.status != 0 {
		w.hsent, w.header = w.h, what
	}
	if w.after != nil {
		w.after(what, b, n, err)
	}
}

func (w *rec) Header() http.Header { return w.w.Header() }

func (w *rec) WriteHeader(c int) {
	w.pre("header")
	w.w.WriteHeader(c)
	w.codes = append(w.codes, c)
	if !w.hijOK && w.status == 0 {
		if informational(c) {
			w.infos = append(w.infos, c)
		} else {
			w.status = c
		}
	}
	w.post("header", nil, int64(c), nil)
}

func (w *rec) implied() {
	if w.status == 0 && !w.hijOK {
		w.status = 200
	}
}

func (w *rec) Write(b []byte) (int, error) {
	w.pre("write")
	n, err := w.w.Write(b)
	w.implied()
	if n >= 0 && n <= len(b) {
		w.body = append(w.body, b[:n]...)
	}
	w.werr = err
	w.post("write", b, int64(n), err)
	return n, err
}

func (w *rec) doFlush() {
	w.pre("flush")
	w.w.(http.Flusher).Flush()
	w.implied()
	w.flush++
	w.post("flush", nil, 0, nil)
}

func (w *rec) doHijack() (net.Conn, *bufio.ReadWriter, error) {
	w.pre("hijack")
	c, b, err := w.w.(http.Hijacker).Hijack()
	w.hij++
	w.hj.c, w.hj.brw, w.hj.err = c, b, err
	if err == nil {
		w.hijOK = true
	}
	w.post("hijack", nil, 0, err)
	return c, b, err
}

// tap remembers what was read through it.
type tap struct {
	r io.Reader
	b []byte
}

func (t *tap) Read(b []byte) (int, error) {
	n, err := t.r.Read(b)
	t.b = append(t.b, b[:n]...)
	return n, err
}

func (w *rec) doReadFrom(r io.Reader) (int64, error) {
	w.pre("copy")
	t := &tap{r: r}
	n, err := w.w.(io.ReaderFrom).ReadFrom(t)
	if len(t.b) > 0 {
		w.implied()
		if n == 0 {
			w.q.murky = true
		}
	}
	if n >= 0 && int(n) <= len(t.b) {
		w.body = append(w.body, t.b[:n]...)
	}
	w.werr = err
	w.post("copy", t.b, n, err)
	return n, err
}

func (w *rec) doPush(t string, o *http.PushOptions) error {
	w.pre("push")
	err := w.w.(http.Pusher).Push(t, o)
	w.push++
	w.perr = err
	w.post("push", nil, 0, err)
	return err
}

// ---- requests ----

// at is what one observer saw of one request.
type at struct {
	seen       int
	idIn, idOu string
	tIn, tOut  int64
	sIn, sOut  uint64
	remote     string
	hdr, rhdr  http.Header // request's and response's on the way in
	env        map[interface{}]interface{}
	envp       uintptr     // which map that is
	query      interface{} // what URLQuery left, in and out
	queryOut   interface{}
	u          string
	normal     bool
	w          http.ResponseWriter
	atOut      int // client status when it was left
	bodyOut    int // body bytes the client had then
	hijOut     bool
}

type mwReq struct {
	s       *mwState
	id      int
	m       *mwMux
	method  string
	url     string
	acts    []Op
	next    int
	core    *rwCore
	conn    net.Conn
	brw     *bufio.ReadWriter
	at      []at
	hr      *rec // around the writer the handler was given
	hit     string
	panicV  interface{}
	atPanic int // client status at the time of the panic
	atBody  int
	valid   []string
	escaped interface{}
	inv     uint64
	ret     uint64
	g       uint32
	wraps   int
	done    bool
	sets    []func(o Op)
	// When the very first byte of a ReadFrom fails to be sent, a proxy cannot
	// know that the header was.
	murky bool
	hdrs  int    // which headers the request has
	ip    string // what they say its origin is
	query url.Values
	// The request ID in the environment that the caller passed.
	outerID string
	cancel  func()
	gone    *Fault // the client goes away before this action
}

type mwMux struct {
	n      int
	m      *web.Mux
	layers []int
}

type mwState struct {
	x     *X
	muxes []*mwMux
	reqs  map[int]*mwReq
	order []*mwReq
	ids   []idUse
}

type idUse struct {
	id       string
	q        *mwReq
	from, to uint64
}

func (s *mwState) reqOf(r *http.Request) *mwReq {
	i := strings.LastIndex(r.URL.Path, "/")
	n, _ := strconv.Atoi(r.URL.Path[i+1:])
	return s.reqs[n]
}

var mwMethods = []string{"GET", "POST", "OPTIONS", "HEAD", "PUT"}

func mwRun(x *X) {
	s := &mwState{x: x, reqs: map[int]*mwReq{}}
	x.state = s
	p := x.plan
	for i := 0; i < p.knob("muxes"); i++ {
		mm := &mwMux{n: i, m: web.New()}
		s.build(mm)
		s.muxes = append(s.muxes, mm)
	}
	m := p.actors()
	for _, k := range sortedKeys(m) {
		for _, o := range m[k] {
			if o.K == "req" && s.reqs[o.C] == nil {
				s.newReq(o)
			}
		}
	}
	for _, o := range p.Ops {
		if q := s.reqs[o.C]; q != nil && o.K != "req" {
			q.acts = append(q.acts, o)
		}
	}
	var wg sync.WaitGroup
	for _, k := range sortedKeys(m) {
		var qs []*mwReq
		var ds []int64
		for _, o := range m[k] {
			if o.K == "req" {
				qs = append(qs, s.reqs[o.C])
				ds = append(ds, o.D)
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, q := range qs {
				sleep(ds[i])
				s.request(q)
			}
		}()
	}
	wg.Wait()
}

func (s *mwState) newReq(o Op) {
	q := &mwReq{s: s, id: o.C}
	q.m = s.muxes[o.B&0xff%len(s.muxes)]
	q.method = mwMethods[(o.B>>8&31)%len(mwMethods)]
	q.url = o.S + strconv.Itoa(o.C)
	if o.B&0x10 != 0 {
		q.url += "?a=\"b c\"&%zz"
	} else if o.B&0x20 != 0 {
		q.url += "?id=" + strconv.Itoa(o.C) + "&x=1&x=+%41"
	}
	q.hdrs = o.B >> 13
	q.core = &rwCore{q: q, h: http.Header{}, caps: mwCaps[o.A%len(mwCaps)]}
	a, _ := net.Pipe()
	q.conn = a
	q.brw = bufio.NewReadWriter(bufio.NewReader(a), bufio.NewWriter(a))
	for i := range s.x.plan.Faults {
		f := &s.x.plan.Faults[i]
		if f.C != o.C {
			continue
		}
		switch f.K {
		case "write-fail", "write-short":
			q.core.fail = f
		case "write-slow":
			q.core.slow = f
		case "client-gone":
			q.gone = f
		case "hijack-fail":
			q.core.hfail = true
		}
	}
	s.reqs[o.C] = q
	s.order = append(s.order, q)
}

func (s *mwState) build(mm *mwMux) {
	k := s.x.plan.Knobs
	n := k[fmt.Sprintf("m%dn", mm.n)]
	mm.m.Use(s.observer(0))
	for i := 0; i < n; i++ {
		l := k[fmt.Sprintf("m%dl%d", mm.n, i)]
		mm.layers = append(mm.layers, l)
		switch l {
		case lRequestID:
			mm.m.Use(middleware.RequestID)
		case lLogger:
			mm.m.Use(middleware.Logger)
		case lRecoverer:
			mm.m.Use(middleware.Recoverer)
		case lOptions:
			mm.m.Use(middleware.AutomaticOptions)
		case lWrap:
			mm.m.Use(s.wrapper())
		case lEnvInit:
			mm.m.Use(middleware.EnvInit)
		case lRealIP:
			mm.m.Use(middleware.RealIP)
		case lNoCache:
			mm.m.Use(middleware.NoCache)
		case lURLQuery:
			mm.m.Use(middleware.URLQuery)
		}
		mm.m.Use(s.observer(i + 1))
	}
	if k[fmt.Sprintf("m%drouter", mm.n)] == 1 {
		mm.m.Use(mm.m.Router)
	}
	mm.m.Get("/q/:id", s.handler("get"))
	mm.m.Post("/q/:id", s.handler("post"))
	mm.m.Handle("/any/:id", s.handler("any"))
	if k["customnf"] == 1 {
		mm.m.NotFound(s.handler("notfound"))
	}
}

// observer notes what passes between two layers.
func (s *mwState) observer(i int) interface{} {
	return func(c *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			q := s.reqOf(r)
			for len(q.at) <= i {
				q.at = append(q.at, at{})
			}
			a := &q.at[i]
			a.seen++
			a.idIn = middleware.GetReqID(*c)
			a.tIn, a.sIn = s.x.Now(), s.x.Ev("in", int64(q.id), int64(i), 0)
			a.remote = r.RemoteAddr
			a.hdr, a.rhdr = r.Header.Clone(), w.Header().Clone()
			a.env, a.query = maps.Clone(c.Env), c.Env[middleware.URLQueryKey]
			a.envp = reflect.ValueOf(c.Env).Pointer()
			a.u = r.URL.String()
			a.w = w
			defer func() {
				a := &q.at[i]
				a.idOu = middleware.GetReqID(*c)
				a.queryOut = c.Env[middleware.URLQueryKey]
				a.tOut, a.sOut = s.x.Now(), s.x.Ev("out", int64(q.id), int64(i), int64(q.core.status))
				a.atOut, a.bodyOut, a.hijOut = q.core.status, len(q.core.body), q.core.hij
				if s.reqOf(r) != q {
					s.x.Fail("C21", "request-mixup", "the request changed under an observer")
				}
			}()
			h.ServeHTTP(w, r)
			q.at[i].normal = true
		})
	}
}

// script is run by whatever ends up handling the request.
func (s *mwState) handler(kind string) interface{} {
	return func(c web.C, w http.ResponseWriter, r *http.Request) {
		q := s.reqOf(r)
		q.hit = kind
		if v, ok := c.Env[web.ValidMethodsKey].([]string); ok {
			q.valid = v
		}
		caps := capsOf(w)
		q.hr = &rec{q: q, w: w}
		w = withCaps(q.hr, caps)
		for i, o := range q.acts {
			if f := q.gone; f != nil && f.A == i {
				s.x.FaultFired("client-gone")
				q.cancel()
			}
			s.act(q, w, o)
		}
	}
}

type badPanic struct{ A, B int }

func mwPanic(k int) interface{} {
	switch k {
	case 0:
		return "a string"
	case 1:
		return errGone
	case 2:
		return &badPanic{1, 2}
	case 3:
		return http.ErrAbortHandler
	case 4:
		return 42
	case 5:
		return "multi\nline"
	case 6:
		return nil
	}
	return badPanic{3, 4}
}

type failingReader struct {
	r    io.Reader
	kind int
	n    int
}

func (f *failingReader) Read(b []byte) (int, error) {
	Y()
	f.n++
	if f.kind == 2 && f.n > 1 {
		return 0, errors.New("sim: source failed")
	}
	n, err := f.r.Read(b)
	if f.kind == 1 && err == io.EOF {
		err = errors.New("sim: source failed")
	}
	return n, err
}

func (s *mwState) act(q *mwReq, w http.ResponseWriter, o Op) {
	switch o.K {
	case "header":
		w.WriteHeader(o.A)
	case "write":
		w.Write(grcBody(o.A))
	case "set":
		switch o.A {
		case 0:
			w.Header().Add("X-Set", strconv.Itoa(q.id))
		case 1:
			w.Header().Set("Allow", "GET")
		case 2:
			w.Header().Set("Content-Type", "text/plain")
		}
	case "length":
		w.Header().Set("Content-Length", strconv.Itoa(100+q.id))
	case "flush":
		if f, ok := w.(http.Flusher); ok {
			f.Flush()
		}
	case "copy":
		src := &failingReader{bytes.NewReader(grcBody(o.A)), o.B, 0}
		if rf, ok := w.(io.ReaderFrom); ok {
			rf.ReadFrom(src)
		} else {
			io.Copy(justWriter{w}, src)
		}
	case "sleep":
		// (the delay is the op's own)
		sleep(o.D)
	case "push":
		if p, ok := w.(http.Pusher); ok {
			if err := p.Push("/x", nil); err != nil && q.core.caps&capP == 0 && err != http.ErrNotSupported {
				s.x.Fail("C40", "push-error", "Push on a writer that cannot push returned %v, want http.ErrNotSupported", err)
			}
		}
	case "hijack":
		if h, ok := w.(http.Hijacker); ok {
			c, b, err := h.Hijack()
			if err == nil && (c != q.conn || b != q.brw) {
				s.x.Fail("C40", "hijack", "Hijack returned a connection that is not the client's")
			}
		}
	case "error":
		if o.B == 1 {
			w.Header().Set("Allow", "GET, TRACE")
		}
		http.Error(w, "oops", o.A)
	case "panic":
		v := mwPanic(o.A)
		q.panicV = v
		if v == nil {
			q.panicV = new(runtime.PanicNilError)
		}
		q.atPanic, q.atBody = q.core.status, len(q.core.body)
		s.x.Probe("panic")
		panic(v)
	case "tee":
		q.tee(o)
	}
}

// tee installs a tee on every proxy of the request.
func (q *mwReq) tee(o Op) {
	for _, set := range q.sets {
		set(o)
	}
}

func (s *mwState) request(q *mwReq) {
	x := s.x
	q.g = runtime.SimGoid()
	u, err := url.Parse(q.url)
	if err != nil {
		i := strings.Index(q.url, "?")
		u = &url.URL{Path: q.url[:i], RawQuery: "a=%22b"}
	}
	req := &http.Request{Method: q.method, URL: u, Header: http.Header{}, RemoteAddr: fmt.Sprintf("10.0.0.%d:99", q.id)}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	q.cancel = cancel
	req = req.WithContext(ctx)
	q.headers(req.Header)
	q.url = u.String()
	q.query, _ = url.ParseQuery(u.RawQuery)
	w := withCaps(q.core, q.core.caps)
	n0 := nLog
	q.inv = x.Ev("req", int64(q.id), 0, 0)
	normal := false
	func() {
		defer func() {
			if e := recover(); e != nil {
				q.escaped = e
			}
		}()
		switch q.hdrs >> 10 & 15 {
		case 1:
			q.m.m.ServeHTTPC(web.C{}, w, req)
		case 2:
			q.m.m.ServeHTTPC(web.C{Env: map[interface{}]interface{}{}}, w, req)
		case 3:
			q.m.m.ServeHTTPC(web.C{Env: map[interface{}]interface{}{"caller": q.id}}, w, req)
		case 4:
			q.outerID = "outer/" + strconv.Itoa(q.id)
			q.m.m.ServeHTTPC(web.C{Env: map[interface{}]interface{}{middleware.RequestIDKey: q.outerID}}, w, req)
		case 5:
			q.m.m.ServeHTTPC(web.C{Env: map[interface{}]interface{}{middleware.RequestIDKey: q.id, "caller": q.id}}, w, req)
		default:
			q.m.m.ServeHTTP(w, req)
		}
		normal = true
	}()
	if !normal && q.escaped == nil {
		q.escaped = errGone
	}
	q.ret = x.Ev("ret", int64(q.id), int64(q.core.status), int64(len(q.core.body)))
	q.done = true
	s.check(q, n0)
}

// etags are the headers of conditional requests.
var etags = []string{"Etag", "If-Modified-Since", "If-Match", "If-None-Match", "If-Range", "If-Unmodified-Since"}

// headers sets the request's headers.
func (q *mwReq) headers(h http.Header) {
	me := fmt.Sprintf("192.0.2.%d", q.id)
	switch q.hdrs % 8 {
	case 0:
		h.Set("X-Forwarded-For", me+", 10.0.0.1")
		q.ip = me
	case 1:
		h.Set("X-Forwarded-For", me)
		q.ip = me
	case 2:
		h.Set("X-Real-IP", me)
		q.ip = me
	case 3:
		h.Set("X-Real-IP", "10.0.0.2")
		h.Set("X-Forwarded-For", me+",10.0.0.1, 10.0.0.3")
		q.ip = me
	case 4:
		h.Set("X-Forwarded-For", "")
		h.Set("X-Real-IP", me+":80")
		q.ip = me + ":80"
	case 6:
		h.Set("X-Real-IP", "[2001:db8::"+strconv.Itoa(q.id)+"]:80")
		q.ip = h.Get("X-Real-IP")
	case 5:
		h.Set("X-Forwarded-For", me+" ,10.0.0.1")
		h.Add("X-Forwarded-For", "10.0.0.4")
		q.ip = me
	}
	for i, k := range etags {
		if q.hdrs>>3&(1<<i) != 0 {
			h.Set(k, "\"tag"+strconv.Itoa(q.id)+"\"")
			if q.hdrs>>11&3 == 3 {
				h[k] = []string{"", h.Get(k)}
			}
		}
	}
	if q.hdrs&(1<<9) != 0 {
		h.Set("Accept", "text/x-"+strconv.Itoa(q.id))
		h.Set("Cache-Control", "max-age="+strconv.Itoa(q.id))
	}
}

var noCaching = http.Header{
	"Expires":         {time.Unix(0, 0).UTC().Format(time.RFC1123)},
	"Cache-Control":   {"no-cache, private, max-age=0"},
	"Pragma":          {"no-cache"},
	"X-Accel-Expires": {"0"},
}

// small checks what each layer did to the request on its way in.
func (s *mwState) small(q *mwReq) {
	x := s.x
	for i, l := range q.m.layers {
		o, in := &q.at[i], &q.at[i+1]
		name := q.layerName(l)
		remote, hdr, rhdr := o.remote, o.hdr, o.rhdr
		switch l {
		case lRealIP:
			if q.ip != "" {
				remote = q.ip
				x.Probe("real-ip")
			}
		case lNoCache:
			hdr, rhdr = hdr.Clone(), rhdr.Clone()
			for _, k := range etags {
				if len(hdr[k]) > 0 {
					x.Probe("unconditional")
				}
				delete(hdr, k)
			}
			for k, v := range noCaching {
				rhdr[k] = v
			}
		case lEnvInit:
			if in.env == nil {
				x.Fail("C33", "env-nil", "inside EnvInit a request has no environment")
			}
		}
		if in.remote != remote {
			x.Fail("C33", "remote", "the remote address is %q outside %s and %q inside it, want %q (headers %v)", o.remote, name, in.remote, remote, o.hdr)
		}
		if !sameHeader(in.hdr, hdr) {
			x.Fail("C33", "request-header", "the request has headers %v outside %s and %v inside it, want %v", o.hdr, name, in.hdr, hdr)
		}
		if !sameHeader(in.rhdr, rhdr) {
			x.Fail("C33", "response-header", "%s turned the response's headers %v into %v, want %v", name, o.rhdr, in.rhdr, rhdr)
		}
		if in.u != o.u || in.u != q.url {
			x.Fail("C33", "url", "the URL is %s outside %s and %s inside it, the client asked for %s", o.u, name, in.u, q.url)
		}
		for k, v := range o.env {
			if w, ok := in.env[k]; !ok || !(l == lRequestID || l == lURLQuery) && !reflect.DeepEqual(v, w) {
				x.Fail("C33", "env-lost", "outside %s %v is %v in the environment, and %v inside it", name, k, v, w)
			}
		}
		if o.env != nil && in.envp != o.envp {
			x.Fail("C33", "env-replaced", "outside %s the environment is another map (%d entries) than inside it", name, len(o.env))
		}
		if l == lURLQuery {
			x.Probe("url-query")
			for _, v := range []interface{}{in.query, in.queryOut, o.queryOut} {
				if got, ok := v.(url.Values); !ok || !sameHeader(http.Header(got), http.Header(q.query)) {
					x.Fail("C33", "query", "inside URLQuery the request for %s has query %v, want %v", q.url, v, q.query)
				}
			}
		} else if !reflect.DeepEqual(in.query, o.query) {
			x.Fail("C33", "query", "%s turned the query in the environment from %v into %v", name, o.query, in.query)
		}
	}
	if q.core.status != 0 && !q.core.hij && q.has(lNoCache) {
		for k, v := range noCaching {
			if !reflect.DeepEqual(q.core.sent[k], v) {
				x.Fail("C33", "cacheable", "NoCache was in the stack, and the client got %s: %q", k, q.core.sent[k])
			}
		}
	}
}

func sameHeader(a, b http.Header) bool {
	n := 0
	for k, v := range a {
		if len(v) == 0 {
			continue
		}
		n++
		if !reflect.DeepEqual(v, b[k]) {
			return false
		}
	}
	for _, v := range b {
		if len(v) > 0 {
			n--
		}
	}
	return n == 0
}

func (q *mwReq) layerName(l int) string {
	return []string{"", "RequestID", "Logger", "Recoverer", "AutomaticOptions", "a WrapWriter layer", "EnvInit", "RealIP", "NoCache", "URLQuery"}[l]
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")
var reStarted = regexp.MustCompile(`(?s)^(?:\[([^\]]*)\] )?Started (\S+) (".*") from (.*?)\n?$`)
var reReturning = regexp.MustCompile(`(?s)^(?:\[([^\]]*)\] )?Returning (\d+) in (\S+)\n?$`)
var rePanic = regexp.MustCompile(`(?s)^(?:\[([^\]]*)\] )?panic: (.*?)\n?$`)
var reID = regexp.MustCompile(`^[^/]+/([0-9A-Za-z]{10})-(\d{6,})$`)

type mwLog struct {
	kind    int // 0 other 1 started 2 returning 3 panic
	f       []string
	seq     uint64
	raw     string
	claimed bool
}

// logsOf lists what the request's goroutine logged while it ran.
func (s *mwState) logsOf(q *mwReq, n0 int) []*mwLog {
	var out []*mwLog
	for i := n0; i < nLog; i++ {
		if logG[i] != q.g || logSeq[i] < q.inv {
			continue
		}
		l := &mwLog{raw: ansi.ReplaceAllString(logLines[i], ""), seq: logSeq[i]}
		for k, re := range []*regexp.Regexp{reStarted, reReturning, rePanic} {
			if m := re.FindStringSubmatch(l.raw); m != nil {
				l.kind, l.f = k+1, m
			}
		}
		out = append(out, l)
	}
	return out
}

func find(ls []*mwLog, kind int, from, to uint64) []*mwLog {
	var out []*mwLog
	for _, l := range ls {
		if l.kind == kind && l.seq > from && l.seq < to && !l.claimed {
			out = append(out, l)
		}
	}
	return out
}

func (s *mwState) check(q *mwReq, n0 int) {
	x := s.x
	layers := q.m.layers
	if len(q.at) != len(layers)+1 {
		x.Fail("C22", "layers", "a request went through %d of %d layers", len(q.at), len(layers)+1)
		return
	}
	for i := range q.at {
		if q.at[i].seen != 1 {
			x.Fail("C22", "layers", "a request went through layer %d %d times", i, q.at[i].seen)
			return
		}
	}
	if q.at[0].idIn != q.outerID {
		x.Fail("C31", "id-outer", "GetReqID returned %q before any RequestID, want %q", q.at[0].idIn, q.outerID)
	}
	s.small(q)
	logs := s.logsOf(q, n0)
	converted := s.options(q)
	appended := false
	forced := false
	recovered := 0
	for i := len(layers) - 1; i >= 0; i-- {
		o, in := &q.at[i], &q.at[i+1]
		id := func(f []string) bool { return f[1] == o.idIn || f[1] == in.idOu }
		switch layers[i] {
		case lRequestID:
			if in.idIn == "" || in.idIn != in.idOu || o.idOu != in.idIn {
				// A nested RequestID replaces the identifier.
				if !s.nested(q, i, lRequestID) {
					x.Fail("C31", "id-unstable", "the request ID was %q inside RequestID on the way in, %q on the way out and %q outside it", in.idIn, in.idOu, o.idOu)
				}
			}
			s.idUsed(q, in.idIn, o.sIn, in.sIn)
		case lLogger:
			st := find(logs, 1, o.sIn, in.sIn)
			if len(st) != 1 {
				x.Fail("C32", "started", "Logger logged the start of a request %d times: %s", len(st), logText(logs))
			}
			for _, l := range st {
				l.claimed = true
				if l.f[1] != o.idIn || l.f[2] != q.method || l.f[3] != strconv.Quote(q.url) || l.f[4] != o.remote {
					x.Fail("C32", "started-text", "Logger logged %q for request [%s] %s %s from %s", l.raw, o.idIn, q.method, q.url, o.remote)
				}
			}
			end := find(logs, 2, in.sOut, o.sOut)
			if !in.normal {
				// A panic passed through. Whether the end is logged is not
				// specified.
				for _, l := range end {
					l.claimed = true
				}
				break
			}
			if len(end) != 1 {
				x.Fail("C32", "returning", "Logger logged the end of a request %d times: %s", len(end), logText(logs))
				break
			}
			forced = true
			l := end[0]
			l.claimed = true
			if !id(l.f) {
				x.Fail("C32", "returning-id", "Logger logged %q for request [%s]", l.raw, o.idIn)
			}
			d, err := time.ParseDuration(l.f[3])
			if err != nil || int64(d) < in.tOut-in.tIn || int64(d) > o.tOut-o.tIn {
				x.Fail("C32", "duration", "Logger logged %q; the handler took %s, everything %s", l.raw, time.Duration(in.tOut-in.tIn), time.Duration(o.tOut-o.tIn))
			}
			x.Probe("logged")
			if o.hijOut || q.murky {
				break
			}
			if want := fmt.Sprintf("%03d", o.atOut); l.f[2] != want && !(converted >= 0 && converted < i) {
				x.Fail("C32", "status", "Logger logged %q but the client was sent status %d", l.raw, o.atOut)
			}
		case lRecoverer:
			pn := find(logs, 3, in.sOut, o.sOut)
			if in.normal {
				if len(pn) != 0 {
					x.Fail("C30", "phantom", "Recoverer logged a panic that did not happen: %s", logText(logs))
				}
				break
			}
			recovered++
			x.Probe("recovered")
			if !o.normal {
				x.Fail("C30", "escaped", "a panic got past Recoverer: %v", q.escaped)
				break
			}
			if len(pn) != 1 {
				x.Fail("C30", "logged", "Recoverer logged a panic %d times: %s", len(pn), logText(logs))
			}
			for _, l := range pn {
				l.claimed = true
				if !id(l.f) || !strings.HasPrefix(l.f[2], strings.TrimRight(fmt.Sprintf("%+v", q.panicV), "\n")) {
					x.Fail("C30", "panic-text", "Recoverer logged %q for panic %+v of request [%s]", l.raw, q.panicV, o.idIn)
				}
			}
			if in.hijOut || q.murky {
				break
			}
			appended = true
			if q.atPanic == 0 && o.atOut != 500 {
				x.Fail("C30", "status", "a handler panicked before anything was sent, and the client was sent status %d instead of 500", o.atOut)
			}
			if q.atPanic != 0 && o.atOut != q.atPanic {
				x.Fail("C30", "status-changed", "status %d became %d when a panic was recovered", q.atPanic, o.atOut)
			}
		}
	}
	for _, l := range logs {
		if !l.claimed && l.kind != 0 {
			x.Fail([]string{"", "C32", "C32", "C30"}[l.kind], "stray-log", "logged out of place: %q", l.raw)
		}
	}
	if q.escaped != nil {
		if q.panicV == nil {
			x.Fail("C30", "spurious-panic", "a request ended in a panic although no handler panicked: %v", q.escaped)
			x.Fail("C40", "spurious-panic", "a request ended in a panic although no handler panicked: %v", q.escaped)
			x.Fail("C32", "spurious-panic", "a request ended in a panic although no handler panicked: %v", q.escaped)
		}
	} else if q.panicV != nil && recovered == 0 {
		x.Fail("C30", "swallowed", "a panic disappeared although there is no Recoverer")
	}
	if q.hr == nil || converted >= 0 || q.core.hij || q.murky {
		return
	}
	// What the handler sent is what the client got.
	c := q.core
	want := q.hr.status
	if want == 0 {
		if appended {
			want = 500
		} else if forced {
			want = 200
		}
	}
	var hit []string
	for _, l := range layers {
		switch l {
		case lLogger:
			hit = append(hit, "C32")
		case lRecoverer:
			hit = append(hit, "C30")
		case lWrap:
			hit = append(hit, "C40")
		case lOptions:
			hit = append(hit, "C23")
		}
	}
	say := func(sig, f string, a ...interface{}) {
		for _, p := range uniqStrings(hit) {
			x.Fail(p, sig, f+" (stack: %s)", append(a, q.stack())...)
		}
	}
	if c.status != want {
		say("transparent-status", "the handler sent status %d, the client got %d", want, c.status)
	}
	if q.hr.hsent != nil && c.status == want && !reflect.DeepEqual(c.sent, q.hr.hsent) {
		say("transparent-header", "the handler sent the header %v, the client got %v", q.hr.hsent, c.sent)
	}
	if !sameInts(c.infos, q.hr.infos) {
		say("transparent-info", "the handler sent informational statuses %v, the client got %v", q.hr.infos, c.infos)
	}
	if appended {
		if !bytes.HasPrefix(c.body, q.hr.body) {
			say("transparent-body", "the handler sent %d bytes, the client got %d others", len(q.hr.body), len(c.body))
		}
	} else if !bytes.Equal(c.body, q.hr.body) {
		say("transparent-body", "the handler sent %d bytes, the client got %d, or others", len(q.hr.body), len(c.body))
	}
	if c.flush != q.hr.flush {
		say("transparent-flush", "the handler flushed %d times, the connection was flushed %d times", q.hr.flush, c.flush)
	}
	if c.caps&capF != 0 && capsOf(q.hr.w)&capF == 0 && !(q.method == "OPTIONS" && q.has(lOptions)) {
		say("transparent-caps", "the client's connection can be flushed, the handler's writer cannot")
	}
}

func (q *mwReq) has(l int) bool {
	for _, k := range q.m.layers {
		if k == l {
			return true
		}
	}
	return false
}

func (q *mwReq) stack() string {
	var out []string
	for _, l := range q.m.layers {
		out = append(out, q.layerName(l))
	}
	return strings.Join(out, " > ")
}

func uniqStrings(in []string) []string {
	var out []string
	for _, s := range in {
		dup := false
		for _, o := range out {
			dup = dup || o == s
		}
		if !dup {
			out = append(out, s)
		}
	}
	return out
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func logText(ls []*mwLog) string {
	var out []string
	for _, l := range ls {
		out = append(out, strconv.Quote(l.raw))
	}
	return strings.Join(out, ", ")
}

// nested reports whether there is another such layer inside layer i.
func (s *mwState) nested(q *mwReq, i, kind int) bool {
	for j := i + 1; j < len(q.m.layers); j++ {
		if q.m.layers[j] == kind {
			return true
		}
	}
	return false
}

//go:norace
func (s *mwState) idUsed(q *mwReq, id string, from, to uint64) {
	s.ids = append(s.ids, idUse{id, q, from, to})
}

// options checks what AutomaticOptions did, and returns the index of the layer
// that converted the answer, or -1.
func (s *mwState) options(q *mwReq) int {
	x := s.x
	lay := -1
	for i, l := range q.m.layers {
		if l == lOptions {
			lay = i // the innermost one
		}
	}
	// By construction of the routes:
	var valid []string
	if strings.HasPrefix(q.url, "/q/") {
		valid = []string{"GET", "HEAD", "POST"}
	}
	routed := "notfound"
	switch {
	case strings.HasPrefix(q.url, "/any/"):
		routed, valid = "any", nil
	case valid != nil && (q.method == "GET" || q.method == "HEAD"):
		routed, valid = "get", nil
	case valid != nil && q.method == "POST":
		routed, valid = "post", nil
	}
	if q.hit == "" && (routed != "notfound" || x.plan.knob("customnf") == 1) {
		x.Fail("C20", "not-routed", "%s %s reached no handler, want %q", q.method, q.url, routed)
		return -1
	}
	if q.hit != "" {
		if q.hit != routed {
			x.Fail("C20", "misrouted", "%s %s went to %q, want %q", q.method, q.url, q.hit, routed)
			return -1
		}
		if strings.Join(q.valid, " ") != strings.Join(valid, " ") {
			x.Fail("C23", "valid-methods", "%s %s: valid methods %v, want %v", q.method, q.url, q.valid, valid)
		}
	}
	if lay < 0 || q.method != "OPTIONS" || routed != "notfound" || valid == nil {
		return -1
	}
	notFound := q.hit == "" || q.hr != nil && q.hr.header == "header" && q.firstSent() == 404
	if !notFound {
		return -1
	}
	x.Probe("options-answered")
	if q.core.hij {
		return lay
	}
	if q.core.status != 200 || !slices.Equal(q.core.sent["Allow"], []string{"GET, HEAD, POST, OPTIONS"}) {
		x.Fail("C23", "options", "OPTIONS %s: status %d, Allow %q; want 200 and GET, HEAD, POST, OPTIONS", q.url, q.core.status, q.core.sent["Allow"])
	}
	if q.core.sent.Get("Content-Length") != "" {
		x.Fail("C23", "options-length", "OPTIONS %s was answered with Content-Length %s, the length of the body of a 404", q.url, q.core.sent.Get("Content-Length"))
	}
	if len(q.core.body) != 0 && !q.sentBeside() {
		x.Fail("C23", "options-body", "OPTIONS %s was answered with the body of a 404", q.url)
	}
	return lay
}

// firstSent is the status the handler sent (its writes may have come first).
func (q *mwReq) firstSent() int { return q.hr.status }

// sentBeside: a recovered panic may have appended its text outside of
// AutomaticOptions.
func (q *mwReq) sentBeside() bool { return q.panicV != nil && q.has(lRecoverer) }

// ---- the wrapping layer ----

type teeBuf struct {
	want []byte
	got  []byte
	fail int
	x    *X
}

var errTee = errors.New("sim: tee failed")

func (t *teeBuf) Write(b []byte) (int, error) {
	Y()
	t.got = append(t.got, b...)
	if t.fail >= 0 && len(t.got) > t.fail {
		t.x.FaultFired("tee-fail")
		return 0, errTee
	}
	return len(b), nil
}

func (s *mwState) wrapper() interface{} {
	return func(c *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			q := s.reqOf(r)
			out := s.wrapped(q, w)
			h.ServeHTTP(out, r)
		})
	}
}

// wrapped wraps w in a proxy, between two recorders that check it.
func (s *mwState) wrapped(q *mwReq, w http.ResponseWriter) http.ResponseWriter {
	x := s.x
	q.wraps++
	lowCaps := capsOf(w)
	low := &rec{q: q, w: w}
	lw := withCaps(low, lowCaps)
	p := mutil.WrapWriter(lw)
	if p.Unwrap() != lw {
		x.Fail("C40", "unwrap", "Unwrap returned %T, not the writer that was wrapped", p.Unwrap())
	}
	if u := mutil.WrapWriter(p).Unwrap(); u != http.ResponseWriter(p) {
		x.Fail("C40", "unwrap", "a proxy was wrapped, and Unwrap returned %T, not the proxy", u)
	}
	if p.Status() != 0 || p.BytesWritten() != 0 {
		x.Fail("C40", "fresh", "a fresh proxy reports status %d and %d bytes", p.Status(), p.BytesWritten())
	}
	hiCaps := capsOf(p)
	if lowCaps&(capF|capH|capR)&^hiCaps != 0 && (lowCaps&(capF|capH|capR) == capF|capH|capR || lowCaps&capF&^hiCaps != 0) {
		x.Fail("C40", "caps", "a writer with capabilities %s was wrapped in one with %s", capText(lowCaps), capText(hiCaps))
	}
	var tee *teeBuf
	set := func(o Op) {
		if o.A == 0 {
			tee = nil
			p.Tee(nil)
			return
		}
		tee = &teeBuf{fail: o.B, x: x}
		p.Tee(tee)
	}
	var l0 rec
	var t0 int
	hi := &rec{q: q, w: p}
	hi.before = func(what string) {
		l0 = *low
		if tee != nil {
			t0 = len(tee.got)
		}
	}
	hi.after = func(what string, b []byte, n int64, err error) {
		sent := low.body[len(l0.body):]
		codes := low.codes[len(l0.codes):]
		finals := 0
		for _, c := range codes {
			if !informational(c) {
				finals++
			}
		}
		if !q.murky && (l0.status != 0 && finals > 0 || finals > 1) {
			x.Fail("C40", "header-twice", "%s on a proxy that had already sent status %d made it send %v", what, l0.status, codes)
		}
		if l0.hijOK {
			return
		}
		switch what {
		case "header":
			if !q.murky && l0.status == 0 && (len(codes) != 1 || codes[0] != int(n)) {
				x.Fail("C40", "header", "WriteHeader(%d) on a proxy that had sent no final status made it send %v", n, codes)
			}
		case "write", "copy":
			if n != int64(len(sent)) || !bytes.HasPrefix(b, sent) {
				x.Fail("C40", what, "a %s of %d bytes through a proxy returned %d, but the writer behind it accepted %d bytes, or others", what, len(b), n, len(sent))
			}
			if what == "write" {
				if low.werr != nil && err != low.werr {
					x.Fail("C40", "write-error", "a write through a proxy returned error %v, but the writer behind it returned %v", err, low.werr)
				}
				teeFailed := tee != nil && tee.fail >= 0 && len(tee.got) > tee.fail
				if low.werr == nil && err != nil && !teeFailed {
					x.Fail("C40", "write-error", "a write through a proxy returned error %v, but the writer behind it accepted it", err)
				}
				if low.werr == nil && err == nil && teeFailed && len(tee.got) > t0 {
					x.Fail("C40", "tee-error", "the error of a tee'd writer was lost")
				}
			}
			if tee != nil {
				if got := tee.got[t0:]; !bytes.Equal(got, sent) {
					x.Fail("C40", "tee", "%d bytes were written through a proxy, its tee got %d, or others", len(sent), len(got))
				}
			}
		case "flush":
			if low.flush != l0.flush+1 {
				x.Fail("C40", "flush", "one flush of a proxy flushed the writer behind it %d times", low.flush-l0.flush)
			}
		case "hijack":
			if low.hij != l0.hij+1 || hi.hj != low.hj {
				x.Fail("C40", "hijack", "Hijack through a proxy did not return what the writer behind it did")
			}
		case "push":
			if lowCaps&capP != 0 && (low.push != l0.push+1 || err != low.perr) {
				x.Fail("C40", "push", "Push through a proxy did not return what the writer behind it did")
			}
		}
		if low.hijOK {
			return
		}
		if p.Status() != low.status && !q.murky {
			x.Fail("C40", "status", "after a %s, Status is %d, but the status sent is %d", what, p.Status(), low.status)
		}
		if p.BytesWritten() != len(low.body) {
			x.Fail("C40", "bytes", "after a %s, BytesWritten is %d, but %d bytes were sent", what, p.BytesWritten(), len(low.body))
		}
		x.Probe("proxied-" + what)
	}
	q.sets = append(q.sets, set)
	return withCaps(hi, hiCaps)
}

func capText(c int) string {
	var out []string
	for i, n := range []string{"Flusher", "Hijacker", "ReaderFrom", "Pusher"} {
		if c&(1<<i) != 0 {
			out = append(out, n)
		}
	}
	return "{" + strings.Join(out, ", ") + "}"
}

// burst has n more requests come in, one after another: counters must not
// overflow, nor what they are printed in.
func (s *mwState) burst(n int) {
	x := s.x
	last := uint64(0)
	prefix := ""
	for i := range s.ids {
		if m := reID.FindStringSubmatch(s.ids[i].id); m != nil {
			k, _ := strconv.ParseUint(m[2], 10, 64)
			last = max(last, k)
			prefix = strings.TrimSuffix(s.ids[i].id, m[2])
		}
	}
	c := web.C{Env: map[interface{}]interface{}{}}
	h := middleware.RequestID(&c, http.HandlerFunc(func(http.ResponseWriter, *http.Request) {}))
	r := &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: http.Header{}}
	w := &rwCore{h: http.Header{}}
	for i := 0; i < n; i++ {
		h.ServeHTTP(w, r)
		id := middleware.GetReqID(c)
		j := strings.LastIndexByte(id, '-') + 1
		k, err := strconv.ParseUint(id[j:], 10, 64)
		if err != nil || j == 0 || prefix != "" && id[:j] != prefix {
			x.Fail("C31", "format", "request ID %q is not of the form host/random-number", id)
			break
		}
		prefix = id[:j]
		if k <= last {
			x.Fail("C31", "order", "%d requests later a request got the ID %q, although there was %s%d before", i, id, prefix, last)
			break
		}
		last = k
	}
	runtime.GC()
	x.Probe("million-ids")
}

func mwAfter(x *X) {
	s, ok := x.state.(*mwState)
	if !ok {
		return
	}
	prefix := ""
	for i := range s.ids {
		a := &s.ids[i]
		m := reID.FindStringSubmatch(a.id)
		if m == nil {
			x.Fail("C31", "format", "request ID %q is not of the form host/random-number", a.id)
			continue
		}
		if prefix == "" {
			prefix = strings.TrimSuffix(a.id, m[2])
		} else if !strings.HasPrefix(a.id, prefix) {
			x.Fail("C31", "prefix", "request IDs %q and %q of one process differ in their random part", a.id, prefix)
		}
		n, _ := strconv.ParseUint(m[2], 10, 64)
		for j := range s.ids {
			b := &s.ids[j]
			if i == j {
				continue
			}
			if a.id == b.id {
				x.Fail("C31", "duplicate", "two requests were given the ID %q", a.id)
			}
			if a.to < b.from {
				if mb := reID.FindStringSubmatch(b.id); mb != nil {
					if nb, _ := strconv.ParseUint(mb[2], 10, 64); nb <= n {
						x.Fail("C31", "order", "request ID %q was given out before %q", a.id, b.id)
					}
				}
			}
		}
	}
	if len(s.ids) > 1 {
		x.Probe("ids-compared")
	}
	if n := x.plan.knob("burst"); n > 0 {
		s.burst(n)
	}
	for _, q := range s.order {
		if !q.done {
			x.Fail("*", "hang", "a request never finished")
		}
	}
}

func init() {
	register(&Scenario{Name: "mw", Gen: mwGen, Run: mwRun, After: mwAfter})
}
