package main

import (
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
)

// Scenario "mux": one web.Mux (and a nested one) under concurrent requests,
// route registrations and compilations, with its middleware stack changed
// between phases.

// ---- requests and what they observe ----

type obsKind int

const (
	tHandler  = 1000 // + route id
	tNotFound = 1999
	tChild    = 2000 // + child route id
	tChildNF  = 2999
	tOverride = 3000
	tSelf     = 4000 // + middleware id: it answered the request itself
)

type muxReq struct {
	id     int
	phase  int
	method string
	path   string
	ms     int64
	where  int // where it lingers: 0 nowhere 1 handler 2 middleware 3 pattern
	panics bool
	self   int  // >0: the middleware number self-1 answers itself
	over   bool // a middleware behind the router overrides the match
	viaC   bool // ServeHTTPC with a context
	bits   int  // which custom patterns like it
	hdrs   bool // the handler sends 404 itself

	inv     uint64
	routed  uint64 // the first target was entered
	ret     uint64
	trace   []int
	target  int
	inner   int
	params  map[string]string
	valid   []string
	nvalid  bool
	cp      *web.C // what the first context-aware layer was given
	kept    []keptC
	calls   []patCall
	match   web.Match
	mseq    uint64
	mset    bool
	rec     *recRW
	paniced bool
	depth   int
}

// keptC is a context a handler held on to after the request was over.
type keptC struct {
	c      web.C
	params map[string]string
	nenv   int
}

type patCall struct {
	id  int
	run bool
}

type muxRoute struct {
	id       int
	mask     int
	raw      interface{} // what is registered
	h        interface{}
	str      string
	match    func(path string, bits int) (bool, map[string]string)
	custom   bool
	prefix   string
	child    bool
	inv, ret uint64
}

type muxMW struct {
	id   int
	fn   interface{}
	kind int // 0 plain 1 context 2 Router 3 AutomaticOptions 4 EnvInit
}

type cfgOp struct {
	kind     int // 0 Use 1 Insert 2 Abandon
	mw, at   int
	inv, ret uint64
	err      bool
}

type muxState struct {
	x                     *X
	m                     *web.Mux
	child                 *web.Mux
	childR                []*muxRoute
	mws                   []*muxMW
	routes                []*muxRoute
	reqs                  []*muxReq
	cfg                   [][]*cfgOp // by phase
	nf                    [][]int    // by phase: custom NotFound in force (-1: default)
	nfNow                 int
	childRouter, childSub bool
	outerRouter           bool
	routerUsed            bool
	pre                   map[int]*muxRoute
	phase                 int
}

// ---- plan ----

var muxMethods = []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "FOO"}

// Registration methods, with the requests they serve.
var muxRegs = []struct {
	name string
	for_ []string
}{
	{"Handle", nil}, {"Get", []string{"GET", "HEAD"}}, {"Post", []string{"POST"}}, {"Put", []string{"PUT"}}, {"Delete", []string{"DELETE"}},
	{"Head", []string{"HEAD"}}, {"Options", []string{"OPTIONS"}}, {"Patch", []string{"PATCH"}}, {"Trace", []string{"TRACE"}}, {"Connect", []string{"CONNECT"}},
}

var muxRes = []string{
	`^/a/(?P<x>[a-z]+)$`, `/b(\d+)`, `^/(a|b)/c`, `/a|/b/a`, `(?i)/AB`, `^/a(/.*)?$`, `^(?P<p>/a)?/b`, `.*/c$`, `\A/ab`, `^/ab.*$`,
	`/a{2}`, `^/a/(\w+)/(?P<y>\w*)`, `(?P<_>/.*)`, `^/abc[ab]`, `/ab|^/c`, `(/a)(/b)?`, `^/..$`, `/(?:a|b)+$`, ``,
	`^/\x{FFFD}`, `/é(.*)`, `(?m)^/b$`, `/[a]b(?:c)`, `^/a\.b(?P<x>.?)`, `(?i:/a)b`, `(?s)/a.b`,
}

func muxText(r *Rand, n int) string {
	b := make([]byte, 0, n)
	for i := 0; i < n; i++ {
		b = append(b, "aaabbc/.;,"[r.n(10)])
	}
	return string(b)
}

var muxStems = []string{"/a", "/ab", "/abc", "/abcd", "/abcde", "/a/b", "/a/b/c", "/b", "/b/a", "/", "/c", "/abca", "/a/bc", "/abcabcab", "/abcabcabcaa"}

func muxStringPattern(r *Rand) string {
	var b strings.Builder
	b.WriteString(r.picks(muxStems...))
	for i, n := 0, r.pick(0, 0, 1, 1, 2); i < n; i++ {
		sep := r.picks("/", "/", "/", ".", ";", ",")
		if r.chance(2, 3) {
			b.WriteString(sep + ":" + r.picks("x", "y", "z"))
			if r.chance(1, 3) {
				b.WriteString(r.picks("/", ".", ",") + muxText(r, r.n(3)))
			}
		} else {
			b.WriteString(sep + muxText(r, r.n(4)))
		}
	}
	if r.chance(1, 4) {
		b.WriteString("/*")
	}
	s := b.String()
	if r.chance(1, 12) {
		s = muxText(r, r.n(4))
	}
	return s
}

func muxPath(r *Rand, pats []string) string {
	if len(pats) > 0 && r.chance(3, 5) {
		// Something like one of the patterns.
		p := pats[r.n(len(pats))]
		p = strings.TrimSuffix(p, "*")
		for _, n := range []string{":x", ":y", ":z"} {
			p = strings.Replace(p, n, r.picks("a", "b", "carl", "é", "a.b", "", "a/b", "a,b;", "\xff", "A"), -1)
		}
		if r.chance(1, 4) {
			p += muxText(r, 1+r.n(2))
		}
		if r.chance(1, 8) && len(p) > 1 {
			p = p[:len(p)-1]
		}
		return p
	}
	p := r.picks(muxStems...)
	if r.chance(1, 2) {
		p += muxText(r, 1+r.n(4))
	}
	if r.chance(1, 20) {
		p = r.picks("", "*", "//", "a", "/\xff/b", "/a\x00", "/é", "/AB", "/b\n", "/a\nb", "/a.b", "/Abc")
	}
	return p
}

func muxGen(r *Rand, p *Plan, tier string) {
	k := p.Knobs
	k["phases"] = r.pick(1, 1, 2, 3)
	k["child"] = r.pick(0, 0, 1) // a nested mux
	k["childrouter"] = r.pick(0, 0, 1)
	k["router"] = r.pick(0, 0, 0, 1) // Mux.Router is in the stack from the start
	k["options"] = r.pick(0, 0, 1)
	k["sub"] = r.pick(1, 1, 0) // the nested mux uses SubRouter
	if k["router"] == 1 || k["childrouter"] == 1 {
		k["sub"] = 1
	}
	big := bigger(r, tier)
	if big {
		k["phases"] = r.rng(2, 6)
	}
	focus := r.n(5) // 0 routing 1 registration races 2 isolation 3 middleware 4 sequential routing
	add := func(o Op) { p.Ops = append(p.Ops, o) }
	var pats []string
	nroute := 0
	route := func(w int, d int64) {
		if nroute >= 60 {
			return
		}
		o := Op{W: w, K: "route", C: nroute, A: r.pick(0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9), D: d}
		switch r.n(8) {
		case 0:
			o.S = "c:" + r.picks(append([]string{"", ""}, muxStems...)...)
			pats = append(pats, o.S[2:])
		case 1, 2:
			o.S = "r:" + r.picks(muxRes...)
		default:
			o.S = "s:" + muxStringPattern(r)
			pats = append(pats, o.S[2:])
		}
		o.B = r.n(4) // handler type
		nroute++
		add(o)
	}
	req := func(w int, d int64) {
		o := Op{W: w, K: "req", A: r.pick(0, 0, 0, 0, 1, 2, 2, 3, 4, 5, 5, 6, 7, 8, 9), S: muxPath(r, pats), D: d}
		if k["child"] == 1 && r.chance(1, 2) {
			o.S = "/sub" + muxPath(r, nil)
		}
		o.B = r.n(1 << 12)
		o.C = r.n(1 << 10)
		add(o)
	}
	w0 := 0
	// Routes there are from the start.
	n := r.pick(0, 1, 2, 3, 5, 8, 12)
	if focus == 4 {
		n = r.pick(8, 16, 30)
	}
	if big {
		n = r.pick(0, 5, 20, 58)
	}
	for i := 0; i < n; i++ {
		route(w0, 0)
	}
	for ph := 0; ph < k["phases"]; ph++ {
		w := 100 * ph
		if ph > 0 && r.chance(1, 3) || ph == 0 && r.chance(1, 6) {
			add(Op{W: w + 1, K: "notfound", A: r.n(3)})
		}
		// Middleware changes.
		nc := r.n(3)
		if ph == 0 || focus == 3 {
			nc = r.rng(1, 4)
		}
		for i := 0; i < nc; i++ {
			a := 10
			if r.chance(1, 4) {
				a = 11
			}
			o := Op{W: w + a, K: "mw", A: r.pick(0, 0, 0, 1, 1, 2), C: r.n(8), B: r.n(8)}
			if ph == 0 && i < 2 {
				o.A = 0
			}
			add(o)
		}
		nreg := r.pick(0, 0, 1, 2)
		if focus == 1 {
			nreg = r.rng(1, 3)
		}
		if focus == 4 {
			nreg = 0
		}
		if big {
			nreg = r.n(5)
		}
		for i := 0; i < nreg; i++ {
			for j, m := 0, r.rng(1, 2); j < m; j++ {
				route(w+20+i, r.dur(0, 0, 0, time.Millisecond))
			}
		}
		for i, m := 0, r.pick(0, 0, 1); i < m; i++ {
			add(Op{W: w + 30 + i, K: "compile", D: r.dur(0, 0, time.Millisecond)})
		}
		ncl := r.rng(1, 3)
		if focus == 2 {
			ncl = r.rng(2, 4)
		}
		if big {
			ncl = r.rng(2, 8)
		}
		for i := 0; i < ncl; i++ {
			for j, m := 0, r.rng(1, 3); j < m; j++ {
				req(w+50+i, r.dur(0, 0, 0, 0, time.Millisecond))
			}
		}
	}
	if r.chance(1, 3) {
		p.Stalls = r.stalls(2, 500, time.Millisecond, 3*time.Millisecond)
	}
}

// ---- routes ----

type simPattern struct {
	s      *muxState
	id     int
	prefix string
}

func (p *simPattern) Prefix() string { return p.prefix }

func (p *simPattern) Match(r *http.Request, c *web.C) bool {
	q := p.s.reqOf(r)
	Y()
	p.s.patCalled(q, p, false, r)
	if q.where == 3 {
		sleep(q.ms)
	}
	Y()
	return q.bits>>(uint(p.id)%6)&1 != 0
}

func (p *simPattern) Run(r *http.Request, c *web.C) {
	q := p.s.reqOf(r)
	p.s.patCalled(q, p, true, r)
	Y()
	if c.URLParams == nil {
		c.URLParams = map[string]string{}
	}
	c.URLParams["c"] = strconv.Itoa(p.id)
	c.URLParams["cr"] = strconv.Itoa(q.id)
}

//go:norace
func (s *muxState) patCalled(q *muxReq, p *simPattern, run bool, r *http.Request) {
	q.calls = append(q.calls, patCall{p.id, run})
}

//go:norace
func (s *muxState) reqOf(r *http.Request) *muxReq {
	i, _ := strconv.Atoi(r.RemoteAddr)
	return s.reqs[i]
}

// modelString is the documented meaning of a string pattern, as a regular
// expression.
func modelString(s string) (*regexp.Regexp, []string) {
	wild := strings.HasSuffix(s, "/*")
	if wild {
		s = strings.TrimSuffix(s, "*")
	}
	const breaks = "/.;,"
	var re strings.Builder
	re.WriteString(`(?s)\A`)
	var names []string
	for i := 0; i < len(s); {
		if strings.IndexByte(breaks, s[i]) >= 0 && i+2 < len(s)+0 && s[i+1] == ':' && strings.IndexByte(breaks, s[i+2]) < 0 {
			re.WriteString(regexp.QuoteMeta(s[i : i+1]))
			j := i + 2
			for j < len(s) && strings.IndexByte(breaks, s[j]) < 0 {
				j++
			}
			names = append(names, s[i+2:j])
			brk := "/"
			if j < len(s) {
				brk += s[j : j+1]
			}
			re.WriteString(`([^` + brk + `]+)`)
			i = j
			continue
		}
		re.WriteString(regexp.QuoteMeta(s[i : i+1]))
		i++
	}
	if wild {
		// The literal slash has been matched; what is bound includes it.
		re.WriteString(`(.*)`)
		names = append(names, "*")
	}
	re.WriteString(`\z`)
	return regexp.MustCompile(re.String()), names
}

var modelCache = map[string]func(string, int) (bool, map[string]string){}

// Whether something is in the caches depends on the runs this process did
// before, so it must not matter to this run.
func modelOf(spec string, id int) func(string, int) (bool, map[string]string) {
	key := spec
	if spec[0] == 'c' {
		return newModel(spec, id)
	}
	if f := modelCache[key]; f != nil {
		return f
	}
	var f func(string, int) (bool, map[string]string)
	runtime.SimPure(func() { f = newModel(spec, id); modelCache[key] = f })
	return f
}

func newModel(spec string, id int) func(string, int) (bool, map[string]string) {
	var f func(string, int) (bool, map[string]string)
	body := spec[2:]
	switch spec[0] {
	case 's':
		re, names := modelString(body)
		f = func(path string, bits int) (bool, map[string]string) {
			m := re.FindStringSubmatch(path)
			if m == nil {
				return false, nil
			}
			ps := map[string]string{}
			for i, n := range names {
				v := m[i+1]
				if n == "*" {
					v = "/" + v
				}
				ps[n] = v
			}
			return true, ps
		}
	case 'r':
		re := regexp.MustCompile(`\A(?:` + body + `)`)
		f = func(path string, bits int) (bool, map[string]string) {
			m := re.FindStringSubmatch(path)
			if m == nil {
				return false, nil
			}
			ps := map[string]string{}
			for i, n := range re.SubexpNames() {
				if i == 0 {
					continue
				}
				if n == "" {
					n = "$" + strconv.Itoa(i)
				}
				ps[n] = m[i]
			}
			return true, ps
		}
	default:
		return func(path string, bits int) (bool, map[string]string) {
			if !strings.HasPrefix(path, body) || bits>>(uint(id)%6)&1 == 0 {
				return false, nil
			}
			return true, map[string]string{"c": strconv.Itoa(id)}
		}
	}
	return f
}

var reCache = map[string]*regexp.Regexp{}

func (s *muxState) newRoute(id, reg int, spec string, htype int) *muxRoute {
	rt := &muxRoute{id: id, mask: reg, str: spec, match: modelOf(spec, id)}
	switch spec[0] {
	case 's':
		rt.raw = spec[2:]
	case 'r':
		re := reCache[spec]
		if re == nil {
			runtime.SimPure(func() { re = regexp.MustCompile(spec[2:]); reCache[spec] = re })
		}
		rt.raw = re
	default:
		rt.custom = true
		rt.prefix = spec[2:]
		rt.raw = &simPattern{s, id, spec[2:]}
	}
	t := tHandler + id
	switch htype {
	case 0:
		rt.h = func(w http.ResponseWriter, r *http.Request) { s.target(nil, w, r, t) }
	case 1:
		rt.h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { s.target(nil, w, r, t) })
	case 2:
		rt.h = web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) { s.target(&c, w, r, t) })
	default:
		rt.h = func(c web.C, w http.ResponseWriter, r *http.Request) { s.target(&c, w, r, t) }
	}
	return rt
}

func (rt *muxRoute) serves(method string) bool {
	l := muxRegs[rt.mask].for_
	if l == nil {
		return true
	}
	for _, m := range l {
		if m == method {
			return true
		}
	}
	return false
}

func (s *muxState) register(m *web.Mux, rt *muxRoute) {
	switch muxRegs[rt.mask].name {
	case "Handle":
		m.Handle(rt.raw, rt.h)
	case "Get":
		m.Get(rt.raw, rt.h)
	case "Post":
		m.Post(rt.raw, rt.h)
	case "Put":
		m.Put(rt.raw, rt.h)
	case "Delete":
		m.Delete(rt.raw, rt.h)
	case "Head":
		m.Head(rt.raw, rt.h)
	case "Options":
		m.Options(rt.raw, rt.h)
	case "Patch":
		m.Patch(rt.raw, rt.h)
	case "Trace":
		m.Trace(rt.raw, rt.h)
	case "Connect":
		m.Connect(rt.raw, rt.h)
	}
}

// routeResult is what the model says about a request.
type routeResult struct {
	rt     *muxRoute
	params map[string]string
	valid  []string
	calls  []int // custom patterns that may be asked, in order
}

// modelRoute routes naively: the first route in order of registration whose
// pattern and method match.
func modelRoute(routes []*muxRoute, method, path string, bits int) routeResult {
	var res routeResult
	set := map[string]bool{}
	any := false
	for _, rt := range routes {
		if rt.custom {
			res.calls = append(res.calls, rt.id)
		}
		ok, ps := rt.match(path, bits)
		if !ok {
			continue
		}
		if rt.serves(method) {
			res.rt, res.params = rt, ps
			return res
		}
		any = true
		for _, m := range muxRegs[rt.mask].for_ {
			set[m] = true
		}
	}
	if any {
		res.valid = []string{}
		for m := range set {
			res.valid = append(res.valid, m)
		}
		sort.Strings(res.valid)
	}
	return res
}

// ---- middleware ----

func (s *muxState) newMW(id int) *muxMW {
	m := &muxMW{id: id}
	switch {
	case id == 6:
		m.kind = 2
		m.fn = s.m.Router
	case id == 7:
		m.kind = 3
		m.fn = middleware.AutomaticOptions
	case id == 5:
		m.kind = 4
		m.fn = middleware.EnvInit
	case id%2 == 0:
		m.fn = func(h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { s.layer(m, nil, h, w, r) })
		}
	default:
		m.kind = 1
		m.fn = func(c *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { s.layer(m, c, h, w, r) })
		}
	}
	return m
}

var envOf = [8]interface{}{"mw0", "mw1", "mw2", "mw3", "mw4", "mw5", "mw6", "mw7"}

func (s *muxState) layer(m *muxMW, c *web.C, h http.Handler, w http.ResponseWriter, r *http.Request) {
	q := s.reqOf(r)
	s.note(q, m.id)
	Y()
	if c != nil {
		s.ctx(q, c, r, "on the way in")
		if c.Env == nil {
			c.Env = map[interface{}]interface{}{}
		}
		c.Env[envOf[m.id]] = q.id
		s.seeMatch(q, c)
		if q.over && s.matchSeen(q) {
			s.override(q, c)
		}
	}
	if q.where == 2 {
		sleep(q.ms)
	}
	if q.self == m.id+1 {
		s.note(q, tSelf+m.id)
		w.WriteHeader(299)
	} else {
		h.ServeHTTP(w, r)
	}
	Y()
	if c != nil {
		s.ctx(q, c, r, "on the way out")
		if v, ok := c.Env[envOf[m.id]]; !ok || v != q.id {
			s.x.Fail("C21", "env-lost", "middleware %d stored a value for request %d in the context and found %v there afterwards", m.id, q.id, v)
		}
		s.outMatch(q, c)
	}
	if r.URL.Path != q.path {
		s.x.Fail("C24", "path-not-restored", "request %d for %q came back from routing with path %q", q.id, q.path, r.URL.Path)
	}
	s.note(q, -1-m.id)
}

//go:norace
func (s *muxState) note(q *muxReq, v int) {
	s.x.Ev("mux", int64(q.id), int64(v), 0)
	q.trace = append(q.trace, v)
}

// ctx checks that a context belongs to the request it is used for.
//
//go:norace
func (s *muxState) ctx(q *muxReq, c *web.C, r *http.Request, when string) {
	x := s.x
	if q.cp == nil {
		q.cp = c
		if !q.viaC && len(q.trace) <= len(s.mws)+1 {
			// Nobody has touched it yet, except the routing middleware.
			for k := range c.Env {
				if k != interface{}(web.MatchKey) && k != interface{}(web.ValidMethodsKey) {
					x.Fail("C21", "dirty-context", "request %d starts with %v in its environment", q.id, k)
				}
			}
		}
	} else if q.cp != c {
		x.Fail("C21", "context-identity", "the layers of one stack were given different contexts for request %d", q.id)
	}
	s.envCheck(q, c.Env, when)
}

//go:norace
func (s *muxState) envCheck(q *muxReq, env map[interface{}]interface{}, when string) {
	for i := range envOf {
		if v, ok := env[envOf[i]]; ok && v != q.id {
			s.x.Fail("C21", "foreign-context", "request %d found a value of request %v in its context (%s)", q.id, v, when)
		}
	}
	if v, ok := env["given"]; ok && v != q.id {
		s.x.Fail("C21", "foreign-context", "request %d found a value of request %v in its context (%s)", q.id, v, when)
	} else if !ok && q.viaC {
		s.x.Fail("C21", "context-dropped", "request %d lost the context it was given (%s)", q.id, when)
	}
}

//go:norace
func (s *muxState) seeMatch(q *muxReq, c *web.C) {
	m := web.GetMatch(*c)
	ran := s.routerRan(q)
	if m.Handler != nil && ran == 0 {
		s.x.Fail("C24", "early-match", "request %d carries a match although it has not been routed", q.id)
	}
	if ran == 1 && m.Handler == nil {
		s.x.Fail("C24", "no-match", "request %d carries no match although it has been routed", q.id)
	}
	if !q.mset && m.Handler != nil {
		q.mset = true
		q.match = m
		q.mseq = s.x.Ev("match", int64(q.id), 0, 0)
	}
}

//go:norace
func (s *muxState) matchSeen(q *muxReq) bool { return q.mset }

// routerRan: some Router was ahead of the current layer (1), none was (0), or
// it depends on which of the possible stacks this is (-1). It is not recorded
// in the trace, so ask the stack.
//
//go:norace
func (s *muxState) routerRan(q *muxReq) int {
	// The trace has one entry per ordinary layer entered.
	seen := 0
	for _, v := range q.trace {
		if v >= 0 && v < 100 {
			seen++
		}
	}
	res := -2
	for _, st := range possible.l {
		r := 0
		n := 0
		for _, id := range st {
			if id == 6 {
				r = 1
				break
			}
			if s.mws[id].kind <= 1 {
				n++
				if n == seen {
					break
				}
			}
		}
		if res == -2 {
			res = r
		} else if res != r {
			return -1
		}
	}
	if res == -2 {
		return -1
	}
	return res
}

//go:norace
func (s *muxState) outMatch(q *muxReq, c *web.C) {
	m := web.GetMatch(*c)
	if q.mset && !q.over && (m.Handler == nil || !sameHandler(m, q.match)) {
		s.x.Fail("C24", "match-not-restored", "the match of request %d was not the same after the inner mux had run", q.id)
	}
}

func sameHandler(a, b web.Match) bool {
	return sameFn(a.RawHandler(), b.RawHandler())
}

// sameFn compares handlers, which may be functions.
func sameFn(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == b
	}
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	if ta.Kind() == reflect.Func {
		// The code is the same for all of them: compare the closures.
		return reflect.ValueOf(&a).Elem().InterfaceData() == reflect.ValueOf(&b).Elem().InterfaceData()
	}
	return a == b
}

func (s *muxState) override(q *muxReq, c *web.C) {
	c.Env[web.MatchKey] = web.Match{Handler: web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) { s.target(&c, w, r, tOverride) })}
}

// ---- handlers ----

var errSim = errors.New("sim: handler panic")

func (s *muxState) target(c *web.C, w http.ResponseWriter, r *http.Request, t int) {
	q := s.reqOf(r)
	s.entered(q, c, r, t)
	Y()
	if q.where == 1 {
		sleep(q.ms)
	}
	if c != nil {
		s.still(q, c, t)
	}
	if q.panics {
		s.notePanic(q)
		panic(errSim)
	}
	if t == tNotFound || t == tChildNF {
		http.NotFound(w, r)
	} else if q.hdrs {
		w.WriteHeader(404)
		w.Write([]byte("own"))
	} else {
		w.Write([]byte(strconv.Itoa(t)))
	}
	if c != nil {
		s.still(q, c, t)
	}
}

//go:norace
func (s *muxState) notePanic(q *muxReq) {
	q.paniced = true
	s.x.FaultFired("handler-panic")
}

//go:norace
func (s *muxState) entered(q *muxReq, c *web.C, r *http.Request, t int) {
	x := s.x
	e := x.Ev("target", int64(q.id), int64(t), 0)
	if q.target != 0 && t < tChild {
		x.Fail("C20", "handled-twice", "request %d was handled twice, by %d and %d", q.id, q.target, t)
	}
	if q.routed == 0 {
		q.routed = e
	}
	if t < tChild || t >= tOverride {
		q.target = t
	} else {
		q.inner = t
	}
	q.trace = append(q.trace, t)
	want := q.path
	if t >= tChild && t < tOverride && s.childSub {
		want = strings.TrimPrefix(q.path, "/sub")
	}
	if r.URL.Path != want {
		x.Fail("C24", "path", "handler %d of request %d for %q sees path %q, want %q", t, q.id, q.path, r.URL.Path, want)
	}
	if c == nil {
		return
	}
	s.envCheck(q, c.Env, "in the handler")
	q.kept = append(q.kept, keptC{c: *c, params: copyParams(c.URLParams), nenv: len(c.Env)})
	q.params = copyParams(c.URLParams)
	if q.params == nil {
		q.params = map[string]string{}
	}
	if v, ok := c.Env[web.ValidMethodsKey]; ok {
		q.valid, _ = v.([]string)
		if q.valid == nil {
			q.valid = []string{}
		}
		q.nvalid = true
	}
}

func copyParams(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	o := make(map[string]string, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

// still: the context has not changed under the handler.
//
//go:norace
func (s *muxState) still(q *muxReq, c *web.C, t int) {
	k := q.kept[len(q.kept)-1]
	if !reflect.DeepEqual(copyParams(c.URLParams), k.params) {
		s.x.Fail("C21", "params-changed", "the URL parameters of request %d changed under its handler: %v, then %v", q.id, k.params, c.URLParams)
	}
	s.envCheck(q, c.Env, "later in the handler")
}

// recRW records a response.
type recRW struct {
	h      http.Header
	code   int
	codes  int
	body   []byte
	writes int
}

func (w *recRW) Header() http.Header { return w.h }
func (w *recRW) WriteHeader(c int) {
	w.codes++
	if w.code == 0 {
		w.code = c
	}
}
func (w *recRW) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	w.writes++
	w.body = append(w.body, b...)
	return len(b), nil
}

// ---- running ----

func muxRun(x *X) {
	s := &muxState{x: x, m: web.New(), nfNow: -1}
	x.state = s
	p := x.plan
	for i := 0; i < 8; i++ {
		s.mws = append(s.mws, s.newMW(i))
	}
	phases := p.knob("phases")
	s.cfg = make([][]*cfgOp, phases+1)
	s.outerRouter = p.knob("router") == 1
	s.childSub = p.knob("sub") == 1
	if p.knob("child") == 1 {
		s.mountChild()
	}
	m := p.actors()
	keys := sortedKeys(m)
	s.pre = map[int]*muxRoute{}
	for _, o := range p.Ops {
		if o.K == "route" {
			s.pre[o.C] = s.newRoute(o.C, o.A%len(muxRegs), o.S, o.B)
		}
	}
	for ph := 0; ph < phases; ph++ {
		s.phase = ph
		stage := func(lo, hi int) {
			n := 0
			done := make(chan bool)
			for _, k := range keys {
				if k < 100*ph+lo || k >= 100*ph+hi {
					continue
				}
				n++
				go func(k int) {
					defer func() { done <- true }()
					for _, o := range m[k] {
						sleep(o.D)
						s.do(o, ph)
					}
				}(k)
			}
			for ; n > 0; n-- {
				<-done
			}
		}
		stage(0, 1) // initial routes, one after another
		stage(1, 2) // the NotFound handler
		if ph == 0 {
			if s.outerRouter {
				s.config(0, &cfgOp{kind: 0, mw: 6})
			}
			if p.knob("options") == 1 {
				s.config(0, &cfgOp{kind: 0, mw: 7})
			}
		}
		stage(10, 20) // middleware
		s.settle(ph)
		stage(20, 100)
	}
	s.phase = phases
}

func (s *muxState) mountChild() {
	s.child = web.New()
	if s.childSub {
		s.child.Use(middleware.SubRouter)
	}
	if s.x.plan.knob("childrouter") == 1 {
		s.childRouter = true
		s.child.Use(s.child.Router)
	}
	for i, spec := range []string{"s:/a", "s:/:x", "s:/a/:y/*", "r:^/abc(.*)"} {
		if !s.childSub {
			spec = spec[:2] + map[byte]string{'s': "/sub" + spec[2:], 'r': "^/sub" + strings.TrimPrefix(spec[2:], "^")}[spec[0]]
		}
		rt := &muxRoute{id: i, mask: []int{1, 1, 0, 2}[i], str: spec, match: modelOf(spec, i)}
		rt.raw = interface{}(spec[2:])
		if spec[0] == 'r' {
			rt.raw = regexp.MustCompile(spec[2:])
		}
		t := tChild + i
		rt.h = func(c web.C, w http.ResponseWriter, r *http.Request) { s.target(&c, w, r, t) }
		s.register(s.child, rt)
		s.childR = append(s.childR, rt)
	}
	s.child.NotFound(func(c web.C, w http.ResponseWriter, r *http.Request) { s.target(&c, w, r, tChildNF) })
	rt := &muxRoute{id: 900, mask: 0, str: "s:/sub/*", match: modelOf("s:/sub/*", 900), child: true}
	rt.raw = "/sub/*"
	rt.h = s.child
	rt.inv = s.x.Seq()
	s.routes = append(s.routes, rt)
	s.m.Handle(rt.raw, rt.h)
	rt.ret = s.x.Seq()
}

func (s *muxState) do(o Op, ph int) {
	switch o.K {
	case "route":
		if o.C >= 60 {
			return
		}
		rt := s.pre[o.C]
		if rt == nil || rt.inv != 0 {
			return
		}
		s.regBegin(rt)
		s.register(s.m, rt)
		s.regEnd(rt)
	case "compile":
		s.m.Compile()
	case "notfound":
		s.setNF(o.A)
	case "mw":
		s.config(ph, &cfgOp{kind: o.A % 3, mw: o.C % 8, at: o.B % 8})
	case "req":
		s.request(o, ph)
	}
}

func (s *muxState) setNF(a int) {
	t := tNotFound
	var h interface{}
	switch a {
	case 0:
		h = func(c web.C, w http.ResponseWriter, r *http.Request) { s.target(&c, w, r, t) }
	case 1:
		h = web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) { s.target(&c, w, r, t) })
	default:
		h = func(w http.ResponseWriter, r *http.Request) { s.target(nil, w, r, t) }
	}
	s.nfSet()
	s.m.NotFound(h)
}

//go:norace
func (s *muxState) nfSet() { s.nfNow = 0 }

//go:norace
func (s *muxState) regBegin(rt *muxRoute) {
	rt.inv = s.x.Ev("register", int64(rt.id), 0, 0)
	s.routes = append(s.routes, rt)
}

//go:norace
func (s *muxState) regEnd(rt *muxRoute) { rt.ret = s.x.Ev("registered", int64(rt.id), 0, 0) }

//go:norace
func (s *muxState) config(ph int, c *cfgOp) {
	if c.mw == 6 && s.child != nil && !s.childSub {
		// Routing loops are documented for this combination.
		c.mw = 1
	}
	if c.mw == 6 && c.kind != 2 {
		// Routing twice is possible, but no use.
		if s.routerUsed {
			c.mw = 1
		}
		s.routerUsed = true
	}
	s.cfgBegin(ph, c)
	var err error
	switch c.kind {
	case 0:
		s.m.Use(s.mws[c.mw].fn)
	case 1:
		err = s.m.Insert(s.mws[c.mw].fn, s.mws[c.at].fn)
	case 2:
		err = s.m.Abandon(s.mws[c.mw].fn)
	}
	s.cfgEnd(c, err)
}

//go:norace
func (s *muxState) cfgBegin(ph int, c *cfgOp) {
	c.inv = s.x.Ev("config", int64(c.kind), int64(c.mw), int64(c.at))
	s.cfg[ph] = append(s.cfg[ph], c)
}

//go:norace
func (s *muxState) cfgEnd(c *cfgOp, err error) {
	c.err = err != nil
	c.ret = s.x.Ev("configured", int64(c.kind), int64(c.mw), b2i(c.err))
}

// stacks that are possible after the configuration calls so far.
type stackSet struct{ l [][]int }

var possible stackSet

//go:norace
func (s *muxState) settle(ph int) {
	if ph == 0 {
		possible.l = [][]int{{}}
	}
	var next [][]int
	for _, st := range possible.l {
		next = append(next, applyCfg(st, s.cfg[ph])...)
	}
	possible.l = nil
	seen := map[string]bool{}
	for _, n := range next {
		k := fmt.Sprint(n)
		if !seen[k] {
			seen[k] = true
			possible.l = append(possible.l, n)
		}
	}
	if len(possible.l) == 0 {
		s.x.Fail("C22", "config-result", "no order of the Use, Insert and Abandon calls explains which of them failed: %s", cfgString(s.cfg[ph]))
		possible.l = [][]int{{}}
	}
}

func cfgString(l []*cfgOp) string {
	var out []string
	for _, c := range l {
		o := []string{"Use", "Insert", "Abandon"}[c.kind] + "(" + strconv.Itoa(c.mw)
		if c.kind == 1 {
			o += " before " + strconv.Itoa(c.at)
		}
		o += ")"
		if c.err {
			o += "=error"
		}
		out = append(out, o)
	}
	return strings.Join(out, " ")
}

func applyCfg(st []int, ops []*cfgOp) [][]int {
	if len(ops) == 0 {
		return [][]int{st}
	}
	var minRet uint64 = 1 << 63
	for _, o := range ops {
		if o.ret < minRet {
			minRet = o.ret
		}
	}
	var out [][]int
	for i, o := range ops {
		if o.inv > minRet {
			continue
		}
		n, err := modelCfg(st, o)
		if err != o.err {
			continue
		}
		rest := append(append([]*cfgOp{}, ops[:i]...), ops[i+1:]...)
		out = append(out, applyCfg(n, rest)...)
	}
	return out
}

func modelCfg(st []int, o *cfgOp) ([]int, bool) {
	find := func(v int) int {
		for i, w := range st {
			if w == v {
				return i
			}
		}
		return -1
	}
	n := append([]int{}, st...)
	switch o.kind {
	case 0:
		return append(n, o.mw), false
	case 1:
		i := find(o.at)
		if i < 0 {
			return n, true
		}
		n = append(n, 0)
		copy(n[i+1:], n[i:])
		n[i] = o.mw
		return n, false
	}
	i := find(o.mw)
	if i < 0 {
		return n, true
	}
	return append(n[:i], n[i+1:]...), false
}

func (s *muxState) request(o Op, ph int) {
	q := &muxReq{phase: ph, method: muxMethods[o.A%len(muxMethods)], path: o.S}
	b := o.B
	q.bits = b & 63
	b >>= 6
	q.where = b & 3
	q.ms = int64([]time.Duration{0, time.Millisecond, 2 * time.Millisecond, 5 * time.Millisecond}[b>>2&3])
	c := o.C
	q.panics = c&7 == 1
	if c>>3&7 == 1 {
		q.self = 1 + c>>6&7
	}
	q.viaC = c>>6&3 == 3
	q.over = c>>8&3 == 2
	q.hdrs = c>>7&7 == 5
	s.reqBegin(q)
	req := &http.Request{Method: q.method, URL: &url.URL{Path: q.path}, Header: http.Header{}, RemoteAddr: strconv.Itoa(q.id), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: "sim"}
	q.rec = &recRW{h: http.Header{}}
	func() {
		defer func() {
			if v := recover(); v != nil && v != interface{}(errSim) {
				panic(v)
			}
		}()
		if q.viaC {
			s.m.ServeHTTPC(web.C{Env: map[interface{}]interface{}{"given": q.id}, URLParams: map[string]string{"given": strconv.Itoa(q.id)}}, q.rec, req)
		} else {
			s.m.ServeHTTP(q.rec, req)
		}
	}()
	s.reqEnd(q, req)
}

//go:norace
func (s *muxState) reqBegin(q *muxReq) {
	q.id = len(s.reqs)
	s.reqs = append(s.reqs, q)
	q.inv = s.x.Ev("request", int64(q.id), 0, 0)
}

//go:norace
func (s *muxState) reqEnd(q *muxReq, req *http.Request) {
	q.ret = s.x.Ev("answered", int64(q.id), int64(q.rec.code), 0)
	if req.URL.Path != q.path {
		s.x.Fail("C24", "path-not-restored", "request %d for %q ended with path %q", q.id, q.path, req.URL.Path)
	}
	// The middleware stack.
	var st []int
	ok := false
	var keep [][]int
	for _, l := range possible.l {
		if stackFits(s, l, q) {
			keep = append(keep, l)
			st, ok = l, true
		}
	}
	if !ok {
		s.x.Fail("C22", "stack", "request %d went through layers %v; the stack should be one of %v", q.id, q.trace, possible.l)
		return
	}
	possible.l = keep
	_ = st
}

// stackFits compares the layers a request went through with a stack. Library
// middleware does not show in the trace.
func stackFits(s *muxState, st []int, q *muxReq) bool {
	var want []int
	self := false
	for _, id := range st {
		if s.mws[id].kind > 1 {
			continue
		}
		want = append(want, id)
		if q.self == id+1 {
			want = append(want, tSelf+id)
			self = true
			break
		}
	}
	var got []int
	targets := 0
	var in []int
	for _, v := range q.trace {
		switch {
		case v >= tSelf:
			got = append(got, v)
		case v >= tHandler:
			targets++
			if self {
				return false
			}
		default:
			got = append(got, v)
		}
		_ = in
	}
	if !q.paniced {
		for i := len(want) - 1; i >= 0; i-- {
			if want[i] < 100 {
				want = append(want, -1-want[i])
			}
		}
	}
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != want[i] {
			return false
		}
	}
	return true
}

// ---- afterwards ----

func muxAfter(x *X) {
	s, _ := x.state.(*muxState)
	if s == nil || s.phase != x.plan.knob("phases") {
		return
	}
	for _, q := range s.reqs {
		if q.ret == 0 {
			x.Fail("C20", "unanswered", "request %d was never answered", q.id)
			return
		}
		for _, k := range q.kept {
			if !reflect.DeepEqual(copyParams(k.c.URLParams), k.params) {
				x.Fail("C21", "retained-context", "the URL parameters a handler kept from request %d were changed by somebody else: %v, then %v", q.id, k.params, k.c.URLParams)
			}
			s.envCheck(q, k.c.Env, "after the end of the request")
		}
		if q.mset && !q.over && q.target != 0 && !sameFnTarget(s, q) {
			x.Fail("C24", "match-not-used", "request %d was matched to one handler and dispatched to another (%d)", q.id, q.target)
		}
		if q.over && q.mset && q.target != tOverride && q.self == 0 {
			x.Fail("C24", "override-ignored", "a middleware replaced the match of request %d, which went to %d all the same", q.id, q.target)
		}
		s.checkOptions(q)
	}
	s.linearize()
}

// sameFnTarget: the handler in the match is the one that was run.
func sameFnTarget(s *muxState, q *muxReq) bool {
	if q.target == tNotFound || q.target == 0 {
		return q.match.Pattern == nil
	}
	for _, rt := range s.routes {
		if tHandler+rt.id == q.target {
			return sameFn(q.match.RawHandler(), rt.h) && samePattern(q.match, rt)
		}
	}
	return true
}

func samePattern(m web.Match, rt *muxRoute) bool {
	switch v := rt.raw.(type) {
	case string:
		g, ok := m.RawPattern().(string)
		return ok && g == v
	case *regexp.Regexp:
		g, ok := m.RawPattern().(*regexp.Regexp)
		return ok && g == v
	default:
		return m.RawPattern() == rt.raw
	}
}

// checkOptions: what AutomaticOptions makes of an answer.
func (s *muxState) checkOptions(q *muxReq) {
	if q.paniced || q.self != 0 && containsSelf(q.trace) {
		return
	}
	x := s.x
	allow, has := q.rec.h["Allow"]
	on := s.optionsOn(q)
	if on < 0 {
		return
	}
	if on == 0 || q.method != "OPTIONS" {
		if has {
			x.Fail("C23", "allow-header", "request %d (%s) was given Allow: %v", q.id, q.method, allow)
		}
		return
	}
	if q.target >= tHandler && q.target < tNotFound && !q.hdrs || q.inner != 0 && q.inner != tChildNF && !q.hdrs || q.target == tOverride && !q.hdrs {
		if has || q.rec.code != 200 || len(q.rec.body) == 0 {
			x.Fail("C23", "options-handler", "OPTIONS request %d was handled by %d; status %d, Allow %v, %d bytes", q.id, q.target, q.rec.code, allow, len(q.rec.body))
		}
	}
}

func containsSelf(tr []int) bool {
	for _, v := range tr {
		if v >= tSelf {
			return true
		}
	}
	return false
}

// optionsOn: AutomaticOptions was in the stack: 1 yes, 0 no, -1 not known.
func (s *muxState) optionsOn(q *muxReq) int {
	n := -1
	for ph := 0; ph <= q.phase; ph++ {
		for _, c := range s.cfg[ph] {
			if c.mw == 7 && !c.err {
				n = 1
				if c.kind == 2 {
					return -1
				}
			}
		}
	}
	if n < 0 {
		return 0
	}
	return 1
}

// linearize looks for an order of the registrations that explains every answer.
func (s *muxState) linearize() {
	var reads []*muxReq
	for _, q := range s.reqs {
		if q.routed != 0 && q.target != tOverride || s.defaultNF(q) {
			reads = append(reads, q)
		}
	}
	routes := append([]*muxRoute{}, s.routes...)
	sort.Slice(routes, func(i, j int) bool { return routes[i].inv < routes[j].inv })
	done := make([]bool, len(routes))
	read := make([]bool, len(reads))
	var order []*muxRoute
	best := -1
	var why string
	budget := 60000
	var try func(nr int) bool
	try = func(nr int) bool {
		// Linearize every request that can be, now.
		budget--
		if budget < 0 {
			return true
		}
		if budget%1000 == 0 {
			// Collection is off otherwise.
			runtime.GC()
		}
		var undo []int
		minRet := uint64(1 << 63)
		for i, rt := range routes {
			if !done[i] && rt.ret != 0 && rt.ret < minRet {
				minRet = rt.ret
			}
		}
		for i, q := range reads {
			if read[i] || q.inv > minRet {
				continue
			}
			if d := s.explain(order, q); d == "" {
				read[i] = true
				undo = append(undo, i)
			}
		}
		left := 0
		var first *muxReq
		end := uint64(1 << 63)
		for i, q := range reads {
			if !read[i] {
				left++
				if e := s.routedBy(q); e < end {
					end = e
					first = q
				}
			}
		}
		if left == 0 {
			return true
		}
		if n := len(order); n > best || why == "" {
			best = n
			why = fmt.Sprintf("request %d (%s %q): %s", first.id, first.method, first.path, s.explain(order, first))
		}
		for i, rt := range routes {
			if done[i] || rt.inv > minRet || rt.inv > end {
				continue
			}
			done[i] = true
			order = append(order, rt)
			if try(nr + 1) {
				return true
			}
			order = order[:len(order)-1]
			done[i] = false
		}
		for _, i := range undo {
			read[i] = false
		}
		return false
	}
	if !try(0) {
		sig := "routing"
		if strings.Contains(why, "valid methods") {
			s.x.Fail("C23", "valid-methods", "no order of the registrations explains %s", why)
			return
		}
		if strings.Contains(why, "URL parameters") {
			sig = "url-params"
		}
		s.x.Fail("C20", sig, "no order of the registrations explains %s", why)
	}
	if budget < 0 {
		s.x.Probe("linearization-given-up")
	}
}

// defaultNF: the request went to net/http's NotFound, which the harness does
// not see.
func (s *muxState) defaultNF(q *muxReq) bool {
	return q.routed == 0 && !containsSelf(q.trace) && !q.paniced
}

func (s *muxState) routedBy(q *muxReq) uint64 {
	if q.mseq != 0 {
		return q.mseq
	}
	if q.routed != 0 {
		return q.routed
	}
	return q.ret
}

// explain compares what a request saw with the model, given the routes
// registered so far; it returns the difference.
func (s *muxState) explain(order []*muxRoute, q *muxReq) string {
	m := modelRoute(order, q.method, q.path, q.bits)
	got := q.target
	if m.rt == nil {
		if got != tNotFound && !(got == 0 && q.routed == 0) {
			return fmt.Sprintf("went to %s, but nothing should match", s.tname(got, q))
		}
		if q.routed != 0 && q.params != nil {
			if d := paramDiff(q, nil); d != "" {
				return d
			}
			if (m.valid != nil) != q.nvalid || q.nvalid && !sameStrings(m.valid, q.valid) {
				return fmt.Sprintf("valid methods: %v, want %v", q.valid, m.valid)
			}
		}
		if d := s.notFoundAnswer(q, m.valid); d != "" {
			return d
		}
	} else {
		if m.rt.child {
			if q.inner == 0 {
				return fmt.Sprintf("went to %s, want the nested mux", s.tname(got, q))
			}
			c := modelRoute(s.childR, q.method, s.childPath(q), q.bits)
			want := tChildNF
			ps := m.params
			if c.rt != nil {
				want = tChild + c.rt.id
				ps = copyParams(m.params)
				for k, v := range c.params {
					ps[k] = v
				}
			}
			if q.inner != want {
				return fmt.Sprintf("went to handler %d of the nested mux, want %d", q.inner, want)
			}
			if d := paramDiff(q, ps); d != "" {
				return d
			}
			if c.rt == nil && ((c.valid != nil) != q.nvalid || q.nvalid && !sameStrings(c.valid, q.valid)) {
				return fmt.Sprintf("valid methods: %v, want %v", q.valid, c.valid)
			}
			return ""
		}
		if got != tHandler+m.rt.id {
			return fmt.Sprintf("went to %s, want route %d (%s)", s.tname(got, q), m.rt.id, m.rt.str)
		}
		if q.params != nil {
			ps := m.params
			if m.rt.custom {
				ps = copyParams(ps)
				ps["cr"] = strconv.Itoa(q.id)
			}
			if d := paramDiff(q, ps); d != "" {
				return d
			}
			if q.nvalid {
				return "valid methods are set although a route matched"
			}
		}
	}
	// Custom patterns were asked in order, none after the decision, and only
	// the chosen one was run.
	pos := 0
	for _, c := range q.calls {
		if c.run {
			if m.rt == nil || m.rt.id != c.id || !m.rt.custom {
				return fmt.Sprintf("pattern %d was run although it was not chosen", c.id)
			}
			continue
		}
		i := pos
		for i < len(m.calls) && m.calls[i] != c.id {
			i++
		}
		if i == len(m.calls) {
			return fmt.Sprintf("patterns were consulted in the order %v, want a subsequence of %v", q.calls, m.calls)
		}
		pos = i
	}
	return ""
}

func (s *muxState) notFoundAnswer(q *muxReq, valid []string) string {
	if q.paniced {
		return ""
	}
	on := s.optionsOn(q)
	if on < 0 {
		return ""
	}
	if on == 1 && q.method == "OPTIONS" && valid != nil {
		l := append([]string{}, valid...)
		has := false
		for _, v := range l {
			has = has || v == "OPTIONS"
		}
		if !has {
			l = append(l, "OPTIONS")
		}
		if q.rec.code != 200 || len(q.rec.body) != 0 || q.rec.h.Get("Allow") != strings.Join(l, ", ") {
			return fmt.Sprintf("valid methods: the answer to OPTIONS is status %d, Allow %q, %d bytes; want 200, %q, none", q.rec.code, q.rec.h.Get("Allow"), len(q.rec.body), strings.Join(l, ", "))
		}
		return ""
	}
	if q.rec.code != 404 {
		return fmt.Sprintf("answered with status %d, but nothing should match", q.rec.code)
	}
	if _, ok := q.rec.h["Allow"]; ok {
		return "valid methods: an Allow header on a 404 answer"
	}
	return ""
}

func (s *muxState) childPath(q *muxReq) string {
	if s.childSub {
		return strings.TrimPrefix(q.path, "/sub")
	}
	return q.path
}

func (s *muxState) tname(t int, q *muxReq) string {
	switch {
	case t == 0 && q.inner != 0:
		return fmt.Sprintf("the nested mux (%d)", q.inner)
	case t == 0:
		return fmt.Sprintf("nowhere (status %d)", q.rec.code)
	case t == tNotFound:
		return "the NotFound handler"
	}
	for _, rt := range s.routes {
		if rt.id == t-tHandler {
			return fmt.Sprintf("route %d (%s)", rt.id, rt.str)
		}
	}
	return strconv.Itoa(t)
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func paramDiff(q *muxReq, want map[string]string) string {
	got := copyParams(q.params)
	if q.viaC {
		if got["given"] != strconv.Itoa(q.id) {
			return "URL parameters it was called with are gone"
		}
		delete(got, "given")
	}
	if len(got) != len(want) {
		return fmt.Sprintf("URL parameters %v, want %v", got, want)
	}
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			return fmt.Sprintf("URL parameters %v, want %v", got, want)
		}
	}
	return ""
}

func init() {
	register(&Scenario{Name: "mux", Gen: muxGen, Run: muxRun, After: muxAfter, Limit: 200000})
}
