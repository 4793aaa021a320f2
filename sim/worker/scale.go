package main

import (
	"fmt"
	"net/http"
	"net/url"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/zenazn/goji/web"
)

// Scenario "scale": muxes with hundreds of routes, dozens of layers, patterns
// that bind dozens of parameters, long paths and many requests at once, while
// one party goes on registering. Everything is compared with a list of routes
// that is searched from its start, and a list of layers.

const scSpecs = 1 << 10

// scSegs are what paths are made of.
var scSegs = []string{"/api", "/v1", "/v2", "/users", "/user", "/u", "/static", "/a.b", "/x;y", "/é", "/api2", "/", "/users_and_everything_that_belongs_to_them"}

func scStem(r *Rand) string {
	var b strings.Builder
	n := r.pick(1, 2, 2, 3, 3, 4, 6)
	if r.chance(1, 40) {
		n = r.pick(20, 60)
	}
	for i := 0; i < n; i++ {
		b.WriteString(scSegs[r.n(len(scSegs))])
	}
	return b.String()
}

// scPattern makes a pattern of its number and the stems of its plan.
func scPattern(r *Rand, stems []string) string {
	st := stems[r.n(len(stems))]
	np := r.pick(0, 0, 0, 1, 1, 2, 3)
	if r.chance(1, 10) {
		np = r.pick(7, 8, 9, 16, 17, 31, 40)
	}
	var b strings.Builder
	if r.chance(1, 6) {
		b.WriteString("r:^" + regexp.QuoteMeta(st))
		for i := 0; i < np; i++ {
			switch r.n(4) {
			case 0:
				b.WriteString(`/(\w+)`)
			case 1:
				b.WriteString(`(/\d*)?`)
			default:
				fmt.Fprintf(&b, `/(?P<p%d>[^/]*)`, i)
			}
		}
		if r.chance(1, 3) {
			b.WriteString("(?P<_>/.*)?")
		}
		b.WriteString(r.picks("$", "$", "", fmt.Sprintf("/%d$", r.n(6))))
		return b.String()
	}
	b.WriteString("s:" + st)
	if r.chance(1, 2) {
		fmt.Fprintf(&b, "/n%d", r.n(12))
	}
	for i := 0; i < np; i++ {
		fmt.Fprintf(&b, "%s:p%d", r.picks("/", "/", "/", ".", ";", ","), i)
	}
	if r.chance(1, 4) {
		fmt.Fprintf(&b, "/e%d", r.n(5))
	}
	if r.chance(1, 5) {
		b.WriteString("/*")
	}
	return b.String()
}

var scParam = regexp.MustCompile(`:p\d+`)
var scGroup = regexp.MustCompile(`\(\?P<[^>]*>[^)]*\)\??|\([^)]*\)\??`)

// scPath makes a path that a pattern nearly matches, or does.
func scPath(r *Rand, pat string) string {
	fill := func(string) string {
		if r.chance(1, 60) {
			return strings.Repeat("long", r.pick(20, 100, 600))
		}
		return r.picks("a", "7", "42", "carl", "é", "%2f", "x y", "n1", "api")
	}
	p := pat[2:]
	if pat[0] == 'r' {
		p = strings.TrimSuffix(strings.TrimPrefix(p, "^"), "$")
		p = scGroup.ReplaceAllStringFunc(p, func(g string) string {
			switch {
			case strings.HasPrefix(g, "(/"):
				return r.picks("", "/12", "/")
			case strings.HasPrefix(g, "(?P<_>"):
				return r.picks("", "/rest/of/it")
			}
			return fill("")
		})
		p = strings.Replace(p, `\`, "", -1)
	} else {
		p = scParam.ReplaceAllStringFunc(p, fill)
		if strings.HasSuffix(p, "/*") {
			p = p[:len(p)-1] + r.picks("", "a", "a/b/c", "/")
		}
	}
	switch r.n(16) {
	case 0:
		p += r.picks("/", "x", "/e1", "/n3", "/a")
	case 1:
		p = p[:len(p)-1]
	case 2:
		p = strings.Replace(p, "v1", "v2", 1)
	}
	return p
}

// scGiant is a pattern that has little in common with those of other numbers.
func scGiant(i int) string {
	x := uint64(i+1) * 0x9e3779b97f4a7c15
	return fmt.Sprintf("s:/%05d/%016x%016x/:p0", i, x, x*x)
}

var scMasks = []int{0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9}

func scaleGen(r *Rand, p *Plan, tier string) {
	k := p.Knobs
	k["options"] = r.n(2)
	var stems []string
	for i, n := 0, r.pick(1, 2, 4, 8, 20); i < n; i++ {
		st := scStem(r)
		stems = append(stems, st)
		if r.chance(1, 3) {
			stems = append(stems, st+scStem(r))
		}
	}
	n := r.pick(1, 17, 33, 40, 65, 70, 100, 130)
	if bigger(r, tier) {
		n = r.pick(257, 300, 513, 700)
	}
	var pats []string
	route := func(w int, d int64) {
		var s string
		if len(pats) > 0 && r.chance(1, 3) {
			s = pats[r.n(len(pats))] // with another method, perhaps
		} else {
			s = scPattern(r, stems)
		}
		pats = append(pats, s)
		p.Ops = append(p.Ops, Op{W: w, K: "route", A: scMasks[r.n(len(scMasks))], B: r.n(3), S: s, D: d})
	}
	for i := 0; i < n; i++ {
		route(0, 0)
	}
	if r.chance(1, 300) {
		// So many routes that they take ten thousands of states.
		k["giant"] = r.pick(1000, 3200)
		for i := 0; i < 40; i++ {
			pats = append(pats, scGiant(r.n(k["giant"])))
		}
	}
	// Layers: each knows its number only.
	layers := r.pick(0, 1, 3, 8, 9, 17, 33, 70)
	kinds := r.pick(1, 3, 5)
	for i := 0; i < layers; i++ {
		p.Ops = append(p.Ops, Op{W: 1, K: "mw", A: r.pick(0, 0, 0, 0, 1, 1, 2), B: i, C: r.n(layers), D: int64(r.n(kinds))})
	}
	if r.chance(1, 2) {
		for i, m := 0, r.pick(1, 3, 20); i < m; i++ {
			route(2, r.dur(0, 0, time.Millisecond))
		}
	}
	clients, most := r.pick(1, 3, 8), 4
	if bigger(r, tier) {
		clients, most = r.pick(16, 40), 3
	}
	for c := 0; c < clients; c++ {
		for i, m := 0, r.rng(1, most); i < m; i++ {
			p.Ops = append(p.Ops, Op{W: 10 + c, K: "req", A: r.pick(0, 0, 0, 0, 1, 2, 2, 3, 4, 5, 5, 6, 7, 8, 9), B: r.n(64), S: scPath(r, pats[r.n(len(pats))]), D: r.dur(0, 0, 0, time.Millisecond)})
		}
	}
	p.Stalls = r.stalls(2, 3000, time.Millisecond, 30*time.Millisecond)
}

type scRoute struct {
	mask     int
	match    func(string, int) (bool, map[string]string)
	str      string
	inv, ret uint64
}

type scReq struct {
	id           int
	method, path string
	linger       int64
	panics       bool
	keep         bool
	trace        []int
	target       int // -2 nothing, -1 NotFound
	params       map[string]string
	valid        []string
	hasValid     bool
	from, to     uint64
	rec          *recRW
	env          int
}

type scKept struct {
	q      *scReq
	c      web.C
	params map[string]string
	env    int
}

type scaleState struct {
	x      *X
	m      *web.Mux
	routes []*scRoute
	stack  []int
	layers map[int]interface{}
	reqs   []*scReq
	kept   []scKept
}

type scKey int

func scaleRun(x *X) {
	s := &scaleState{x: x, m: web.New(), layers: map[int]interface{}{}}
	x.state = s
	m := x.plan.actors()
	for _, k := range sortedKeys(m) {
		for _, o := range m[k] {
			if o.K == "req" {
				q := &scReq{id: len(s.reqs), method: muxMethods[o.A%len(muxMethods)], path: o.S, target: -2}
				q.linger = int64(o.B&3) * int64(time.Millisecond)
				q.panics, q.keep = o.B>>2&7 == 7, o.B>>5&1 == 1
				s.reqs = append(s.reqs, q)
			}
		}
	}
	s.m.NotFound(func(c web.C, w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(404)
		s.reached(&c, r, -1)
	})
	for i := 0; i < x.plan.knob("giant"); i++ {
		s.route(Op{K: "route", A: 1, B: 1, S: scGiant(i)})
	}
	for _, o := range m[0] {
		s.route(o)
	}
	for _, o := range m[1] {
		s.layer(o)
	}
	if x.plan.knob("options") == 1 {
		s.m.Compile()
	}
	done := make(chan bool)
	n, next := 0, 0
	for _, k := range sortedKeys(m) {
		if k < 2 {
			continue
		}
		var qs []*scReq
		for _, o := range m[k] {
			if o.K == "req" {
				qs = append(qs, s.reqs[next])
				next++
			}
		}
		n++
		go func(ops []Op) {
			defer func() { done <- true }()
			i := 0
			for _, o := range ops {
				if k == 2 {
					sleep(o.D)
					s.route(o)
				} else if o.K == "req" {
					sleep(o.D)
					s.request(qs[i])
					i++
				}
			}
		}(m[k])
	}
	for ; n > 0; n-- {
		<-done
	}
	for _, k := range s.kept {
		if !sameParams(k.c.URLParams, k.params) {
			x.Fail("C21", "scale-kept", "request %d kept its URL parameters; they were %v and are now %v", k.q.id, k.params, k.c.URLParams)
		}
		if v := k.c.Env[scKey(0)]; v != k.env {
			x.Fail("C21", "scale-kept", "request %d kept its environment; it said %d, and now says %v", k.q.id, k.env, v)
		}
	}
}

func sameParams(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

//go:norace
func (s *scaleState) regBegin(rt *scRoute) {
	rt.inv = s.x.Ev("register", int64(len(s.routes)), 0, 0)
	rt.ret = 1 << 62
	s.routes = append(s.routes, rt)
}

//go:norace
func (s *scaleState) regEnd(rt *scRoute) { rt.ret = s.x.Ev("registered", 0, 0, 0) }

//go:norace
func (s *scaleState) nroutes() int { return len(s.routes) }

func (s *scaleState) route(o Op) {
	if o.K != "route" {
		return
	}
	rt := &scRoute{mask: o.A % len(muxRegs), str: o.S, match: modelOf(o.S, 0)}
	if len(modelCache) > scSpecs {
		runtime.SimPure(func() { clear(modelCache); clear(reCache) })
	}
	var raw interface{} = o.S[2:]
	if o.S[0] == 'r' {
		raw = regexp.MustCompile(o.S[2:])
	}
	id := s.nroutes()
	var h interface{}
	switch o.B {
	case 0:
		h = func(w http.ResponseWriter, r *http.Request) { s.reached(nil, r, id) }
	case 1:
		h = func(c web.C, w http.ResponseWriter, r *http.Request) { s.reached(&c, r, id) }
	default:
		h = web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) { s.reached(&c, r, id) })
	}
	s.regBegin(rt)
	(&muxState{}).register(s.m, &muxRoute{mask: rt.mask, raw: raw, h: h})
	s.regEnd(rt)
}

func (s *scaleState) req(r *http.Request) *scReq {
	i, _ := strconv.Atoi(r.RemoteAddr)
	return s.reqs[i]
}

// mw makes layer i.
func (s *scaleState) mw(i int) interface{} {
	if f := s.layers[i]; f != nil {
		return f
	}
	var f interface{}
	if i%3 == 0 {
		f = func(h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				q := s.req(r)
				q.trace = append(q.trace, i+1)
				h.ServeHTTP(w, r)
				q.trace = append(q.trace, -i-1)
			})
		}
	} else {
		f = func(c *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				q := s.req(r)
				if c.Env == nil {
					c.Env = map[interface{}]interface{}{}
				}
				if v, ok := c.Env[scKey(0)].(int); (ok || q.env != 0) && v != q.env {
					s.x.Fail("C21", "scale-env", "request %d: the environment says %v, the layers have counted %d", q.id, c.Env[scKey(0)], q.env)
				}
				q.env += 1 + 1000*q.id
				c.Env[scKey(0)] = q.env
				q.trace = append(q.trace, i+1)
				h.ServeHTTP(w, r)
				q.trace = append(q.trace, -i-1)
			})
		}
	}
	s.layers[i] = f
	return f
}

// layer does one change of the stack, and checks its outcome.
func (s *scaleState) layer(o Op) {
	x := s.x
	f, at := s.mw(o.B), slices.Index(s.stack, o.C)
	switch o.A {
	case 0:
		s.m.Use(f)
		s.stack = append(s.stack, o.B)
	case 1:
		if err := s.m.Insert(f, s.mw(o.C)); (err != nil) != (at < 0) {
			x.Fail("C22", "scale-insert", "Insert before layer %d in %v returned %v", o.C, s.stack, err)
		}
		if at >= 0 {
			s.stack = slices.Insert(s.stack, at, o.B)
		}
	default:
		if err := s.m.Abandon(s.mw(o.C)); (err != nil) != (at < 0) {
			x.Fail("C22", "scale-abandon", "Abandon of layer %d in %v returned %v", o.C, s.stack, err)
		}
		if at >= 0 {
			s.stack = slices.Delete(s.stack, at, at+1)
		}
	}
	if o.D == 0 && len(s.reqs) > 0 {
		// A request between the changes.
		q := &scReq{id: len(s.reqs), method: "GET", path: "/nowhere/at/all", target: -2}
		s.reqs = append(s.reqs, q)
		s.request(q)
	}
}

func (s *scaleState) reached(c *web.C, r *http.Request, id int) {
	x, q := s.x, s.req(r)
	if q.target != -2 {
		x.Fail("C20", "scale-twice", "request %d reached handlers %d and %d", q.id, q.target, id)
	}
	q.target = id
	if c == nil {
		sleep(q.linger)
		s.leave(q)
		return
	}
	q.params = copyParams(c.URLParams)
	if v, ok := c.Env[web.ValidMethodsKey]; ok {
		q.hasValid = true
		q.valid, _ = v.([]string)
	}
	if v, _ := c.Env[scKey(0)].(int); v != q.env {
		x.Fail("C21", "scale-env", "request %d: in the handler, the environment says %v, the layers have counted %d", q.id, c.Env[scKey(0)], q.env)
	}
	sleep(q.linger)
	if !sameParams(c.URLParams, q.params) {
		x.Fail("C21", "scale-params", "while request %d was in its handler, its URL parameters changed from %v to %v", q.id, q.params, c.URLParams)
	}
	if c.URLParams != nil && !q.keep {
		for k := range c.URLParams {
			c.URLParams[k] = "scribble"
		}
	} else if q.keep && q.env != 0 {
		s.keep(q, *c)
	}
	s.leave(q)
}

//go:norace
func (s *scaleState) keep(q *scReq, c web.C) {
	s.kept = append(s.kept, scKept{q, c, q.params, q.env})
}

func (s *scaleState) leave(q *scReq) {
	if q.panics {
		panic(errGone)
	}
}

func (s *scaleState) request(q *scReq) {
	x := s.x
	req := &http.Request{Method: q.method, URL: &url.URL{Path: q.path}, Header: http.Header{}, RemoteAddr: strconv.Itoa(q.id)}
	q.rec = &recRW{h: http.Header{}}
	q.from = x.Ev("req", int64(q.id), 0, 0)
	paniced := false
	func() {
		defer func() {
			if e := recover(); e != nil {
				paniced = true
				if e != errGone {
					x.Fail("C20", "scale-panic", "routing %s %q panicked: %v", q.method, scShort(q.path), e)
				}
			}
		}()
		s.m.ServeHTTP(q.rec, req)
	}()
	q.to = x.Ev("ret", int64(q.id), int64(q.target), 0)
	if req.URL.Path != q.path {
		x.Fail("C24", "scale-path", "a request for %q ended with path %q", scShort(q.path), scShort(req.URL.Path))
	}
	var want []int
	for _, i := range s.stack {
		want = append(want, i+1)
	}
	if !paniced {
		for i := len(s.stack) - 1; i >= 0; i-- {
			want = append(want, -s.stack[i]-1)
		}
	}
	if !slices.Equal(q.trace, want) {
		x.Fail("C22", "scale-stack", "a request went through layers %v, want %v", q.trace, want)
	}
	s.judge(q)
}

func scShort(p string) string {
	if len(p) > 120 {
		return p[:117] + "..."
	}
	return p
}

// judge: some prefix of the routes, which was all there was at some instant
// during the request, explains where it went.
//
//go:norace
func (s *scaleState) judge(q *scReq) {
	x := s.x
	lo, hi := 0, 0
	for i, rt := range s.routes {
		if rt.ret < q.from {
			lo = i + 1
		}
		if rt.inv < q.to {
			hi = i + 1
		}
	}
	set := map[string]bool{}
	any := false
	first := ""
	for k := 0; k <= hi; k++ {
		// The routes before k have been tried: none serves it.
		if k >= lo {
			if d := s.notFound(q, set, any); d == "" {
				return
			} else if first == "" {
				first = d
			}
		}
		if k == hi {
			break
		}
		rt := s.routes[k]
		ok, ps := rt.match(q.path, 0)
		if !ok {
			continue
		}
		l := muxRegs[rt.mask].for_
		if l != nil && !slices.Contains(l, q.method) {
			any = true
			for _, m := range l {
				set[m] = true
			}
			continue
		}
		// Route k is the one, if it was there.
		switch {
		case q.target != k:
			if first == "" || k < lo {
				first = fmt.Sprintf("handler %d, not that of route %d (%s %s)", q.target, k, muxRegs[rt.mask].name, scShort(rt.str))
			}
		case q.params != nil && !sameParams(q.params, ps):
			x.Fail("C20", "scale-params", "%s %q matches %s %s with parameters %v, want %v", q.method, scShort(q.path), muxRegs[rt.mask].name, scShort(rt.str), q.params, ps)
			return
		case q.hasValid:
			x.Fail("C23", "scale-valid", "%s %q was routed, and has valid methods %v", q.method, scShort(q.path), q.valid)
			return
		default:
			x.Probe("routed")
			return
		}
		break
	}
	prop := "C20"
	if q.target == -1 && strings.HasPrefix(first, "valid") {
		prop = "C23"
	}
	x.Fail(prop, "scale-misrouted", "%s %q among %d to %d routes reached %s", q.method, scShort(q.path), lo, hi, first)
}

func (s *scaleState) notFound(q *scReq, set map[string]bool, any bool) string {
	if q.target != -1 {
		return fmt.Sprintf("handler %d, not NotFound", q.target)
	}
	var want []string
	for m := range set {
		want = append(want, m)
	}
	sort.Strings(want)
	if q.hasValid != any || !slices.Equal(q.valid, want) {
		return fmt.Sprintf("valid methods are %v (set: %v), want %v", q.valid, q.hasValid, want)
	}
	if len(q.params) != 0 {
		return fmt.Sprintf("NotFound with parameters %v", q.params)
	}
	s.x.Probe("not-found")
	return ""
}

func init() {
	register(&Scenario{Name: "scale", Gen: scaleGen, Run: scaleRun, Limit: 40000000})
}
