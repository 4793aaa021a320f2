package main

import (
	"fmt"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
)

// Scenario "nest": trees of muxes, mounted under patterns and as NotFound
// handlers, with Router, SubRouter, AutomaticOptions, EnvInit and a recovering
// layer anywhere in their stacks. Every request is first sent through a small
// model of the whole tree, and everything that happens to it - which layer,
// which handler, with which path, parameters, match and valid methods - is
// compared with what the model said. If there is a single client, stacks,
// routes and NotFound handlers also change in the middle of a request.

const (
	nlRec   = iota // looks at the context
	nlAlloc        // and makes sure there is an environment
	nlPlain        // has no context
	nlSub
	nlRouter
	nlOptions
	nlEnv
	nlRecover
	nlUnset // forgets the match, as web.Mux.Router's documentation advises
)

// The layers of every mux, by number.
var nestKinds = []int{nlRec, nlAlloc, nlPlain, nlRec, nlSub, nlRouter, nlOptions, nlEnv, nlRecover, nlUnset}

const (
	tgDefault = iota // net/http's NotFound
	tgLeaf
	tgChild
)

type nestTarget struct {
	kind  int
	leaf  int
	child int
	how   int
	h     interface{}
	name  string
}

type nestNode struct {
	m      *web.Mux
	fns    []interface{}
	stack  []int
	routes []*muxRoute
	tgt    map[*muxRoute]*nestTarget
	nf     *nestTarget
}

// nestEv is one thing that happens to a request.
type nestEv struct {
	kind     byte // 'i' in, 'o' out, 'p' recovered, 't' target
	node, id int
	hasC     bool
	path     string
	params   string // "?": not compared
	match    string
	valid    string
	env      string
}

func (e nestEv) what() string {
	k := map[byte]string{'i': "enters layer", 'o': "leaves layer", 'p': "recovers in layer", 't': "reaches handler"}[e.kind]
	return fmt.Sprintf("%s %d of mux %d", k, e.id, e.node)
}

// nestChange is a change to the tree, made when an event happens.
type nestChange struct {
	at   int // event number; <0: between requests
	node int
	kind int // 0 Use 1 Insert 2 Abandon 3 route 4 NotFound 5 compile
	a, b int
	rt   *muxRoute
	tgt  *nestTarget
	err  bool // predicted
	done bool
}

// nestOut is everything that should happen to a request.
type nestOut struct {
	want    []nestEv
	code    int
	allow   string
	body    string
	env     string // what is left in the caller's environment
	paniced bool
}

type nestReq struct {
	id     int
	method string
	path   string
	panics bool
	own404 bool
	change *nestChange
	nestOut
	// What happens if a SubRouter takes the wildcard "*" of an outer route
	// for that of the route that led to it, which bound "_".
	stale *nestOut

	n   int
	bad bool
	rec *recRW
}

type nestState struct {
	x       *X
	nodes   []*nestNode
	reqs    []*nestReq
	names   []*nestTarget
	leaves  int
	clients int
}

// ---- plan ----

var nestSpecs = []string{"s:/a", "s:/:x", "s:/a/:y", "s:/:x/b", "r:^/a(\\d*)$", "s:/b", "s:/a/b", "r:/(?P<q>a|b)", "s:/b/*", "s:/"}
var nestMounts = []string{"s:/a/*", "s:/*", "s:/:m/*", "r:^/b(?P<_>/.*)$", "s:/a/b/*", "r:^(?P<_>/a.*)", "r:^/a(?P<_>.*)$", "s:/a", "r:^/(b)/", "s:/b/*"}

func nestGen(r *Rand, p *Plan, tier string) {
	k := p.Knobs
	n := r.rng(1, 4)
	big := bigger(r, tier)
	if big {
		n = r.rng(4, 8)
	}
	k["nodes"] = n
	k["clients"] = r.pick(1, 1, 2, 3)
	k["rootgiven"] = r.pick(0, 0, 0, 1, 2)
	add := func(o Op) { p.Ops = append(p.Ops, o) }
	rtop := func(o Op, i int) Op {
		// A: registration and handler, B: target.
		if i < n-1 && r.chance(1, 2) {
			o.S = r.picks(nestMounts...)
			o.A = r.pick(0, 0, 0, 0, 1, 2)
			o.B = 100 + r.rng(i+1, n-1) + 16*r.pick(0, 0, 0, 1, 2, 3)
		} else {
			o.S = r.picks(nestSpecs...)
			o.A = r.pick(0, 1, 1, 2, 3, 6, 7)
			o.B = r.n(4)
		}
		return o
	}
	nfop := func(o Op, i int) Op {
		if i < n-1 && r.chance(1, 2) {
			o.B = 100 + r.rng(i+1, n-1) + 16*r.pick(0, 0, 0, 1, 2, 3)
		} else {
			o.B = r.n(4)
		}
		return o
	}
	for i := 0; i < n; i++ {
		// Usual stacks, and anything.
		switch r.n(4) {
		case 0:
			for j, m := 0, r.n(6); j < m; j++ {
				add(Op{W: 1, K: "layer", C: i, A: r.n(len(nestKinds))})
			}
		default:
			ls := []int{}
			if r.chance(1, 2) {
				ls = append(ls, r.pick(7, 1))
			}
			if r.chance(1, 3) {
				ls = append(ls, r.pick(0, 2, 8, 6))
			}
			if i > 0 && r.chance(3, 4) {
				ls = append(ls, 4)
			}
			if r.chance(1, 3) {
				ls = append(ls, r.pick(0, 2, 8, 6))
			}
			if r.chance(1, 2) {
				ls = append(ls, 5)
			}
			ls = append(ls, 3)
			for _, l := range ls {
				add(Op{W: 1, K: "layer", C: i, A: l})
			}
		}
		for j, m := 0, r.rng(0, 5); j < m; j++ {
			add(rtop(Op{W: 1, K: "route", C: i}, i))
		}
		if r.chance(1, 2) {
			add(nfop(Op{W: 1, K: "nf", C: i}, i))
		}
	}
	for c := 0; c < k["clients"]; c++ {
		m := r.rng(2, 5)
		if k["clients"] == 1 {
			m = r.rng(3, 9)
		}
		if big {
			m *= 3
		}
		for j := 0; j < m; j++ {
			w := 10 + c
			if k["clients"] == 1 && r.chance(1, 3) {
				i := r.n(n)
				o := Op{W: w, C: i, D: int64(r.n(12)) - 3}
				switch r.n(8) {
				case 0, 1, 2:
					o.K, o.A = "use", r.n(len(nestKinds))
				case 3, 4:
					o.K, o.A, o.B = "insert", r.n(len(nestKinds)), r.n(len(nestKinds))
				case 5:
					o.K, o.A = "abandon", r.n(len(nestKinds))
				case 6:
					o.K = "route"
					o = rtop(o, i)
				default:
					o.K = r.picks("nf", "compile")
					o = nfop(o, i)
				}
				add(o)
			}
			path := ""
			for q, m := 0, r.rng(1, 4); q < m; q++ {
				path += r.picks("/a", "/a", "/b", "/b", "/c", "/", "/7", "/a1")
			}
			add(Op{W: w, K: "req", A: r.pick(0, 0, 0, 2, 3, 5, 5, 5, 6, 9), S: path, B: r.n(1 << 10), D: r.dur(0, 0, 0, time.Millisecond)})
		}
	}
	if r.chance(1, 4) {
		p.Stalls = r.stalls(2, 400, time.Millisecond, 2*time.Millisecond)
	}
}

// ---- the tree ----

type hidden struct{ m *web.Mux }

func (h *hidden) ServeHTTP(w http.ResponseWriter, r *http.Request) { h.m.ServeHTTP(w, r) }

// target makes the handler an op's B stands for.
func (s *nestState) target(node, b int) *nestTarget {
	t := &nestTarget{leaf: s.leaves}
	s.leaves++
	if b >= 100 {
		t.child = (b - 100) % 16
		t.how = (b - 100) / 16 % 4
		if t.child <= node || t.child >= len(s.nodes) {
			b = 0
		} else {
			t.kind = tgChild
			t.name = fmt.Sprintf("mux %d", t.child)
			m := s.nodes[t.child].m
			switch t.how {
			case 0:
				t.h = m
			case 1:
				t.h = func(c web.C, w http.ResponseWriter, r *http.Request) { m.ServeHTTPC(c, w, r) }
			case 2:
				t.h = func(w http.ResponseWriter, r *http.Request) { m.ServeHTTP(w, r) }
			default:
				t.h = &hidden{m}
			}
			if t.how != 0 {
				t.name += fmt.Sprintf(" (wrapped, %d)", t.leaf)
			}
			s.names = append(s.names, t)
			return t
		}
	}
	t.kind = tgLeaf
	t.how = b % 4
	t.name = fmt.Sprintf("handler %d", t.leaf)
	switch t.how {
	case 0:
		t.h = func(c web.C, w http.ResponseWriter, r *http.Request) { s.leafRun(node, t, &c, w, r) }
	case 1:
		t.h = web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) { s.leafRun(node, t, &c, w, r) })
	case 2:
		t.h = func(w http.ResponseWriter, r *http.Request) { s.leafRun(node, t, nil, w, r) }
	default:
		t.h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { s.leafRun(node, t, nil, w, r) })
	}
	s.names = append(s.names, t)
	return t
}

func (s *nestState) newNode(i int) *nestNode {
	nd := &nestNode{m: web.New(), tgt: map[*muxRoute]*nestTarget{}, nf: &nestTarget{name: "default"}}
	for id := range nestKinds {
		id := id
		switch nestKinds[id] {
		case nlSub:
			nd.fns = append(nd.fns, middleware.SubRouter)
		case nlRouter:
			nd.fns = append(nd.fns, nd.m.Router)
		case nlOptions:
			nd.fns = append(nd.fns, middleware.AutomaticOptions)
		case nlEnv:
			nd.fns = append(nd.fns, middleware.EnvInit)
		case nlPlain:
			nd.fns = append(nd.fns, func(h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { s.layer(i, id, nil, h, w, r) })
			})
		default:
			nd.fns = append(nd.fns, func(c *web.C, h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { s.layer(i, id, c, h, w, r) })
			})
		}
	}
	return nd
}

func (s *nestState) newRoute(node int, o Op) (*muxRoute, *nestTarget) {
	rt := &muxRoute{id: len(s.nodes[node].routes), mask: o.A % len(muxRegs), str: o.S, match: modelOf(o.S, 0)}
	rt.raw = interface{}(o.S[2:])
	if o.S[0] == 'r' {
		rt.raw = regexp.MustCompile(o.S[2:])
	}
	t := s.target(node, o.B)
	rt.h = t.h
	return rt, t
}

// predict makes a change to the model.
func (s *nestState) predict(c *nestChange) {
	nd := s.nodes[c.node]
	switch c.kind {
	case 0, 1, 2:
		nd.stack, c.err = modelCfg(nd.stack, &cfgOp{kind: c.kind, mw: c.a, at: c.b})
	case 3:
		nd.routes = append(nd.routes[:len(nd.routes):len(nd.routes)], c.rt)
		nd.tgt[c.rt] = c.tgt
	case 4:
		nd.nf = c.tgt
	}
}

// change makes it to the real thing.
func (s *nestState) change(c *nestChange) {
	nd := s.nodes[c.node]
	var err error
	switch c.kind {
	case 0:
		nd.m.Use(nd.fns[c.a])
	case 1:
		err = nd.m.Insert(nd.fns[c.a], nd.fns[c.b])
	case 2:
		err = nd.m.Abandon(nd.fns[c.a])
	case 3:
		mx := &muxState{x: s.x}
		mx.register(nd.m, c.rt)
	case 4:
		nd.m.NotFound(c.tgt.h)
	case 5:
		nd.m.Compile()
	}
	c.done = true
	s.x.Ev("change", int64(c.node), int64(c.kind), b2i(err != nil))
	if c.kind < 3 && (err != nil) != c.err {
		s.x.Fail("C22", "config-result", "%s on mux %d: error %v", []string{"Use", "Insert", "Abandon"}[c.kind], c.node, err)
	}
}

func (s *nestState) changeOf(o Op) *nestChange {
	c := &nestChange{node: o.C, at: int(o.D), a: o.A % len(nestKinds), b: o.B % len(nestKinds)}
	switch o.K {
	case "use", "layer":
		c.kind = 0
	case "insert":
		c.kind = 1
	case "abandon":
		c.kind = 2
	case "route":
		c.kind = 3
		c.rt, c.tgt = s.newRoute(o.C, o)
	case "nf":
		c.kind = 4
		c.tgt = s.target(o.C, o.B)
	case "compile":
		c.kind = 5
	default:
		return nil
	}
	return c
}

// ---- the model ----

type mEnv struct {
	keys       map[string]bool
	match      *nestTarget
	matchRt    *muxRoute
	matchDepth int
	valid      []string
}

type mC struct {
	params map[string]string
	env    *mEnv
	last   map[string]string // what the last route bound
}

type mOptions struct {
	c    *mC
	drop bool
}

type nestModel struct {
	s      *nestState
	q      *nestReq
	path   string
	ao     []*mOptions
	wrote  bool
	steps  int
	out    *nestOut
	stale  bool // prefer "*", wherever it comes from
	differ bool // that made a difference
}

type modelLoop struct{}

func (e *mEnv) matchName() string {
	if e == nil || e.match == nil {
		return ""
	}
	return tokenName(e.match.name, e.matchRt)
}

func tokenName(name string, rt *muxRoute) string {
	if rt == nil {
		return name + " for no pattern"
	}
	if rt.str[0] == 's' {
		return name + " for " + rt.str[2:]
	}
	return name + " for a pattern"
}

func (m *nestModel) ev(kind byte, node, id int, c *mC, depth int, nf bool) {
	m.steps++
	if m.steps > 300 {
		panic(modelLoop{})
	}
	e := nestEv{kind: kind, node: node, id: id, path: m.path, params: "?", match: "?", valid: "?", env: "?"}
	if c != nil {
		e.hasC = true
		if c.env == nil || c.env.matchDepth <= depth {
			e.match = c.env.matchName()
		}
		if kind == 'i' || kind == 't' {
			e.params = paramString(c.params)
		}
		e.env = m.envString(c.env)
		if nf {
			e.valid = "none"
			if c.env != nil && c.env.valid != nil {
				e.valid = strings.Join(c.env.valid, " ")
			}
		}
	}
	m.out.want = append(m.out.want, e)
	if ch := m.q.change; ch != nil && ch.at == len(m.out.want)-1 {
		m.s.predict(ch)
	}
}

func (m *nestModel) envString(e *mEnv) string {
	if e == nil {
		return ""
	}
	var l []string
	for k := range e.keys {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func paramString(ps map[string]string) string {
	var l []string
	for k, v := range ps {
		l = append(l, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (m *nestModel) serve(node int, c mC, depth int) {
	if depth > 12 {
		panic(modelLoop{})
	}
	m.layer(node, m.s.nodes[node].stack, 0, &c, depth)
}

func (c *mC) alloc() {
	if c.env == nil {
		c.env = &mEnv{keys: map[string]bool{}}
	}
}

func (m *nestModel) layer(node int, st []int, i int, c *mC, depth int) {
	if i == len(st) {
		m.route(node, c, depth)
		return
	}
	id := st[i]
	next := func() { m.layer(node, st, i+1, c, depth) }
	switch nestKinds[id] {
	case nlPlain:
		m.ev('i', node, id, nil, depth, false)
		next()
		m.ev('o', node, id, nil, depth, false)
	case nlRec, nlAlloc, nlRecover:
		m.ev('i', node, id, c, depth, false)
		if nestKinds[id] == nlAlloc {
			c.alloc()
		}
		if c.env != nil {
			c.env.keys[nestKey(node, id)] = true
		}
		if nestKinds[id] == nlRecover {
			m.recovering(node, id, c, depth, next)
		} else {
			next()
		}
		m.ev('o', node, id, c, depth, false)
	case nlSub:
		p, ok := c.params["*"]
		if !ok {
			p, ok = c.params["_"]
		}
		if !ok {
			next()
			return
		}
		if _, fresh := c.last["*"]; !fresh {
			if l, ok := c.last["_"]; ok && l != p {
				m.differ = true
				if !m.stale {
					p = l
				}
			}
		}
		old := m.path
		var om *nestTarget
		var ort *muxRoute
		od := 0
		if c.env != nil {
			om, ort, od = c.env.match, c.env.matchRt, c.env.matchDepth
			c.env.match, c.env.matchRt, c.env.matchDepth = nil, nil, 0
		}
		m.path = p
		defer func() {
			m.path = old
			if c.env != nil {
				c.env.match, c.env.matchRt, c.env.matchDepth = om, ort, od
			}
		}()
		next()
	case nlRouter:
		c.alloc()
		c.env.match, c.env.matchRt = m.getMatch(node, c)
		c.env.matchDepth = depth
		next()
	case nlOptions:
		if m.q.method == "OPTIONS" {
			n := len(m.ao)
			m.ao = append(m.ao, &mOptions{c: c})
			defer func() { m.ao = m.ao[:n] }()
		}
		next()
	case nlEnv:
		c.alloc()
		next()
	case nlUnset:
		m.ev('i', node, id, c, depth, false)
		if c.env != nil {
			c.env.match, c.env.matchRt, c.env.matchDepth = nil, nil, depth
			c.env.keys[nestKey(node, id)] = true
		}
		next()
		m.ev('o', node, id, c, depth, false)
	}
}

func (m *nestModel) recovering(node, id int, c *mC, depth int, next func()) {
	defer func() {
		v := recover()
		if v == nil {
			return
		}
		if v != interface{}(errSim) {
			panic(v)
		}
		m.ev('p', node, id, c, depth, false)
		m.write(500, "recovered")
	}()
	next()
}

func (m *nestModel) getMatch(node int, c *mC) (*nestTarget, *muxRoute) {
	nd := m.s.nodes[node]
	res := modelRoute(nd.routes, m.q.method, m.path, 0)
	if res.rt != nil {
		if len(res.params) > 0 && c.params == nil {
			c.params = map[string]string{}
		}
		for k, v := range res.params {
			c.params[k] = v
		}
		c.last = res.params
		return nd.tgt[res.rt], res.rt
	}
	if res.valid != nil {
		c.alloc()
		c.env.valid = res.valid
	}
	return nd.nf, nil
}

func (m *nestModel) route(node int, c *mC, depth int) {
	var t *nestTarget
	var rt *muxRoute
	if c.env != nil && c.env.match != nil {
		t, rt = c.env.match, c.env.matchRt
	} else {
		t, rt = m.getMatch(node, c)
	}
	switch t.kind {
	case tgDefault:
		m.write(404, "404 page not found\n")
	case tgChild:
		if t.how >= 2 {
			m.serve(t.child, mC{}, depth+1)
		} else {
			m.serve(t.child, *c, depth+1)
		}
	default:
		cc := *c
		p := &cc
		if t.how >= 2 {
			p = nil
		}
		m.ev('t', -1, t.leaf, p, depth, rt == nil)
		if p != nil && p.env != nil {
			p.env.keys[nestKey(15, t.leaf&15)] = true
		}
		if m.q.panics {
			panic(errSim)
		}
		if m.q.own404 {
			m.write(404, "own")
		} else {
			m.write(200, t.name)
		}
	}
}

// write: all writers inside of the layer that answers have seen it.
func (m *nestModel) write(code int, body string) {
	if m.wrote {
		return
	}
	m.wrote = true
	drop := false
	for i := len(m.ao) - 1; i >= 0; i-- {
		o := m.ao[i]
		if code == 404 && o.c.env != nil && o.c.env.valid != nil {
			l := append([]string{}, o.c.env.valid...)
			has := false
			for _, v := range l {
				has = has || v == "OPTIONS"
			}
			if !has {
				l = append(l, "OPTIONS")
			}
			m.out.allow = strings.Join(l, ", ")
			code = 200
			drop = true
		}
	}
	m.out.code = code
	if !drop {
		m.out.body = body
	}
}

// ---- the real thing ----

func nestKey(node, id int) string { return nestKeys[node][id] }

var nestKeys [16][16]string

func init() {
	for i := range nestKeys {
		for j := range nestKeys[i] {
			nestKeys[i][j] = fmt.Sprintf("n%dl%d", i, j)
		}
	}
}

func (s *nestState) reqOf(r *http.Request) *nestReq {
	i, _ := strconv.Atoi(r.RemoteAddr)
	return s.reqs[i]
}

func (s *nestState) layer(node, id int, c *web.C, h http.Handler, w http.ResponseWriter, r *http.Request) {
	q := s.reqOf(r)
	s.saw(q, 'i', node, id, c, r)
	Y()
	if c != nil {
		if nestKinds[id] == nlAlloc && c.Env == nil {
			c.Env = map[interface{}]interface{}{}
		}
		if nestKinds[id] == nlUnset {
			delete(c.Env, web.MatchKey)
		}
		if c.Env != nil {
			c.Env[nestKey(node, id)] = q.id
		}
	}
	if nestKinds[id] == nlRecover {
		func() {
			defer func() {
				v := recover()
				if v == nil {
					return
				}
				if v != interface{}(errSim) {
					panic(v)
				}
				s.saw(q, 'p', node, id, c, r)
				w.WriteHeader(500)
				w.Write([]byte("recovered"))
			}()
			h.ServeHTTP(w, r)
		}()
	} else {
		h.ServeHTTP(w, r)
	}
	Y()
	s.saw(q, 'o', node, id, c, r)
}

func (s *nestState) leafRun(node int, t *nestTarget, c *web.C, w http.ResponseWriter, r *http.Request) {
	q := s.reqOf(r)
	s.saw(q, 't', -1, t.leaf, c, r)
	Y()
	if c != nil && c.Env != nil {
		c.Env[nestKey(15, t.leaf&15)] = q.id
	}
	if q.panics {
		s.x.FaultFired("handler-panic")
		panic(errSim)
	}
	if q.own404 {
		w.WriteHeader(404)
		w.Write([]byte("own"))
	} else {
		w.Write([]byte(t.name))
	}
	Y()
}

func (s *nestState) tokenOf(m web.Match) string {
	if m.Handler == nil {
		return ""
	}
	name := "default"
	h := m.RawHandler()
	for _, t := range s.names {
		if sameFn(h, t.h) {
			name = t.name
			break
		}
	}
	if m.Pattern == nil {
		return name + " for no pattern"
	}
	if p, ok := m.RawPattern().(string); ok {
		return name + " for " + p
	}
	return name + " for a pattern"
}

func (s *nestState) saw(q *nestReq, kind byte, node, id int, c *web.C, r *http.Request) {
	n := q.n
	s.compare(q, kind, node, id, c, r)
	if ch := q.change; ch != nil && ch.at == n {
		s.change(ch)
	}
}

// compare compares an event with the model's.
func (s *nestState) compare(q *nestReq, kind byte, node, id int, c *web.C, r *http.Request) {
	x := s.x
	x.Ev("nest", int64(q.id), int64(kind), int64(node*100+id))
	n := q.n
	q.n++
	if q.bad {
		return
	}
	e := nestEv{kind: kind, node: node, id: id, path: r.URL.Path, hasC: c != nil}
	if c != nil {
		for k, v := range c.Env {
			ks, ok := k.(string)
			if !ok || ks == web.MatchKey || ks == web.ValidMethodsKey {
				continue
			}
			if v != q.id {
				q.bad = true
				x.Fail("C21", "nest-foreign", "request %d (%s %q) %s: the environment has %v=%v, which is another request's", q.id, q.method, q.path, e.what(), k, v)
				return
			}
		}
		e.env = strings.Join(envKeys(c.Env), " ")
		e.match = s.tokenOf(web.GetMatch(*c))
		e.params = paramString(c.URLParams)
		e.valid = "none"
		if v, ok := c.Env[web.ValidMethodsKey]; ok {
			l, _ := v.([]string)
			e.valid = strings.Join(l, " ")
		}
	}
	prop, sig, msg := e.against(q.want, n)
	if prop != "" && q.isStale(n, &e) {
		s.goStale(q)
		prop, sig, msg = e.against(q.want, n)
	}
	if prop != "" {
		q.bad = true
		x.Fail(prop, sig, "request %d (%s %q) %s: %s", q.id, q.method, q.path, e.what(), msg)
	}
}

// envKeys: what the layers and handlers have put into an environment.
func envKeys(env map[interface{}]interface{}) []string {
	var keys []string
	for k := range env {
		if ks, ok := k.(string); ok && ks != web.MatchKey && ks != web.ValidMethodsKey {
			keys = append(keys, ks)
		}
	}
	sort.Strings(keys)
	return keys
}

// against compares event n with the model's.
func (e *nestEv) against(want []nestEv, n int) (prop, sig, msg string) {
	if n >= len(want) {
		return structural(*e), "nest-more", "it should be over"
	}
	w := want[n]
	differ := func(w, g string) bool { return w != "?" && w != g }
	switch {
	case w.kind != e.kind || w.node != e.node || w.id != e.id:
		prop = structural(*e)
		if structural(w) == "C20" {
			prop = "C20"
		}
		return prop, "nest-order", "it should be one that " + w.what()
	case w.path != e.path:
		return "C24", "nest-path", fmt.Sprintf("the path is %q, want %q", e.path, w.path)
	case !e.hasC:
	case differ(w.env, e.env):
		return "C21", "nest-env", fmt.Sprintf("the environment has %q, want %q", e.env, w.env)
	case differ(w.match, e.match):
		return "C24", "nest-match", fmt.Sprintf("the match is %q, want %q", e.match, w.match)
	case differ(w.params, e.params):
		return "C20", "nest-params", fmt.Sprintf("the URL parameters are %s, want %s", e.params, w.params)
	case differ(w.valid, e.valid):
		return "C23", "nest-valid", fmt.Sprintf("the valid methods are %s, want %s", e.valid, w.valid)
	}
	return "", "", ""
}

// structural: whose fault it is if this happens, or does not.
func structural(e nestEv) string {
	if e.kind == 't' {
		return "C20"
	}
	return "C22"
}

func nestRun(x *X) {
	p := x.plan
	s := &nestState{x: x, clients: p.knob("clients")}
	x.state = s
	n := p.knob("nodes")
	if n > 14 {
		n = 14
	}
	for i := 0; i < n; i++ {
		s.nodes = append(s.nodes, s.newNode(i))
	}
	acts := p.actors()
	for _, o := range acts[1] {
		if o.C >= n {
			continue
		}
		if c := s.changeOf(o); c != nil {
			s.predict(c)
			s.change(c)
		}
	}
	if s.clients == 1 {
		s.client(acts[10])
		return
	}
	// The model runs first, for everybody.
	byClient := make([][]*nestReq, s.clients)
	var ds [][]int64
	for i := 0; i < s.clients; i++ {
		var d []int64
		for _, o := range acts[10+i] {
			if o.K == "req" {
				if q := s.newReq(o, nil); q != nil {
					byClient[i] = append(byClient[i], q)
					d = append(d, o.D)
				}
			}
		}
		ds = append(ds, d)
	}
	done := make(chan bool)
	for i := range byClient {
		go func(i int) {
			for j, q := range byClient[i] {
				sleep(ds[i][j])
				s.send(q)
			}
			done <- true
		}(i)
	}
	for range byClient {
		<-done
	}
}

// client is the only one: the tree changes between and in its requests.
func (s *nestState) client(ops []Op) {
	var pend *nestChange
	for _, o := range ops {
		if o.K != "req" {
			if o.C >= len(s.nodes) || pend != nil {
				continue
			}
			c := s.changeOf(o)
			if c == nil {
				continue
			}
			if c.at < 0 {
				s.predict(c)
				s.change(c)
			} else {
				pend = c
			}
			continue
		}
		q := s.newReq(o, pend)
		pend = nil
		if q == nil {
			return
		}
		sleep(o.D)
		s.send(q)
		if q.change != nil && q.change.done {
			s.x.Probe("changed-in-a-request")
		}
	}
}

// newReq sends a request through the model; nil if it would never end.
func (s *nestState) newReq(o Op, ch *nestChange) (q *nestReq) {
	q = &nestReq{id: len(s.reqs), method: muxMethods[o.A%len(muxMethods)], path: o.S, change: ch}
	q.panics = o.B&7 == 1
	q.own404 = o.B>>3&7 == 1
	out, differ := s.model(q, false)
	if out == nil {
		return nil
	}
	q.nestOut = *out
	if differ {
		// If that sends it round in circles, or a change in its middle would
		// be made elsewhere, there is no telling.
		if q.change != nil {
			return nil
		}
		if q.stale, _ = s.model(q, true); q.stale == nil {
			return nil
		}
	}
	s.reqs = append(s.reqs, q)
	return q
}

func (s *nestState) model(q *nestReq, stale bool) (*nestOut, bool) {
	out := &nestOut{}
	m := &nestModel{s: s, q: q, path: q.path, out: out, stale: stale}
	var given *mEnv
	func() {
		defer func() {
			switch v := recover().(type) {
			case nil:
			case modelLoop:
				out = nil
			default:
				if v != errSim {
					panic(v)
				}
				out.paniced = true
			}
		}()
		c := mC{}
		switch s.x.plan.knob("rootgiven") {
		case 1:
			c = mC{params: s.givenParams(q), env: &mEnv{keys: map[string]bool{"given": true}}}
		case 2:
			c = mC{env: &mEnv{keys: map[string]bool{}}}
		}
		given = c.env
		m.serve(0, c, 0)
	}()
	if out != nil && given != nil {
		out.env = m.envString(given)
	}
	return out, m.differ
}

// isStale: is what the request has met up to event n what a SubRouter makes
// of it that goes by an outer route's wildcard?
func (q *nestReq) isStale(n int, e *nestEv) bool {
	if q.stale == nil || n > len(q.stale.want) || n > len(q.want) {
		return false
	}
	for i := 0; i < n; i++ {
		if q.stale.want[i] != q.want[i] {
			return false
		}
	}
	if e == nil {
		return n == len(q.stale.want)
	}
	prop, _, _ := e.against(q.stale.want, n)
	return prop == ""
}

func (s *nestState) goStale(q *nestReq) {
	s.x.Fail("C24", "nest-outer-wildcard", "request %d (%s %q): a SubRouter took the wildcard of an outer route for that of the route that led to it, which calls it _", q.id, q.method, q.path)
	q.nestOut = *q.stale
	q.stale = nil
}

func (s *nestState) givenParams(q *nestReq) map[string]string {
	return map[string]string{"given": strconv.Itoa(q.id), "*": "/a" + q.path}
}

func (s *nestState) send(q *nestReq) {
	x := s.x
	x.Ev("request", int64(q.id), 0, 0)
	req := &http.Request{Method: q.method, URL: &url.URL{Path: q.path}, Header: http.Header{}, RemoteAddr: strconv.Itoa(q.id), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: "sim"}
	q.rec = &recRW{h: http.Header{}}
	paniced := false
	var env map[interface{}]interface{}
	func() {
		defer func() {
			if v := recover(); v != nil {
				if v != interface{}(errSim) {
					panic(v)
				}
				paniced = true
			}
		}()
		m := s.nodes[0].m
		switch x.plan.knob("rootgiven") {
		case 1:
			env = map[interface{}]interface{}{"given": q.id}
			c := web.C{URLParams: s.givenParams(q), Env: env}
			m.ServeHTTPC(c, q.rec, req)
		case 2:
			env = map[interface{}]interface{}{}
			m.ServeHTTPC(web.C{Env: env}, q.rec, req)
		default:
			m.ServeHTTP(q.rec, req)
		}
	}()
	x.Ev("answered", int64(q.id), int64(q.rec.code), b2i(paniced))
	if req.URL.Path != q.path {
		x.Fail("C24", "path-not-restored", "request %d for %q ended with path %q", q.id, q.path, req.URL.Path)
	}
	if q.bad {
		return
	}
	if q.stale != nil && (q.n < len(q.want) || paniced != q.paniced || q.rec.h.Get("Allow") != q.allow || q.rec.code != q.code || string(q.rec.body) != q.body || strings.Join(envKeys(env), " ") != q.env) && q.isStale(q.n, nil) {
		s.goStale(q)
	}
	if q.n < len(q.want) {
		w := q.want[q.n]
		x.Fail(structural(w), "nest-less", "request %d (%s %q) is over, but should be one that %s", q.id, q.method, q.path, w.what())
		return
	}
	if paniced != q.paniced {
		x.Fail("C22", "nest-panic", "request %d panicked: %v, want %v", q.id, paniced, q.paniced)
		return
	}
	if len(q.rec.h["Allow"]) > 1 || q.rec.h.Get("Allow") != q.allow {
		x.Fail("C23", "nest-allow", "request %d (%s %q) was answered with Allow %q, want %q", q.id, q.method, q.path, q.rec.h["Allow"], q.allow)
		return
	}
	if q.rec.code != q.code || string(q.rec.body) != q.body {
		prop := "C20"
		if q.method == "OPTIONS" {
			prop = "C23"
		}
		x.Fail(prop, "nest-answer", "request %d (%s %q) was answered with status %d %q, want %d %q", q.id, q.method, q.path, q.rec.code, q.rec.body, q.code, q.body)
		return
	}
	if l := envKeys(env); strings.Join(l, " ") != q.env {
		x.Fail("C21", "nest-caller-env", "request %d (%s %q) left %q in its caller's environment, want %q", q.id, q.method, q.path, l, q.env)
		return
	}
	if q.allow != "" {
		x.Probe("options-answered")
	}
	if q.paniced {
		x.Probe("panic-reached-the-top")
	}
}

func init() {
	register(&Scenario{Name: "nest", Gen: nestGen, Run: nestRun, Limit: 200000})
}
