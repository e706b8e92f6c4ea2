package main

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&rule{id: "C21", technique: "guarded value-numbering dataflow of the routing table's constructor, the matching loop and the Director of the proxy that serves a request; comparison of the forwarded request with the specification",
		about: "the table has one entry per configured upstream, in order, made of that upstream's address and path; matching yields the first entry whose router matches; a matched request gets that upstream's scheme, host and Host and the paths joined by one slash, everything else of the URL is kept; a request without a match gets a context cancelled for that reason and is not rewritten",
		min:   15,
		run:   runRouting})
	register(&rule{id: "C22", technique: "guarded value-numbering dataflow of the proxy's error handler compared with the specification's status table",
		about: "the header is written once, always, before the body, with the status of the table; the body is the message of the failure",
		min:   5,
		run:   runErrors})
	register(&rule{id: "C23", technique: "value-numbering dataflow from the constructors of server, listeners, transport and broadcast queue to the servers, dialers and clients in use; sign of every limit",
		about: "the limits of every http.Server that serves (the one for writing exceeds that of a request), of the handler of a request, of every http.Transport and its dialer, and of the client of the broadcast are positive",
		min:   10,
		run:   runTimeouts})
	register(&rule{id: "C24", technique: "guarded value-numbering dataflow over Start, Stop, Await and Run with goroutines; must-happen and ordering rules over their effects",
		about: "every serving http.Server is shut down with a five second context that is cancelled only afterwards, closed if and only if that fails; every goroutine of the stop is joined; the broadcast queue is stopped; Await's channel is signalled only after all that; Run connects the signals to it and returns only after Await",
		min:   20,
		run:   runShutdown})
}

const serverPkg = modPath + "/pkg/server"

// proxyServer is a server made by its constructor, and its proxy.
type proxyServer struct {
	e     *Eval
	srv   Val
	cfg   Val
	cache Val
	ok    B
	proxy Val
	w, r  Val
	th    *Event // call of http.TimeoutHandler
	serve *Event // call of the handler
	tgs   Val    // routing table, if stubbed
	conn  Val    // cluster connection
	hc    Val    // HTTP cache
}

// makeServer evaluates NewServer and ServeHTTP. With stub, the routing table
// is arbitrary.
func (c *Check) makeServer(stub bool) *proxyServer {
	e := c.eval()
	e.Pure = parsers
	s := &proxyServer{e: e}
	mk := c.P.Func("server", "NewServer")
	nt := c.P.Func("server", "NewTargets")
	nc := c.P.Func("cluster", "NewConnection")
	as := e.params(mk)
	s.conn = e.param("connection", nc.Signature.Results().At(0).Type())
	s.cfg, s.cache, s.hc = as[0], as[1], as[2]
	s.tgs = e.param("targets", nt.Signature.Results().At(0).Type())
	e.callHook = func(cc *callCtx) (Val, bool) {
		if stub && cc.fn == nt {
			return &AV{f: []Val{s.tgs, single(nilTerm())}}, true
		}
		if cc.fn == nc {
			return &AV{f: []Val{s.conn, single(nilTerm())}}, true
		}
		if strings.HasSuffix(cc.name, "gorilla/mux.Router).Match") {
			return c.routerMatch(cc), true
		}
		return nil, false
	}
	v := e.Run(mk, as, True)
	rs := mk.Signature.Results()
	s.ok = nilRes(component(v, 1, compType(rs, 1)))
	s.srv = within(component(v, 0, compType(rs, 0)), s.ok)
	n := len(e.events)
	sh := c.methodOf(rs.At(0).Type(), "ServeHTTP")
	sa := e.params(sh)
	s.w, s.r = sa[1], sa[2]
	e.callFn(sh, append([]Val{s.srv}, sa[1:]...), nil, s.ok, nil)
	for _, ev := range e.events[n:] {
		if ev.Kind != "call" {
			continue
		}
		if ev.Name == "net/http.TimeoutHandler" {
			c.need(s.th == nil, "one-timeout-handler", c.site(ev))
			s.th = ev
		}
		if strings.HasSuffix(ev.Name, ").ServeHTTP") {
			c.need(s.serve == nil, "served-once", c.site(ev), ev.Name)
			s.serve = ev
		}
	}
	if s.th == nil || s.serve == nil {
		panic(unresolved{"the timeout handler of " + shortFn(sh)})
	}
	t := term(within(s.th.Args[0], s.ok))
	if t.op != "iface" {
		panic(unresolved{"the handler limited in time: " + t.String()})
	}
	s.proxy = single(t.args[0])
	if _, n := namedPtr(t.obj.(types.Type)); n != "ReverseProxy" {
		panic(unresolved{"the reverse proxy: " + t.String()})
	}
	return s
}

func namedPtr(t types.Type) (pkg, name string) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, named := t.(*types.Named); !named {
			t = p.Elem()
		}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path(), n.Obj().Name()
	}
	return "", ""
}

// within drops the alternatives that g excludes.
func within(v Val, g B) Val {
	gv, ok := v.(*GV)
	if !ok {
		return v
	}
	var gs []guarded
	for _, a := range gv.alts {
		if sat(And(a.g, g)) {
			gs = append(gs, guarded{a.g, single(a.t)})
		}
	}
	if len(gs) == 1 {
		return single(term(gs[0].v))
	}
	return join(gs)
}

// routerMatch: whether a router matches a request depends on these two only.
func (c *Check) routerMatch(cc *callCtx) Val {
	e := cc.e
	e.event(&Event{Kind: "call", Guard: cc.pc, Name: cc.name, Fn: cc.caller(), Pos: cc.pos(), Args: cc.args, Common: cc.common})
	return each(cc.pc, cc.args[:2], func(g B, ts []*Term) Val {
		return atom(mk("call", "match", types.Typ[types.Bool], ts))
	})
}

// funcVal evaluates a function held in a field.
func (c *Check) funcVal(e *Eval, v Val, ok B, as func(sig *types.Signature) []Val) (Val, B) {
	t := term(within(v, ok))
	if t.op != "closure" && t.op != "fn" {
		panic(unresolved{"function " + t.String()})
	}
	sig, _ := t.typ.Underlying().(*types.Signature)
	if sig == nil {
		if f, isFn := t.obj.(*ssa.Function); isFn {
			sig = f.Signature
		}
	}
	return e.CallFn(single(t), sig, as(sig), ok)
}

func runRouting(c *Check) {
	c.routingTable()

	// Forwarding.
	s := c.makeServer(true)
	e := s.e
	var dirs []string
	for _, f := range []string{"Director", "Rewrite"} {
		if t := term(within(e.field(s.proxy, f), s.ok)); t.op != "nil" {
			dirs = append(dirs, f)
		}
	}
	if len(dirs) != 1 || dirs[0] != "Director" {
		c.fail("director", c.fnSite(c.P.Func("server", "NewServer")), fmt.Sprint(dirs))
		return
	}
	reqT := s.r.(*GV).alts[0].t.typ
	req := e.param("request", reqT)
	ut := c.P.urlPtr(reqT)
	n0 := len(e.log)
	init := func(f func() Val) Val { return e.atMem(n0, f) }
	u0 := init(func() Val { return e.field(req, "URL") })
	m := len(e.events)
	_, ret := c.funcVal(e, e.field(s.proxy, "Director"), s.ok, func(*types.Signature) []Val { return []Val{req} })
	evs := e.events[m:]
	n1 := len(e.log)

	// The expected target.
	mt := c.methodOf(s.tgs.(*GV).alts[0].t.typ, "MatchTarget")
	var tv Val
	q, lp := e.quiet, e.loops
	init(func() Val {
		e.quiet = true
		tv, _ = e.callFn(mt, []Val{s.tgs, req}, nil, True, nil)
		return nil
	})
	e.quiet, e.loops = q, lp
	tt := compType(mt.Signature.Results(), 0)
	tgt, ok := component(tv, 0, tt), asBool(component(tv, 1, types.Typ[types.Bool]))
	tgt = within(tgt, ok)
	site := c.fnSite(mt)
	up := single(nilTerm())
	for i := 0; i < pointee(tt).NumFields(); i++ {
		f := pointee(tt).Field(i)
		if types.Identical(f.Type(), ut) {
			up = init(func() Val { return e.field(tgt, f.Name()) })
		}
	}
	if len(evs) > 0 && evs[0].Fn != nil {
		site = c.fnSite(evs[0].Fn)
	}
	on := And(ret, ok, s.ok)
	c.need(sat(on) && sat(And(ret, s.ok, Not(ok))), "both-outcomes", site)
	u1 := e.field(req, "URL")
	c.same(And(ret, s.ok), u1, u0, "same-url-object", site)
	at0 := func(p Val, f string) Val { return init(func() Val { return e.field(p, f) }) }
	for _, f := range []string{"Scheme", "Host"} {
		c.same(on, e.field(u1, f), at0(up, f), "upstream-"+strings.ToLower(f), site)
	}
	c.same(on, e.field(req, "Host"), at0(up, "Host"), "upstream-host-header", site)
	for _, f := range []string{"RawQuery", "ForceQuery", "Fragment", "RawFragment", "Opaque", "OmitHost", "User"} {
		c.same(on, e.field(u1, f), at0(u0, f), "url-kept", site+" "+f)
	}
	for _, f := range []string{"Method", "Body", "ContentLength", "GetBody", "TransferEncoding"} {
		c.same(on, e.field(req, f), at0(req, f), "request-kept", site+" "+f)
	}
	c.same(on, e.field(req, "ctx"), at0(req, "ctx"), "request-kept", site+" context")
	joined := func(a, b Val) (Val, Val) {
		return e.specAt(n0, "Joined", a, b), e.specAt(n0, "Joined2", a, b)
	}
	// Paths.
	p1, p2 := joined(at0(up, "Path"), at0(u0, "Path"))
	c.sameAs(on, e.field(u1, "Path"), "path-joined", site, p1, p2)
	esc := func(u Val) Val { return e.specAt(n0, "EscapedPath", u) }
	r1, r2 := joined(esc(up), esc(u0))
	empty := And(eqAny(at0(up, "RawPath"), strTerm("")), eqAny(at0(u0, "RawPath"), strTerm("")))
	raw := e.field(u1, "RawPath")
	c.sameAs(And(on, Not(empty)), raw, "encoding-kept", site, r1, r2)
	c.sameAs(And(on, empty), raw, "encoding-kept", site, single(strTerm("")), r1, r2)
	// The request is not changed before it is matched.
	for _, ev := range evs {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "mux.Router).Match") {
			c.same(ev.Guard, ev.Args[1], req, "matched-as-received", c.site(ev))
			for _, w := range e.log[n0:ev.Mem] {
				r := root(w.addr)
				c.need(r == nil || r.op == "alloc", "matched-as-received", c.site(ev), w.addr.String())
			}
		}
	}

	// No match: the context ends, for that reason.
	none := And(ret, s.ok, Not(ok))
	ctx := e.field(req, "ctx")
	cancelled := False
	for _, a := range alts(ctx) {
		if !sat(And(none, a.g)) {
			continue
		}
		mkc := a.t
		if mkc.op == "comp" && len(mkc.args) == 1 {
			for _, ev := range evs {
				// The cancel function of this context.
				if ev.Kind != "call" || ev.Name != "dyncall" || len(ev.Args) < 2 {
					continue
				}
				for _, f := range alts(ev.Args[0]) {
					if f.t.op == "comp" && f.t.sym == "1" && f.t.args[0] == mkc.args[0] && mkc.sym == "0" && strings.Contains(mkc.args[0].String(), "WithCancelCause") {
						c.implies(ev.Guard, Not(nilRes(ev.Args[1])), "reason-of-no-match", c.site(ev))
						cancelled = Or(cancelled, And(ev.Guard, a.g, f.g))
					}
				}
			}
		}
	}
	c.implies(none, cancelled, "no-match-not-forwarded", site)
	for i := n0; i < n1; i++ {
		w := e.log[i]
		r := root(w.addr)
		if r != nil && r.op != "alloc" && sat(And(w.g, none)) && w.addr != term(req) && r != term(req) {
			c.need(false, "no-match-not-rewritten", site, w.addr.String())
		}
	}
	c.same(none, e.field(e.field(req, "URL"), "Host"), at0(u0, "Host"), "no-match-not-rewritten", site)
}

func (p *Program) urlPtr(req types.Type) types.Type {
	st := pointee(req)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "URL" {
			return st.Field(i).Type()
		}
	}
	panic(unresolved{"http.Request.URL"})
}

// sameAs: the value equals one of the others, all along g.
func (c *Check) sameAs(g B, v Val, rule, site string, want ...Val) {
	for _, w := range want {
		if _, bad := differs(g, v, w); !bad {
			c.need(true, rule, site)
			return
		}
	}
	c.same(g, v, want[0], rule, site)
}

// routingTable: constructor and lookup.
func (c *Check) routingTable() {
	e := c.eval()
	e.Pure = parsers
	fn := c.P.Func("server", "NewTargets")
	as := e.params(fn)
	v := e.Run(fn, as, True)
	rs := fn.Signature.Results()
	site := c.fnSite(fn)
	ok := nilRes(component(v, 1, compType(rs, 1)))
	tab := within(component(v, 0, compType(rs, 0)), ok)
	b40 := boundTerms(40)[0]
	n := single(lenT(term(as[0])))
	c.same(ok, single(lenT(term(tab))), n, "one-entry-per-upstream", site)
	// An arbitrary element.
	st := rs.At(0).Type().Underlying().(*types.Slice)
	et := st.Elem()
	ct := as[0].(*GV).alts[0].t.typ.Underlying().(*types.Slice).Elem()
	in := And(ok, Not(cmp(n, single(b40))), cmp(single(intTerm(0)), single(b40)))
	el := e.load(iaT(term(tab), b40, types.NewPointer(et)), et, in)
	objs := map[*Term]bool{}
	for _, a := range alts(el) {
		if sat(And(in, a.g)) {
			if a.t.op != "alloc" {
				c.implies(instance(And(in, a.g), b40), False, "entry-made", site)
				continue
			}
			objs[a.t] = true
		}
	}
	c.need(len(objs) > 0, "entry-made", site)
	for o := range objs {
		urls, routers := 0, 0
		for _, ev := range e.events {
			if ev.Kind != "store" || root(ev.Addr) != o || len(ev.Args) == 0 {
				continue
			}
			vt := term(ev.Args[0])
			if vt.typ == nil {
				continue
			}
			up := e.entryOf(ev, as[0], ct, n)
			pk, nm := namedPtr(vt.typ)
			switch {
			case pk == "net/url" && nm == "URL":
				urls++
				if up == nil {
					c.fail("entry-of-every-upstream", c.site(ev), "not made in a loop over the upstreams")
					continue
				}
				okp := vt.op == "comp" && vt.sym == "0" && vt.args[0].op == "call" && vt.args[0].sym == "net/url.Parse"
				c.need(okp, "upstream-address", c.site(ev), vt.String())
				if okp {
					c.same(ev.Guard, single(vt.args[0].args[0]), e.field(up, "Addr"), "upstream-address", c.site(ev))
				}
			case strings.HasSuffix(pk, "gorilla/mux") && nm == "Router":
				routers++
				if up == nil {
					c.fail("entry-of-every-upstream", c.site(ev), "not made in a loop over the upstreams")
					continue
				}
				made := vt
				for callOf(made, "(*github.com/gorilla/mux.Router).StrictSlash", "(*github.com/gorilla/mux.Router).SkipClean") {
					made = made.args[0]
				}
				c.need(strings.HasPrefix(made.sym, "github.com/gorilla/mux.NewRouter"), "path-prefix-only", c.site(ev), vt.String())
				prefix := False
				for _, ca := range e.events {
					if ca.Kind != "call" || !strings.Contains(ca.Name, "gorilla/mux.") || len(ca.Args) == 0 {
						continue
					}
					mine := mentions(ca.Args[0], func(t *Term) bool { return t == vt })
					switch {
					case !mine:
					case strings.HasSuffix(ca.Name, "Router).PathPrefix") && sameLoops(ca, ev):
						c.same(ca.Guard, ca.Args[1], e.field(up, "Path"), "path-prefix", c.site(ca))
						c.need(prefix == False, "one-path-prefix", c.site(ca))
						prefix = Or(prefix, ca.Guard)
					default:
						c.fail("path-prefix-only", c.site(ca), ca.Name)
					}
				}
				c.implies(ev.Guard, prefix, "path-prefix", c.site(ev))
			}
		}
		c.need(urls == 1 && routers == 1, "entry-complete", site, fmt.Sprintf("%d addresses, %d routers", urls, routers))
	}

	// Lookup.
	e = c.eval()
	e.callHook = func(cc *callCtx) (Val, bool) {
		if strings.HasSuffix(cc.name, "gorilla/mux.Router).Match") {
			return c.routerMatch(cc), true
		}
		return nil, false
	}
	mt := c.methodOf(rs.At(0).Type(), "MatchTarget")
	ms := e.params(mt)
	mv := e.Run(mt, ms, True)
	site = c.fnSite(mt)
	tgs := term(ms[0])
	found := asBool(component(mv, 1, types.Typ[types.Bool]))
	rt := e.routerAt(tgs, boundTerms(0)[0], et)
	if rt == nil {
		c.fail("first-match", site, "no router in an entry")
		return
	}
	m := atom(mk("call", "match", types.Typ[types.Bool], []*Term{rt, term(ms[1])}))
	dom := lenT(tgs)
	exists := atom(mk("exists", "0:", types.Typ[types.Bool], []*Term{dom}, m))
	c.same(True, found, exists, "found-iff-one-matches", site)
	first := e.load(iaT(tgs, mk("first", "0:", types.Typ[types.Int], []*Term{dom}, m), types.NewPointer(et)), et, found)
	c.same(found, component(mv, 0, et), first, "first-match", site)
}

// entryOf is the configured upstream of the loop the effect is in.
func (e *Eval) entryOf(ev *Event, cfg Val, ct types.Type, n Val) Val {
	for _, l := range ev.Loops {
		if l.dom != nil && l.dom == term(n) && l.bound != nil {
			return e.load(iaT(term(cfg), l.bound, types.NewPointer(ct)), ct, ev.Guard)
		}
	}
	return nil
}

// routerAt is the router of an entry of the routing table.
func (e *Eval) routerAt(tgs, i *Term, et types.Type) *Term {
	el := e.load(iaT(tgs, i, types.NewPointer(et)), et, True)
	st := pointee(et)
	for k := 0; st != nil && k < st.NumFields(); k++ {
		if _, nm := namedPtr(st.Field(k).Type()); nm == "Router" {
			return term(e.field(el, st.Field(k).Name()))
		}
	}
	return nil
}

func runErrors(c *Check) {
	s := c.makeServer(true)
	e := s.e
	// The reason the director gives for a request without a target.
	req := e.param("request", s.r.(*GV).alts[0].t.typ)
	m := len(e.events)
	c.funcVal(e, e.field(s.proxy, "Director"), s.ok, func(*types.Signature) []Val { return []Val{req} })
	var none Val
	for _, ev := range e.events[m:] {
		if ev.Kind == "call" && ev.Name == "dyncall" && len(ev.Args) == 2 && mentions(ev.Args[0], func(t *Term) bool { return strings.Contains(t.sym, "WithCancelCause") }) {
			none = ev.Args[1]
		}
	}
	if none == nil {
		panic(unresolved{"the reason of a request without a target"})
	}
	n0, m := len(e.log), len(e.events)
	var as []Val
	hv := e.field(s.proxy, "ErrorHandler")
	_, ret := c.funcVal(e, hv, s.ok, func(sig *types.Signature) []Val {
		for i := 0; i < sig.Params().Len(); i++ {
			as = append(as, e.param([]string{"writer", "failed", "err"}[i], sig.Params().At(i).Type()))
		}
		return as
	})
	evs := e.events[m:]
	site := c.fnSite(c.P.Func("server", "NewServer"))
	// The reason is a failure only of requests without a target.
	noTarget := e.specAt(n0, "NoTarget", as[1], none)
	s.ok = And(s.ok, Implies(asBool(e.specAt(n0, "IsReason", as[2], none)), asBool(noTarget)))
	wrote, bodies := False, False
	for _, ev := range evs {
		if ev.Kind != "call" {
			continue
		}
		var status, body Val
		switch {
		case strings.HasSuffix(ev.Name, "ResponseWriter).WriteHeader"):
			status = ev.Args[1]
		case ev.Name == "net/http.Error":
			status, body = ev.Args[2], ev.Args[1]
		case strings.HasSuffix(ev.Name, "ResponseWriter).Write"), ev.Name == "io.WriteString":
			body = ev.Args[1]
		default:
			continue
		}
		site = c.site(ev)
		to := ev.Args[0]
		if strings.HasPrefix(term(to).op, "iface") {
			to = single(term(to).args[0])
		}
		c.same(ev.Guard, to, as[0], "answers-the-client", site)
		if status != nil {
			c.need(len(ev.Loops) == 0, "header-once", site)
			c.implies(And(ev.Guard, wrote), False, "header-once", site)
			wrote = Or(wrote, ev.Guard)
			c.same(And(s.ok, ev.Guard), status, e.specAt(n0, "ErrorStatus", as[1], as[2], none), "status", site)
		}
		if body != nil {
			c.implies(ev.Guard, wrote, "header-before-body", site)
			want := e.specAt(n0, "ErrorText", as[1], as[2], none)
			c.same(And(s.ok, ev.Guard), strip(body), strip(want), "message", site)
			bodies = Or(bodies, ev.Guard)
		}
	}
	c.implies(And(ret, s.ok), wrote, "always-answered", site)
	c.implies(And(ret, s.ok), bodies, "always-explained", site)
}

// strip removes conversions between strings and bytes.
func strip(v Val) Val {
	return each(True, []Val{v}, func(g B, ts []*Term) Val { return single(stripConv(ts[0])) })
}

// reachable calls f for the objects that can be reached from v.
func (e *Eval) reachable(v Val, g B, f func(obj *Term, typ types.Type)) {
	seen := map[*Term]bool{}
	var rec func(v Val, g B, depth int)
	rec = func(v Val, g B, depth int) {
		if v == nil || depth > 12 {
			return
		}
		if a, ok := v.(*AV); ok {
			for _, x := range a.f {
				rec(x, g, depth+1)
			}
			return
		}
		gv, ok := v.(*GV)
		if !ok {
			return
		}
		for _, a := range gv.alts {
			if !sat(And(g, a.g)) {
				continue
			}
			t := a.t
			typ := t.typ
			if t.op == "iface" {
				typ = t.obj.(types.Type)
				t = t.args[0]
			}
			if typ == nil || t.op == "nil" || seen[t] {
				continue
			}
			st := pointee(typ)
			if st == nil {
				continue
			}
			if _, ok := typ.Underlying().(*types.Pointer); !ok {
				continue
			}
			seen[t] = true
			f(t, typ)
			if t.op != "alloc" {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				rec(e.load(faT(t, i, st), st.Field(i).Type(), And(g, a.g)), And(g, a.g), depth+1)
			}
		}
	}
	rec(v, g, 0)
}

const maxRequest = 30e9 // the time the proxy may take to answer

func runTimeouts(c *Check) {
	s := c.makeServer(false)
	e := s.e
	site := c.site(s.th)
	c.implies(s.ok, s.th.Guard, "request-limited", site)
	c.implies(s.ok, s.serve.Guard, "request-limited", c.site(s.serve))
	c.positive(And(s.ok, s.th.Guard), s.th.Args[1], "request-limited", site)
	c.implies(And(s.ok, s.th.Guard), cmp(s.th.Args[1], single(intTerm(maxRequest))), "request-limited", site)
	c.need(s.serve.Args[0] != nil && term(s.serve.Args[0]) == s.th.RetT, "request-limited", c.site(s.serve), vstr(s.serve.Args[0]))
	c.same(s.ok, s.serve.Args[1], s.w, "request-limited", c.site(s.serve))
	c.same(s.ok, s.serve.Args[2], s.r, "request-limited", c.site(s.serve))

	// Listeners.
	servers := 0
	for _, ev := range c.startServer(s) {
		switch {
		case strings.HasPrefix(ev.Name, "net/http.Serve") || strings.HasPrefix(ev.Name, "net/http.ListenAndServe"):
			c.fail("listener-limited", c.site(ev), ev.Name)
		case isServe(ev.Name):
			servers++
			c.httpServer(s, ev)
		}
	}
	c.need(servers > 0, "listener-limited", c.fnSite(c.methodOf(s.srv.(*GV).alts[0].t.typ, "Start")), "no server")

	// Upstream connections.
	n := 0
	e.reachable(e.field(s.proxy, "Transport"), s.ok, func(obj *Term, typ types.Type) {
		pk, nm := namedPtr(typ)
		if pk != "net/http" || nm != "Transport" {
			return
		}
		n++
		c.httpTransport(e, obj, s.ok)
	})
	if n == 0 && mentions(e.field(s.proxy, "Transport"), func(t *Term) bool { return t.op == "global" && strings.Contains(t.sym, "DefaultTransport") }) {
		n++
	}
	c.need(n > 0, "upstream-limited", c.fnSite(c.P.Func("server", "NewServer")), "no http.Transport")

	// Broadcast.
	e = c.eval()
	mk := c.P.Func("cluster", "NewRequestQueue")
	q := e.Run(mk, e.params(mk), True)
	_ = q
	n = 0
	for _, ev := range e.events {
		if ev.Kind != "call" {
			continue
		}
		switch {
		case strings.HasPrefix(ev.Name, "(*net/http.Client)."):
			switch ev.Name[strings.LastIndexByte(ev.Name, '.')+1:] {
			case "Do", "Get", "Post", "PostForm", "Head":
				n++
				t := ev.Args[0]
				own := False
				for _, a := range alts(t) {
					if a.t.op == "alloc" || a.t.op == "global" {
						own = Or(own, a.g)
					}
				}
				c.implies(ev.Guard, own, "peer-limited", c.site(ev))
				c.positive(ev.Guard, e.atEv(ev, func() Val { return e.field(t, "Timeout") }), "peer-limited", c.site(ev))
			}
		case strings.HasSuffix(ev.Name, "RoundTripper).RoundTrip"), ev.Name == "net/http.Get", ev.Name == "net/http.Post", ev.Name == "net/http.Head", ev.Name == "net/http.PostForm":
			n++
			c.fail("peer-limited", c.site(ev), ev.Name)
		}
	}
	c.need(n > 0, "peer-limited", c.fnSite(mk), "no request")
}

func isServe(name string) bool {
	switch name {
	case "(*net/http.Server).Serve", "(*net/http.Server).ServeTLS", "(*net/http.Server).ListenAndServe", "(*net/http.Server).ListenAndServeTLS":
		return true
	}
	return false
}

// startServer evaluates Start; the effects of it and of its goroutines.
func (c *Check) startServer(s *proxyServer) []*Event {
	e := s.e
	st := c.methodOf(s.srv.(*GV).alts[0].t.typ, "Start")
	n := len(e.events)
	as := e.params(st)
	e.callFn(st, append([]Val{s.srv}, as[1:]...), nil, s.ok, nil)
	e.drain()
	return e.events[n:]
}

// httpServer: the limits of a server.
func (c *Check) httpServer(s *proxyServer, ev *Event) {
	e := s.e
	for _, a := range alts(ev.Args[0]) {
		if !sat(iteration(And(ev.Guard, a.g))) {
			continue
		}
		for _, t := range e.instances(a.t) {
			g := iteration(And(ev.Guard, a.g))
			at := func(f string) Val { return e.field(single(t), f) }
			for _, f := range []string{"ReadTimeout", "WriteTimeout"} {
				c.positive(g, at(f), "listener-limited", c.site(ev)+" "+f)
			}
			// The answer to a request that takes as long as it may reaches the client.
			c.implies(And(g, s.th.Guard), cmp(s.th.Args[1], at("WriteTimeout")), "answer-reaches-client", c.site(ev)+" WriteTimeout")
			// Without a limit of its own, an idle connection has the one for reading.
			c.implies(g, cmp(single(intTerm(0)), at("IdleTimeout")), "listener-limited", c.site(ev)+" IdleTimeout")
			for _, a := range alts(at("Handler")) {
				if sat(And(g, a.g)) {
					c.need(a.t.op == "iface" && a.t.args[0] == term(s.srv), "listener-serves-the-proxy", c.site(ev), a.t.String())
				}
			}
		}
	}
}

// instances are the objects t may be, where it is read from an object that a
// loop has put into a map or slice.
func (e *Eval) instances(t *Term) []*Term {
	var lasts []*Term
	mentions(single(t), func(x *Term) bool {
		if x.op == "lastm" {
			lasts = append(lasts, x)
		}
		return false
	})
	if len(lasts) == 0 || t.op != "load" {
		return []*Term{t}
	}
	l := lasts[0]
	var objs []*Term
	seen := map[*Term]bool{}
	mentions(single(l), func(x *Term) bool {
		if x.op == "alloc" && !seen[x] && x.typ != nil && l.typ != nil && types.Identical(x.typ, l.typ) {
			seen[x] = true
			objs = append(objs, x)
		}
		return false
	})
	var out []*Term
	for _, o := range objs {
		v := e.load(newSubst(map[*Term]*Term{l: o}).T(t.args[0]), t.typ, True)
		for _, a := range alts(v) {
			if a.t.op != "nil" {
				out = append(out, e.instances(a.t)...)
			}
		}
	}
	if len(out) == 0 {
		return []*Term{t}
	}
	return out
}

// httpTransport: the limits of connections to upstreams.
func (c *Check) httpTransport(e *Eval, tr *Term, ok B) {
	site := "http.Transport " + c.at(objPos(tr))
	at := func(f string) Val { return e.field(single(tr), f) }
	if tr.op != "alloc" {
		c.fail("upstream-limited", site, tr.String())
		return
	}
	for _, f := range []string{"TLSHandshakeTimeout", "IdleConnTimeout"} {
		c.positive(ok, at(f), "upstream-limited", site+" "+f)
	}
	for _, f := range []string{"DialContext", "Dial", "DialTLS", "DialTLSContext"} {
		v := within(at(f), ok)
		dials := term(v)
		if dials.op == "nil" {
			if f == "DialContext" && term(within(at("Dial"), ok)).op == "nil" {
				c.fail("upstream-limited", site+" "+f, "no dialer")
			}
			continue
		}
		m := len(e.events)
		c.funcVal(e, v, ok, func(sig *types.Signature) []Val {
			var as []Val
			for i := 0; i < sig.Params().Len(); i++ {
				as = append(as, e.param(fmt.Sprintf("dial%d", i), sig.Params().At(i).Type()))
			}
			return as
		})
		found := False
		for _, ev := range e.events[m:] {
			if ev.Kind != "call" {
				continue
			}
			switch ev.Name {
			case "(*net.Dialer).DialContext", "(*net.Dialer).Dial", "(*crypto/tls.Dialer).DialContext", "(*crypto/tls.Dialer).Dial":
				d := ev.Args[0]
				if strings.Contains(ev.Name, "tls") {
					d = e.field(d, "NetDialer")
				}
				found = Or(found, ev.Guard)
				c.positive(ev.Guard, e.field(d, "Timeout"), "upstream-limited", c.site(ev)+" dialer's Timeout")
			case "net.DialTimeout":
				found = Or(found, ev.Guard)
				c.positive(ev.Guard, ev.Args[2], "upstream-limited", c.site(ev))
			case "net.Dial":
				c.fail("upstream-limited", c.site(ev), ev.Name)
			}
		}
		c.need(found != False, "upstream-limited", site+" "+f, "no dialer is used")
	}
}

func objPos(t *Term) token.Pos {
	if in, ok := t.obj.(ssa.Instruction); ok {
		return in.Pos()
	}
	return token.NoPos
}

// history orders the effects of an evaluation with goroutines.
type history struct {
	evs []*Event
}

func (h *history) starter(thread int) *Event {
	for _, ev := range h.evs {
		if ev.Kind == "go" && ev.Child == thread && thread != 0 {
			return ev
		}
	}
	return nil
}

// begun: y happens only after x in x's thread.
func (h *history) begun(x, y *Event) bool {
	for n := 0; y != nil && n < 50; n++ {
		if y.Thread == x.Thread {
			return x.Seq < y.Seq
		}
		y = h.starter(y.Thread)
	}
	return false
}

// done: y happens only after x has returned, in x's thread or because the
// goroutine x belongs to is waited for.
func (h *history) done(x, y *Event) bool {
	if x.Thread == y.Thread {
		return x.Seq < y.Seq
	}
	g := h.starter(x.Thread)
	if g == nil {
		return false
	}
	for _, w := range h.evs {
		if w.Kind == "call" && w.Name == "(*sync.WaitGroup).Wait" && w.Thread == g.Thread && w.Seq > g.Seq && h.joins(g, w, x) && (h.done(w, y)) {
			return true
		}
	}
	return false
}

// joins: the wait returns only after the goroutine, in which x happens, is done.
func (h *history) joins(g, w, x *Event) bool {
	if g.Note == "waitgroup" {
		return true
	}
	wg := term(w.Args[0])
	added, dones := False, False
	for _, ev := range h.evs {
		if ev.Kind != "call" || len(ev.Args) == 0 || term(ev.Args[0]) != wg {
			continue
		}
		switch {
		case ev.Name == "(*sync.WaitGroup).Add" && ev.Thread == g.Thread && ev.Seq < g.Seq:
			n := term(ev.Args[1])
			if i, ok := n.isInt(); ok && i.Sign() > 0 && sameLoops(ev, g) {
				added = Or(added, ev.Guard)
			}
			if len(g.Loops) == len(ev.Loops)+1 && g.Loops[len(g.Loops)-1].dom == n {
				added = Or(added, ev.Guard)
			}
			if len(g.Loops) == len(ev.Loops)+1 && n.op == "len" && isMap(n.args[0].typ) {
				added = Or(added, ev.Guard)
			}
		case ev.Name == "(*sync.WaitGroup).Done" && ev.Thread == x.Thread:
			if ev.Seq < x.Seq && sat(And(ev.Guard, x.Guard)) {
				return false
			}
			dones = Or(dones, ev.Guard)
		}
	}
	return implies(g.Guard, added) && implies(g.Guard, dones) && implies(g.Guard, w.Guard) && len(w.Loops) <= len(g.Loops)
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// background: the context is not one that may have ended already.
func background(t *Term) bool {
	for {
		switch {
		case t.op == "call" && (strings.HasPrefix(t.sym, "context.Background") || strings.HasPrefix(t.sym, "context.TODO") || strings.HasPrefix(t.sym, "context.WithoutCancel")):
			return true
		case t.op == "call" && strings.HasPrefix(t.sym, "(github.com/rs/zerolog.Logger).WithContext") && len(t.args) == 2:
			t = t.args[1]
		case t.op == "call" && strings.HasPrefix(t.sym, "context.WithValue") && len(t.args) > 0:
			t = t.args[0]
		default:
			return false
		}
	}
}

const grace = 5e9 // the time requests in flight get to finish

func runShutdown(c *Check) {
	s := c.makeServer(false)
	e := s.e
	var serves []*Event
	st := c.methodOf(s.srv.(*GV).alts[0].t.typ, "Stop")
	site := c.fnSite(st)
	for _, ev := range c.startServer(s) {
		if isServe(ev.Name) {
			serves = append(serves, ev)
			c.need(len(ev.Loops) == 1 && !ev.Loops[0].early, "every-listener-served", c.site(ev))
		}
	}
	c.need(len(serves) == 1, "every-listener-served", site, fmt.Sprint(len(serves)))
	if len(serves) != 1 {
		return
	}
	served := serves[0]
	// The listeners are those of the configuration.
	ls := e.field(s.cfg, "Listeners")
	made := False
	for _, ev := range e.events {
		if ev.Kind == "mapwrite" && ev.Name == "set" && len(ev.Loops) == 1 && len(served.Loops) == 1 && ev.Loops[0].dom == mk("dom", "", nil, []*Term{term(ls)}) {
			if served.Loops[0].dom == mk("dom", "", nil, []*Term{ev.Addr}) && ev.Loops[0].bound == term(ev.Args[0]) {
				made = Or(made, ev.Guard)
			}
		}
	}
	c.implies(iteration(And(s.ok, served.Guard)), made, "every-listener-made", c.site(served))

	n := len(e.events)
	e.callFn(st, []Val{s.srv}, nil, s.ok, nil)
	e.drain()
	h := &history{e.events[n:]}
	sd, closed := c.stopped(e, h, s.ok, And(Not(nilRes(e.field(s.cfg, "Cluster"))), Not(nilRes(s.conn))), served, site)
	// Await's channel.
	n = len(e.events)
	aw := c.methodOf(s.srv.(*GV).alts[0].t.typ, "Await")
	_, ret := e.callFn(aw, []Val{s.srv}, nil, s.ok, nil)
	var ch *Term
	for _, ev := range e.events[n:] {
		for _, cc := range chanCases(ev) {
			if !cc.send {
				ch = term(cc.ch)
				c.implies(ret, cc.g, "waits-for-the-stop", c.site(ev))
			}
		}
	}
	if ch == nil {
		c.fail("waits-for-the-stop", c.fnSite(aw), "nothing is received")
		return
	}
	sent := False
	for _, ev := range h.evs {
		for _, cc := range chanCases(ev) {
			if !cc.send || term(cc.ch) != ch {
				continue
			}
			sent = Or(sent, ev.Guard)
			for _, x := range append(append([]*Event(nil), sd...), closed...) {
				c.need(h.done(x, ev), "stops-before-the-process-goes-on", c.site(ev), x.Name+" at "+c.site(x))
			}
		}
	}
	c.implies(s.ok, sent, "stop-is-signalled", site)

	// The goroutines of the stop are waited for.
	for _, ev := range h.evs {
		if ev.Kind == "go" && ev.Child != 0 && ev.Fn != nil && inModule(fnPkgPath(ev.Fn)) {
			ok := false
			for _, w := range h.evs {
				last := &Event{Thread: ev.Child, Seq: -1, Guard: ev.Guard}
				ok = ok || w.Kind == "call" && w.Name == "(*sync.WaitGroup).Wait" && w.Thread == ev.Thread && w.Seq > ev.Seq && h.joins(ev, w, last)
			}
			c.need(ok, "goroutine-joined", c.site(ev))
		}
	}
	c.runStops()
}

// stopped: the stop shuts every serving server down.
func (c *Check) stopped(e *Eval, h *history, ok, connected B, served *Event, site string) (all, closes []*Event) {
	var sd []*Event
	down := False
	for _, ev := range h.evs {
		if ev.Kind == "call" && ev.Name == "(*net/http.Server).Shutdown" {
			sd = append(sd, ev)
			down = Or(down, ev.Guard)
			c.same(ev.Guard, ev.Args[0], served.Args[0], "serving-server-stopped", c.site(ev))
			c.need(len(ev.Loops) == 1 && !ev.Loops[0].early && ev.Loops[0].dom == served.Loops[0].dom, "every-listener-stopped", c.site(ev))
			// Its context.
			var lim *Event
			ct := term(ev.Args[1])
			for _, x := range h.evs {
				if x.Kind == "call" && x.Name == "context.WithTimeout" && ct.op == "comp" && ct.args[0] == x.RetT {
					lim = x
				}
			}
			if lim == nil {
				c.fail("grace-period", c.site(ev), ct.String())
				continue
			}
			c.same(ev.Guard, lim.Args[1], single(intTerm(grace)), "grace-period", c.site(lim))
			c.need(background(term(lim.Args[0])), "grace-period", c.site(lim), "the context may have ended: "+term(lim.Args[0]).String())
			for _, x := range h.evs {
				if x.Kind == "call" && x.Name == "dyncall" && len(x.Args) > 0 {
					if f := term(x.Args[0]); f.op == "comp" && f.args[0] == lim.RetT && sat(And(x.Guard, ev.Guard)) {
						c.need(h.done(ev, x), "grace-period-not-cut", c.site(x))
					}
				}
			}
		}
	}
	server := served.Args[0]
	c.implies(And(ok, served.Guard, Not(nilRes(server))), down, "every-listener-stopped", site)
	closed := False
	for _, ev := range h.evs {
		if ev.Kind != "call" || ev.Name != "(*net/http.Server).Close" {
			continue
		}
		closes = append(closes, ev)
		c.same(ev.Guard, ev.Args[0], server, "serving-server-stopped", c.site(ev))
		failed := False
		for _, x := range sd {
			if h.done(x, ev) {
				failed = Or(failed, And(x.Guard, Not(nilRes(x.Ret))))
			}
		}
		c.implies(ev.Guard, failed, "closed-only-after-the-grace-period", c.site(ev))
		closed = Or(closed, ev.Guard)
	}
	for _, x := range sd {
		c.implies(And(x.Guard, Not(nilRes(x.Ret))), closed, "closed-after-the-grace-period", c.site(x))
	}
	all = sd
	conns := 0
	for _, ev := range h.evs {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "cluster.Connection).Close") {
			conns++
			all = append(all, ev)
			c.implies(And(ok, connected), ev.Guard, "broadcast-stopped", c.site(ev))
		}
	}
	c.need(conns == 1, "broadcast-stopped", site, fmt.Sprint(conns))
	return
}

// runStops: the process stops the server on the signals, and waits for it.
func (c *Check) runStops() {
	e := c.eval()
	e.Pure = parsers
	fn := c.P.Method("kache", "Kache", "Run")
	as := e.params(fn)
	v, ret := e.callFn(fn, as, nil, True, nil)
	e.drain()
	h := &history{e.events}
	site := c.fnSite(fn)
	// The signals.
	var term1 []*Term // channels that get a value on a signal
	on := False
	for _, ev := range h.evs {
		if ev.Kind != "call" {
			continue
		}
		var sigs Val
		switch ev.Name {
		case "os/signal.NotifyContext", "os/signal.Notify":
			sigs = ev.Args[1]
		default:
			continue
		}
		have := map[string]bool{}
		for _, a := range term(sigs).args {
			if a.op == "iface" {
				a = a.args[0]
			}
			if n, ok := a.isInt(); ok {
				have[n.String()] = true
			}
		}
		if !have["2"] || !have["15"] {
			continue
		}
		on = Or(on, ev.Guard)
		if ev.Name == "os/signal.Notify" {
			term1 = append(term1, term(ev.Args[0]))
			continue
		}
		for _, d := range h.evs {
			if d.Kind == "call" && d.Name == "(context.Context).Done" {
				if t := term(d.Args[0]); t.op == "comp" && t.sym == "0" && t.args[0] == ev.RetT {
					term1 = append(term1, d.RetT)
				}
			}
		}
	}
	if len(term1) == 0 {
		c.fail("signals-observed", site, "no receiver of SIGINT and SIGTERM")
		return
	}
	// Stop on a signal.
	stops := False
	var sends []*Event
	for _, ev := range h.evs {
		for _, cc := range chanCases(ev) {
			mine := false
			for _, t := range term1 {
				mine = mine || !cc.send && term(cc.ch) == t
			}
			if !mine {
				continue
			}
			after := False
			for _, x := range h.evs {
				if x.Kind == "call" && x.Name == "(*net/http.Server).Shutdown" && h.begun(ev, x) {
					for _, y := range h.evs {
						for _, yc := range chanCases(y) {
							if yc.send && h.done(x, y) && y.Thread == ev.Thread && y.Seq > ev.Seq {
								after = Or(after, y.Guard)
								sends = append(sends, y)
							}
						}
					}
				}
			}
			c.implies(cc.g, after, "signal-stops-the-server", c.site(ev))
			stops = Or(stops, ev.Guard)
		}
	}
	c.implies(on, stops, "signals-observed", site)
	if len(sends) == 0 {
		c.fail("signal-stops-the-server", site, "no stop after the signal")
		return
	}
	ch := map[*Term]bool{}
	for _, y := range sends {
		for _, yc := range chanCases(y) {
			ch[term(yc.ch)] = true
		}
	}
	// Run returns without an error only after that.
	awaited := False
	var waits []*Event
	for _, ev := range h.evs {
		for _, cc := range chanCases(ev) {
			if !cc.send && ch[term(cc.ch)] && ev.Thread == 0 {
				awaited = Or(awaited, cc.g)
				waits = append(waits, ev)
			}
		}
	}
	c.implies(And(ret, nilRes(v)), awaited, "returns-after-the-stop", site)
	for _, ev := range h.evs {
		// No other wake-up.
		for _, yc := range chanCases(ev) {
			if yc.send && ch[term(yc.ch)] {
				c.need(slices.Contains(sends, ev), "released-by-the-stop", c.site(ev))
			}
		}
		// The context ends with a signal.
		if ev.Kind == "call" && (ev.Name == "dyncall" || len(ev.Args) > 0) {
			ended := func(t *Term) bool {
				return t.op == "comp" && t.sym == "1" && (t.args[0].sym == "os/signal.NotifyContext" || strings.HasPrefix(t.args[0].sym, "os/signal.NotifyContext#"))
			}
			for i, a := range ev.Args {
				if !mentions(a, ended) {
					continue
				}
				if i == 0 && ev.Name == "dyncall" {
					ok := false
					for _, w := range waits {
						ok = ok || h.done(w, ev)
					}
					c.need(ok, "stopped-only-by-a-signal", c.site(ev))
					continue
				}
				c.fail("stopped-only-by-a-signal", c.site(ev), ev.Name)
			}
		}
		if ev.Kind == "close" && len(ev.Args) > 0 && ch[term(ev.Args[0])] {
			ok := false
			for _, w := range waits {
				ok = ok || h.done(w, ev)
			}
			c.need(ok, "not-released-before-the-stop", c.site(ev))
		}
		if ev.Kind == "call" && ev.Name == "os.Exit" {
			c.fail("returns-after-the-stop", c.site(ev), ev.Name)
		}
	}
}

// pointee is the struct a pointer points to.
func pointee(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

// iteration adds to g that what holds in no iteration of a loop does not hold
// in the one a free index denotes.
func iteration(g B) B {
	for _, t := range atomsOf(g) {
		if t.op == "exists" {
			g = And(g, Implies(t.bs[0], atom(t)))
		}
	}
	return g
}

// instance adds to g, for every condition that some index of a domain
// satisfies, that i does if it does and is of that domain.
func instance(g B, i *Term) B {
	for _, t := range atomsOf(g) {
		if t.op != "exists" || t.args[0].op == "dom" || t.args[0].op == "nodom" {
			continue
		}
		n, err := strconv.Atoi(strings.TrimSuffix(t.sym, ":"))
		if err != nil {
			continue
		}
		m := map[*Term]*Term{}
		for _, b := range boundTerms(n) {
			m[b] = i
		}
		in := And(leT(intTerm(0), i), Not(leT(t.args[0], i)))
		g = And(g, Implies(And(in, newSubst(m).B(t.bs[0])), atom(t)))
	}
	return g
}
