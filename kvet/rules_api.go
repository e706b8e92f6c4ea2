package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&rule{id: "C25", technique: "guarded value-numbering dataflow of the API's constructor and of every server started outside the proxy, through the router's middleware to the matched handler; who-may-serve scan of all call sites; guards of the debug routes",
		about: "whatever is served outside the proxy's listeners is the API, and a matched handler runs only if, and exactly when, the filter made of the configured list admits the request as it came in; handlers that show internals are registered only if debugging is enabled; the default mux is not served",
		min:   6,
		run:   runAPIAccess})
	register(&rule{id: "C26", technique: "guarded value-numbering dataflow of the filter's constructor composed with its decision on a request (loops as conditions on some element), compared with the specification; who-may-run rule for the protected handler",
		about: "the constructor fails exactly for a malformed entry; the handler runs, once and with the request, exactly if the list is empty or the client address of the request equals a listed address or lies in a listed network; everything else is answered 401 first",
		min:   12,
		run:   runAccessList})
}

const muxPkg = "github.com/gorilla/mux."

// route is an entry of the API's router.
type route struct {
	g       B
	router  *Term
	methods []string
	path    *Term // template
	prefix  bool
	handler Val
	ev      *Event // registration of the handler
	parent  *route // of a subrouter
	other   []string
}

// apiServer is an API made by its constructor.
type apiServer struct {
	e        *Eval
	cfg      Val
	srv      Val
	api      Val
	ok       B
	filter   Val
	filterOK B
	site     string
	evs      []*Event
}

// makeAPI evaluates the constructor with an arbitrary filter.
func (c *Check) makeAPI() *apiServer {
	e := c.eval()
	e.Pure = parsers
	a := &apiServer{e: e}
	mk, nf := c.P.Func("api", "New"), c.P.Func("api", "NewIPFilter")
	as := e.params(mk)
	a.cfg, a.srv = as[0], as[1]
	a.site = c.fnSite(mk)
	rs := nf.Signature.Results()
	a.filter = e.param("filter", rs.At(0).Type())
	ferr := e.param("filterErr", rs.At(1).Type())
	a.filterOK = nilRes(ferr)
	e.callHook = func(cc *callCtx) (Val, bool) {
		if cc.fn == nf {
			c.same(cc.pc, cc.args[0], e.field(a.cfg, "ACL"), "configured-list", c.at(cc.pos()))
			return &AV{f: []Val{a.filter, ferr}}, true
		}
		return nil, false
	}
	v := e.Run(mk, as, True)
	e.callHook = nil
	rt := mk.Signature.Results()
	a.ok = nilRes(component(v, 1, compType(rt, 1)))
	a.api = within(component(v, 0, compType(rt, 0)), a.ok)
	a.evs = e.events
	return a
}

// isMux splits the name of a method of the router or of a route.
func isMux(name string) (recv, m string) {
	for _, r := range []string{"Router", "Route"} {
		if strings.HasPrefix(name, "(*"+muxPkg+r+").") {
			return r, name[strings.LastIndexByte(name, '.')+1:]
		}
	}
	return "", ""
}

// elems of a literal slice.
func elems(t *Term) ([]*Term, bool) {
	switch t.op {
	case "nil":
		return nil, true
	case "seq":
		return t.args, true
	}
	return nil, false
}

// routes collects the routes registered by the events.
func (c *Check) routes(evs []*Event) []*route {
	var out []*route
	at := map[*Term]*route{}   // route by the term of the chain
	subs := map[*Term]*route{} // subrouters
	for _, ev := range evs {
		if ev.Kind != "call" {
			continue
		}
		recv, m := isMux(ev.Name)
		if recv == "" || m == "Use" || m == "ServeHTTP" {
			continue
		}
		for _, a := range alts(ev.Args[0]) {
			g := And(ev.Guard, a.g)
			if !sat(g) {
				continue
			}
			var r *route
			args := ev.Args[1:]
			if recv == "Router" {
				r = &route{g: g, router: a.t, parent: subs[a.t]}
				switch m {
				case "Handle", "HandleFunc":
					r.path = term(args[0])
					args = args[1:]
				case "Methods", "Path", "PathPrefix", "NewRoute", "Host", "Headers", "Queries", "Schemes", "MatcherFunc", "Name":
				default:
					continue
				}
			} else if r = at[a.t]; r == nil {
				panic(unresolved{"the route of " + c.site(ev)})
			}
			r.g = And(r.g, g)
			switch m {
			case "Methods":
				ts, ok := elems(term(args[0]))
				r.methods = nil // the last call decides together with the earlier ones
				for _, t := range ts {
					s, isS := t.isStr()
					ok = ok && isS
					r.methods = append(r.methods, strings.ToUpper(s))
				}
				if !ok || len(ts) == 0 {
					r.other = append(r.other, m)
				}
			case "Path", "PathPrefix":
				if r.path != nil {
					r.other = append(r.other, m)
				}
				r.path, r.prefix = term(args[0]), m == "PathPrefix"
			case "Handler", "HandlerFunc", "Handle", "HandleFunc":
				r.handler, r.ev = args[0], ev
				out = append(out, r)
			case "Subrouter":
				subs[ev.RetT] = r
				continue
			case "NewRoute", "Name":
			default:
				r.other = append(r.other, m)
			}
			at[ev.RetT] = r
		}
	}
	return out
}

// handle evaluates the handler (a function or http.Handler).
func (c *Check) handle(e *Eval, h Val, w, r Val, pc B) B {
	out := False
	for _, a := range alts(h) {
		g := And(pc, a.g)
		if !sat(g) {
			continue
		}
		v := single(a.t)
		var ret B
		if a.t.op == "closure" || a.t.op == "fn" {
			_, ret = e.CallFn(v, nil, []Val{w, r}, g)
		} else {
			_, ret = e.invoke(v, &ssa.CallCommon{Method: c.serveHTTP()}, []Val{w, r}, g, nil)
		}
		out = Or(out, ret)
	}
	return out
}

// serveHTTP is the method of http.Handler.
func (c *Check) serveHTTP() *types.Func {
	it := c.handlerType().Underlying().(*types.Interface)
	return it.Method(0)
}

func (c *Check) handlerType() types.Type {
	p := c.P.Func("server", "NewServer").Prog.ImportedPackage("net/http")
	return p.Pkg.Scope().Lookup("Handler").Type()
}

// viaRouter models the router: the registered middleware around the handler
// of the matching route.
func (c *Check) viaRouter(e *Eval, matched Val) func(cc *callCtx) (Val, bool) {
	return func(cc *callCtx) (Val, bool) {
		if cc.name != "(*"+muxPkg+"Router).ServeHTTP" {
			return nil, false
		}
		e.event(&Event{Kind: "call", Guard: cc.pc, Name: cc.name, Fn: cc.caller(), Pos: cc.pos(), Args: cc.args, Common: cc.common})
		h := matched
		var uses []*Event
		for _, ev := range e.events {
			if ev.Kind == "call" && ev.Name == "(*"+muxPkg+"Router).Use" && sat(And(cc.pc, eqAny(ev.Args[0], term(cc.args[0])))) {
				uses = append(uses, ev)
			}
		}
		for i := len(uses) - 1; i >= 0; i-- {
			ev := uses[i]
			ms, ok := elems(term(ev.Args[1]))
			if !ok {
				panic(unresolved{"middleware of " + c.site(ev)})
			}
			for j := len(ms) - 1; j >= 0; j-- {
				g := And(ev.Guard, eqAny(ev.Args[0], term(cc.args[0])))
				v, ret := e.CallFn(single(ms[j]), nil, []Val{h}, And(cc.pc, g))
				_ = ret
				h = join([]guarded{{g, v}, {Not(g), h}})
			}
		}
		c.handle(e, simp(h, cc.pc), cc.args[1], cc.args[2], cc.pc)
		return nil, true
	}
}

// admits is the condition under which the filter lets a request through.
func (c *Check) admits(e *Eval, filter, w, r Val) (B, B) {
	nf := c.P.Func("api", "NewIPFilter")
	wrap := c.methodOf(nf.Signature.Results().At(0).Type(), "Wrap")
	ht := wrap.Signature.Params().At(0).Type()
	next := e.param("next", ht)
	n := len(e.events)
	v, _ := e.callFn(wrap, []Val{filter, next}, nil, True, nil)
	_, ret := e.CallFn(v, nil, []Val{w, r}, True)
	g := False
	for _, ev := range e.events[n:] {
		if ev.Kind == "call" && ev.Name == "dyncall" && term(ev.Args[0]) == term(next) {
			g = Or(g, ev.Guard)
		}
	}
	return g, ret
}

func runAPIAccess(c *Check) {
	a := c.makeAPI()
	e := a.e
	on := a.ok
	c.need(sat(on), "api-made", a.site)
	c.implies(on, a.filterOK, "bad-list-refused", a.site)
	// Routes may be registered later, too.
	ms := c.P.prog.MethodSets.MethodSet(term(a.api).typ)
	for i := 0; i < ms.Len(); i++ {
		m := c.P.prog.MethodValue(ms.At(i))
		if m == nil || m.Name() == "Run" || m.Name() == "ServeHTTP" || !m.Object().Exported() {
			continue
		}
		e.callFn(m, append([]Val{a.api}, e.sigParams(m)...), nil, on, nil)
	}
	run := c.methodOf(term(a.api).typ, "Run")
	n := len(e.events)
	e.callFn(run, append([]Val{a.api}, e.sigParams(run)...), nil, on, nil)
	e.drain()
	evs := e.events[n:]
	mux0 := e.param("matched", c.handlerType())
	sh := c.methodOf(term(a.api).typ, "ServeHTTP")
	p := e.params(sh)
	w, r := p[1], p[2]
	mem := len(e.log)
	var adm, ret B
	e.atMem(mem, func() Val {
		e.quiet = false
		m := len(e.events)
		adm, ret = c.admits(e, a.filter, w, r)
		e.events = e.events[:m]
		return nil
	})
	_ = ret
	open := eqAny(e.field(a.cfg, "ACL"), strTerm(""))
	served := 0
	seen := map[string]bool{}
	for _, ev := range evs {
		if ev.Kind != "call" {
			continue
		}
		h := c.servedHandler(e, ev)
		if h == nil {
			continue
		}
		served++
		site := c.site(ev)
		seen[c.at(ev.Pos)] = true
		h = within(h, ev.Guard)
		if t := term(h); t.op == "nil" {
			c.fail("only-the-api-is-served", site, "the default mux")
			continue
		}
		m := len(e.events)
		e.callHook = c.viaRouter(e, mux0)
		c.handle(e, h, w, r, ev.Guard)
		e.callHook = nil
		run := False
		for _, x := range e.events[m:] {
			if x.Kind != "call" {
				continue
			}
			if strings.HasSuffix(x.Name, "Handler).ServeHTTP") && term(x.Args[0]) == term(mux0) {
				c.implies(And(x.Guard, on), Or(adm, open), "access-checked", site)
				c.need(!sat(And(run, x.Guard)), "handled-once", site)
				run = Or(run, x.Guard)
				c.same(x.Guard, x.Args[1], w, "handler-of-the-request", site)
				continue
			}
			if strings.HasSuffix(x.Name, "Handler).ServeHTTP") || strings.HasSuffix(x.Name, "ServeMux).ServeHTTP") {
				c.fail("only-the-api-is-served", c.site(x), x.Name+" "+vstr(x.Args[0]))
			}
		}
		some := True
		for _, t := range atomsOf(run) {
			if t.op == "typeis" && t.args[0] == term(mux0) {
				some = And(some, atom(t))
			}
		}
		c.implies(And(ev.Guard, on, adm, some), run, "admitted-is-served", site)
	}
	c.need(served > 0, "api-served", c.fnSite(run))

	// The router's middleware does not run for requests that match no route:
	// what answers those must not show anything of the server either.
	for _, wr := range e.log[:mem:mem] {
		site := fieldAt(wr.addr)
		if site != "NotFoundHandler" && site != "MethodNotAllowedHandler" || wr.val == nil {
			continue
		}
		h := within(wr.val, And(wr.g, on))
		if term(h).op == "nil" {
			continue
		}
		m := len(e.events)
		e.callHook = c.viaRouter(e, mux0)
		c.handle(e, h, w, r, And(wr.g, on))
		e.callHook = nil
		for _, x := range e.events[m:] {
			if x.Kind != "call" {
				continue
			}
			inner := strings.HasSuffix(x.Name, "Handler).ServeHTTP") || x.Name == "dyncall"
			for _, v := range x.Args {
				inner = inner || v != nil && mentions(v, func(t *Term) bool { return t == term(a.srv) })
			}
			if inner {
				c.implies(And(x.Guard, on), Or(adm, open), "access-checked", c.site(x)+" via "+site)
			}
		}
	}

	// Who else serves.
	s := c.makeServer(false)
	for _, ev := range c.startServer(s) {
		if ev.Kind == "call" && (isServe(ev.Name) || isServeFunc(ev.Name)) {
			seen[c.at(ev.Pos)] = true
		}
	}
	sites := 0
	for _, fn := range c.P.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(ssa.CallInstruction); ok {
					f := cl.Common().StaticCallee()
					if f == nil {
						continue
					}
					nm := fnName(f)
					if isServe(nm) || isServeFunc(nm) {
						sites++
						c.need(seen[c.at(in.Pos())], "only-the-api-is-served", c.at(in.Pos())+" in "+shortFn(fn), nm)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "net/http" && g.Name() == "DefaultServeMux" {
						c.fail("default-mux-not-served", c.at(in.Pos())+" in "+shortFn(fn))
					}
				}
			}
		}
	}
	c.need(sites > 1, "serving-sites", a.site)

	// Debug routes.
	debug := asBool(e.field(a.cfg, "Debug"))
	rs := c.routes(a.evs)
	dbg := 0
	for _, x := range rs {
		d := c.showsInternals(x.handler)
		for q := x; q != nil && d == ""; q = q.parent {
			if q.path != nil {
				if s, ok := q.path.isStr(); ok && strings.Contains(s, "/debug") {
					d = s
				}
			}
		}
		if d != "" {
			dbg++
			c.implies(And(x.g, on), debug, "debug-only-if-enabled", c.site(x.ev)+" "+d)
		}
	}
	c.tally("routes", len(rs))
	c.tally("debug routes", dbg)
	c.need(len(rs) > 0, "routes", a.site)
	// No other way to hand out internals.
	known := map[*ssa.Function]bool{}
	for _, x := range rs {
		c.showsInternals2(x.handler, known)
	}
	for _, fn := range c.P.funcs {
		if e.inlined[fn] || known[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && (fnPkgPath(f) == "net/http/pprof" || fnName(f) == "expvar.Handler" || fnName(f) == "expvar.Do") && f.Name() != "init" {
						c.fail("debug-only-if-enabled", c.at(in.Pos())+" in "+shortFn(fn), fnName(f))
					}
				}
			}
		}
	}
}

// fieldAt is the name of the field at the address, if it is one.
func fieldAt(addr *Term) string {
	if st, ok := addr.obj.(*types.Struct); ok && addr.op == "fa" {
		if i, err := strconv.Atoi(addr.sym); err == nil && i < st.NumFields() {
			return st.Field(i).Name()
		}
	}
	return ""
}

func isServeFunc(name string) bool {
	return strings.HasPrefix(name, "net/http.Serve") && !strings.Contains(name, "File") && !strings.Contains(name, "Content") || strings.HasPrefix(name, "net/http.ListenAndServe")
}

// servedHandler is the handler a call serves connections with, if it does.
func (c *Check) servedHandler(e *Eval, ev *Event) Val {
	switch ev.Name {
	case "net/http.ListenAndServe", "net/http.Serve", "net/http.ServeTLS":
		return ev.Args[1]
	case "net/http.ListenAndServeTLS":
		return ev.Args[3]
	}
	if isServe(ev.Name) {
		return e.atEv(ev, func() Val { return e.field(ev.Args[0], "Handler") })
	}
	return nil
}

// showsInternals: the handler is, or uses, a function that hands out
// internals of the process.
func (c *Check) showsInternals(h Val) string {
	return c.showsInternals2(h, map[*ssa.Function]bool{})
}

func (c *Check) showsInternals2(h Val, seen map[*ssa.Function]bool) string {
	out := ""
	internal := func(path string) bool {
		switch path {
		case "net/http/pprof", "runtime/pprof", "runtime/debug", "runtime/trace", "expvar":
			return true
		}
		return false
	}
	var scan func(fn *ssa.Function)
	scan = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		if internal(fnPkgPath(fn)) {
			out = fnName(fn)
			return
		}
		if !inModule(fnPkgPath(fn)) && fn.Synthetic == "" {
			return
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						scan(f)
					}
				}
			}
		}
	}
	mentions(h, func(t *Term) bool {
		switch o := t.obj.(type) {
		case *ssa.Function:
			scan(o)
		case *closure:
			scan(o.fn)
		case types.Type:
			if pk, _ := namedPtr(o); internal(pk) {
				out = pk
			}
		}
		if (t.op == "call" || t.op == "ret") && internalName(t.sym) {
			out = t.sym
		}
		return false
	})
	return out
}

func internalName(s string) bool {
	for _, p := range []string{"pprof.", "expvar."} {
		if strings.HasPrefix(strings.TrimLeft(s, "(*"), p) || strings.Contains(s, "/"+p) {
			return true
		}
	}
	return false
}

// reply is a part of an answer written to the client.
type reply struct {
	ev     *Event
	g      B
	status Val // nil: part of the body
}

// replies lists what is written to w, in order. An unset status is 200.
func replies(evs []*Event, w Val) []reply {
	var out []reply
	enc := map[*Term]bool{}
	for _, ev := range evs {
		if ev.Kind != "call" || len(ev.Args) == 0 || ev.Args[0] == nil {
			continue
		}
		g := False
		for _, a := range alts(ev.Args[0]) {
			t := a.t
			if t.op == "iface" {
				t = t.args[0]
			}
			if t == term(w) || enc[t] {
				g = Or(g, And(ev.Guard, a.g))
			}
		}
		if !sat(g) {
			continue
		}
		switch {
		case strings.HasSuffix(ev.Name, "ResponseWriter).WriteHeader"):
			out = append(out, reply{ev, g, ev.Args[1]})
		case ev.Name == "net/http.Error":
			out = append(out, reply{ev, g, ev.Args[2]})
		case ev.Name == "net/http.NotFound":
			out = append(out, reply{ev, g, single(intTerm(404))})
		case strings.HasSuffix(ev.Name, "ResponseWriter).Write"), ev.Name == "io.WriteString", ev.Name == "io.Copy", strings.HasPrefix(ev.Name, "fmt.Fprint"):
			out = append(out, reply{ev, g, nil})
		case strings.HasSuffix(ev.Name, "json.NewEncoder"):
			enc[ev.RetT] = true
		case strings.HasSuffix(ev.Name, "json.Encoder).Encode"):
			out = append(out, reply{ev, g, nil})
		}
	}
	return out
}

// answers checks that, along g, the request is answered with the given status,
// and with nothing else before.
func (c *Check) answers(g B, rs []reply, status int64, rule, site string) {
	done := False
	for _, r := range rs {
		x := And(g, r.g)
		s := r.status
		if s == nil {
			s = single(intTerm(200))
		}
		if first := And(x, Not(done)); sat(first) {
			c.implies(first, eqAny(s, intTerm(status)), rule, c.site(r.ev))
		}
		done = Or(done, r.g)
	}
	if status == 200 {
		return // the default
	}
	c.implies(g, done, rule, site)
}

func runAccessList(c *Check) {
	e := c.eval()
	nf := c.P.Func("api", "NewIPFilter")
	as := e.params(nf)
	v := e.Run(nf, as, True)
	rs := nf.Signature.Results()
	ok := nilRes(component(v, 1, compType(rs, 1)))
	f := within(component(v, 0, compType(rs, 0)), ok)
	site := c.fnSite(nf)
	bad := asBool(e.spec("ListErr", as[0]))
	c.need(sat(bad) && sat(ok), "both-outcomes", site)
	// The networks are taken as listed.
	for _, wr := range e.log {
		if rt := root(wr.addr); rt != wr.addr && mentions(single(rt), func(t *Term) bool { return t.op == "call" && strings.HasSuffix(t.sym, "ParseCIDR") }) {
			c.fail("listed-network-unchanged", site, wr.addr.String())
		}
	}
	c.implies(bad, Not(ok), "malformed-is-an-error", site)
	c.implies(Not(bad), ok, "wellformed-is-no-error", site)
	c.implies(ok, Not(nilRes(f)), "filter-made", site)

	wrap := c.methodOf(rs.At(0).Type(), "Wrap")
	ps := c.serveHTTP().Type().(*types.Signature).Params()
	w, r := e.param("w", ps.At(0).Type()), e.param("request", ps.At(1).Type())
	next := e.param("next", wrap.Signature.Params().At(0).Type())
	mem := len(e.log)
	want := asBool(e.specAt(mem, "Admitted", as[0], r))
	n := len(e.events)
	h, _ := e.callFn(wrap, []Val{f, next}, nil, ok, nil)
	_, ret := e.CallFn(h, nil, []Val{w, r}, ok)
	ws := c.fnSite(wrap)
	adm := False
	for _, ev := range e.events[n:] {
		if ev.Kind == "call" && ev.Name == "dyncall" && term(ev.Args[0]) == term(next) {
			c.need(!sat(And(adm, ev.Guard)), "handled-once", c.site(ev))
			c.same(ev.Guard, ev.Args[1], w, "handler-of-the-request", c.site(ev))
			c.same(ev.Guard, ev.Args[2], r, "handler-of-the-request", c.site(ev))
			adm = Or(adm, ev.Guard)
		}
	}
	c.need(sat(And(ok, want)) && sat(And(ok, Not(want))), "both-outcomes", ws)
	c.implies(And(ok, adm), want, "only-listed", ws)
	c.implies(And(ok, want), adm, "listed-admitted", ws)
	c.implies(And(ok, Not(want)), ret, "always-answered", ws)
	rp := replies(e.events[n:], w)
	c.answers(And(ok, Not(want)), rp, 401, "unauthorized", ws)
	for _, x := range rp {
		c.implies(x.g, Not(want), "admitted-is-left-alone", c.site(x.ev))
	}
	for i := mem; i < len(e.log); i++ {
		wr := e.log[i]
		if rt := root(wr.addr); rt != nil && rt == term(r) {
			c.need(false, "request-unchanged", ws, wr.addr.String())
		}
	}
}
