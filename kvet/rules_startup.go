package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&rule{id: "C32", technique: "nil-dereference dataflow of the configuration sections over the whole start of the program and the API handlers, composed from main(); equality of Validate with the specification; who-starts-what guard implication",
		about: "Validate accepts exactly the configurations with listeners, upstreams, an API and a provider section; nothing is started and no section is dereferenced from main() on unless that was checked; missing optional sections mean defaults",
		min:   30,
		run:   runOptional})
}

// sectionType: a pointer to a struct of the configuration.
func (c *Check) sectionTypes() map[string]bool {
	m := map[string]bool{}
	var add func(t types.Type, depth int)
	add = func(t types.Type, depth int) {
		if depth > 8 {
			return
		}
		t = types.Unalias(t)
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && inModule(n.Obj().Pkg().Path()) {
				if m[n.Obj().Pkg().Path()+"."+n.Obj().Name()] {
					return
				}
				m[n.Obj().Pkg().Path()+"."+n.Obj().Name()] = true
			}
			add(u.Elem(), depth+1)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				add(u.Field(i).Type(), depth+1)
			}
		case *types.Slice:
			add(u.Elem(), depth+1)
		case *types.Map:
			add(u.Elem(), depth+1)
		}
	}
	add(types.NewPointer(c.P.Named("config", "Configuration")), 0)
	return m
}

func isSection(m map[string]bool, t *Term) bool {
	if t == nil || t.typ == nil {
		return false
	}
	p, ok := types.Unalias(t.typ).Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && m[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
}

// present: no section is dereferenced unless it is there.
func (c *Check) present(evs []*Event, secs map[string]bool, base B) {
	n := 0
	for _, ev := range evs {
		if ev.Kind != "deref" || !isSection(secs, ev.Addr) {
			continue
		}
		n++
		g := firstFacts(iteration(And(base, ev.Guard)), ev.Addr)
		c.implies(g, Not(nilRes(single(ev.Addr))), "section-is-there", c.site(ev))
	}
	c.tally("dereferences", n)
}

// firstFacts adds to g what holds of the elements a loop stopped at which t
// mentions: they are of the domain, they met the condition, and what no element
// meets they do not meet.
func firstFacts(g B, t *Term) B {
	seen := map[*Term]bool{}
	mentions(single(t), func(x *Term) bool {
		if x.op != "first" || len(x.bs) != 1 || seen[x] {
			return false
		}
		seen[x] = true
		n, err := strconv.Atoi(strings.TrimSuffix(x.sym, ":"))
		if err != nil {
			return false
		}
		m := map[*Term]*Term{}
		for _, b := range boundTerms(n) {
			m[b] = x
		}
		fact := newSubst(m).B(x.bs[0])
		if x.args[0].op != "dom" && x.args[0].op != "nodom" {
			fact = And(fact, And(leT(intTerm(0), x), Not(leT(x.args[0], x))))
		}
		g = And(g, Implies(existsB(n, x.args[0], x.bs[0]), fact))
		g = instanceOf(g, x, x.args[0])
		return false
	})
	return g
}

// instanceOf is instance for a domain.
func instanceOf(g B, i, dom *Term) B {
	for _, t := range atomsOf(g) {
		if t.op != "exists" || t.args[0] != dom {
			continue
		}
		n, err := strconv.Atoi(strings.TrimSuffix(t.sym, ":"))
		if err != nil {
			continue
		}
		m := map[*Term]*Term{}
		for _, b := range boundTerms(n) {
			m[b] = i
		}
		g = And(g, Implies(And(existsB(n, dom, True), newSubst(m).B(t.bs[0])), atom(t)))
	}
	return g
}

func runOptional(c *Check) {
	secs := c.sectionTypes()
	c.need(len(secs) >= 6, "anchor", "pkg/config", "sections")
	// What is valid.
	{
		e := c.eval()
		fn := c.P.Method("config", "Configuration", "Validate")
		cfg := e.params(fn)[0]
		g := Not(nilRes(cfg))
		v, ret := e.callFn(fn, []Val{cfg}, nil, g, nil)
		site := c.fnSite(fn)
		c.implies(g, ret, "validates", site)
		want := asBool(e.spec("ConfigValid", cfg))
		c.need(sat(And(g, want)) && sat(And(g, Not(want))), "both-outcomes", site)
		c.implies(And(g, nilRes(v)), want, "missing-section-is-an-error", site)
		c.implies(And(g, want), nilRes(v), "optional-sections-are-optional", site)
		c.present(e.events, secs, g)
	}
	c.startup(secs)
	c.handlersPresent(secs)
	c.defaults()
}

// startup follows the program from main().
func (c *Check) startup(secs map[string]bool) {
	e := c.eval()
	e.Pure = parsers
	fn := c.P.Func(":cmd/kache", "main")
	conf := c.P.Method("config", "Loader", "Config")
	mk := c.P.Func("server", "NewServer")
	mkAPI := c.P.Func("api", "New")
	conn := c.P.Func("cluster", "NewConnection")
	load := c.hookLoad(e, map[*ssa.Function]string{conn: "connect"})
	inner := e.callHook
	cfg := e.param("cfg", conf.Signature.Results().At(0).Type())
	n := 0
	e.callHook = func(cc *callCtx) (Val, bool) {
		if cc.fn == conf {
			// What is loaded later was never validated.
			if e.thread == 0 {
				return cfg, true
			}
			n++
			return single(e.fresh("reloaded", conf.Signature.Results().At(0).Type(), nil)), true
		}
		return inner(cc)
	}
	e.callFn(fn, nil, nil, True, nil)
	e.drain()
	e.callHook = nil
	evs := e.events
	has := Not(nilRes(cfg))
	fresh := True
	for _, t := range sectionRoots(evs, "reloaded") {
		fresh = And(fresh, Not(nilRes(single(t))))
	}
	c.present(evs, secs, And(has, fresh))
	ok := asBool(e.specAt(0, "ConfigValid", cfg))
	started := 0
	for _, ev := range evs {
		switch {
		case ev.Kind == "go", ev.Kind == "enter" && (ev.Fn == mk || ev.Fn == mkAPI),
			ev.Kind == "call" && (strings.HasPrefix(ev.Name, "net.Listen") || strings.HasSuffix(ev.Name, "http.Server).Serve") || strings.HasSuffix(ev.Name, "ListenAndServe") || ev.Name == "connect"):
			started++
			c.implies(And(has, ev.Guard), ok, "validated-first", c.site(ev))
		}
	}
	c.need(started > 2, "validated-first", c.fnSite(fn))
	// What is missing ends the program with a failure, and says so.
	site := c.fnSite(fn)
	passed := False
	for _, ld := range *load {
		if ld.Thread == 0 {
			passed = Or(passed, And(ld.Guard, nilRes(ld.Ret.(*AV).f[1])))
		}
	}
	c.need(sat(passed), "anchor", site, "the configuration is loaded")
	ends := False
	for _, ev := range evs {
		switch {
		case ev.Kind != "call" || ev.Thread != 0:
		case ev.Name == "os.Exit":
			for _, a := range alts(ev.Args[0]) {
				if n, isInt := a.t.isInt(); isInt && n.Sign() != 0 {
					ends = Or(ends, And(ev.Guard, a.g))
				}
			}
		case strings.Contains(ev.Name, "zerolog") || strings.HasPrefix(ev.Name, "log.Fatal"):
			ends = Or(ends, ev.Guard) // ends the program, see endsProgram
		}
	}
	c.implies(And(passed, And(has, Not(ok))), ends, "missing-section-is-reported", site)
	told := logged(evs)
	for _, ev := range evs {
		if ev.Kind == "call" && (strings.HasPrefix(ev.Name, "fmt.Fprint") || strings.HasPrefix(ev.Name, "fmt.Print") || strings.Contains(ev.Name, "zerolog") || strings.HasPrefix(ev.Name, "log.")) {
			told = Or(told, ev.Guard)
		}
	}
	c.implies(And(passed, And(has, Not(ok))), told, "missing-section-is-reported", site)
	// And what is optional does not.
	for _, f := range []string{"HttpCache", "Cluster", "Log"} {
		none := nilRes(e.field(cfg, f))
		if x := atomOf(none); c.need(x != nil, "anchor", site, f) {
			with, without := Cofactor(ends, bdd.nodes[none].v, false), Cofactor(ends, bdd.nodes[none].v, true)
			c.implies(And(And(has, passed), without), with, "optional-section-may-be-missing", site)
		}
	}
	// A connection is made if and only if there is a cluster.
	conns := False
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Name == "connect" {
			c.implies(ev.Guard, Not(nilRes(ev.Args[0])), "no-cluster-no-connection", c.site(ev))
			conns = Or(conns, ev.Guard)
		}
	}
	c.need(sat(conns), "no-cluster-no-connection", site)
}

func sectionRoots(evs []*Event, name string) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, ev := range evs {
		if ev.Kind == "deref" && ev.Addr != nil {
			mentions(single(ev.Addr), func(t *Term) bool {
				if (t.op == "ret" || t.op == "call") && strings.HasPrefix(t.sym, name+"#") && !seen[t] {
					seen[t] = true
					out = append(out, t)
				}
				return false
			})
		}
	}
	return out
}

// handlersPresent: the handlers of the API know what may be missing.
func (c *Check) handlersPresent(secs map[string]bool) {
	ad := c.makeAdmin()
	e := ad.s.e
	ok := asBool(e.specAt(0, "ConfigValid", ad.s.cfg))
	for _, ep := range ad.eps {
		c.present(ep.evs, secs, And(ok, Not(nilRes(ad.s.cfg))))
	}
	c.present(e.events, secs, And(ok, Not(nilRes(ad.s.cfg))))
}

// defaults: what is missing means.
func (c *Check) defaults() {
	secs := c.sectionTypes()
	// The cache.
	mk := c.P.Func("cache", "NewHttpCache")
	for _, how := range []string{"NewHttpCache", "UpdateConfig"} {
		e := c.eval()
		as := e.params(mk)
		as[0] = single(nilTerm())
		n := len(e.events)
		if how == "UpdateConfig" {
			as = e.params(mk)
		}
		v, ret := e.callFn(mk, as, nil, True, nil)
		site := c.fnSite(mk)
		hc := component(v, 0, compType(mk.Signature.Results(), 0))
		ok := And(ret, nilRes(component(v, 1, compType(mk.Signature.Results(), 1))))
		if how == "UpdateConfig" {
			up := c.P.Method("cache", "HttpCache", "UpdateConfig")
			site = c.fnSite(up)
			e.callFn(up, []Val{hc, single(nilTerm())}, nil, ok, nil)
		} else {
			c.implies(True, ok, "no-cache-section-means-defaults", site)
		}
		get := c.P.Method("cache", "HttpCache", "Config")
		conf, _ := e.callFn(get, []Val{hc}, nil, ok, nil)
		c.implies(ok, Not(nilRes(conf)), "no-cache-section-means-defaults", site)
		st := structOf(pointee(get.Signature.Results().At(0).Type()))
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			got := e.field(conf, f.Name())
			if f.Name() == "Strict" {
				c.implies(ok, asBool(got), "strict-is-the-default", site)
				continue
			}
			switch u := f.Type().Underlying().(type) {
			case *types.Basic:
				switch {
				case u.Info()&types.IsBoolean != 0:
					c.implies(ok, Not(asBool(got)), "no-cache-section-means-defaults", site+" "+f.Name())
				case u.Info()&types.IsString != 0:
					c.implies(ok, isEmpty(got), "no-cache-section-means-defaults", site+" "+f.Name())
				}
			case *types.Pointer:
				c.implies(ok, nilRes(got), "no-cache-section-means-defaults", site+" "+f.Name())
			case *types.Slice:
				c.same(ok, each(ok, []Val{got}, func(g B, ts []*Term) Val { return single(lenT(ts[0])) }), single(intTerm(0)), "no-cache-section-means-defaults", site+" "+f.Name())
			}
		}
		c.present(e.events[n:], secs, True)
	}
	// Whatever the cache's configuration is, its methods cope with it.
	hcT := types.NewPointer(c.P.Named("cache", "HttpCache"))
	ms := c.P.prog.MethodSets.MethodSet(hcT)
	for i := 0; i < ms.Len(); i++ {
		fn := c.P.prog.MethodValue(ms.At(i))
		if fn == nil || len(fn.Blocks) == 0 || fn.Synthetic != "" || !ms.At(i).Obj().Exported() {
			continue
		}
		e := c.eval()
		e.Pure = parsers
		as := e.params(fn)
		e.callFn(fn, as, nil, Not(nilRes(as[0])), nil)
		c.present(e.events, secs, True)
	}
	// The log.
	e := c.eval()
	fn := c.P.Func("utils/logger", "InitLogger")
	site := c.fnSite(fn)
	e.callFn(fn, []Val{single(nilTerm())}, nil, True, nil)
	set := 0
	for _, ev := range e.events {
		if strings.HasSuffix(ev.Name, "zerolog.SetGlobalLevel") && sat(ev.Guard) {
			set++
			c.same(ev.Guard, ev.Args[0], single(intTerm(1)), "no-logging-section-means-info", c.site(ev))
		}
	}
	c.need(set > 0, "no-logging-section-means-info", site)
	c.present(e.events, secs, True)
}

// atomOf is the single atom of a condition.
func atomOf(b B) *Term {
	if b == True || b == False {
		return nil
	}
	return atoms[bdd.nodes[b].v]
}
