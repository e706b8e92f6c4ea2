package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&rule{id: "C28", technique: "guarded value-numbering dataflow of the update composed with every question asked of the configuration; ownership (fresh-memory) analysis of all writes; single-read and publication-order rules",
		about: "an update publishes, once and whatever its patterns, a configuration made of memory allocated in the update, and writes nothing that was there before nor anything after; afterwards every question is answered as the given configuration says, patterns that do not compile being ignored; each question reads the published configuration once; nobody else writes a cache configuration; without one the strict default applies",
		min:   25,
		run:   runLive})
}

// configTypes are the struct types a cache configuration consists of.
func (c *Check) configTypes() map[*types.Named]bool {
	out := map[*types.Named]bool{}
	pk := c.P.Func("cache", "NewHttpCache").Pkg.Pkg
	var rec func(t types.Type)
	rec = func(t types.Type) {
		switch t := types.Unalias(t).(type) {
		case *types.Named:
			st, ok := t.Underlying().(*types.Struct)
			if !ok || t.Obj().Pkg() != pk || out[t] {
				return
			}
			out[t] = true
			for i := 0; i < st.NumFields(); i++ {
				rec(st.Field(i).Type())
			}
		case *types.Pointer:
			rec(t.Elem())
		case *types.Slice:
			rec(t.Elem())
		case *types.Map:
			rec(t.Elem())
		}
	}
	rec(c.P.Func("cache", "NewHttpCache").Signature.Params().At(0).Type())
	return out
}

// rootOf is what an address is part of.
func rootOf(t *Term) *Term {
	for {
		switch {
		case (t.op == "fa" || t.op == "ia") && len(t.args) > 0:
			t = t.args[0]
		case t.op == "slice":
			t = t.args[0]
		case t.op == "append" && t.args[0].op != "nil":
			t = t.args[0]
		default:
			return t
		}
	}
}

// isFresh: the memory was allocated by the evaluated code.
func isFresh(t *Term) bool {
	switch t.op {
	case "alloc", "makeslice", "makemap", "makechan", "seq", "nil":
		return true
	case "append":
		return t.args[0].op == "nil"
	case "catslice":
		return true
	case "call":
		return strings.HasPrefix(t.sym, "slices.Clone") || strings.HasPrefix(t.sym, "maps.Clone")
	}
	return false
}

// configured: after an update the cache answers these questions as the configuration says.
func (c *Check) configured(names ...string) {
	e := c.eval()
	as := e.params(c.P.Method("cache", "HttpCache", "UpdateConfig"))
	e.callFn(c.P.Method("cache", "HttpCache", "UpdateConfig"), as, nil, Not(nilRes(as[1])), nil)
	e.drain()
	c.answersAs(e, as[0], as[1], names...)
}

// answersAs compares what the cache hc answers with its configuration cfg.
func (c *Check) answersAs(e *Eval, hc, cfg Val, names ...string) {
	given := Not(nilRes(cfg))
	str := types.Typ[types.String]
	for _, name := range names {
		fn := c.P.Method("cache", "HttpCache", name)
		ask := func(extra ...Val) Val {
			got, _ := e.callFn(fn, append([]Val{hc}, extra...), nil, given, nil)
			return got
		}
		spec, args := "", []Val(nil)
		switch name {
		case "PathTTL":
			spec, args = "ConfigTTL", []Val{e.param("path", str)}
		case "IsExcludedPath":
			spec, args = "ConfigExcludesPath", []Val{e.param("path", str)}
		case "IsExcludedHeader":
			spec, args = "ConfigExcludesHeader", []Val{e.param("header", fn.Signature.Params().At(0).Type())}
		case "IsExcludedContent":
			spec, args = "ConfigExcludesContent", []Val{e.param("content", str), e.param("length", types.Typ[types.Int64])}
		}
		if spec != "" {
			got := ask(args...)
			c.same(given, got, e.specAt(0, spec, append([]Val{cfg}, args...)...), "answers-as-configured", c.fnSite(fn))
			continue
		}
		field := map[string]string{"MarkCachedResponses": "XCache", "XCacheHeader": "XCacheName"}[name]
		if field == "" {
			field = name
		}
		got := ask()
		want := e.atMem(0, func() Val { return e.field(cfg, field) })
		g := given
		if name == "XCacheHeader" {
			g = And(given, Not(eqAny(want, strTerm(""))))
		}
		c.same(g, got, want, "answers-as-configured", c.fnSite(fn))
	}
}

func runLive(c *Check) {
	ctor := c.P.Func("cache", "NewHttpCache")
	update := c.P.Method("cache", "HttpCache", "UpdateConfig")
	cfgs := c.configTypes()
	c.need(len(cfgs) > 1, "anchor", "configuration types")
	isCfg := func(t types.Type) bool {
		p, ok := types.Unalias(t).(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := types.Unalias(p.Elem()).(*types.Named)
		return ok && cfgs[n]
	}
	e, hc, cfg := c.updated(update, cfgs, false)
	// Afterwards every question is answered by the configuration.
	c.answersAs(e, hc, cfg, "PathTTL", "IsExcludedPath", "IsExcludedHeader", "IsExcludedContent", "Strict", "MarkCachedResponses", "XCacheHeader", "DefaultCacheControl", "ForceCacheControl")
	// Without a configuration.
	sf := c.P.Method("cache", "HttpCache", "Strict")
	e1, hc1, cfg1 := c.updated(update, cfgs, true)
	got, _ := e1.callFn(sf, []Val{hc1}, nil, nilRes(cfg1), nil)
	c.implies(nilRes(cfg1), asBool(got), "strict-by-default", c.fnSite(sf))
	e2 := c.eval()
	cs := e2.params(ctor)
	v, cret := e2.callFn(ctor, cs, nil, True, nil)
	c.implies(True, cret, "update-completes", c.fnSite(ctor))
	made := component(v, 0, compType(ctor.Signature.Results(), 0))
	got2, _ := e2.callFn(sf, []Val{made}, nil, True, nil)
	c.implies(nilRes(cs[0]), asBool(got2), "strict-by-default", c.fnSite(ctor))
	c.same(Not(nilRes(cs[0])), got2, e2.atMem(0, func() Val { return e2.field(cs[0], "Strict") }), "answers-as-configured", c.fnSite(ctor))
	// Each question reads the configuration once.
	mset := c.P.prog.MethodSets.MethodSet(hc.(*GV).alts[0].t.typ)
	for i := 0; i < mset.Len(); i++ {
		fn := c.P.prog.MethodValue(mset.At(i))
		if fn == nil || !fn.Object().Exported() || fn == update || touchesProvider(fn) {
			continue
		}
		e := c.eval()
		as := e.params(fn)
		e.Run(fn, as, True)
		read := False
		var last *Event
		for _, ev := range e.events {
			if ev.Kind != "atomicload" && ev.Kind != "load" || ev.Addr == nil || ev.Addr.op != "fa" || ev.Addr.args[0] != term(as[0]) {
				continue
			}
			if ev.Kind == "load" && (ev.Addr.typ == nil || !isCfg(ev.Addr.typ.(*types.Pointer).Elem())) {
				continue
			}
			if len(ev.Held) == 0 || !within1(e, last, ev) {
				c.implies(And(read, ev.Guard), False, "one-configuration-per-answer", c.site(ev))
			}
			last = ev
			c.need(len(ev.Loops) == 0, "one-configuration-per-answer", c.site(ev))
			c.need(ev.Kind == "atomicload" || len(ev.Held) > 0, "one-configuration-per-answer", c.site(ev), "unprotected read")
			read = Or(read, ev.Guard)
		}
	}
	// Nobody else writes a configuration.
	seen := map[*ssa.Function]bool{}
	for _, ev := range e.events {
		if ev.Kind == "store" || ev.Kind == "mapwrite" {
			seen[ev.Fn] = true
		}
	}
	n := 0
	root := map[*types.Named]bool{}
	for t := range cfgs {
		root[t] = true
	}
	if o := c.P.Func("config", "NewLoader").Pkg.Pkg.Scope().Lookup("Configuration"); o != nil {
		if t, ok := o.Type().(*types.Named); ok {
			root[t] = true
		}
	}
	for _, fn := range c.P.funcs {
		if seen[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var addr ssa.Value
				switch in := in.(type) {
				case *ssa.Store:
					addr = in.Addr
				case *ssa.MapUpdate:
					addr = in.Map
				default:
					continue
				}
				w, local := c.configWrite(addr, root)
				if w {
					n++
					c.need(local || c.writesFresh(fn, in.Pos()), "nobody-else-writes", c.at(in.Pos())+" in "+shortFn(fn))
				}
			}
		}
	}
	c.tally("writes of configuration literals", n)
}

// updated evaluates an update with a configuration, or with none, and decides
// how it is published.
func (c *Check) updated(update *ssa.Function, cfgs map[*types.Named]bool, none bool) (*Eval, Val, Val) {
	e := c.eval()
	as := e.params(update)
	hc, cfg := as[0], as[1]
	in := Not(nilRes(cfg))
	if none {
		in = nilRes(cfg)
	}
	_, ret := e.callFn(update, as, nil, in, nil)
	e.drain()
	site := c.fnSite(update)
	c.implies(in, ret, "update-completes", site)
	// Publication.
	var pubs []*Event
	done := False
	for _, ev := range e.events {
		switch ev.Kind {
		case "atomicstore":
		case "store":
			// A plain field is published under a lock.
			if rootOf(ev.Addr) != term(hc) || len(ev.Held) == 0 {
				continue
			}
		default:
			continue
		}
		if rootOf(ev.Addr) != term(hc) || ev.Addr.op != "fa" {
			continue
		}
		pubs = append(pubs, ev)
		c.need(len(ev.Loops) == 0 && ev.Thread == 0, "published-once", c.site(ev))
		c.implies(And(done, ev.Guard), False, "published-once", c.site(ev))
		done = Or(done, ev.Guard)
		for _, a := range alts(ev.Args[0]) {
			if sat(And(ev.Guard, a.g)) {
				c.need(isFresh(rootOf(a.t)) && a.t.op != "nil", "publishes-a-copy", c.site(ev), a.t.String())
			}
		}
	}
	c.implies(in, done, "published-once", site)
	// Ownership: only new memory is written, and before it is published.
	writes := 0
	for _, ev := range e.events {
		if ev.Kind != "store" && ev.Kind != "mapwrite" || ev.Addr == nil {
			continue
		}
		writes++
		r := rootOf(ev.Addr)
		if r == term(hc) {
			continue
		}
		c.need(isFresh(r) || !sat(ev.Guard), "writes-only-its-copy", c.site(ev), ev.Addr.String())
		for _, p := range pubs {
			if p.Seq > ev.Seq && ev.Thread == p.Thread {
				continue
			}
			if !sat(And(ev.Guard, p.Guard)) {
				continue
			}
			for _, x := range c.owned(e, p, cfgs) {
				c.need(r != x, "complete-when-published", c.site(ev), ev.Addr.String())
			}
		}
	}
	c.tally("writes of the update", writes)
	for fn := range e.inlined {
		for _, b := range fn.Blocks {
			for _, x := range b.Instrs {
				call, ok := x.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !strings.HasPrefix(call.Call.StaticCallee().String(), "regexp.MustCompile") {
					continue
				}
				_, lit := call.Call.Args[0].(*ssa.Const)
				c.need(lit, "update-completes", c.at(x.Pos())+" in "+shortFn(fn), "a bad pattern panics")
			}
		}
	}
	return e, hc, cfg
}

// within1: no lock is taken or released between the two.
func within1(e *Eval, a, b *Event) bool {
	if a == nil {
		return true
	}
	for _, ev := range e.events {
		if ev.Kind == "lock" && ev.Seq > a.Seq && ev.Seq < b.Seq && sat(And(ev.Guard, a.Guard, b.Guard)) {
			return false
		}
	}
	return true
}

// owned are the roots of the memory a published configuration consists of.
func (c *Check) owned(e *Eval, p *Event, cfgs map[*types.Named]bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(v Val, t types.Type)
	rec = func(v Val, t types.Type) {
		for _, a := range alts(v) {
			if a.t.op == "nil" || seen[a.t] {
				continue
			}
			seen[a.t] = true
			switch t := types.Unalias(t).(type) {
			case *types.Pointer:
				n, ok := types.Unalias(t.Elem()).(*types.Named)
				if !ok || !cfgs[n] {
					continue
				}
				out = append(out, rootOf(a.t))
				st := n.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					switch f.Type().Underlying().(type) {
					case *types.Pointer, *types.Slice, *types.Map:
						rec(e.atEv(p, func() Val { return e.field(single(a.t), f.Name()) }), f.Type())
					}
				}
			case *types.Slice, *types.Map:
				out = append(out, rootOf(a.t))
			}
		}
	}
	rec(p.Args[0], c.P.Func("cache", "NewHttpCache").Signature.Params().At(0).Type())
	return out
}

// configWrite: the address is inside a cache configuration, and is memory of
// the function itself.
func (c *Check) configWrite(a ssa.Value, cfgs map[*types.Named]bool) (bool, bool) {
	cfg := false
	for {
		if p, ok := types.Unalias(a.Type()).(*types.Pointer); ok {
			if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && cfgs[n] {
				cfg = true
			}
		}
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		case *ssa.UnOp:
			// Through a pointer, slice or map.
			if cfg || c.leadsToConfig(x.X, cfgs) {
				return true, false
			}
			return false, false
		case *ssa.Alloc:
			return cfg, true
		case *ssa.MakeMap, *ssa.MakeSlice:
			return cfg, true
		default:
			return cfg, false
		}
	}
}

// writesFresh: what the function writes there was allocated by it.
func (c *Check) writesFresh(fn *ssa.Function, pos token.Pos) bool {
	if fn.Parent() != nil {
		return false
	}
	e := c.eval()
	e.Pure = parsers
	e.callFn(fn, e.params(fn), nil, True, nil)
	e.drain()
	n := 0
	for _, ev := range e.events {
		if (ev.Kind == "store" || ev.Kind == "mapwrite") && ev.Pos == pos && ev.Fn == fn {
			n++
			if sat(ev.Guard) && !isFresh(rootOf(ev.Addr)) {
				return false
			}
		}
	}
	return n > 0
}

// leadsToConfig: the address is a field of a configuration.
func (c *Check) leadsToConfig(a ssa.Value, cfgs map[*types.Named]bool) bool {
	f, ok := a.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	p := f.X.Type().Underlying().(*types.Pointer)
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && cfgs[n]
}

// touchesProvider: the method works on entries rather than the configuration.
func touchesProvider(fn *ssa.Function) bool {
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if strings.HasSuffix(ps.At(i).Type().String(), "context.Context") {
			return true
		}
	}
	return false
}
