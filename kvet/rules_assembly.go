package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&rule{id: "C38", technique: "guarded value-numbering dataflow of the whole start from main() with the modules' constructors as opaque calls: agreement of their arguments, error discipline; of the proxy's transport down to the provider; field-use analysis of the configuration over the code reachable from main()",
		about: "the provider, the cache, the server and the API are each made of the loaded configuration's section and of one another, updates are applied to the cache the proxy uses; a module that cannot be made ends the process with a failure before anything is started; an eligible request to the proxy is looked up in that cache; every option of the configuration is read by code that can run",
		min:   25,
		run:   runAssembly})
}

func runAssembly(c *Check) {
	c.optionsUsed()
	c.assembled()
	c.proxied()
}

// optionsUsed: every field a configuration file can set is read.
func (c *Check) optionsUsed() {
	fields := map[*types.Var]string{}
	seen := map[types.Type]bool{}
	var walk func(t types.Type, path string)
	walk = func(t types.Type, path string) {
		t = types.Unalias(t)
		if seen[t] {
			return
		}
		seen[t] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			walk(u.Elem(), path)
		case *types.Slice:
			walk(u.Elem(), path)
		case *types.Map:
			walk(u.Elem(), path)
		case *types.Struct:
			if n, ok := t.(*types.Named); ok && (n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg().Path())) {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				key, tagged := reflect.StructTag(u.Tag(i)).Lookup("yaml")
				key = strings.Split(key, ",")[0]
				if !f.Exported() || !tagged || key == "-" {
					continue
				}
				if key == "" {
					key = strings.ToLower(f.Name())
				}
				fields[f] = strings.TrimPrefix(path+"."+key, ".")
				walk(f.Type(), path+"."+key)
			}
		}
	}
	walk(c.P.Named("config", "Configuration"), "")
	t := &taint{c: c, in: map[*ssa.Function]bool{}, val: map[ssa.Value]int{}, fld: map[*types.Var]int{}, res: map[retKey]int{}, wr: map[*ssa.Parameter]int{},
		binds: map[*ssa.FreeVar][]ssa.Value{}, bySig: map[string][]*ssa.Function{}, impl: map[string][]*ssa.Function{}}
	t.reachable()
	validate := c.P.Method("config", "Configuration", "Validate")
	used := map[*types.Var]bool{}
	for _, fn := range t.funcs {
		if fn == validate {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Field:
					if x.Referrers() != nil && len(*x.Referrers()) > 0 {
						used[fieldOf(x.X.Type(), x.Field)] = true
					}
				case *ssa.FieldAddr:
					if readsThrough(x) {
						used[fieldOf(x.X.Type(), x.Field)] = true
					}
				}
			}
		}
	}
	c.need(len(fields) > 30, "anchor", "pkg/config", "options")
	for f, path := range fields {
		c.need(used[f], "option-is-used", "option "+path, "nothing that can run reads "+c.at(f.Pos())+" "+f.Name())
	}
}

// readsThrough: the variable is not only written.
func readsThrough(a ssa.Value) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != a {
				return true
			}
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r.Op != token.MUL || r.Referrers() != nil && len(*r.Referrers()) > 0 {
				return true
			}
		case *ssa.FieldAddr:
			if readsThrough(r) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// assembled follows the start from main().
func (c *Check) assembled() {
	e := c.eval()
	e.Pure = parsers
	fn := c.P.Func(":cmd/kache", "main")
	conf := c.P.Method("config", "Loader", "Config")
	mods := []struct {
		name string
		fn   *ssa.Function
		evs  []*Event
	}{
		{name: "provider", fn: c.P.Func("provider", "CreateCacheProvider")},
		{name: "cache", fn: c.P.Func("cache", "NewHttpCache")},
		{name: "server", fn: c.P.Func("server", "NewServer")},
		{name: "api", fn: c.P.Func("api", "New")},
	}
	others := map[*ssa.Function]string{
		c.P.Method("cache", "HttpCache", "UpdateConfig"): "update",
		c.P.Method("api", "API", "Run"):                  "run API",
		c.P.Method("api", "API", "RegisterRoute"):        "register",
		c.P.Method("config", "Loader", "Watch"):          "watch",
	}
	others[c.P.Func("utils/logger", "InitLogger")] = "log setup"
	for _, m := range []string{"Start", "Await", "Shutdown"} {
		others[c.P.Method("server", "Server", m)] = m
	}
	for _, m := range mods {
		others[m.fn] = m.name
	}
	load := c.hookLoad(e, others)
	inner := e.callHook
	cfg := e.param("cfg", conf.Signature.Results().At(0).Type())
	e.callHook = func(cc *callCtx) (Val, bool) {
		if cc.fn == conf {
			if e.thread == 0 {
				return cfg, true
			}
			return single(e.fresh("reloaded", conf.Signature.Results().At(0).Type(), nil)), true
		}
		return inner(cc)
	}
	e.callFn(fn, nil, nil, True, nil)
	e.drain()
	e.callHook = nil
	evs := e.events
	site := c.fnSite(fn)
	valid := And(Not(nilRes(cfg)), asBool(e.specAt(0, "ConfigValid", cfg)))
	var starts []*Event
	over := False
	for _, ev := range evs {
		if ev.Kind != "call" {
			if ev.Kind == "go" {
				starts = append(starts, ev)
			}
			continue
		}
		for i := range mods {
			if ev.Name == mods[i].name {
				mods[i].evs = append(mods[i].evs, ev)
			}
		}
		switch {
		case ev.Name == "Start", ev.Name == "run API":
			starts = append(starts, ev)
		}
		over = Or(over, endsWithFailure(ev))
	}
	one := func(i int) *Event {
		for j, a := range mods[i].evs {
			for _, b := range mods[i].evs[:j] {
				if sat(And(a.Guard, b.Guard)) {
					// Two, one of which the others do not work on.
					c.fail("made-once", c.site(a), mods[i].name+" also made at "+c.site(b))
					return b
				}
			}
		}
		if len(mods[i].evs) != 1 || len(mods[i].evs[0].Loops) > 0 {
			panic(unresolved{"one " + mods[i].name + " made in " + site})
		}
		return mods[i].evs[0]
	}
	failed := func(ev *Event) Val { return component(ev.Ret, 1, types.Universe.Lookup("error").Type()) }
	made := func(ev *Event) Val { return component(ev.Ret, 0, nil) }
	section := func(name string) Val { return e.atMem(0, func() Val { return e.field(cfg, name) }) }
	contents := func(name string) Val {
		p := section(name)
		return e.atMem(0, func() Val {
			return each(True, []Val{p}, func(g B, ts []*Term) Val { return e.load(ts[0], deref(ts[0].typ), g) })
		})
	}
	pr, hc, srv, api := one(0), one(1), one(2), one(3)
	arg := func(ev *Event, i int, want Val, rule string) {
		c.same(And(valid, ev.Guard), ev.Args[i], want, rule, c.site(ev))
	}
	sameStruct := func(ev *Event, i int, want Val, rule string) {
		arg(ev, i, want, rule)
	}
	sameStruct(pr, 1, contents("Provider"), "made-of-its-section/provider")
	arg(hc, 0, section("HttpCache"), "made-of-its-section/cache")
	arg(hc, 1, made(pr), "works-on-the-provider/cache")
	arg(srv, 0, cfg, "made-of-its-section/server")
	arg(srv, 1, made(pr), "works-on-the-provider/server")
	arg(srv, 2, made(hc), "works-on-the-cache/server")
	sameStruct(api, 0, contents("API"), "made-of-its-section/api")
	arg(api, 1, made(srv), "works-on-the-server/api")
	n := 0
	for _, ev := range evs {
		if ev.Kind != "call" || len(ev.Args) == 0 {
			continue
		}
		switch ev.Name {
		case "update":
			arg(ev, 0, made(hc), "updates-the-cache-in-use")
			n++
		case "Start", "Await", "Shutdown":
			arg(ev, 0, made(srv), "runs-what-was-made")
			n++
		case "run API", "register":
			arg(ev, 0, made(api), "runs-what-was-made")
			n++
		}
	}
	c.need(n >= 5, "anchor", site, "use of the modules")
	// What cannot be made ends the process.
	for _, m := range []*Event{pr, hc, srv, api} {
		bad := And(valid, m.Guard, Not(nilRes(failed(m))))
		if !c.need(sat(bad), "anchor", c.site(m), "can fail") {
			continue
		}
		c.implies(bad, over, "failure-ends-the-process", c.site(m))
		for _, x := range starts {
			c.implies(And(bad, x.Guard), False, "nothing-started-after-a-failure", c.site(x))
		}
		for _, x := range []*Event{hc, srv, api} {
			if x != m && x.Seq > m.Seq {
				c.implies(And(bad, x.Guard), False, "nothing-made-after-a-failure", c.site(x))
			}
		}
	}
	// What can be made is started.
	loaded := False
	for _, ld := range *load {
		if ld.Thread == 0 {
			loaded = Or(loaded, And(ld.Guard, nilRes(ld.Ret.(*AV).f[1])))
		}
	}
	good := And(valid, loaded)
	logs := False
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Name == "log setup" && ev.Thread == 0 {
			arg(ev, 0, section("Log"), "made-of-its-section/log")
			if ev.Seq < pr.Seq {
				logs = Or(logs, ev.Guard)
			}
		}
	}
	c.implies(And(valid, pr.Guard), logs, "log-is-set-up-first", c.site(pr))
	for _, m := range []*Event{pr, hc, srv, api} {
		good = And(good, nilRes(failed(m)))
	}
	for _, name := range []string{"Start", "run API", "Await"} {
		run := False
		for _, ev := range evs {
			if ev.Kind == "call" && ev.Name == name {
				run = Or(run, ev.Guard)
			}
		}
		c.need(sat(And(good, run)), "modules-are-run", site, name)
		c.implies(And(good, Not(run)), over, "modules-are-run", site+" "+name)
	}
}

// endsWithFailure: when the event ends the process, with a status that is not zero.
func endsWithFailure(ev *Event) B {
	switch {
	case ev.Kind != "call" || ev.Thread != 0:
	case ev.Name == "os.Exit":
		r := False
		for _, a := range alts(ev.Args[0]) {
			if n, isInt := a.t.isInt(); isInt && n.Sign() != 0 {
				r = Or(r, And(ev.Guard, a.g))
			}
		}
		return r
	case strings.Contains(ev.Name, "zerolog") || strings.HasPrefix(ev.Name, "log.Fatal") || strings.HasPrefix(ev.Name, "log.Panic"):
		return ev.Guard // see endsProgram
	}
	return False
}

// proxied: requests to the proxy use the cache it was made with.
func (c *Check) proxied() {
	s := c.makeServer(true)
	e := s.e
	tr := within(e.field(s.proxy, "Transport"), s.ok)
	t := term(tr)
	site := c.site(s.th)
	if !c.need(t.op == "iface", "proxied-through-the-cache", site, "the transport is "+t.String()) {
		return
	}
	rt := c.methodOf(t.obj.(types.Type), "RoundTrip")
	as := e.params(rt)
	elig := asBool(e.spec("Eligible", as[1]))
	excl := asBool(e.spec("Excluded", s.hc, as[1]))
	n := len(e.events)
	e.callFn(rt, []Val{single(t.args[0]), as[1]}, nil, s.ok, nil)
	e.drain()
	look := False
	for _, ev := range e.events[n:] {
		if isProvider(ev) == "Get" {
			look = Or(look, ev.Guard)
			c.need(dataMentions(ev.Args[0], func(x *Term) bool { return x == term(s.hc) }), "looks-in-its-cache", c.site(ev), "the provider is "+term(ev.Args[0]).String())
		}
	}
	c.implies(And(s.ok, elig, Not(excl)), look, "proxied-through-the-cache", c.fnSite(rt))
}
