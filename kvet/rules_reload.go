package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&rule{id: "C29", technique: "guarded value-numbering dataflow of a load composed with the accessors and with a second load, of the watcher and of the process; error-path, must-follow and who-triggers rules",
		about: "the configuration and its checksum change only if reading and decoding succeeded; every failure is reported; loading the same content again changes nothing; a changed valid file becomes active and is reported as changed; unknown keys are errors; strict mode is set before decoding; watcher, SIGHUP and reload endpoint apply the loaded configuration exactly if the load reported a change, and a failed load ends none of them",
		min:   40,
		run:   runReload})
}

func isFileRead(name string) bool {
	switch name {
	case "os.ReadFile", "io/ioutil.ReadFile", "io.ReadAll", "io/ioutil.ReadAll":
		return true
	}
	return false
}

func isDecode(name string) bool {
	return strings.HasSuffix(name, "yaml.v3.Decoder).Decode") || name == "gopkg.in/yaml.v3.Unmarshal"
}

// source is what a decoder or hash reads, wrappers taken off.
func source(t *Term) *Term {
	for {
		if t.op == "iface" || t.op == "conv" {
			t = t.args[0]
			continue
		}
		if t.op == "call" || t.op == "ret" {
			switch n := t.sym; {
			case strings.HasPrefix(n, "gopkg.in/yaml.v3.NewDecoder"), strings.HasPrefix(n, "bytes.NewReader"), strings.HasPrefix(n, "bytes.NewBuffer"), strings.HasPrefix(n, "strings.NewReader"), strings.HasPrefix(n, "bytes.Clone"), strings.HasPrefix(n, "bufio.NewReader"):
				if len(t.args) > 0 {
					t = t.args[0]
					continue
				}
			}
		}
		return t
	}
}

func runReload(c *Check) {
	c.loads()
	c.watches()
	c.applies()
}

func (c *Check) loads() {
	load := c.P.Method("config", "Loader", "Load")
	site := c.fnSite(load)
	e := c.eval()
	e.Pure = parsers
	as := e.params(load)
	l := as[0]
	obs := func(name string) Val {
		v, _ := e.callFn(c.P.Method("config", "Loader", name), []Val{l}, nil, True, nil)
		return v
	}
	path := obs("Path")
	q := len(e.events)
	cfg0, sum0 := obs("Config"), obs("Checksum")
	observed := map[*Term]bool{}
	for _, ev := range e.events[q:] {
		if (ev.Kind == "load" || ev.Kind == "atomicload") && ev.Addr != nil && rootOf(ev.Addr) == term(l) {
			observed[ev.Addr] = true
		}
	}
	c.need(len(observed) >= 2, "anchor", site, "what Config and Checksum read")
	q = len(e.events)
	v, ret := e.callFn(load, as, nil, True, nil)
	e.drain()
	c.implies(True, ret, "load-returns", site)
	evs := e.events[q:]
	changed, err := asBool(component(v, 0, types.Typ[types.Bool])), component(v, 1, compType(load.Signature.Results(), 1))
	content := map[*Term]bool{}
	var readEv *Event
	failed, decoded := False, False
	var decs []*Event
	for _, ev := range evs {
		if ev.Kind != "call" {
			continue
		}
		switch {
		case isFileRead(ev.Name) || ev.Name == "os.Open":
			if ev.Name != "io.ReadAll" && ev.Name != "io/ioutil.ReadAll" {
				c.same(ev.Guard, ev.Args[0], path, "reads-its-file", c.site(ev))
			}
			if isFileRead(ev.Name) {
				readEv = ev
				content[term(component(ev.Ret, 0, compType(ev.Common.Signature().Results(), 0)))] = true
			}
		case isDecode(ev.Name):
			decs = append(decs, ev)
		default:
			continue
		}
		for _, x := range errorsOf(ev) {
			failed = Or(failed, And(ev.Guard, Not(nilRes(x))))
			if isDecode(ev.Name) {
				decoded = Or(decoded, And(ev.Guard, nilRes(x)))
			}
		}
	}
	if !c.need(readEv != nil && len(decs) > 0, "anchor", site, "reads and decodes") {
		return
	}
	ok := And(decoded, Not(failed))
	c.need(sat(failed) && sat(ok), "both-outcomes", site)
	// Failures.
	c.implies(failed, Not(nilRes(err)), "failure-is-reported", site)
	c.implies(failed, Not(changed), "failure-is-reported", site)
	cfg1, sum1 := obs("Config"), obs("Checksum")
	c.same(Not(ok), cfg1, cfg0, "kept-on-failure", site)
	c.same(Not(ok), sum1, sum0, "kept-on-failure", site)
	for _, ev := range evs {
		if ev.Kind != "store" && ev.Kind != "atomicstore" || !observed[ev.Addr] {
			continue
		}
		c.implies(ev.Guard, ok, "kept-on-failure", c.site(ev))
		for _, d := range decs {
			if sat(And(d.Guard, ev.Guard)) {
				c.need(d.Seq < ev.Seq, "kept-on-failure", c.site(ev), "changed before the content is decoded")
			}
		}
		c.need(len(ev.Loops) == 0 && ev.Thread == 0, "kept-on-failure", c.site(ev))
	}
	// Success.
	c.implies(ok, And(nilRes(err), changed), "change-is-reported", site)
	c.implies(changed, ok, "change-is-reported", site)
	for _, d := range decs {
		dsite := c.site(d)
		x := d.Args[len(d.Args)-1]
		if t := term(x); t.op == "iface" {
			x = single(t.args[0])
		}
		c.same(And(ok, d.Guard), cfg1, x, "becomes-active", dsite)
		c.need(isFresh(rootOf(term(x))), "becomes-active", dsite, "decodes into memory of its own: "+vstr(x))
		src := source(term(d.Args[0]))
		c.need(content[src], "decodes-what-was-read", dsite, src.String())
		c.strictKeys(e, evs, d)
		// Strict mode, before and after.
		strict := e.atEv(d, func() Val {
			hc := e.field(x, "HttpCache")
			c.implies(d.Guard, Not(nilRes(hc)), "strict-by-default", dsite)
			return e.field(notNil(hc, d.Guard), "Strict")
		})
		c.implies(d.Guard, asBool(strict), "strict-by-default", dsite)
		after := -1
		for _, ev := range evs {
			if ev.Seq > d.Seq && ev.Thread == d.Thread {
				after = ev.Mem
				break
			}
		}
		if after < 0 {
			after = len(e.log)
		}
		hc0 := e.atMem(after, func() Val { return e.field(x, "HttpCache") })
		s0 := e.atMem(after, func() Val { return e.field(notNil(hc0, True), "Strict") })
		hc1 := e.field(x, "HttpCache")
		g := And(And(ok, d.Guard), Not(nilRes(hc0)))
		c.same(g, hc1, hc0, "as-configured", dsite)
		c.same(g, e.field(notNil(hc0, True), "Strict"), s0, "as-configured", dsite)
		g = And(And(And(ok, d.Guard), nilRes(hc0)), Not(nilRes(hc1)))
		c.implies(g, asBool(e.field(notNil(hc1, True), "Strict")), "strict-by-default", dsite)
	}
	c.need(mentions(within(sum1, ok), func(t *Term) bool { return content[t] }), "checksum-of-the-file", site, vstr(sum1))
	// No change: only if the checksum of the whole content is the recorded one.
	quiet := And(And(ret, nilRes(err)), Not(changed))
	c.need(sat(quiet), "both-outcomes", site)
	equal := False
	for _, a := range atomsOf(quiet) {
		has, whole, mine := false, true, false
		mentions(single(a), func(t *Term) bool {
			if observed[t] || t.op == "load" && len(t.args) > 0 && observed[t.args[0]] {
				mine = true
			}
			for _, x := range t.args {
				if content[x] {
					has = true
					if t.op == "slice" || t.op == "ia" || t.op == "len" {
						whole = false
					}
				}
			}
			return false
		})
		if has && whole && mine && (a.op == "eq" || a.op == "call" && strings.HasPrefix(a.sym, "bytes.Equal") || a.op == "eqstr") {
			equal = Or(equal, atom(a))
		}
	}
	c.implies(quiet, equal, "a-changed-file-is-loaded", site)
	// The same content again changes nothing.
	e.callHook = func(cc *callCtx) (Val, bool) {
		if cc.name == readEv.Name {
			return readEv.Ret, true
		}
		return nil, false
	}
	q = len(e.events)
	v2, ret2 := e.callFn(load, as, nil, ok, nil)
	e.drain()
	e.callHook = nil
	c.implies(ok, And(ret2, And(Not(asBool(component(v2, 0, types.Typ[types.Bool]))), nilRes(component(v2, 1, compType(load.Signature.Results(), 1))))), "unchanged-is-not-applied", site)
	for _, ev := range e.events[q:] {
		if (ev.Kind == "store" || ev.Kind == "atomicstore") && observed[ev.Addr] {
			c.implies(ev.Guard, False, "unchanged-is-not-applied", c.site(ev))
		}
	}
	// The loader loads its file.
	e = c.eval()
	e.Pure = parsers
	ctor := c.P.Func("config", "NewLoader")
	lds := c.hookLoad(e, nil)
	ps := e.params(ctor)
	nv, nret := e.callFn(ctor, ps, nil, True, nil)
	e.drain()
	site = c.fnSite(ctor)
	c.implies(True, nret, "loads-at-startup", site)
	made, nerr := component(nv, 0, compType(ctor.Signature.Results(), 0)), component(nv, 1, compType(ctor.Signature.Results(), 1))
	okL := False
	for _, ld := range *lds {
		okL = Or(okL, And(ld.Guard, nilRes(component(ld.Ret, 1, nil))))
		c.same(And(ld.Guard, nilRes(nerr)), ld.Args[0], made, "loads-at-startup", c.site(ld))
	}
	c.implies(nilRes(nerr), okL, "loads-at-startup", site)
	c.implies(okL, nilRes(nerr), "loads-at-startup", site)
	good := nilRes(nerr)
	for name, i := range map[string]int{"Path": 0, "AutoReload": 1} {
		fn := c.P.Method("config", "Loader", name)
		got, _ := e.callFn(fn, []Val{within(made, good)}, nil, good, nil)
		c.same(good, got, ps[i], "as-told", c.fnSite(fn))
	}
}

// nonNil is the value where it is not nil.
func notNil(v Val, g B) Val {
	var gs []alt
	for _, a := range alts(v) {
		if a.t.op != "nil" && sat(And(g, a.g)) {
			gs = append(gs, a)
		}
	}
	if gs == nil {
		panic(unresolved{"only nil"})
	}
	return &GV{alts: gs}
}

// strictKeys: the decoder rejects unknown keys.
func (c *Check) strictKeys(e *Eval, evs []*Event, d *Event) {
	known := False
	if d.Name != "gopkg.in/yaml.v3.Unmarshal" {
		for _, ev := range evs {
			if ev.Kind != "call" || !strings.HasSuffix(ev.Name, "Decoder).KnownFields") || ev.Seq > d.Seq || term(ev.Args[0]) != term(d.Args[0]) {
				continue
			}
			known = Or(And(known, Not(ev.Guard)), And(ev.Guard, asBool(ev.Args[1])))
		}
	}
	c.implies(d.Guard, known, "unknown-keys-are-errors", c.site(d))
}

// hookLoad replaces loading by any outcome, and records the other functions.
func (c *Check) hookLoad(e *Eval, others map[*ssa.Function]string) *[]*Event {
	load := c.P.Method("config", "Loader", "Load")
	var lds []*Event
	e.callHook = func(cc *callCtx) (Val, bool) {
		if cc.fn == load {
			ev := e.event(&Event{Kind: "call", Guard: cc.pc, Name: "Loader.Load", Fn: cc.caller(), Pos: cc.pos(), Args: cc.args, Common: cc.common})
			// A failed load reports no change.
			err := single(e.fresh("loadErr", cc.resType().(*types.Tuple).At(1).Type(), nil))
			ev.Ret = &AV{f: []Val{And(atom(e.fresh("changed", types.Typ[types.Bool], nil)), nilRes(err)), err}}
			lds = append(lds, ev)
			return ev.Ret, true
		}
		if n, ok := others[cc.fn]; ok && cc.fn != nil {
			ev := e.event(&Event{Kind: "call", Guard: cc.pc, Name: n, Fn: cc.caller(), Pos: cc.pos(), Args: cc.args, Common: cc.common})
			t := cc.resType()
			if t == nil {
				return nil, true
			}
			if tt, ok := t.(*types.Tuple); ok && tt.Len() == 0 {
				return nil, true
			}
			ev.Ret = opaque(e.fresh(n, t, nil), t)
			return ev.Ret, true
		}
		return nil, false
	}
	return &lds
}

// newConfig: the load reported a new configuration.
func newConfig(ld *Event) B {
	return And(ld.Guard, And(nilRes(ld.Ret.(*AV).f[1]), asBool(ld.Ret.(*AV).f[0])))
}

// goesOn: the goroutine something happens in, in a loop, does not end because
// of it.
func (c *Check) goesOn(evs []*Event, x *Event, g B, rule string) {
	if x.Thread == 0 {
		return
	}
	c.need(len(x.Loops) > 0, rule, c.site(x), "again and again")
	for _, ev := range after(evs, x) {
		if ev.Kind == "return" && len(ev.Stack) <= 1 || ev.Kind == "panic" || ev.Kind == "exec" {
			c.implies(And(g, ev.Guard), False, rule, c.site(ev))
		}
	}
}

// loadsOn: neither does it end because of what a load returned.
func (c *Check) loadsOn(evs []*Event, ld *Event) {
	bad := Not(nilRes(ld.Ret.(*AV).f[1]))
	c.goesOn(evs, ld, And(ld.Guard, bad), "failed-load-does-not-end-it")
	c.goesOn(evs, ld, And(ld.Guard, Not(bad)), "change-does-not-end-it")
}

// carried splits a condition on what a loop carries along: in the first
// iteration, and in one that follows another.
func (e *Eval) carried(g B) (first, next B, ok bool) {
	in, on := map[*Term]*Term{}, map[*Term]*Term{}
	back := True
	for _, st := range e.progress {
		if st.state != nil && !st.leaves && mentions(g, func(t *Term) bool { return t == st.state }) {
			in[st.state], on[st.state] = term(st.init), term(st.next)
			back = And(back, st.g)
		}
	}
	if len(in) == 0 {
		return g, False, false
	}
	return newSubst(in).B(g), And(back, newSubst(on).B(g)), true
}

func (c *Check) watches() {
	watch := c.P.Method("config", "Loader", "Watch")
	site := c.fnSite(watch)
	e := c.eval()
	e.Pure = parsers
	lds := c.hookLoad(e, nil)
	as := e.params(watch)
	l := as[0]
	events := e.field(l, "Events")
	e.callFn(watch, as, nil, True, nil)
	e.drain()
	reported := False
	n := 0
	for _, ev := range e.events {
		for _, cs := range chanCases(ev) {
			if !cs.send || !is(cs.ch, events) {
				continue
			}
			n++
			// Nothing but the end of the loader keeps it from being told.
			csite := c.site(ev)
			c.need(ev.Kind == "send" || ev.Note == "blocking", "change-is-told", csite, "may be dropped")
			for _, o := range chanCases(ev) {
				if o == cs {
					continue
				}
				ct, ok := term(o.ch).typ.Underlying().(*types.Chan)
				st, isSt := (*types.Struct)(nil), false
				if ok {
					st, isSt = ct.Elem().Underlying().(*types.Struct)
				}
				c.need(!o.send && isSt && st.NumFields() == 0, "change-is-told", csite, "may be dropped")
			}
			told := And(ev.Guard, asBool(cs.val))
			why, ever := False, False
			for _, ld := range *lds {
				ever = Or(ever, newConfig(ld))
				if ld.Seq < ev.Seq {
					why = Or(why, newConfig(ld))
				}
			}
			if first, next, ok := e.carried(told); ok {
				// What an earlier iteration loaded, or what was loaded before.
				c.implies(first, why, "only-changes-are-told", csite)
				c.implies(next, ever, "only-changes-are-told", csite)
				reported = Or(reported, first, next)
				continue
			}
			c.implies(told, why, "only-changes-are-told", csite)
			reported = Or(reported, told)
		}
	}
	c.need(n > 0, "change-is-told", site)
	loop := 0
	for _, ld := range *lds {
		c.same(ld.Guard, ld.Args[0], l, "watches-its-file", c.site(ld))
		told := False
		for _, ev := range e.events {
			for _, cs := range chanCases(ev) {
				if !cs.send || !is(cs.ch, events) {
					continue
				}
				t := And(ev.Guard, asBool(cs.val))
				first, next, ok := e.carried(t)
				if !ok {
					first, next = t, False
				}
				if ev.Seq > ld.Seq {
					told = Or(told, first)
				}
				if len(ld.Loops) > 0 && ev.Thread == ld.Thread {
					told = Or(told, next)
				}
			}
		}
		c.implies(newConfig(ld), told, "change-is-told", c.site(ld))
		c.loadsOn(e.events, ld)
		if len(ld.Loops) > 0 {
			loop++
		}
		if ld.Thread != 0 {
			// Every tick loads.
			for _, ev := range e.events {
				if ev.Thread != ld.Thread {
					continue
				}
				for _, cs := range chanCases(ev) {
					if !cs.send && isTimer(term(cs.ch)) {
						c.implies(cs.g, ld.Guard, "loads-at-every-tick", c.site(ld))
						loop++
					}
				}
			}
			c.need(logged(after(e.events, ld)) != False, "failure-is-reported", c.site(ld))
			c.implies(And(ld.Guard, Not(nilRes(ld.Ret.(*AV).f[1]))), logged(after(e.events, ld)), "failure-is-reported", c.site(ld))
		}
	}
	c.need(loop >= 2, "loads-at-every-tick", site)
	_ = reported
}

// after are the events of the thread that follow.
func after(evs []*Event, x *Event) []*Event {
	var out []*Event
	for _, ev := range evs {
		if ev.Thread == x.Thread && ev.Seq > x.Seq {
			out = append(out, ev)
		}
	}
	return out
}

// is: one of the values of v is x.
func is(v, x Val) bool {
	for _, a := range alts(v) {
		if a.t == term(x) {
			return true
		}
	}
	return false
}

// isTimer: a channel that delivers ticks.
func isTimer(t *Term) bool {
	ct, ok := t.typ.Underlying().(*types.Chan)
	return ok && ct.Elem().String() == "time.Time"
}

func (c *Check) applies() {
	e := c.eval()
	e.Pure = parsers
	fn := c.P.Method("kache", "Kache", "Run")
	reg := c.P.Method("api", "API", "RegisterRoute")
	watch := c.P.Method("config", "Loader", "Watch")
	update := c.P.Method("cache", "HttpCache", "UpdateConfig")
	site := c.fnSite(fn)
	var routes []*callCtx
	lds := c.hookLoad(e, map[*ssa.Function]string{watch: "Loader.Watch", update: "HttpCache.UpdateConfig"})
	hook := e.callHook
	e.callHook = func(cc *callCtx) (Val, bool) {
		if cc.fn == reg {
			d := *cc
			routes = append(routes, &d)
			return nil, true
		}
		return hook(cc)
	}
	as := e.params(fn)
	k := as[0]
	loader := c.loaderOf(e, k)
	e.callFn(fn, as, nil, True, nil)
	e.drain()
	// The handlers registered.
	ps := c.serveHTTP().Type().(*types.Signature).Params()
	own := len(*lds)
	for _, cc := range routes {
		c.handle(e, cc.args[3], e.param("w", ps.At(0).Type()), e.param("request", ps.At(1).Type()), cc.pc)
		e.drain()
	}
	auto, _ := e.callFn(c.P.Method("config", "Loader", "AutoReload"), []Val{loader}, nil, True, nil)
	events := e.field(loader, "Events")
	// What is told to the watcher's listener.
	type trigger struct {
		ev *Event
		g  B
	}
	var trs []trigger
	watched := False
	for _, ev := range e.events {
		if ev.Kind == "call" && ev.Name == "Loader.Watch" {
			c.same(ev.Guard, ev.Args[0], loader, "watcher-runs", c.site(ev))
			c.need(!mentions(ev.Args[1], func(t *Term) bool { return strings.Contains(t.sym, "context.With") }), "watcher-runs", c.site(ev), vstr(ev.Args[1]))
			watched = Or(watched, ev.Guard)
		}
		for _, cs := range chanCases(ev) {
			if cs.send || !is(cs.ch, events) {
				continue
			}
			val, open := cs.val, True
			if v, ok := val.(*AV); ok {
				val, open = v.f[0], asBool(v.f[1])
			}
			trs = append(trs, trigger{ev, And(And(cs.g, open), asBool(val))})
			c.need(ev.Thread != 0, "change-is-applied", c.site(ev), "besides the server")
			c.goesOn(e.events, ev, And(cs.g, open), "change-does-not-end-it")
		}
	}
	c.implies(asBool(auto), watched, "watcher-runs", site)
	c.implies(watched, asBool(auto), "watcher-runs", site)
	c.need(len(trs) > 0, "change-is-applied", site, "changes told by the watcher")
	for i, ld := range *lds {
		c.same(ld.Guard, ld.Args[0], loader, "loads-its-file", c.site(ld))
		trs = append(trs, trigger{ld, newConfig(ld)})
		if i < own {
			c.loadsOn(e.events, ld)
		}
	}
	// SIGHUP.
	hup := c.listensTo(e.events, 1)
	c.need(len(hup) > 0, "sighup-loads", site)
	loads := 0
	for ch, on := range hup {
		for _, ev := range e.events {
			for _, cs := range chanCases(ev) {
				if cs.send || term(cs.ch) != ch {
					continue
				}
				isHup := And(cs.g, eqAny(cs.val, on.sig))
				did := False
				for _, ld := range (*lds)[:own] {
					if ld.Thread == ev.Thread && ld.Seq > ev.Seq {
						did = Or(did, ld.Guard)
						loads++
						if ld.Thread != 0 {
							c.implies(And(ld.Guard, Not(nilRes(ld.Ret.(*AV).f[1]))), logged(after(e.events, ld)), "failure-is-reported", c.site(ld))
						}
					}
				}
				c.implies(isHup, did, "sighup-loads", c.site(ev))
				c.need(len(ev.Loops) > 0 && ev.Thread != 0, "sighup-loads", c.site(ev), "again and again")
			}
		}
		c.implies(Not(asBool(auto)), on.g, "sighup-loads", site)
	}
	c.need(loads > 0, "sighup-loads", site)
	// Every change is applied, and nothing else.
	applied := 0
	for _, tr := range trs {
		did := False
		for _, ev := range e.events {
			if ev.Kind == "call" && ev.Name == "HttpCache.UpdateConfig" && ev.Thread == tr.ev.Thread && ev.Seq > tr.ev.Seq {
				did = Or(did, ev.Guard)
			}
		}
		c.implies(tr.g, did, "change-is-applied", c.site(tr.ev))
	}
	cache := e.field(k, "Cache")
	for _, ev := range e.events {
		if ev.Kind != "call" || ev.Name != "HttpCache.UpdateConfig" {
			continue
		}
		applied++
		why := False
		for _, tr := range trs {
			if tr.ev.Thread == ev.Thread && tr.ev.Seq < ev.Seq {
				why = Or(why, tr.g)
			}
		}
		usite := c.site(ev)
		c.implies(ev.Guard, why, "unchanged-is-not-applied", usite)
		c.same(ev.Guard, ev.Args[0], cache, "applied-to-the-cache", usite)
		observed := c.observedBy(e, "Config", loader)
		cur := e.atEv(ev, func() Val {
			v, _ := e.callFn(c.P.Method("config", "Loader", "Config"), []Val{loader}, nil, True, nil)
			return e.field(v, "HttpCache")
		})
		c.same(ev.Guard, ev.Args[1], cur, "applies-what-was-loaded", usite)
		// Of two updates the later applies the later configuration.
		read := False
		for _, ld := range e.events {
			if (ld.Kind == "atomicload" || ld.Kind == "load") && ld.Thread == ev.Thread && ld.Seq < ev.Seq && observed[ld.Addr] && oneSection(e, ld, ev) {
				read = Or(read, ld.Guard)
			}
		}
		c.implies(ev.Guard, read, "latest-configuration-wins", usite)
	}
	c.need(applied >= 3, "change-is-applied", site, "three triggers")
}

// observedBy is the memory of the loader a method reads.
func (c *Check) observedBy(e *Eval, name string, loader Val) map[*Term]bool {
	out := map[*Term]bool{}
	q := len(e.events)
	e.callFn(c.P.Method("config", "Loader", name), []Val{loader}, nil, True, nil)
	for _, ev := range e.events[q:] {
		if (ev.Kind == "load" || ev.Kind == "atomicload") && ev.Addr != nil && rootOf(ev.Addr) == term(loader) {
			out[ev.Addr] = true
		}
	}
	e.events = e.events[:q]
	return out
}

// oneSection: a lock is held from the one to the other.
func oneSection(e *Eval, a, b *Event) bool {
next:
	for m, s := range a.Held {
		for _, ev := range e.events {
			if ev.Kind == "lock" && ev.Addr == m && ev.Thread == a.Thread && ev.Seq > a.Seq && ev.Seq < b.Seq && sat(And(ev.Guard, And(a.Guard, b.Guard))) {
				continue next
			}
		}
		if t, ok := b.Held[m]; ok {
			if _, bad := feasible(And(a.Guard, Not(s.w))); bad {
				continue
			}
			if _, bad := feasible(And(b.Guard, Not(t.w))); !bad {
				return true
			}
		}
	}
	return false
}

// loaderOf is the loader the process was made with.
func (c *Check) loaderOf(e *Eval, k Val) Val {
	st := pointee(term(k).typ)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if pkg, name := namedPtr(st.Field(i).Type()); strings.HasSuffix(pkg, "/config") && name == "Loader" {
			return e.field(k, st.Field(i).Name())
		}
	}
	panic(unresolved{"the loader of " + term(k).String()})
}

// listens is a channel a signal is delivered to.
type listens struct {
	g   B
	sig *Term // the signal, as an interface value
}

// listensTo are the channels a signal is delivered to.
func (c *Check) listensTo(evs []*Event, sig int64) map[*Term]*listens {
	out := map[*Term]*listens{}
	for _, ev := range evs {
		if ev.Kind != "call" || ev.Name != "os/signal.Notify" {
			continue
		}
		xs, ok := elems(term(ev.Args[1]))
		if !ok {
			continue
		}
		for _, x := range xs {
			if x.op != "iface" {
				continue
			}
			if n, ok := x.args[0].isInt(); ok && n.IsInt64() && n.Int64() == sig {
				ch := term(ev.Args[0])
				if out[ch] == nil {
					out[ch] = &listens{False, x}
				}
				out[ch].g = Or(out[ch].g, ev.Guard)
			}
		}
	}
	return out
}
