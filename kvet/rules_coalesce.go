package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// coalescing is one evaluation of the coalescing round tripper, seen as an
// initial request (which registers a call) and as a waiting one.
type coalescing struct {
	e        *Eval
	fn       *ssa.Function
	req      Val
	ret      *AV
	up       []*Event // upstream requests
	waits    []*Event
	regs     []*Event // registrations
	dels     []*Event
	wakes    []*Event
	pub      *Term // the registered call
	regPC    B
	upPC     B // the initial request's upstream request
	upRes    *Term
	dumps    []*Event
	ctxErrs  []*Event
	panicked bool
}

func (c *Check) coalescerFn() *ssa.Function {
	e := c.eval()
	fn := c.P.Func("server/middleware", "NewCoalesced")
	v := e.Run(fn, e.params(fn), True)
	t := term(v)
	if t.op != "iface" {
		panic(unresolved{"the type of the coalescing round tripper: " + t.String()})
	}
	ct := t.obj.(types.Type)
	o, _, _ := types.LookupFieldOrMethod(ct, true, nil, "RoundTrip")
	m, ok := o.(*types.Func)
	if !ok {
		panic(unresolved{"RoundTrip of the coalescing round tripper"})
	}
	f := c.P.lookupMethod(ct, m)
	if f == nil {
		panic(unresolved{"RoundTrip of the coalescing round tripper"})
	}
	return f
}

// coalesce evaluates RoundTrip for any request. during gives fields of the
// registered call their values while the upstream works; after gives those of
// the call waited for their values at the wake-up.
func (c *Check) coalesce(fn *ssa.Function, name string, panics bool, during, after map[int]Val) *coalescing {
	e := c.eval()
	e.Pure = parsers
	e.freshLoads = true
	k := &coalescing{e: e, fn: fn, panicked: panics}
	t := e.param("coalescer", fn.Params[0].Type())
	k.req = e.param(name, fn.Params[1].Type())
	e.callHook = func(cc *callCtx) (Val, bool) {
		switch {
		case cc.name == "(net/http.RoundTripper).RoundTrip" || cc.name == "(*net/http.Transport).RoundTrip":
			var pubs []alt
			for _, ev := range e.events {
				if ev.Kind == "mapwrite" && ev.Name == "set" && !ev.Fresh {
					for _, a := range alts(ev.Args[1]) {
						if a.t.op == "alloc" {
							pubs = append(pubs, alt{And(ev.Guard, a.g), a.t})
						}
					}
				}
			}
			if panics {
				// The call panics: the pending deferred calls run.
				e.event(&Event{Kind: "call", Guard: cc.pc, Name: cc.name, Fn: cc.caller(), Pos: cc.pos(), Args: cc.args, Common: cc.common})
				e.shared(pubs, cc.pc, during)
				fs := e.frames
				for i := len(fs) - 1; i >= 0; i-- {
					ds := fs[i].defers
					for j := len(ds) - 1; j >= 0; j-- {
						if g := And(cc.pc, ds[j].g); g != False {
							e.invoke(ds[j].fn, ds[j].call, ds[j].args, g, cc.at)
						}
					}
				}
				cc.pc = False
				return zeroVal(cc.resType()), true
			}
			v := e.impureCall(cc)
			e.shared(pubs, cc.pc, during)
			return v, true
		case cc.name == "(*sync.Cond).Wait" && after != nil:
			e.event(&Event{Kind: "call", Guard: cc.pc, Name: cc.name, Fn: cc.caller(), Pos: cc.pos(), Args: cc.args, Common: cc.common})
			for _, a := range alts(cc.args[0]) {
				if o := owner(a.t); o != nil {
					e.setFields(o, after, And(cc.pc, a.g))
				}
			}
			return nil, true
		}
		return nil, false
	}
	v := e.Run(fn, []Val{t, k.req}, True)
	k.ret, _ = v.(*AV)
	if k.ret == nil {
		panic(unresolved{"result of " + shortFn(fn)})
	}
	for _, ev := range e.events {
		switch {
		case isUpstream(ev):
			k.up = append(k.up, ev)
		case ev.Kind == "call" && ev.Name == "(*sync.Cond).Wait":
			k.waits = append(k.waits, ev)
		case ev.Kind == "call" && (ev.Name == "(*sync.Cond).Broadcast" || ev.Name == "(*sync.Cond).Signal"):
			k.wakes = append(k.wakes, ev)
		case ev.Kind == "call" && strings.HasSuffix(ev.Name, "httputil.DumpResponse"):
			k.dumps = append(k.dumps, ev)
		case ev.Kind == "call" && ev.Name == "(context.Context).Err":
			k.ctxErrs = append(k.ctxErrs, ev)
		case ev.Kind == "mapwrite" && !ev.Fresh && ev.Name == "set":
			k.regs = append(k.regs, ev)
			k.regPC = Or(k.regPC, ev.Guard)
			for _, a := range alts(ev.Args[1]) {
				if a.t.op == "alloc" {
					k.pub = a.t
				}
			}
		case ev.Kind == "mapwrite" && !ev.Fresh && ev.Name == "delete":
			k.dels = append(k.dels, ev)
		}
	}
	if len(k.waits) == 0 || len(k.regs) == 0 || k.pub == nil {
		panic(unresolved{"wait and registration in " + shortFn(fn)})
	}
	for _, ev := range k.up {
		if len(ev.Args) > 1 && sat(And(ev.Guard, k.regPC)) {
			k.upPC = And(ev.Guard, k.regPC)
			k.upRes = ev.RetT
		}
	}
	return k
}

// owner is the object whose field was read to get t.
func owner(t *Term) *Term {
	for t != nil {
		switch {
		case t.op == "iface":
			t = t.args[0]
			continue
		case t.op == "load" && len(t.args) > 0 && t.args[0].op == "fa":
			return t.args[0].args[0]
		case t.op == "fa":
			return t.args[0]
		}
		return nil
	}
	return nil
}

// shared forgets what others may change in the published objects.
func (e *Eval) shared(pubs []alt, pc B, during map[int]Val) {
	for _, p := range pubs {
		if g := And(pc, p.g); sat(g) {
			e.havocShared(p.t, g, "shared")
			e.setFields(p.t, during, g)
		}
	}
}

func (e *Eval) setFields(o *Term, vals map[int]Val, g B) {
	st := structOf(deref(o.typ))
	if st == nil {
		return
	}
	for i, v := range vals {
		e.store(faT(o, i, st), v, st.Field(i).Type(), g)
	}
}

// finals are the mutable fields of the registered call after n writes.
func (k *coalescing) finals(n int) map[int]Val {
	st := structOf(deref(k.pub.typ))
	out := map[int]Val{}
	k.e.atMem(n, func() Val {
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if k.e.P.mutable(st.Field(i)) {
				out[i] = k.e.load(faT(k.pub, i, st), st.Field(i).Type(), k.regPC)
			}
		}
		return nil
	})
	return out
}

// own is the condition under which the response returned is one of the
// upstream's to this request.
func (k *coalescing) own() B {
	r := False
	for _, ev := range k.up {
		if ev.RetT == nil || len(ev.Args) < 2 {
			continue
		}
		same := And(ev.Guard, ptrEq(ev.Args[1], k.req))
		for _, a := range alts(k.ret.f[0]) {
			if a.t.op == "comp" && a.t.sym == "0" && a.t.args[0] == ev.RetT {
				r = Or(r, And(same, a.g))
			}
		}
	}
	return r
}

// asked is the condition under which the request itself went upstream after n.
func (k *coalescing) asked(n int) B {
	r := False
	for _, ev := range k.up {
		if ev.Seq > n && len(ev.Args) > 1 {
			r = Or(r, And(ev.Guard, ptrEq(ev.Args[1], k.req)))
		}
	}
	return r
}

func (k *coalescing) waited() B {
	r := False
	for _, w := range k.waits {
		r = Or(r, w.Guard)
	}
	return r
}

func nilRes(v Val) B { return eqAny(v, nilTerm()) }

// during are the fields a waiting request sets before it waits.
func (k *coalescing) during() map[int]Val {
	out := map[int]Val{}
	for _, w := range k.waits {
		for _, a := range alts(w.Args[0]) {
			o := owner(a.t)
			if o == nil {
				continue
			}
			for _, wr := range k.e.logAt(w) {
				if wr.val == nil || wr.addr.op != "fa" || wr.addr.args[0] != o {
					continue
				}
				i := fieldIndex(wr.addr)
				if _, ok := structOf(deref(o.typ)).Field(i).Type().Underlying().(*types.Basic); ok {
					out[i] = wr.val
				}
			}
		}
	}
	return out
}

func init() {
	const how = "guarded value-numbering dataflow from the coalescing round tripper; "
	register(&rule{id: "C11", technique: how + "the waiting request's evaluation composed with the initial request's final state",
		about: "requests register and wait only if they may share; the key is the request's full URL; a response handed to waiting requests is the complete dump of the upstream's response to the initial request and not private or no-store; a waiting request that may not share goes upstream itself; the initial response is returned untouched",
		min:   14,
		run: func(c *Check) {
			fn := c.coalescerFn()
			w := c.coalesce(fn, "req1", false, nil, nil)
			may := asBool(w.e.spec("Shareable", w.req))
			key := w.e.spec("URLOf", w.req)
			for _, ev := range append(append([]*Event(nil), w.waits...), w.regs...) {
				c.implies(ev.Guard, may, "only-shareable-requests-coalesce", c.site(ev))
			}
			reg := w.regs[0].Addr
			for _, ev := range w.e.events {
				if (ev.Kind == "mapread" || ev.Kind == "mapwrite") && ev.Addr == reg && len(ev.Args) > 0 {
					c.same(ev.Guard, ev.Args[0], key, "one-call-per-URL", c.site(ev))
				}
			}
			// Without waiting the response is the upstream's to the request itself.
			nowait := Not(w.waited())
			c.implies(And(nowait, Not(nilRes(w.ret.f[0]))), w.own(), "own-response", c.fnSite(fn))
			c.implies(And(nowait, nilRes(w.ret.f[0])), Or(Not(eqAny(w.ret.f[1], nilTerm())), w.own()), "own-error", c.fnSite(fn))
			c.implies(True, Or(w.waited(), w.asked(-1)), "own-request", c.fnSite(fn))

			i := c.coalesce(fn, "init", false, w.during(), nil)
			resp := i.upRes
			if resp == nil || len(i.wakes) == 0 {
				panic(unresolved{"upstream request and wake-up of the initial request"})
			}
			res := component(single(resp), 0, compType(resp.typ, 0))
			errv := component(single(resp), 1, compType(resp.typ, 1))
			// The initial requester's response stays untouched.
			c.implies(And(i.upPC, Not(nilRes(i.ret.f[0]))), i.own(), "initial-response-is-upstream's", c.fnSite(fn))
			f := i.e.flowFrom([]*Term{term(res)}, nil)
			for _, ev := range i.e.events {
				if ev.Kind != "call" || !f.reach[ev] || isDumpAny(ev) {
					continue
				}
				for _, a := range ev.Args {
					bad := dataMentions(a, func(t *Term) bool {
						return t == term(res) && !isUpstream(ev) || t.op == "load" && fieldName(t.args[0]) == "Body" && t.args[0].args[0] == term(res)
					})
					c.need(!bad, "initial-body-untouched", c.site(ev)+" "+ev.Name)
				}
			}
			for _, ev := range i.e.evs(func(ev *Event) bool { return ev.Kind == "store" && ev.Addr.op == "fa" && ev.Addr.args[0] == term(res) }) {
				c.fail("initial-response-unmodified", c.site(ev))
			}
			c.need(true, "initial-response-unmodified", c.fnSite(fn))

			for _, wake := range i.wakes {
				fin := i.finals(wake.Mem)
				x := c.coalesce(fn, "req1", false, nil, fin)
				pc := And(x.waited(), And(wake.Guard, i.upPC))
				noStore := asBool(i.e.specEv(wake, "NoStoreRes", res))
				failed := Or(Not(eqAny(errv, nilTerm())), nilRes(res))
				shared := And(Not(nilRes(x.ret.f[0])), Not(x.own()))
				asked := x.asked(x.waits[0].Seq)
				c.implies(And(pc, And(shared, Not(asked))), And(Not(failed), Not(noStore)), "shares-only-what-may-be-shared", c.site(wake))
				c.implies(And(pc, And(Not(failed), noStore)), asked, "unshareable-response-is-requested-again", c.site(wake))
				// The shared response is the complete dump.
				full, lost := False, False
				for _, d := range i.dumps {
					if len(d.Args) < 2 || d.RetT == nil {
						continue
					}
					c.implies(d.Guard, asBool(d.Args[1]), "shared-with-body", c.site(d))
					lost = Or(lost, And(d.Guard, Not(errNil(d))))
					for _, ev := range x.e.events {
						if ev.Kind != "call" || ev.Name != "net/http.ReadResponse" || ev.RetT == nil {
							continue
						}
						lost = Or(lost, And(ev.Guard, Or(Not(errNil(ev)), nilRes(component(ev.Ret, 0, nil)))))
						method := Or(nilRes(ev.Args[1]), ptrEq(ev.Args[1], x.req))
						for _, a := range alts(ev.Args[0]) {
							src := False
							for _, b := range splitDump(a.t, d) {
								src = Or(src, b)
							}
							for _, r := range alts(x.ret.f[0]) {
								if r.t.op == "comp" && r.t.sym == "0" && r.t.args[0] == ev.RetT {
									full = Or(full, And(r.g, And(And(ev.Guard, a.g), And(And(src, method), And(d.Guard, And(errNil(d), ptrEq(d.Args[0], res)))))))
								}
							}
						}
					}
				}
				c.implies(And(pc, And(shared, Not(asked))), full, "shared-response-is-complete", c.site(wake))
				c.implies(And(pc, Not(Or(failed, lost))), Or(asked, shared), "waiting-request-gets-a-response", c.site(wake))
				c.implies(And(x.waited(), And(asked, Not(nilRes(x.ret.f[0])))), x.own(), "asked-response-is-own", c.fnSite(fn))
			}
		}})

	register(&rule{id: "C12", technique: how + "evaluation of normal, failing and panicking ends, order of effects under the locks",
		about: "for every way the upstream request ends: the call is removed from the map and the waiting requests are woken, in that order; lookup, registration and the decision to wait are atomic, nothing can be woken in between; no lock is held during an upstream request; a waiting request of a cancelled or panicked call goes upstream or gets an error",
		min:   20,
		run: func(c *Check) {
			fn := c.coalescerFn()
			w := c.coalesce(fn, "req1", false, nil, nil)
			dur := w.during()
			for _, pan := range []bool{false, true} {
				i := c.coalesce(fn, "init", pan, dur, nil)
				end := "/response-or-error"
				if pan {
					end = "/panic"
				}
				reg := i.regs[0]
				del, wake := False, False
				for _, d := range i.dels {
					if d.Addr == reg.Addr && d.Seq > reg.Seq {
						del = Or(del, And(d.Guard, Not(diff(d.Guard, d.Args[0], reg.Args[0]))))
					}
				}
				for _, b := range i.wakes {
					if b.Name != "(*sync.Cond).Broadcast" {
						continue
					}
					for _, a := range alts(b.Args[0]) {
						cond := i.condOf(b.Mem)
						if cond != nil && a.t == cond {
							wake = Or(wake, And(b.Guard, a.g))
						}
					}
					before := False
					for _, d := range i.dels {
						if d.Addr == reg.Addr && d.Seq < b.Seq {
							before = Or(before, d.Guard)
						}
					}
					c.implies(And(b.Guard, i.regPC), before, "removed-before-wake-up"+end, c.site(b))
					c.implies(And(b.Guard, i.regPC), i.heldOf(b, i.condOf(b.Mem)), "woken-under-its-lock"+end, c.site(b))
					// Nothing the waiting requests read changes afterwards.
					for _, wr := range i.e.log[b.Mem:] {
						if wr.addr.op == "fa" && wr.addr.args[0] == i.pub && sat(And(wr.g, b.Guard)) {
							c.fail("outcome-complete-at-wake-up"+end, c.site(b))
						}
					}
				}
				c.announced(w, i, end)
				c.implies(i.regPC, del, "call-is-removed"+end, c.site(reg))
				c.implies(i.regPC, wake, "waiting-requests-are-woken"+end, c.site(reg))
				// The composition: no waiting request is left without an answer.
				for _, wk := range i.wakes {
					x := c.coalesce(fn, "req1", false, nil, i.finals(wk.Mem))
					pc := And(x.waited(), wk.Guard)
					c.implies(And(pc, Not(x.asked(x.waits[0].Seq))), Or(Not(nilRes(x.ret.f[0])), Not(eqAny(x.ret.f[1], nilTerm()))), "waiting-request-is-answered"+end, c.site(wk))
					if !pan {
						gone := False
						for _, ce := range i.ctxErrs {
							if ce.RetT != nil {
								gone = Or(gone, And(ce.Guard, Not(eqAny(single(ce.RetT), nilTerm()))))
							}
						}
						c.implies(And(pc, gone), x.asked(x.waits[0].Seq), "answered-although-the-initial-client-left", c.site(wk))
						seen := False
						for _, ce := range i.ctxErrs {
							seen = Or(seen, And(ce.Guard, boolB(ce.Seq > reg.Seq && i.afterUpstream(ce) && i.ofRequest(ce))))
						}
						c.implies(And(i.regPC, wk.Guard), seen, "disconnect-is-noticed", c.site(wk))
					}
				}
			}
			// Atomicity of lookup and registration, lookup and wait.
			reg := w.regs[0]
			for _, r := range w.e.evs(func(ev *Event) bool { return ev.Kind == "mapread" && ev.Addr == reg.Addr }) {
				for _, s := range w.regs {
					if s.Seq > r.Seq && sat(And(s.Guard, r.Guard)) {
						c.guarded(w.e, r, s, "lookup-and-registration-atomic")
					}
				}
				for _, wt := range w.waits {
					if wt.Seq < r.Seq || !sat(And(wt.Guard, r.Guard)) {
						continue
					}
					c.handOver(w, r, wt)
				}
			}
			for _, k := range w.waits {
				for l, s := range k.Held {
					if l != w.lockOfCond(k) {
						c.implies(And(k.Guard, Or(s.w, s.r)), False, "waits-without-other-locks", c.site(k)+" "+l.String())
					}
				}
				c.need(true, "waits-without-other-locks", c.site(k))
			}
			for _, u := range w.up {
				for l, s := range u.Held {
					c.implies(And(u.Guard, Or(s.w, s.r)), False, "no-lock-during-upstream-request", c.site(u)+" "+l.String())
				}
				c.need(true, "no-lock-during-upstream-request", c.site(u))
			}
			for _, ev := range w.e.evs(func(ev *Event) bool { return ev.Kind == "lockerr" }) {
				c.fail("locks-balanced", c.site(ev), ev.Note)
			}
			for l, s := range w.e.locks {
				c.implies(Or(s.w, s.r), False, "no-lock-left-behind", l.String())
			}
		}})
}

func isDumpAny(ev *Event) bool { return strings.HasSuffix(ev.Name, "httputil.DumpResponse") }

// splitDump are the conditions under which t reads from the bytes of the dump d.
func splitDump(t *Term, d *Event) []B {
	var out []B
	var rec func(t *Term, g B)
	rec = func(t *Term, g B) {
		if t.op == "ite" {
			for i, a := range t.args {
				rec(a, And(g, t.bs[i]))
			}
			return
		}
		if t.op == "comp" && t.sym == "0" && t.args[0] == d.RetT {
			out = append(out, g)
			return
		}
		for _, a := range t.args {
			rec(a, g)
		}
	}
	rec(t, True)
	return out
}

// condOf is the condition of the registered call.
func (k *coalescing) condOf(n int) *Term {
	st := structOf(deref(k.pub.typ))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == "*sync.Cond" {
			var t *Term
			k.e.atMem(n, func() Val {
				t = term(simp(k.e.load(faT(k.pub, i, st), st.Field(i).Type(), k.regPC), k.regPC))
				return nil
			})
			return t
		}
		if st.Field(i).Type().String() == "sync.Cond" {
			return faT(k.pub, i, st)
		}
	}
	return nil
}

// heldOf is the condition under which the lock of cond is held at ev.
func (k *coalescing) heldOf(ev *Event, cond *Term) B {
	if cond == nil {
		return False
	}
	r := False
	for _, a := range alts(k.condLock(cond, ev.Mem)) {
		r = Or(r, And(a.g, ev.Held[lockTerm(a.t)].w))
	}
	return r
}

func (k *coalescing) condLock(cond *Term, n int) Val {
	return k.e.atMem(n, func() Val { return k.e.field(single(cond), "L") })
}

func (k *coalescing) lockOfCond(w *Event) *Term {
	return lockTerm(term(simp(k.condLock(term(simp(w.Args[0], w.Guard)), w.Mem), w.Guard)))
}

// guarded: one lock is held exclusively from a to b.
func (c *Check) guarded(e *Eval, a, b *Event, rule string) {
	g := And(a.Guard, b.Guard)
	ok := false
	for l, s := range a.Held {
		if sat(And(g, Not(s.w))) || sat(And(g, Not(b.Held[l].w))) {
			continue
		}
		free := false
		for _, ev := range e.events[a.Seq:b.Seq] {
			free = free || ev.Kind == "lock" && ev.Addr == l && strings.HasSuffix(ev.Name, "Unlock") && sat(And(ev.Guard, g))
		}
		ok = ok || !free
	}
	c.need(ok, rule, c.site(b))
}

// announced: what waiting requests announce, the initial request reads under a
// lock they hold when they announce it.
func (c *Check) announced(w, i *coalescing, end string) {
	for _, wt := range w.waits {
		for _, a := range alts(wt.Args[0]) {
			o := owner(a.t)
			for _, st := range w.e.events[:wt.Seq] {
				if st.Kind != "store" || st.Fresh || st.Addr.op != "fa" || o == nil || st.Addr.args[0] != o || !sat(And(st.Guard, wt.Guard)) {
					continue
				}
				for _, rd := range i.e.events[i.regs[0].Seq:] {
					if rd.Kind != "load" || rd.Addr.op != "fa" || rd.Addr.args[0] != i.pub || fieldIndex(rd.Addr) != fieldIndex(st.Addr) || !sat(And(rd.Guard, i.regPC)) {
						continue
					}
					held := False
					for l, s := range st.Held {
						switch {
						case sat(And(st.Guard, Not(s.w))):
						case l == w.lockOfCond(wt):
							held = Or(held, i.heldOf(rd, i.condOf(rd.Mem)))
						default:
							held = Or(held, Or(rd.Held[l].w, rd.Held[l].r))
						}
					}
					c.implies(And(rd.Guard, i.regPC), held, "announcement-read-under-lock"+end, c.site(rd))
				}
			}
		}
	}
}

// handOver: from the lookup to the wait the map's lock or the call's is held.
func (c *Check) handOver(k *coalescing, look, wait *Event) {
	g := And(look.Guard, wait.Guard)
	l := k.lockOfCond(wait)
	c.implies(g, wait.Held[l].w, "waits-under-its-lock", c.site(wait))
	c.implies(g, heldAny(look), "looked-up-under-a-lock", c.site(look))
	var got *Event
	for _, ev := range k.e.events[look.Seq:wait.Seq] {
		if ev.Kind != "lock" || !sat(And(ev.Guard, g)) {
			continue
		}
		if ev.Addr == l {
			c.need(!strings.HasSuffix(ev.Name, "Unlock"), "no-wake-up-lost", c.site(ev), "the call's lock is released before the wait")
			if ev.Name == "Lock" && got == nil {
				got = ev
				held := False
				for m, s := range look.Held {
					if m != l {
						held = Or(held, And(s.w, ev.Held[m].w))
					}
				}
				c.implies(g, held, "no-wake-up-lost", c.site(ev))
			}
		} else if got == nil && strings.HasSuffix(ev.Name, "Unlock") {
			c.fail("no-wake-up-lost", c.site(ev), "the map is unlocked before the call is locked")
		}
	}
	if got == nil {
		c.fail("no-wake-up-lost", c.site(wait), "the call is not locked between lookup and wait")
	}
	// What the waiting request announces is announced under the call's lock.
	for _, ev := range k.e.events[look.Seq:wait.Seq] {
		if ev.Kind == "store" && !ev.Fresh && sat(And(ev.Guard, g)) {
			c.implies(And(ev.Guard, g), ev.Held[l].w, "announced-under-the-call's-lock", c.site(ev))
		}
	}
}

func heldAny(ev *Event) B {
	r := False
	for _, s := range ev.Held {
		r = Or(r, s.w)
	}
	return r
}

// afterUpstream: the event follows the initial upstream request.
func (k *coalescing) afterUpstream(ev *Event) bool {
	for _, u := range k.up {
		if u.Seq < ev.Seq && sat(And(u.Guard, k.regPC)) {
			return true
		}
	}
	return false
}

// ofRequest: the context is the request's.
func (k *coalescing) ofRequest(ev *Event) bool {
	return len(ev.Args) > 0 && dataMentions(ev.Args[0], func(t *Term) bool { return t == term(k.req) })
}

func fieldIndex(t *Term) int {
	i, _ := strconv.Atoi(t.sym)
	return i
}
