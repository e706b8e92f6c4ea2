package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var parsers = map[string]bool{
	modPath + "/pkg/cache.ParseRequestCacheControl":  true,
	modPath + "/pkg/cache.ParseResponseCacheControl": true,
}

// spec evaluates a function of the specification in the current state.
func (e *Eval) spec(name string, args ...Val) Val {
	q, p := e.quiet, e.loops
	e.quiet = true
	v, _ := e.callFn(e.P.Spec(name), args, nil, True, nil)
	e.quiet, e.loops = q, p
	return v
}

// specAt evaluates a function of the specification in the memory after the
// first n writes.
func (e *Eval) specAt(n int, name string, args ...Val) Val {
	return e.atMem(n, func() Val { return e.spec(name, args...) })
}

// logAt is the write log an event sees.
func (e *Eval) logAt(ev *Event) []write {
	if ev.capt != nil {
		return ev.capt.log[:ev.Mem:ev.Mem]
	}
	return e.log[:ev.Mem:ev.Mem]
}

// atEv evaluates f in the memory of an event.
func (e *Eval) atEv(ev *Event, f func() Val) Val {
	save, q := e.log, e.quiet
	e.log, e.quiet = e.logAt(ev), true
	v := f()
	e.log, e.quiet = save, q
	return v
}

// specEv evaluates a function of the specification in the memory of an event.
func (e *Eval) specEv(ev *Event, name string, args ...Val) Val {
	return e.atEv(ev, func() Val { return e.spec(name, args...) })
}

func (e *Eval) atMem(n int, f func() Val) Val {
	save, q := e.log, e.quiet
	e.log, e.quiet = e.log[:n:n], true
	v := f()
	e.log, e.quiet = save, q
	return v
}

// field loads a field of the struct p points to (in the current memory).
func (e *Eval) field(p Val, name string) Val {
	if a, ok := p.(*AV); ok && a.typ != nil {
		return structField(p, a.typ, name)
	}
	if g, ok := p.(*GV); ok && len(g.alts) == 1 && g.alts[0].t.typ != nil && structOf(g.alts[0].t.typ) != nil {
		return structField(p, g.alts[0].t.typ, name)
	}
	return each(True, []Val{p}, func(g B, ts []*Term) Val {
		a, ft := fieldAddr(ts[0], name)
		return e.load(a, ft, g)
	})
}

// structField is a field of a struct value.
func structField(v Val, typ types.Type, name string) Val {
	st := structOf(typ)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return component(v, i, typ)
		}
	}
	panic(unresolved{"field " + name + " of " + typ.String()})
}

func fieldAddr(t *Term, name string) (*Term, types.Type) {
	if t.typ == nil {
		panic(unresolved{"field " + name + " of untyped " + t.String()})
	}
	pt, ok := t.typ.Underlying().(*types.Pointer)
	if !ok {
		panic(unresolved{"field " + name + " of " + t.typ.String()})
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		panic(unresolved{"field " + name + " of " + t.typ.String()})
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return faT(t, i, st), st.Field(i).Type()
		}
	}
	panic(unresolved{"field " + name + " of " + t.typ.String()})
}

// header loads the lines of header k of the map h, and whether it is present.
func (e *Eval) header(h Val, k *Term) (Val, B) {
	v := each(True, []Val{h}, func(g B, ts []*Term) Val {
		x, p := e.mapLoad(ts[0], k, strSlice, g)
		return &AV{f: []Val{x, p}}
	}).(*AV)
	return v.f[0], asBool(v.f[1])
}

// rt is the evaluation of the caching round tripper.
type rt struct {
	e            *Eval
	fn           *ssa.Function
	t, req       Val
	cache        Val
	ret          Val
	elig, excl   B
	strict       B
	sent         B      // the upstream is contacted
	made         *Event // the lookup result is made
	up           []*Event
	res, resTime Val // cached response
	now          Val
}

func (c *Check) roundTrip(pure ...string) *rt {
	e := c.eval()
	fn := c.P.Method("server/middleware", "Transport", "RoundTrip")
	return c.roundTripOn(e, e.params(fn)[0], pure...)
}

// roundTripOn evaluates RoundTrip of the transport t on any request.
func (c *Check) roundTripOn(e *Eval, t Val, pure ...string) *rt {
	first := len(e.events)
	e.Pure = map[string]bool{}
	for k := range parsers {
		e.Pure[k] = true
	}
	for _, p := range pure {
		if p[0] != '(' {
			p = pkgp + p
		}
		e.Pure[p] = true
	}
	r := &rt{e: e, fn: c.P.Method("server/middleware", "Transport", "RoundTrip")}
	as := e.params(r.fn)
	as[0] = t
	r.t, r.req = as[0], as[1]
	r.cache = e.field(r.t, "Cache")
	r.elig = asBool(e.spec("Eligible", r.req))
	r.excl = asBool(e.spec("Excluded", r.cache, r.req))
	r.strict = asBool(e.spec("Strict", r.cache))
	r.ret = e.Run(r.fn, as, True)
	for _, ev := range e.events[first:] {
		if isUpstream(ev) {
			r.up = append(r.up, ev)
			r.sent = Or(r.sent, ev.Guard)
		}
		if ev.Kind == "enter" && ev.Fn.Name() == "makeResult" && fnPkgPath(ev.Fn) == pkgp+"cache" {
			if r.made != nil {
				panic(unresolved{"more than one lookup result is made in RoundTrip"})
			}
			r.made = ev
		}
	}
	if r.made == nil || len(r.up) == 0 {
		panic(unresolved{"no lookup result or no upstream call in RoundTrip"})
	}
	r.res, r.resTime = within(r.made.Args[1], r.made.Guard), within(r.made.Args[2], r.made.Guard)
	r.now = e.atEv(r.made, func() Val { return e.field(r.made.Args[0], "Timestamp") })
	return r
}

// age is the age of the cached response when the lookup result is made.
func (r *rt) age() Val {
	e := r.e
	return e.atEv(r.made, func() Val {
		h, _ := fieldAddr(term(r.res), "Header")
		v, _ := e.static(e.P.Func("cache", "CalculateAge"), []Val{single(h), r.resTime, r.now}, nil, True, nil, nil)
		return v
	})
}

const pkgp = modPath + "/pkg/"

func isProvider(ev *Event) string {
	if ev.Kind == "call" && strings.HasPrefix(ev.Name, "("+pkgp+"provider.Provider).") {
		return ev.Name[strings.LastIndex(ev.Name, ".")+1:]
	}
	return ""
}

func isUpstream(ev *Event) bool {
	return ev.Kind == "call" && (ev.Name == "(net/http.RoundTripper).RoundTrip" || ev.Name == "(*net/http.Transport).RoundTrip")
}

func (e *Eval) evs(pred func(ev *Event) bool) []*Event {
	var out []*Event
	for _, ev := range e.events {
		if pred(ev) {
			out = append(out, ev)
		}
	}
	return out
}

func init() {
	const how = "guarded value-numbering dataflow from the transport's entry point; "
	register(&rule{id: "C01", technique: how + "guard implication of every cache effect",
		about: "every call of the cache provider reachable from Transport.RoundTrip must be guarded by the eligibility of the request; on the complement the returned response must be the upstream's for the unmodified request",
		min:   5,
		run: func(c *Check) {
			r := c.roundTrip()
			n := 0
			for _, ev := range r.e.events {
				if isProvider(ev) != "" {
					n++
					c.implies(ev.Guard, r.elig, "cache-effect-needs-eligible-request", c.site(ev)+" "+ev.Name)
				}
			}
			c.need(n >= 3, "anchor", "provider calls from RoundTrip")
			c.passThrough(r, Not(r.elig), "ineligible-request-goes-upstream")
		}})

	register(&rule{id: "C02", technique: how + "guard implication of every store, coverage of the complement by a removal or a failed store",
		about: "every Set reachable from Transport.RoundTrip must be guarded by: not HEAD, and in strict mode the storability of the response that is serialized and of the request; for every eligible request answered by the upstream either Set, Delete or a failing step in between is reached; a response to GET that is storable, not excluded and no validation is stored unless a step fails",
		min:   4,
		run: func(c *Check) {
			c.configured("Strict")
			r := c.roundTrip(fnName(c.P.Method("cache", "HttpCache", "IsExcludedContent")))
			e := r.e
			notHead, noStore := asBool(e.specAt(0, "NotHead", r.req)), asBool(e.specAt(0, "NoStoreReq", r.req))
			dumps := e.evs(func(ev *Event) bool { return ev.Kind == "call" && ev.Name == "net/http/httputil.DumpResponse" })
			c.need(len(dumps) > 0, "anchor", "serialization of the response")
			done, stored := False, False
			for _, ev := range e.events {
				switch isProvider(ev) {
				case "Set":
					done, stored = Or(done, ev.Guard), Or(stored, ev.Guard)
					c.implies(ev.Guard, notHead, "no-store-of-HEAD", c.site(ev))
					c.implies(And(ev.Guard, r.strict), Not(noStore), "no-store-request", c.site(ev))
					from := False
					for _, d := range dumps {
						if e.flowFrom([]*Term{d.RetT}, nil).in(ev.Args[2], ev) {
							from = Or(from, d.Guard)
							ok := asBool(e.specEv(d, "Storable", d.Args[0]))
							c.implies(And(ev.Guard, d.Guard, r.strict), ok, "store-needs-storable-response", c.site(ev))
						}
					}
					c.implies(ev.Guard, from, "stored-value-is-a-serialized-response", c.site(ev))
				case "Delete":
					done = Or(done, ev.Guard)
				}
			}
			ok := False
			for _, u := range r.up {
				ok = Or(ok, And(u.Guard, errNil(u)))
			}
			failed := False
			use := And(r.elig, Not(r.excl))
			afterUp := func(ev *Event) bool {
				for _, u := range r.up {
					if ev.Seq < u.Seq && sat(And(use, ev.Guard, u.Guard)) {
						return false
					}
				}
				return true
			}
			for _, ev := range e.events {
				if ev.Kind == "call" && !isUpstream(ev) && ev.RetT != nil && afterUp(ev) {
					if en := errNil(ev); en != True {
						failed = Or(failed, And(ev.Guard, Not(en)))
					}
				}
			}
			c.implies(And(use, ok, Not(done)), failed, "not-stored-is-removed", c.fnSite(r.fn))
			// What may be stored is stored.
			av := r.ret.(*AV)
			end := len(e.log)
			may := Or(Not(r.strict), And(asBool(e.specAt(end, "Storable", av.f[0])), Not(noStore)))
			out := asBool(e.specAt(end, "ExcludedRes", r.cache, av.f[0]))
			for _, u := range r.up {
				up := component(u.Ret, 0, nil)
				is304 := And(r.made.Guard, eqAny(e.atEv(u, func() Val { return e.field(up, "StatusCode") }), intTerm(304)))
				c.implies(And(use, u.Guard, errNil(u), notHead, may, Not(out), Not(is304)), Or(stored, failed), "storable-response-is-stored", c.fnSite(r.fn))
			}
		}})

	register(&rule{id: "C03", technique: how + "comparison of the serve-from-cache condition with a specification over the same terms",
		about: "Transport.RoundTrip returns without calling the upstream in strict mode only if the specified usability condition holds for the cached response, the request and the calculated age, and does so whenever the response is fresh; LookupRequest.makeResult likewise classifies any response",
		min:   3,
		run: func(c *Check) {
			c.configured("Strict")
			r := c.roundTrip("cache.CalculateAge")
			e := r.e
			age := r.age()
			dem := asBool(e.specEv(r.made, "Demanded", r.req, r.res, age))
			fresh := asBool(e.specEv(r.made, "Fresh", r.req, r.res, age))
			stale := asBool(e.specEv(r.made, "Stale", r.req, r.res, age))
			use := And(r.elig, Not(r.excl), r.strict)
			c.implies(And(use, Not(r.sent)), And(r.made.Guard, Not(dem), Or(fresh, stale)), "served-from-cache-only-if-usable", c.fnSite(r.fn))
			c.implies(And(use, r.made.Guard, Not(dem), fresh), Not(r.sent), "fresh-response-is-served-from-cache", c.fnSite(r.fn))
			// A max-stale without value is the largest duration: adding to it overflows.
			unlimited := structField(e.specEv(r.made, "RequestCC", r.req), c.P.Named("cache", "RequestCacheControl"), "MaxStale")
			for _, s := range e.sums {
				for _, p := range [2][2]Val{{s.x, s.y}, {s.y, s.x}} {
					for _, a := range alts(p[0]) {
						for _, u := range alts(unlimited) {
							if a.t != u.t || a.t.isConst() {
								continue
							}
							for _, o := range alts(p[1]) {
								g := And(s.g, And(a.g, And(use, And(o.g, eqT(a.t, intTerm(1<<63-1))))))
								c.implies(g, leT(o.t, intTerm(0)), "any-staleness-is-accepted", c.at(s.pos)+" in "+shortFn(s.fn))
							}
						}
					}
				}
			}
			ret := r.ret.(*AV)
			c.same(And(use, Not(r.sent)), ret.f[0], r.res, "the-cached-response-is-returned", c.fnSite(r.fn))
			c.same(And(use, Not(r.sent)), ret.f[1], single(nilTerm()), "without-error", c.fnSite(r.fn))
		}})

	register(&rule{id: "C10", technique: "value comparison with a specification function over the same terms; sign analysis of the TTL argument",
		about: "HttpCache.PathTTL and DefaultTTL agree with the specification for every configuration and path, and every Set reachable from Transport.RoundTrip passes exactly that TTL for the request's path, which is positive",
		min:   4,
		run: func(c *Check) {
			e := c.eval()
			for _, n := range []string{"PathTTL", "DefaultTTL"} {
				fn := c.P.Method("cache", "HttpCache", n)
				as := e.params(fn)
				want := e.spec(n, as...)
				c.same(True, e.Run(fn, as, True), want, "ttl-as-specified", c.fnSite(fn))
			}
			c.configured("PathTTL")
			r := c.roundTrip("cache.CalculateAge")
			want := r.e.specAt(0, "PathTTL", r.cache, r.e.atMem(0, func() Val { return r.e.field(r.e.field(r.req, "URL"), "Path") }))
			n := 0
			for _, ev := range r.e.events {
				if isProvider(ev) == "Set" {
					n++
					c.same(ev.Guard, ev.Args[3], want, "stored-with-ttl-of-path", c.site(ev))
					c.positive(ev.Guard, ev.Args[3], "ttl-positive", c.site(ev))
				}
			}
			c.need(n > 0, "anchor", "stores from RoundTrip")
		}})
}

// positive: the duration is greater than zero.
func (c *Check) positive(g B, v Val, rule, site string) {
	bad := False
	for _, a := range altsOf(v) {
		bad = Or(bad, And(g, a.g, leT(a.t, intTerm(0))))
	}
	c.implies(bad, False, rule, site)
}

// dependsOn: the value is computed from term t.
func dependsOn(v Val, t *Term) bool {
	return t != nil && mentions(v, func(x *Term) bool { return x == t })
}

// errNil: the error result of a call is nil.
func errNil(ev *Event) B {
	av, ok := ev.Ret.(*AV)
	if !ok {
		if g, ok := ev.Ret.(*GV); ok && len(g.alts) == 1 && g.alts[0].t.typ != nil && g.alts[0].t.typ.String() == "error" {
			return eqT(g.alts[0].t, nilTerm())
		}
		return True
	}
	l := term(av.f[len(av.f)-1])
	if l.typ != nil && l.typ.String() == "error" {
		return eqT(l, nilTerm())
	}
	return True
}

// passThrough: within g the result is the upstream's own for the same request.
func (c *Check) passThrough(r *rt, g B, rule string) {
	site := c.fnSite(r.fn)
	av := r.ret.(*AV)
	sent := False
	for _, ev := range r.e.events {
		if isUpstream(ev) && sat(And(ev.Guard, g)) {
			c.same(And(ev.Guard, g), ev.Args[1], r.req, rule+"/request", c.site(ev))
			sent = Or(sent, ev.Guard)
		}
	}
	c.implies(g, sent, rule+"/sent", site)
	for _, a := range altsOf(av.f[0]) {
		ag := And(a.g, g)
		if !sat(ag) {
			continue
		}
		ok := False
		for _, ev := range r.e.events {
			if isUpstream(ev) && ev.RetT != nil && a.t == mk("comp", "0", a.t.typ, []*Term{ev.RetT}) {
				ok = Or(ok, ev.Guard)
			}
		}
		c.implies(ag, ok, rule+"/response", site)
	}
}

func init() {
	const how = "guarded value-numbering dataflow from the entry points; "
	register(&rule{id: "C05", technique: how + "value comparison with a specification function over the same terms",
		about: "CalculateAge agrees with the specified age for every header, time of receipt and time; every response Transport.RoundTrip returns from the cache has exactly that age as its Age header",
		min:   3,
		run: func(c *Check) {
			e := c.eval()
			fn := c.P.Func("cache", "CalculateAge")
			as := e.params(fn)
			want := e.spec("Age", as...)
			c.same(True, e.Run(fn, as, True), want, "age-as-specified", c.fnSite(fn))
			r := c.roundTrip("cache.CalculateAge")
			av := r.ret.(*AV)
			use := And(r.elig, Not(r.excl), Not(r.sent))
			lines, has := r.e.header(r.e.field(single(term(r.res)), "Header"), strTerm("Age"))
			c.implies(use, has, "age-header-present", c.fnSite(r.fn))
			age := r.age()
			for _, a := range altsOf(lines) {
				g, ok := feasible(And(use, has, a.g))
				if !ok {
					continue
				}
				one := a.t.op == "seq" && len(a.t.args) == 1
				if !c.need(one, "age-header-is-one-line", c.fnSite(r.fn), a.t.String()) {
					continue
				}
				c.secondsOf(g, a.t.args[0], age, "age-header-is-the-age", c.fnSite(r.fn))
			}
			c.same(use, av.f[0], r.res, "the-cached-response-is-returned", c.fnSite(r.fn))
			c.timeOfReceipt(r)
		}})
}

// secondsOf: within g the string t is the duration d in whole seconds.
func (c *Check) secondsOf(g B, t *Term, d Val, rule, site string) {
	x := t
	for {
		switch {
		case x.op == "iface" || x.op == "conv" || x.op == "call" && strings.HasPrefix(x.sym, "fmt%"):
			if x.op == "call" && !map[string]bool{"fmt%.0f": true, "fmt%d": true, "fmt%v": true, "fmt%s": true}[x.sym] {
				c.fail(rule, site, "format "+x.sym)
				return
			}
			x = x.args[0]
			continue
		case x.op == "call" && (x.sym == "itoa" || x.sym == "strconv.Itoa" || x.sym == "strconv.FormatInt" || x.sym == "strconv.FormatFloat" || x.sym == "strconv.FormatUint" ||
			strings.HasPrefix(x.sym, "math.")):
			x = x.args[0]
			continue
		}
		break
	}
	switch {
	case x.op == "call" && x.sym == "(time.Duration).Seconds":
		c.same(g, single(x.args[0]), d, rule, site)
	case x.op == "call" && strings.HasPrefix(x.sym, "(time.Duration)."):
		c.fail(rule, site, "unit "+x.sym)
	default:
		// Another way to write seconds: it must be computed from the age.
		ok := false
		for _, a := range altsOf(d) {
			ok = ok || dataMentions(single(x), func(y *Term) bool { return y == a.t })
		}
		c.need(ok, rule, site, x.String())
	}
}

// get is the first value of a header.
func (e *Eval) get(h Val, k string) Val {
	l, _ := e.header(h, strTerm(k))
	return each(True, []Val{l}, func(g B, ts []*Term) Val { return first1(ts[0]) })
}

func isEmpty(v Val) B {
	r := False
	for _, a := range altsOf(v) {
		r = Or(r, And(a.g, eqT(a.t, strTerm(""))))
	}
	return r
}

// ptrEq: two values may be the same object.
func ptrEq(a, b Val) B {
	r := False
	for _, x := range altsOf(a) {
		for _, y := range altsOf(b) {
			r = Or(r, And(x.g, y.g, eqT(x.t, y.t)))
		}
	}
	return r
}

func eqAny(v Val, t *Term) B {
	r := False
	for _, a := range altsOf(v) {
		r = Or(r, And(a.g, eqT(a.t, t)))
	}
	return r
}

// line: within g the header k is the one line v.
func (c *Check) line(e *Eval, n int, g B, h func() Val, k string, v Val, rule, site string) {
	var l Val
	var has B
	e.atMem(n, func() Val { l, has = e.header(h(), strTerm(k)); return nil })
	if !c.implies(g, has, rule, site) {
		return
	}
	c.same(And(g, has), each(True, []Val{l}, func(g B, ts []*Term) Val { return first1(ts[0]) }), v, rule, site)
}

func init() {
	const how = "guarded value-numbering dataflow from the transport's entry point; "
	register(&rule{id: "C06", technique: how + "comparison of the header maps (for an arbitrary key) of the validation request and of the returned response with the specified ones, guard implication of the refresh",
		about: "for every upstream call made while a cached response is at hand, the request sent carries the validators of the cached response and otherwise the client's headers; on a 304 the cached response is returned with every header merged as specified; any other response is returned as it is; a store on a 304 needs an absent or equal Etag",
		min:   10,
		run: func(c *Check) {
			r := c.roundTrip("cache.CalculateAge")
			e := r.e
			use := And(r.elig, Not(r.excl))
			res := single(term(r.res))
			old := func(k string) Val {
				return e.atEv(r.made, func() Val { return e.get(e.field(res, "Header"), k) })
			}
			etag, lm, date := old("Etag"), old("Last-Modified"), old("Date")
			key := mk("param", "anykey", types.Typ[types.String], nil)
			not := func(ks ...string) B {
				g := True
				for _, k := range ks {
					g = And(g, Not(eqT(key, strTerm(k))))
				}
				return g
			}
			mark := each(True, []Val{e.specAt(0, "MarkName", r.cache)}, func(g B, ts []*Term) Val { return single(canonKey(ts[0])) })
			av := r.ret.(*AV)
			end := len(e.log)
			n := 0
			for _, u := range r.up {
				v := And(use, r.made.Guard, u.Guard)
				site := c.site(u)
				if !sat(v) {
					continue
				}
				n++
				hdr := func() Val { return e.field(u.Args[1], "Header") }
				c.line(e, u.Mem, And(v, Not(isEmpty(etag))), hdr, "If-None-Match", etag, "validated-with-etag", site)
				c.line(e, u.Mem, And(v, Not(isEmpty(lm))), hdr, "If-Modified-Since", lm, "validated-with-last-modified", site)
				c.line(e, u.Mem, And(v, isEmpty(lm), Not(isEmpty(date))), hdr, "If-Modified-Since", date, "validated-with-date", site)
				own := And(v, not("If-None-Match", "If-Modified-Since"))
				var l, ol Val
				var h, oh B
				e.atEv(u, func() Val { l, h = e.header(hdr(), key); return nil })
				e.atMem(0, func() Val { ol, oh = e.header(e.field(r.req, "Header"), key); return nil })
				c.implies(own, Iff(h, oh), "validation-keeps-the-client's-headers", site)
				c.same(And(own, oh, h), l, ol, "validation-keeps-the-client's-headers", site)
				for _, f := range []string{"Method", "Host", "Body", "ctx"} {
					c.same(v, e.atEv(u, func() Val { return e.field(u.Args[1], f) }), e.atMem(0, func() Val { return e.field(r.req, f) }), "validation-keeps-the-request/"+f, site)
				}
				url, _, _ := types.LookupFieldOrMethod(r.fn.Params[1].Type(), false, nil, "URL")
				for _, f := range fieldsOf(deref(url.Type())) {
					of := func(req Val) Val { return e.field(notNil(e.field(req, "URL"), v), f) }
					c.same(v, e.atEv(u, func() Val { return of(u.Args[1]) }), e.atMem(0, func() Val { return of(r.req) }), "validation-keeps-the-request/URL."+f, site)
				}
				// The answer.
				up := component(u.Ret, 0, nil)
				ok := And(v, errNil(u))
				status := e.atEv(u, func() Val { return e.field(up, "StatusCode") })
				is304 := eqAny(status, intTerm(304))
				c.same(And(ok, is304), av.f[0], res, "304-returns-the-cached-response", c.fnSite(r.fn))
				c.same(And(ok, is304), av.f[1], single(nilTerm()), "304-is-no-error", c.fnSite(r.fn))
				apart := c.merged(r, u, And(ok, is304), key, mark, end)
				// Anything else is passed on.
				c.same(And(ok, Not(is304)), av.f[0], up, "other-answers-are-passed-on", c.fnSite(r.fn))
				c.same(And(v, Not(errNil(u))), av.f[1], component(u.Ret, 1, nil), "errors-are-passed-on", c.fnSite(r.fn))
				c.same(And(use, Not(r.made.Guard), u.Guard, errNil(u)), av.f[0], up, "304-without-cached-response-is-passed-on", c.fnSite(r.fn))
				newTag := e.atEv(u, func() Val { return e.get(e.field(up, "Header"), "Etag") })
				for _, ev := range e.events {
					if isProvider(ev) == "Set" {
						g := And(ok, is304, apart, ev.Guard)
						c.implies(g, Or(isEmpty(newTag), Not(diff(g, newTag, etag))), "refresh-needs-equal-etag", c.site(ev))
					}
				}
			}
			c.need(n > 0, "anchor", "validation of a cached response")
		}})
}

// merged: after a 304 the response has the headers of the cached response,
// updated with those of the 304. The result is the assumption that the two
// responses are not the same object.
func (c *Check) merged(r *rt, u *Event, g B, key *Term, mark Val, end int) B {
	e, res := r.e, single(term(r.res))
	up := component(u.Ret, 0, nil)
	var fl, ul, cl Val
	var fh, uh, ch B
	e.atMem(end, func() Val { fl, fh = e.header(e.field(res, "Header"), key); return nil })
	e.atEv(u, func() Val { ul, uh = e.header(e.field(up, "Header"), key); return nil })
	e.atEv(r.made, func() Val { cl, ch = e.header(e.field(res, "Header"), key); return nil })
	kept := False
	for _, k := range []string{"Content-Range", "Content-Length", "Etag", "Vary"} {
		kept = Or(kept, eqT(key, strTerm(k)))
	}
	apart := And(Not(ptrEq(up, res)), Not(ptrEq(e.atEv(u, func() Val { return e.field(up, "Header") }), e.atEv(r.made, func() Val { return e.field(res, "Header") }))))
	free := And(g, apart, Not(eqT(key, strTerm("Cache-Control"))), Not(eqAny(mark, key)), Not(eqT(key, strTerm("X-Kache"))))
	m := "304-merges-headers"
	c.implies(And(free, Not(kept), uh), fh, m+"/added", c.fnSite(r.fn))
	c.same(And(free, Not(kept), uh, fh), fl, ul, m+"/updated", c.fnSite(r.fn))
	c.implies(And(free, Not(kept), Not(uh), Not(eqT(key, strTerm("Age")))), Iff(fh, ch), m+"/kept", c.fnSite(r.fn))
	c.same(And(free, Not(kept), Not(uh), ch, fh, Not(eqT(key, strTerm("Age")))), fl, cl, m+"/kept", c.fnSite(r.fn))
	c.implies(And(free, eqT(key, strTerm("Age")), Not(uh)), Not(fh), m+"/old-age-removed", c.fnSite(r.fn))
	c.implies(And(free, kept), Iff(fh, ch), m+"/protected", c.fnSite(r.fn))
	c.same(And(free, kept, ch, fh), fl, cl, m+"/protected", c.fnSite(r.fn))
	return apart
}

// fieldsOf lists the fields of a struct type.
func fieldsOf(t types.Type) []string {
	var out []string
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, st.Field(i).Name())
	}
	return out
}
