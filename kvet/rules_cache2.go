package main

import (
	"go/types"
	"strconv"
	"strings"
)

func init() {
	const how = "guarded value-numbering dataflow from the transport's entry point; "
	register(&rule{id: "C07", technique: how + "comparison of the exclusion predicates with specification functions, guard implication of every cache effect",
		about: "IsExcludedPath, IsExcludedHeader and IsExcludedContent agree with the specification for every configuration and argument; no cache effect is possible for an excluded request, whose response and error are the upstream's; every other eligible request is looked up; no store is possible for an excluded response",
		min:   10,
		run: func(c *Check) {
			for _, n := range []string{"Path", "Header", "Content"} {
				e := c.eval()
				fn := c.P.Method("cache", "HttpCache", "IsExcluded"+n)
				as := e.params(fn)
				want := e.spec("Excluded"+n, as...)
				c.same(True, e.Run(fn, as, True), want, "excluded-as-specified", c.fnSite(fn))
			}
			c.configured("IsExcludedPath", "IsExcludedHeader", "IsExcludedContent")
			r := c.roundTrip("cache.CalculateAge", fnName(c.P.Method("cache", "HttpCache", "IsExcludedContent")))
			e := r.e
			look, n := False, 0
			for _, ev := range e.events {
				switch isProvider(ev) {
				case "":
					continue
				case "Get":
					look = Or(look, ev.Guard)
				case "Set":
					for _, d := range e.evs(isDump) {
						out := asBool(e.specEv(d, "ExcludedRes", r.cache, d.Args[0]))
						c.implies(And(ev.Guard, d.Guard), Not(out), "no-store-of-excluded-response", c.site(ev))
						n++
					}
				}
				c.implies(ev.Guard, Not(r.excl), "no-cache-effect-for-excluded-request", c.site(ev)+" "+ev.Name)
			}
			c.need(n > 0, "anchor", "stores from RoundTrip")
			c.passThrough(r, r.excl, "excluded-request-goes-upstream")
			c.implies(And(r.elig, Not(r.excl)), look, "other-requests-are-looked-up", c.fnSite(r.fn))
		}})

	register(&rule{id: "C08", technique: how + "comparison of the key with a specification function over the same terms, and of every cache effect's key with it",
		about: "NewKeyFromRequst(req).String() agrees with the specified key for every request; the key passed to every provider call reachable from Transport.RoundTrip is the key of the client's request",
		min:   4,
		run: func(c *Check) {
			e := c.eval()
			fn := c.P.Func("cache", "NewKeyFromRequst")
			as := e.params(fn)
			want := e.spec("Key", as...)
			k := e.Run(fn, as, True)
			str := c.P.Method("cache", "Key", "String")
			kv := e.load(term(k), deref(term(k).typ), True)
			got, _ := e.static(str, []Val{kv}, nil, True, nil, nil)
			c.same(True, got, want, "key-as-specified", c.fnSite(fn))
			r := c.roundTrip("cache.CalculateAge")
			want = r.e.specAt(0, "Key", r.req)
			n := 0
			for _, ev := range r.e.events {
				ix := map[string]int{"Get": 2, "Set": 1, "Delete": 2}[isProvider(ev)]
				if ix == 0 {
					continue
				}
				n++
				c.same(ev.Guard, ev.Args[ix], want, "effect-on-the-request's-key/"+isProvider(ev), c.site(ev))
			}
			c.need(n >= 3, "anchor", "cache effects with a key")
		}})

	register(&rule{id: "C09", technique: how + "def-use chain from the stored bytes back to the response, and from the cached bytes to the response served",
		about: "every store is reached only after a complete dump (with body) of the response that is returned and a successful encoding; the encoded entry holds that dump and the time of receipt; nothing else reads or replaces the returned body; a cached response is used only if decoding and parsing succeeded, and is parsed from the bytes read for the request, with the stored time",
		min:   8,
		run: func(c *Check) {
			r := c.roundTrip("cache.CalculateAge")
			e := r.e
			dumps := e.evs(isDump)
			c.need(len(dumps) > 0, "anchor", "serialization of the response")
			encs := e.evs(func(ev *Event) bool { return ev.Kind == "call" && ev.Name == "(*encoding/gob.Encoder).Encode" })
			av := r.ret.(*AV)
			for _, set := range e.evs(func(ev *Event) bool { return isProvider(ev) == "Set" }) {
				site := c.site(set)
				from, ok := False, False
				for _, d := range dumps {
					f := e.flowFrom([]*Term{d.RetT}, nil)
					if !f.in(set.Args[2], set) {
						continue
					}
					from = Or(from, d.Guard)
					g := And(set.Guard, d.Guard)
					c.implies(g, errNil(d), "stored-only-if-complete", site)
					c.implies(g, asBool(d.Args[1]), "stored-with-body", site)
					c.same(g, d.Args[0], av.f[0], "stored-is-returned", site)
					for _, en := range encs {
						g := And(g, en.Guard)
						if !f.reach[en] || !sat(g) {
							continue
						}
						if len(en.Args) < 2 || !e.flowFrom([]*Term{recvObj(en)}, nil).in(set.Args[2], set) {
							continue
						}
						ok = Or(ok, And(en.Guard, errNil(en)))
						c.entry(e, r, en, d, g)
					}
				}
				c.implies(set.Guard, from, "stored-value-is-a-serialized-response", site)
				c.implies(set.Guard, ok, "stored-only-if-encoded", site)
			}
			// The returned response is not consumed or changed.
			n := 0
			for _, ev := range e.events {
				switch ev.Kind {
				case "call":
					if isDump(ev) || isUpstream(ev) {
						continue
					}
					for i, a := range ev.Args {
						body := e.atEv(ev, func() Val { return e.field(av.f[0], "Body") })
						hit := False
						for _, x := range altsOf(a) {
							for _, y := range altsOf(body) {
								z := x.t
								for z.op == "iface" {
									z = z.args[0]
								}
								if y.t.op != "nil" && dataMentions(single(z), func(w *Term) bool { return w == y.t }) {
									hit = Or(hit, And(ev.Guard, x.g, y.g))
								}
							}
						}
						if i >= 0 && hit != False {
							n++
							c.implies(hit, False, "returned-body-is-not-consumed", c.site(ev)+" "+ev.Name)
						}
					}
				case "store":
					fields := map[string]bool{"Body": true, "StatusCode": true, "Status": true, "ContentLength": true}
					if ev.Addr.op == "fa" && fields[fieldName(ev.Addr)] && strings.HasSuffix(ptrElem(ev.Addr.args[0]), "net/http.Response") {
						c.implies(ev.Guard, Not(eqAny(av.f[0], ev.Addr.args[0])), "returned-response-is-not-changed", c.site(ev))
					}
				}
			}
			// Reading.
			gets := e.evs(func(ev *Event) bool { return isProvider(ev) == "Get" })
			parse := e.evs(func(ev *Event) bool { return ev.Kind == "call" && ev.Name == "net/http.ReadResponse" })
			decs := e.evs(func(ev *Event) bool { return ev.Kind == "call" && ev.Name == "(*encoding/gob.Decoder).Decode" })
			c.need(len(gets) > 0 && len(parse) > 0 && len(decs) > 0, "anchor", "decoding of a cached entry")
			dec, par := False, False
			for _, d := range decs {
				dec = Or(dec, And(d.Guard, errNil(d)))
				src := False
				for _, g := range gets {
					if e.flowFrom([]*Term{g.RetT}, nil).in(d.Args[0], d) {
						src = Or(src, g.Guard)
					}
				}
				c.implies(d.Guard, src, "decodes-what-was-read", c.site(d))
			}
			for _, p := range parse {
				par = Or(par, And(p.Guard, errNil(p)))
				c.same(And(r.made.Guard, p.Guard), r.res, component(p.Ret, 0, nil), "serves-the-parsed-response", c.site(p))
			}
			c.timeOfReceipt(r)
			c.implies(r.made.Guard, dec, "undecodable-entry-is-a-miss", c.fnSite(r.fn))
			c.implies(r.made.Guard, par, "unparsable-entry-is-a-miss", c.fnSite(r.fn))
			c.implies(And(r.elig, Not(r.excl), Not(r.sent)), r.made.Guard, "served-only-if-read", c.fnSite(r.fn))
		}})

	register(&rule{id: "C33", technique: how + "comparison of the debug header in the request sent and in the returned response with the specified one, in memory before and after",
		about: "with marking enabled the returned response carries HIT if it was served from or validated against the cache and MISS if the request was not eligible; otherwise the header is what the cached or upstream response carries; the request sent upstream carries what the client sent, and the stored response what the upstream or the cached response carried",
		min:   7,
		run: func(c *Check) {
			r := c.roundTrip("cache.CalculateAge")
			e := r.e
			c.configured("MarkCachedResponses", "XCacheHeader")
			on := asBool(e.specAt(0, "Mark", r.cache))
			name := term(each(True, []Val{e.specAt(0, "MarkName", r.cache)}, func(g B, ts []*Term) Val { return single(canonKey(ts[0])) }))
			free := True
			for _, k := range []string{"Cache-Control", "Age", "If-None-Match", "If-Modified-Since", "Content-Length", "Content-Range", "Etag", "Vary"} {
				free = And(free, Not(eqT(name, strTerm(k))))
			}
			av := r.ret.(*AV)
			site := c.fnSite(r.fn)
			end := len(e.log)
			hdr := func(n int, res Val) (l Val, h B) {
				e.atMem(n, func() Val { l, h = e.header(e.field(res, "Header"), name); return nil })
				return
			}
			fl, fh := hdr(end, av.f[0])
			is := func(g B, v, rule string) {
				c.implies(g, fh, rule, site)
				c.same(And(g, fh), fl, single(seqT([]*Term{strTerm(v)}, strSlice)), rule, site)
			}
			unchanged := func(g B, n int, res Val, rule string) {
				l, h := hdr(n, res)
				c.implies(g, Iff(fh, h), rule, site)
				c.same(And(g, fh, h), fl, l, rule, site)
			}
			use := And(r.elig, Not(r.excl), free)
			res := single(term(r.res))
			stored := 0
			is(And(use, Not(r.sent), on), "HIT", "hit-marked")
			unchanged(And(use, Not(r.sent), Not(on)), r.made.Mem, res, "hit-unmarked-if-disabled")
			for _, u := range r.up {
				ok := And(u.Guard, errNil(u), free)
				up := component(u.Ret, 0, nil)
				uh := e.atEv(u, func() Val { return e.field(up, "Header") })
				rh := e.atEv(r.made, func() Val { return e.field(res, "Header") })
				apart := And(Not(ptrEq(up, res)), Not(ptrEq(uh, rh)), Not(ptrEq(up, r.req)))
				ok = And(ok, apart)
				is304 := And(r.made.Guard, eqAny(e.atEv(u, func() Val { return e.field(up, "StatusCode") }), intTerm(304)))
				_, uhas := hdr(u.Mem, up)
				is(And(ok, r.elig, Not(r.excl), is304, on, Not(uhas)), "HIT", "validated-marked")
				unchanged(And(ok, r.elig, Not(r.excl), Not(is304)), u.Mem, up, "upstream-response-not-marked-as-hit")
				is(And(ok, Not(r.elig), Not(r.excl), on), "MISS", "bypass-marked")
				unchanged(And(ok, Not(r.elig), Not(r.excl), Not(on)), u.Mem, up, "bypass-unmarked-if-disabled")
				// The mark is not stored: it depends on the request and the configuration.
				for _, d := range e.evs(isDump) {
					g := And(ok, r.elig, Not(r.excl), d.Guard)
					if !sat(g) {
						continue
					}
					stored++
					dl, dh := hdr(d.Mem, d.Args[0])
					ul, uh := hdr(u.Mem, up)
					cl, ch := hdr(r.made.Mem, res)
					for _, v := range []struct {
						g, h B
						l    Val
					}{{Not(is304), uh, ul}, {And(is304, uh), uh, ul}, {And(is304, Not(uh)), ch, cl}} {
						c.implies(And(g, v.g), Iff(dh, v.h), "mark-not-stored", c.site(d))
						c.same(And(g, v.g, dh, v.h), dl, v.l, "mark-not-stored", c.site(d))
					}
				}
				var l, ol Val
				var h, oh B
				e.atEv(u, func() Val { l, h = e.header(e.field(u.Args[1], "Header"), name); return nil })
				e.atMem(0, func() Val { ol, oh = e.header(e.field(r.req, "Header"), name); return nil })
				c.implies(And(u.Guard, free), Iff(h, oh), "not-sent-upstream", c.site(u))
				c.same(And(u.Guard, free, h, oh), l, ol, "not-sent-upstream", c.site(u))
			}
			c.need(stored > 0, "anchor", "serialization of the response")
		}})

	register(&rule{id: "C37", technique: how + "comparison of the returned response's headers (for an arbitrary key) with the upstream's or the stored ones, and of its Cache-Control with the specified one",
		about: "the response to a cacheable request has the configured default as its only Cache-Control line if a default is configured and the upstream's (after a validation: the merged) response has none or forcing is on, otherwise the Cache-Control it had; all other headers except the debug header and, on cache hits, Age are the upstream's or the stored ones; a response is stored with the headers it is returned with, but for the debug header",
		min:   8,
		run: func(c *Check) {
			r := c.roundTrip("cache.CalculateAge")
			e := r.e
			c.configured("DefaultCacheControl", "ForceCacheControl")
			av := r.ret.(*AV)
			site := c.fnSite(r.fn)
			end := len(e.log)
			val := e.specAt(0, "DefaultCC", r.cache)
			force := asBool(e.specAt(0, "ForceCC", r.cache))
			mark := each(True, []Val{e.specAt(0, "MarkName", r.cache)}, func(g B, ts []*Term) Val { return single(canonKey(ts[0])) })
			key := mk("param", "anykey", types.Typ[types.String], nil)
			cc := strTerm("Cache-Control")
			at := func(n int, res Val, k *Term) (l Val, h B) {
				e.atMem(n, func() Val { l, h = e.header(e.field(res, "Header"), k); return nil })
				return
			}
			unchanged := func(g B, n int, res Val, k *Term, rule string) {
				l, h := at(n, res, k)
				fl, fh := at(end, av.f[0], k)
				c.implies(g, Iff(fh, h), rule, site)
				c.same(And(g, fh, h), fl, l, rule, site)
			}
			use := And(r.elig, Not(r.excl))
			res := single(term(r.res))
			plain := And(Not(eqAny(mark, key)), Not(eqAny(mark, cc)), Not(eqT(key, strTerm("X-Kache"))))
			unchanged(And(use, Not(r.sent), plain, Not(eqT(key, strTerm("Age")))), r.made.Mem, res, key, "cached-headers-are-returned")
			n := 0
			for _, u := range r.up {
				up := component(u.Ret, 0, nil)
				uh := e.atEv(u, func() Val { return e.field(up, "Header") })
				rh := e.atEv(r.made, func() Val { return e.field(res, "Header") })
				ok := And(u.Guard, errNil(u), plain, Not(ptrEq(up, res)), Not(ptrEq(uh, rh)), Not(ptrEq(up, r.req)))
				is304 := And(r.made.Guard, eqAny(e.atEv(u, func() Val { return e.field(up, "StatusCode") }), intTerm(304)))
				unchanged(And(ok, Not(use)), u.Mem, up, key, "upstream-headers-are-returned")
				unchanged(And(ok, use, Not(is304), Not(eqT(key, cc))), u.Mem, up, key, "upstream-headers-are-returned")
				c.merged(r, u, And(u.Guard, errNil(u), use, is304), key, mark, end)
				// The Cache-Control it would have without the configuration.
				ul, has := at(u.Mem, up, cc)
				cl, chas := at(r.made.Mem, res, cc)
				fl, fh := at(end, av.f[0], cc)
				blank := func(l Val, h B) B {
					return And(h, isEmpty(e.specAt(0, "JoinedLines", l)))
				}
				for _, v := range []struct {
					g, has B
					l      Val
				}{{Not(is304), has, ul}, {And(is304, has), has, ul}, {And(is304, Not(has)), chas, cl}} {
					g := And(ok, use, v.g, Not(blank(v.l, v.has)))
					if !sat(g) {
						continue
					}
					n++
					set := And(Not(isEmpty(val)), Or(force, Not(v.has)))
					c.implies(And(g, set), fh, "default-as-configured", site)
					c.same(And(g, set, fh), fl, each(True, []Val{val}, func(g B, ts []*Term) Val { return single(seqT([]*Term{ts[0]}, strSlice)) }), "default-as-configured", site)
					c.implies(And(g, Not(set)), Iff(fh, v.has), "otherwise-as-received", site)
					c.same(And(g, Not(set), fh, v.has), fl, v.l, "otherwise-as-received", site)
				}
			}
			c.need(n >= 2, "anchor", "responses of the upstream")
			// What is stored is what is returned.
			n = 0
			for _, d := range e.evs(isDump) {
				g := And(d.Guard, use)
				if !sat(g) {
					continue
				}
				n++
				l, h := at(d.Mem, d.Args[0], key)
				fl, fh := at(end, av.f[0], key)
				g = And(g, plain)
				c.implies(g, Iff(fh, h), "stored-as-returned", c.site(d))
				c.same(And(g, fh, h), fl, l, "stored-as-returned", c.site(d))
			}
			c.need(n > 0, "anchor", "serialization of the response")
		}})

	register(&rule{id: "C36", technique: how + "equivalence of the increment conditions with the specified outcomes; disjointness of increments",
		about: "the counter labelled hit is incremented iff the lookup is served without the upstream, the one labelled miss iff no cached response was made for an eligible request; no path increments one twice",
		min:   6,
		run: func(c *Check) {
			e := c.eval()
			mk1 := c.P.Func("server/middleware", "NewCachedTransport")
			as := e.params(mk1)
			t := e.Run(mk1, as, True)
			r := c.roundTripOn(e, t, "cache.CalculateAge")
			site := c.fnSite(r.fn)
			use := And(r.elig, Not(r.excl))
			want := map[string]B{"hit": And(use, Not(r.sent)), "miss": And(use, Not(r.made.Guard))}
			got := map[string]B{}
			for _, ev := range e.events {
				if ev.Kind != "call" || !strings.Contains(ev.Name, "prometheus.Counter).") {
					continue
				}
				c.need(strings.HasSuffix(ev.Name, ").Inc"), "counted-by-one", c.site(ev), ev.Name)
				lab := ""
				dataMentions(ev.Args[0], func(x *Term) bool {
					if s, ok := x.isStr(); ok && (s == "hit" || s == "miss") {
						lab = s
					}
					return false
				})
				if lab == "" {
					c.fail("counter", c.site(ev), "neither labelled hit nor miss")
					continue
				}
				c.implies(And(ev.Guard, got[lab]), False, "counted-once/"+lab, c.site(ev))
				got[lab] = Or(got[lab], ev.Guard)
				c.need(len(ev.Loops) == 0, "counted-once/"+lab, c.site(ev), "in a loop")
			}
			for _, l := range []string{"hit", "miss"} {
				c.implies(want[l], got[l], "counted/"+l, site)
				c.implies(got[l], want[l], "not-counted-otherwise/"+l, site)
			}
		}})
}

// recvObj is the object a call's receiver was made for.
func recvObj(ev *Event) *Term {
	var o *Term
	dataMentions(ev.Args[0], func(x *Term) bool {
		if x.op == "alloc" && o == nil {
			o = x
		}
		return false
	})
	return o
}

// entry: the encoded entry holds the dump d and the time of receipt.
func (c *Check) entry(e *Eval, r *rt, en, d *Event, g B) {
	site := c.site(en)
	dump := component(d.Ret, 0, nil)
	for _, a := range altsOf(en.Args[1]) {
		x := a.t
		for x.op == "iface" {
			x = x.args[0]
		}
		if !sat(And(g, a.g)) {
			continue
		}
		st := structOf(deref(x.typ))
		if st == nil {
			st = structOf(x.typ)
		}
		if st == nil {
			c.fail("entry-holds-the-dump", site, "the encoded value is no struct")
			continue
		}
		hasDump, hasTime := False, False
		for i := 0; i < st.NumFields(); i++ {
			var v Val
			if _, ok := x.typ.Underlying().(*types.Pointer); ok {
				v = e.atEv(en, func() Val { return e.load(faT(x, i, st), st.Field(i).Type(), g) })
			} else {
				v = component(single(x), i, x.typ)
			}
			for _, f := range altsOf(v) {
				for _, p := range altsOf(dump) {
					if f.t == p.t {
						hasDump = Or(hasDump, And(f.g, p.g))
					}
				}
				if dataMentions(single(f.t), func(y *Term) bool { return c.nowAfter(e, y, r, And(g, a.g, f.g)) }) {
					hasTime = Or(hasTime, f.g)
				}
			}
		}
		c.implies(And(g, a.g), hasDump, "entry-holds-the-dump", site)
		c.implies(And(g, a.g), hasTime, "entry-holds-the-time-of-receipt", site)
	}
}

// nowAfter: y is the current time read after the upstream answered.
func (c *Check) nowAfter(e *Eval, y *Term, r *rt, g B) bool {
	for _, ev := range e.events {
		if ev.RetT != nil && ev.RetT == y && isTime2(y) {
			for _, u := range r.up {
				if sat(And(g, u.Guard)) && ev.Seq < u.Seq {
					return false
				}
			}
			return true
		}
	}
	return false
}

// timeCode splits a stored or restored time into its unit and what it is made from.
func timeCode(t *Term) (string, *Term) {
	unit := map[string]string{"Unix": "s", "UnixMilli": "ms", "UnixMicro": "us", "UnixNano": "ns"}
	for {
		switch {
		case t.op == "conv" && len(t.args) == 1 || t.op == "iface":
			t = t.args[0]
			continue
		case t.op == "call" && strings.HasPrefix(t.sym, "(time.Time)."):
			m := strings.TrimPrefix(t.sym, "(time.Time).")
			if u := unit[m]; u != "" {
				_, x := timeCode(t.args[0])
				return u, x
			}
			switch m {
			case "UTC", "Local", "In":
				t = t.args[0]
				continue
			case "Truncate", "Round", "Add", "AddDate":
				if n, ok := t.args[1].isInt(); ok && n.Sign() == 0 || ok && m == "Truncate" && n.Int64() <= 1e9 && n.Int64() > 0 {
					t = t.args[0]
					continue
				}
				return m, t
			}
			return "", t
		case t.op == "call" && t.sym == "time.Unix":
			if n, ok := t.args[1].isInt(); ok && n.Sign() == 0 {
				return "s", t.args[0]
			}
			if n, ok := t.args[0].isInt(); ok && n.Sign() == 0 {
				return "ns", t.args[1]
			}
			return "", t
		case t.op == "call" && (t.sym == "time.UnixMilli" || t.sym == "time.UnixMicro"):
			return unit[strings.TrimPrefix(t.sym, "time.")], t.args[0]
		}
		return "t", t
	}
}

// storedField is the field of a decoded struct a term is read from.
func storedField(t *Term) string {
	for t.op == "conv" && len(t.args) == 1 {
		t = t.args[0]
	}
	switch {
	case (t.op == "havoc" || t.op == "load") && len(t.args) == 1 && t.args[0].op == "fa":
		return fieldName(t.args[0])
	case t.op == "comp" && len(t.args) == 1:
		if st := structOf(t.args[0].typ); st != nil {
			if i, err := strconv.Atoi(t.sym); err == nil && i < st.NumFields() {
				return st.Field(i).Name()
			}
		}
	}
	return ""
}

// timeOfReceipt: the time used for a cached response is the time that was stored
// with it, and that is the time the response was received.
func (c *Check) timeOfReceipt(r *rt) {
	e := r.e
	for _, en := range e.evs(func(ev *Event) bool { return ev.Kind == "call" && ev.Name == "(*encoding/gob.Encoder).Encode" }) {
		if len(en.Args) < 2 || !sat(en.Guard) {
			continue
		}
		site := c.site(en)
		for _, a := range altsOf(en.Args[1]) {
			x := a.t
			for x.op == "iface" {
				x = x.args[0]
			}
			st, ptr := structOf(x.typ), false
			if st == nil {
				st, ptr = structOf(deref(x.typ)), true
			}
			if st == nil {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				v := component(single(x), i, x.typ)
				if ptr {
					v = e.atEv(en, func() Val { return e.load(faT(x, i, st), st.Field(i).Type(), en.Guard) })
				}
				for _, f := range altsOf(v) {
					g, ok := feasible(And(en.Guard, a.g, f.g))
					if !ok || !dataMentions(single(f.t), isTime2) {
						continue
					}
					unit, src := timeCode(f.t)
					if unit == "" || !isTime2(src) {
						continue
					}
					c.need(c.nowAfter(e, src, r, g), "stored-with-the-time-of-receipt", site, f.t.String())
					for _, t := range altsOf(r.resTime) {
						if !sat(And(r.made.Guard, t.g)) {
							continue
						}
						u2, from := timeCode(t.t)
						fld := storedField(from)
						if u2 == "" || u2 == "t" && unit == "t" && fld == "" {
							continue // another representation
						}
						c.need(u2 == unit && (fld == st.Field(i).Name() || fld == ""), "the-stored-time-is-used", c.site(r.made), "stored "+f.t.String(), "used "+t.t.String())
					}
				}
			}
		}
	}
}

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func ptrElem(t *Term) string {
	if t.typ == nil {
		return ""
	}
	return deref(t.typ).String()
}

func isDump(ev *Event) bool {
	return ev.Kind == "call" && ev.Name == "net/http/httputil.DumpResponse"
}
