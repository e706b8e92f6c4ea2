package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register(&rule{id: "C41", technique: "value-numbering dataflow from the keys a backend holds to the answer of the listing endpoint, per backend; loops as folds with a selection condition",
		about: "the listing endpoint answers with exactly the list the provider returns for the empty prefix, as JSON; the in-memory cache lists the keys it holds that begin with the prefix, redis lists every key a complete scan of each node finds for the escaped prefix followed by a wildcard, the layered cache lists the remote tier",
		min:   10,
		run:   runListing})
}

func runListing(c *Check) {
	c.listingEndpoint()
	c.listingMemory()
	for _, cluster := range []bool{false, true} {
		c.listingRedis(cluster)
	}
	// The layered cache.
	e, fn, as, ts, v := c.tierCalls("Keys")
	_ = e
	for _, a := range alts(v) {
		ok := False
		for _, t := range ts {
			if t.op == "Keys" && !t.local && t.ev.RetT != nil && a.t == t.ev.RetT {
				c.same(t.ev.Guard, t.ev.Args[2], as[2], "layered-lists-with-the-prefix", c.site(t.ev))
				ok = Or(ok, t.ev.Guard)
			}
		}
		c.implies(a.g, ok, "layered-lists-the-remote-tier", c.fnSite(fn))
	}
}

// listingEndpoint: the answer is the provider's list.
func (c *Check) listingEndpoint() {
	ad := c.makeAdmin()
	ep := c.find(ad, "GET", "cache", "keys")
	if ep == nil {
		c.fail("listing-endpoint", ad.a.site)
		return
	}
	run := And(ep.g, ep.m, eqAny(ad.s.e.field(ep.req, "Method"), strTerm("GET")))
	shown := False
	for _, src := range ep.evs {
		if src.Kind != "call" || isProvider(src) != "Keys" || src.RetT == nil {
			continue
		}
		c.same(src.Guard, src.Args[2], single(strTerm("")), "lists-every-key", c.site(src))
		for _, ev := range ep.evs {
			if ev.Kind != "call" || ev.Seq < src.Seq || !encodesJSON(ev.Name) {
				continue
			}
			for _, a := range alts(ev.Args[len(ev.Args)-1]) {
				t := a.t
				if t.op == "iface" {
					t = t.args[0]
				}
				if t == src.RetT {
					shown = Or(shown, And(ev.Guard, src.Guard, a.g))
				}
			}
		}
	}
	c.implies(run, shown, "answers-with-the-list", c.site(ep.r.ev)+" "+ep.name)
}

func encodesJSON(name string) bool {
	return name == "(*encoding/json.Encoder).Encode" || name == "encoding/json.Marshal"
}

// listingMemory: the in-memory cache.
func (c *Check) listingMemory() {
	m := c.memory(false)
	fn := m.method("Keys")
	as := m.args("Keys")
	prefix := term(as[1])
	v, ret := m.call("Keys", as...)
	isHeld := func(t *Term) bool {
		return strings.Contains(t.sym, "golang-lru") && strings.Contains(t.sym, ").Keys")
	}
	for _, a := range alts(v) {
		g := And(ret, m.pc, a.g)
		if !sat(g) {
			continue
		}
		t := a.t
		switch {
		case isHeld(t):
			c.implies(g, eqT(prefix, strTerm("")), "memory-lists-what-begins-with-the-prefix", c.fnSite(fn))
		case t.op == "fold":
			dom, init, acc, at, cases := foldOf(t)
			if acc == nil {
				panic(unresolved{"the loop that lists the keys of the in-memory cache"})
			}
			c.need(init.op == "nil" || lenT(init) == intTerm(0), "memory-lists-keys-only", c.fnSite(fn), init.String())
			for _, cs := range cases {
				x := term(cs.v)
				if x == acc {
					// Skipped.
					var elem *Term
					mentions(cs.g, func(k *Term) bool {
						if k.op == "load" && k.args[0].op == "ia" && k.args[0].args[1] == at && isHeld(k.args[0].args[0]) {
							elem = k
						}
						return elem != nil
					})
					if elem == nil {
						c.fail("memory-lists-every-key", c.fnSite(fn), bstr(cs.g, 3))
						continue
					}
					c.implies(And(g, cs.g), Not(hasPrefixB(elem, prefix)), "memory-lists-every-key", c.fnSite(fn))
					continue
				}
				ok := x.op == "append" && x.args[0] == acc && x.args[1].op == "seq" && len(x.args[1].args) == 1
				if !c.need(ok, "memory-lists-keys-only", c.fnSite(fn), x.String()) {
					continue
				}
				k := x.args[1].args[0]
				ok = k.op == "load" && k.args[0].op == "ia" && k.args[0].args[1] == at && isHeld(k.args[0].args[0]) && dom == lenT(k.args[0].args[0])
				if c.need(ok, "memory-lists-every-key", c.fnSite(fn), k.String()) {
					c.implies(And(g, cs.g), Or(hasPrefixB(k, prefix), eqT(prefix, strTerm(""))), "memory-lists-what-begins-with-the-prefix", c.fnSite(fn))
				}
			}
		case t.op == "tab":
			b := t.args[1]
			ok := b.op == "load" && b.args[0].op == "ia" && b.args[0].args[1].op == "bound" && isHeld(b.args[0].args[0]) && t.args[0] == lenT(b.args[0].args[0])
			if c.need(ok, "memory-lists-every-key", c.fnSite(fn), t.String()) {
				c.implies(g, eqT(prefix, strTerm("")), "memory-lists-what-begins-with-the-prefix", c.fnSite(fn))
			}
		default:
			c.need(mentions(single(t), isHeld) && t.op != "slice", "memory-lists-every-key", c.fnSite(fn), t.String())
		}
	}
	c.implies(m.pc, ret, "memory-listing-returns", c.fnSite(fn))
}

func hasPrefixB(t, p *Term) B {
	return atom(mk("call", "strings.HasPrefix", types.Typ[types.Bool], []*Term{t, p}))
}

// listingRedis: redis, with one server or a cluster.
func (c *Check) listingRedis(cluster bool) {
	e, fn, as, v, ret, evs := c.redisOp("Keys", cluster)
	prefix := term(as[1])
	more, asked := False, False
	var val, pages []*Term
	for _, ev := range evs {
		if ev.Kind != "call" {
			continue
		}
		switch redisCmd(ev.Name) {
		case "Scan":
			if res := scanResult(ev, evs); res != nil {
				page, read := c.scanPages(e, ev, res, False)
				pages = append(pages, page)
				more = Or(more, And(read, Not(eqT(lenT(page), intTerm(0)))))
			} else {
				c.same(ev.Guard, ev.Args[2], single(intTerm(0)), "redis-scans-from-the-start", c.site(ev))
			}
			c.redisPrefix(ev, ev.Args[3], prefix)
			asked = Or(asked, ev.Guard)
		case "Keys":
			c.redisPrefix(ev, ev.Args[2], prefix)
			asked = Or(asked, ev.Guard)
		case "Next":
			more = Or(more, And(ev.Guard, asBool(ev.Ret)))
		case "Val":
			if ev.RetT != nil {
				val = append(val, ev.RetT)
			}
		}
	}
	c.implies(ret, asked, "redis-is-asked", c.fnSite(fn))
	kept, empty := False, False
	for _, k := range val {
		empty = Or(empty, eqT(k, strTerm("")))
	}
	collects := false
	state := map[*Term]bool{}
	for _, st := range e.progress {
		state[st.state] = true
	}
	for _, st := range e.progress {
		for _, a := range alts(st.next) {
			x := a.t
			for _, p := range pages {
				if x.op == "append" && state[x.args[0]] && x.args[1] == p {
					kept, collects = Or(kept, And(st.g, a.g)), true
				}
			}
			if x.op == "append" && state[x.args[0]] && x.args[1].op == "seq" && len(x.args[1].args) == 1 {
				for _, k := range val {
					if x.args[1].args[0] == k {
						kept, collects = Or(kept, And(st.g, a.g)), true
					}
				}
			}
		}
	}
	if more != False && len(val)+len(pages) > 0 {
		c.need(collects, "redis-lists-every-key-found", c.fnSite(fn))
		c.implies(more, Or(kept, empty), "redis-lists-every-key-found", c.fnSite(fn))
	}
	for _, a := range alts(v) {
		if sat(And(ret, a.g)) {
			c.need(a.t.op != "slice", "redis-lists-every-key-found", c.fnSite(fn), a.t.String())
		}
	}
}

// redisPrefix: the pattern is the escaped prefix, then anything.
func (c *Check) redisPrefix(ev *Event, v Val, prefix *Term) {
	for _, a := range alts(v) {
		g := And(ev.Guard, a.g)
		if !sat(g) {
			continue
		}
		t := a.t
		if s, ok := t.isStr(); ok && s == "*" {
			c.implies(g, eqT(prefix, strTerm("")), "redis-pattern-of-the-prefix", c.site(ev))
			continue
		}
		ok := t.op == "cat" && len(t.args) == 2 && t.args[1] == strTerm("*")
		why := fmt.Sprint(t)
		if ok {
			ok, why = redisGlob(t.args[0], prefix)
		}
		c.need(ok, "redis-pattern-of-the-prefix", c.site(ev), why)
	}
}
