package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&rule{id: "C16", technique: "guarded value-numbering dataflow over every method of the layered cache: argument agreement, guard implication, order of effects and lock regions",
		about: "writes and removals reach both tiers with the same arguments, unconditionally, and report the remote tier's outcome; reads prefer the local tier and keep a copy of the remote value under the same key; the local effects and the read-and-copy of a miss exclude each other so that no copy outlives a removal",
		min:   20,
		run:   runTiers})
}

type tier struct {
	ev    *Event
	local bool
	op    string
}

// tierCalls evaluates a method of the layered cache and finds what it does to the tiers.
func (c *Check) tierCalls(name string) (*Eval, *ssa.Function, []Val, []tier, Val) {
	e := c.eval()
	fn := c.P.Method("provider", "Cached", name)
	as := e.params(fn)
	v := e.Run(fn, as, True)
	in, out := e.field(as[0], "inner"), e.field(as[0], "outer")
	var ts []tier
	for _, ev := range e.events {
		op := isProvider(ev)
		if op == "" {
			continue
		}
		l, r := same(ev.Args[0], out), same(ev.Args[0], in)
		if !implies(ev.Guard, l) && !implies(ev.Guard, r) {
			panic(unresolved{"tier of the call at " + c.site(ev)})
		}
		ts = append(ts, tier{ev, implies(ev.Guard, l), op})
	}
	return e, fn, as, ts, v
}

// bothTiers: the method does the same with both tiers, and reports the remote outcome.
func (c *Check) bothTiers(name string) (e *Eval, as []Val, l, r *tier) {
	e, fn, as, ts, v := c.tierCalls(name)
	for i := range ts {
		t := &ts[i]
		if t.op != name {
			c.fail("same-operation", c.site(t.ev), t.op)
			continue
		}
		p := &r
		if t.local {
			p = &l
		}
		if *p != nil {
			c.fail("once-per-tier", c.site(t.ev))
		}
		*p = t
	}
	if l == nil || r == nil {
		c.fail("both-tiers", c.fnSite(fn), fmt.Sprintf("local %v remote %v", l != nil, r != nil))
		return e, as, nil, nil
	}
	for _, t := range []*tier{l, r} {
		c.implies(True, t.ev.Guard, "both-tiers", c.site(t.ev))
		for i := 1; i < len(t.ev.Args); i++ {
			if as[i] != nil && isCtx(fn.Params[i].Type()) {
				continue
			}
			c.same(t.ev.Guard, t.ev.Args[i], as[i], "same-arguments", c.site(t.ev))
		}
	}
	if fn.Signature.Results().Len() > 0 {
		c.same(True, v, r.ev.Ret, "remote-outcome-reported", c.fnSite(fn))
	}
	return e, as, l, r
}

func runTiers(c *Check) {
	// held is the lock held at both events without interruption.
	held := func(e *Eval, a, b *Event) *Term {
		for l, s := range a.Held {
			if sat(And(a.Guard, Not(s.w))) || sat(And(b.Guard, Not(b.Held[l].w))) {
				continue
			}
			cut := false
			for _, ev := range e.events {
				cut = cut || ev.Kind == "lock" && ev.Addr == l && ev.Seq > a.Seq && ev.Seq < b.Seq && strings.HasSuffix(ev.Name, "Unlock") && sat(And(ev.Guard, a.Guard, b.Guard))
			}
			if !cut {
				return l
			}
		}
		return nil
	}
	locks := func(ev *Event, l *Term) bool { return l != nil && !sat(And(ev.Guard, Not(ev.Held[l].w))) }

	// Reading.
	e, fn, as, ts, v := c.tierCalls("Get")
	var lget, rget, lset *tier
	for i := range ts {
		t := &ts[i]
		switch {
		case t.op == "Get" && t.local && lget == nil:
			lget = t
		case t.op == "Get" && !t.local && rget == nil:
			rget = t
		case t.op == "Set" && t.local && lset == nil:
			lset = t
		default:
			c.fail("reads-once", c.site(t.ev), t.op)
		}
	}
	if lget == nil || rget == nil || lset == nil {
		c.fail("read-through", c.fnSite(fn), "a read must ask the local tier, then the remote one, and keep a copy")
		return
	}
	c.implies(True, lget.ev.Guard, "local-tier-first", c.site(lget.ev))
	c.same(lget.ev.Guard, lget.ev.Args[2], as[2], "same-key", c.site(lget.ev))
	c.same(rget.ev.Guard, rget.ev.Args[2], as[2], "same-key", c.site(rget.ev))
	miss := nilRes(lget.ev.Ret)
	c.implies(miss, rget.ev.Guard, "remote-tier-on-miss", c.site(rget.ev))
	c.implies(rget.ev.Guard, miss, "remote-tier-only-on-miss", c.site(rget.ev))
	found := And(rget.ev.Guard, Not(nilRes(rget.ev.Ret)))
	c.implies(found, lset.ev.Guard, "keeps-a-copy", c.site(lset.ev))
	c.implies(lset.ev.Guard, found, "copies-only-what-was-found", c.site(lset.ev))
	c.same(lset.ev.Guard, lset.ev.Args[1], as[2], "same-key", c.site(lset.ev))
	c.same(lset.ev.Guard, lset.ev.Args[2], rget.ev.Ret, "same-value", c.site(lset.ev))
	c.same(Not(miss), v, lget.ev.Ret, "local-value-returned", c.fnSite(fn))
	c.same(miss, v, rget.ev.Ret, "remote-value-returned", c.fnSite(fn))
	c.copiesTTL()
	region := held(e, rget.ev, lset.ev)
	c.need(region != nil, "read-and-copy-is-one-step", c.site(lset.ev), "a lock must be held from reading the remote tier to copying the value")

	for _, name := range []string{"Set", "Delete", "Purge", "Flush"} {
		e, as, l, r := c.bothTiers(name)
		if l == nil || r == nil {
			continue
		}
		// No copy of the old value may be made after the local effect.
		if region != nil {
			lk := relocate(region, e.P, as[0])
			c.need(locks(l.ev, lk), "local-effect-excludes-copies", c.site(l.ev), region.String())
			if name != "Set" {
				c.need(r.ev.Seq < l.ev.Seq || held(e, l.ev, r.ev) == lk && lk != nil, "remote-tier-before-local", c.site(l.ev))
			}
		}
	}
}

func isCtx(t types.Type) bool { return t.String() == "context.Context" }

// relocate names the same lock for another evaluation's receiver (parameters
// with the same name and type are the same term).
func relocate(l *Term, P *Program, recv Val) *Term {
	o := l
	for o.op == "fa" || o.op == "iface" {
		o = o.args[0]
	}
	r := term(recv)
	if o == r {
		return l
	}
	return newSubst(map[*Term]*Term{o: r}).T(l)
}

func init() {
	register(&rule{id: "C17", technique: "guarded value-numbering dataflow from the purge methods with a recogniser for the terms that translate a wildcard pattern; guard equivalence of the removals",
		about: "the regular expression matched against the keys is the anchored translation of the pattern, every held key is removed exactly if it matches; the pattern sent to redis escapes everything special but '*', every key found is removed, on every node of a cluster; an empty pattern removes everything; failures are returned",
		min:   10,
		run:   runPurge})
}

// atomsOf are the terms the condition depends on.
func atomsOf(b B) []*Term {
	var out []*Term
	for v := range Support(b) {
		out = append(out, atoms[v])
	}
	return out
}

// dropAtom is the condition with the atom false.
func dropAtom(b, a B) B {
	for v := range Support(a) {
		b = Cofactor(b, v, false)
	}
	return b
}

// dropMatch is the condition but for the atom, where it matters.
func dropMatch(b, a B) B {
	r := b
	for v := range Support(a) {
		r = And(Cofactor(b, v, true), Not(Cofactor(b, v, false)))
	}
	return r
}

// dropTrue is the condition with the literal a true.
func dropTrue(b, a B) B {
	for v := range Support(a) {
		b = Or(Cofactor(b, v, true), Cofactor(b, v, false))
	}
	return b
}

// noStar: under g the pattern holds no '*'.
func noStar(g B, p *Term) bool {
	f := False
	parts := mk("call", "strings.Split", strSlice, []*Term{p, strTerm("*")})
	f = Or(f, leT(lenT(parts), intTerm(1)))
	for _, t := range atomsOf(g) {
		if t.op == "call" && (t.sym == "strings.Contains" || t.sym == "strings.ContainsRune") && t.args[0] == p && isStar(t.args[1]) {
			f = Or(f, Not(atom(t)))
		}
		if t.op == "le" {
			for _, x := range toLin(t.args[0]).vars() {
				if x.op == "call" && (x.sym == "strings.Index" || x.sym == "strings.IndexByte" || x.sym == "strings.IndexRune") && x.args[0] == p && isStar(x.args[1]) {
					f = Or(f, leT(x, intTerm(-1)))
				}
				if x.op == "call" && x.sym == "strings.Count" && x.args[0] == p && isStar(x.args[1]) {
					f = Or(f, leT(x, intTerm(0)))
				}
			}
		}
	}
	return implies(g, f)
}

func isStar(t *Term) bool {
	if s, ok := t.isStr(); ok {
		return s == "*"
	}
	n, ok := t.isInt()
	return ok && n.Int64() == '*'
}

// globRegex: under g the term is the regular expression for the pattern p.
func (e *Eval) globRegex(g B, t, p *Term) (bool, string) {
	if t.op == "ite" {
		for i, a := range t.args {
			if x := And(g, t.bs[i]); sat(x) {
				if ok, w := e.globRegex(x, a, p); !ok {
					return false, w
				}
			}
		}
		return true, ""
	}
	if t.op != "cat" || len(t.args) < 2 {
		return false, t.String()
	}
	n := len(t.args)
	z, _ := t.args[n-1].isStr()
	if z != "$" && z != `\z` {
		return false, "not anchored: " + t.String()
	}
	if a, ok := t.args[0].isStr(); ok {
		if !isAnchor(a) {
			return false, "not anchored: " + t.String()
		}
		return e.globBody(g, catAll(t.args[1:n-1]), p, false)
	}
	return e.globBody(g, catAll(t.args[:n-1]), p, true)
}

func catAll(ts []*Term) *Term {
	r := strTerm("")
	for _, t := range ts {
		r = catT(r, t)
	}
	return r
}

func isAnchor(s string) bool {
	s = strings.TrimPrefix(s, "(?s)")
	return s == "^" || s == `\A`
}

func callOf(t *Term, names ...string) bool {
	for _, n := range names {
		if t.op == "call" && t.sym == n {
			return true
		}
	}
	return false
}

func isLit(t *Term, s string) bool { x, ok := t.isStr(); return ok && x == s }

// globBody: the translation without its anchor at the end, and with the one at
// the beginning if anchored.
func (e *Eval) globBody(g B, t, p *Term, anchored bool) (bool, string) {
	if t.op == "ite" {
		for i, a := range t.args {
			if x := And(g, t.bs[i]); sat(x) {
				if ok, w := e.globBody(x, a, p, anchored); !ok {
					return false, w
				}
			}
		}
		return true, ""
	}
	if t.op == "fold" {
		return e.globFold(t, p, anchored), "loop: " + t.String()
	}
	if anchored {
		return false, "not anchored: " + t.String()
	}
	switch {
	case isQuoted(t, p):
		return noStar(g, p), "wildcards are quoted: " + t.String()
	case callOf(t, "strings.ReplaceAll", "strings.Replace") && isQuoted(t.args[0], p) && isLit(t.args[1], `\*`) && isLit(t.args[2], ".*"):
		if len(t.args) == 4 {
			n, ok := t.args[3].isInt()
			return ok && n.Sign() < 0, "not all wildcards are replaced: " + t.String()
		}
		return true, ""
	case callOf(t, "strings.Join") && isLit(t.args[1], ".*"):
		return e.quotedParts(t.args[0], p), "joined parts: " + t.String()
	}
	return false, "not a known translation: " + t.String()
}

func isQuoted(x, y *Term) bool { return callOf(x, "regexp.QuoteMeta") && x.args[0] == y }

func splitOf(p *Term) *Term { return mk("call", "strings.Split", strSlice, []*Term{p, strTerm("*")}) }

// quotedPart is a part of the pattern between wildcards, quoted.
func (e *Eval) quotedPart(p, ix *Term) *Term {
	return mk("call", "regexp.QuoteMeta", types.Typ[types.String], []*Term{term(e.initial1(iaT(splitOf(p), ix, nil), types.Typ[types.String], True))})
}

// foldOf takes apart a loop with a single carried value: its cases, by the
// index of the iteration.
func foldOf(t *Term) (dom, init, acc, at *Term, cases []guarded) {
	if t.op != "fold" || len(t.args) != 3 {
		return
	}
	body := t.args[2]
	mentions(single(body), func(x *Term) bool {
		if x.op == "lc" {
			acc = x
		}
		if x.op == "bound" {
			at = x
		}
		return false
	})
	if at == nil {
		acc = nil
		return
	}
	if body.op == "ite" {
		for i, a := range body.args {
			cases = append(cases, guarded{body.bs[i], single(a)})
		}
	} else {
		cases = []guarded{{True, single(body)}}
	}
	// A part that depends on a condition makes a case for each.
	for i := 0; i < len(cases); i++ {
		x := term(cases[i].v)
		if x.op != "cat" {
			continue
		}
		for j, part := range x.args {
			if part.op == "ite" {
				g := cases[i].g
				var split []guarded
				for k, a := range part.args {
					ts := append(append(append([]*Term(nil), x.args[:j]...), a), x.args[j+1:]...)
					if h := And(g, part.bs[k]); sat(h) {
						split = append(split, guarded{h, single(catAll(ts))})
					}
				}
				cases = append(append(append([]guarded(nil), cases[:i]...), split...), cases[i+1:]...)
				i--
				break
			}
		}
	}
	return t.args[0], t.args[1], acc, at, cases
}

// globFold: the loop joins the quoted parts of the pattern with ".*".
func (e *Eval) globFold(t, p *Term, anchored bool) bool {
	dom, init, acc, at, gs := foldOf(t)
	if acc == nil {
		return false
	}
	if anchored {
		s, ok := init.isStr()
		if init.op == "cat" {
			s, ok = init.args[0].isStr()
			init = catAll(init.args[1:])
		} else {
			init = strTerm("")
		}
		if !ok || !isAnchor(s) {
			return false
		}
	}
	n := lenT(splitOf(p))
	off := int64(0)
	switch {
	case dom == n && isLit(init, ""):
	case dom == addT(n, intTerm(-1), types.Typ[types.Int]) && init == e.quotedPart(p, intTerm(0)):
		off = 1
	default:
		return false
	}
	part := e.quotedPart(p, addT(at, intTerm(off), types.Typ[types.Int]))
	first := False
	if off == 0 {
		first = leT(at, intTerm(0))
	}
	for _, x := range gs {
		for _, y := range []guarded{{first, single(catT(acc, part))}, {Not(first), single(catT(catT(acc, strTerm(".*")), part))}} {
			if sat(And(x.g, y.g, leT(intTerm(0), at))) && term(x.v) != term(y.v) {
				return false
			}
		}
	}
	return true
}

// quotedParts: the slice holds the quoted parts of the pattern.
func (e *Eval) quotedParts(t, p *Term) bool {
	n := lenT(splitOf(p))
	switch t.op {
	case "tab":
		lvl, _, _ := strings.Cut(t.sym, ":")
		return t.args[0] == n && t.args[1] == e.quotedPart(p, mk("bound", lvl, types.Typ[types.Int], nil))
	case "fold":
		dom, init, acc, at, gs := foldOf(t)
		if acc == nil || dom != n || lenT(init) != intTerm(0) || len(gs) != 1 {
			return false
		}
		return term(gs[0].v) == appendT(acc, seqT([]*Term{e.quotedPart(p, at)}, t.typ), t.typ)
	}
	return false
}

// unfiltered looks through a loop over a list that another loop made of the
// elements it wants: the condition and the element in terms of the first list.
func unfiltered(g B, key, dom *Term) (B, *Term, *Term) {
	if key == nil || key.op != "load" || key.args[0].op != "ia" {
		return g, key, dom
	}
	list, ix := key.args[0].args[0], key.args[0].args[1]
	d, init, acc, at, cases := foldOf(list)
	if acc == nil || dom != lenT(list) || ix.op != "bound" || lenT(init) != intTerm(0) {
		return g, key, dom
	}
	in := False
	var elem *Term
	for _, x := range cases {
		t := term(x.v)
		if t == acc {
			continue
		}
		if t.op != "append" || t.args[0] != acc || t.args[1].op != "seq" || len(t.args[1].args) != 1 || elem != nil && elem != t.args[1].args[0] {
			return g, key, dom
		}
		elem = t.args[1].args[0]
		in = Or(in, x.g)
	}
	if elem == nil {
		return g, key, dom
	}
	s := newSubst(map[*Term]*Term{at: ix})
	return And(g, s.B(in)), s.T(elem), d
}

func runPurge(c *Check) {
	c.bothTiers("Purge")
	m := c.memory(false)
	e := m.e
	as := m.args("Purge")
	fn := m.method("Purge")
	p := term(as[1])
	v, ret := m.call("Purge", as...)
	empty := eqT(p, strTerm(""))
	all := False
	found := false
	for _, o := range m.ops {
		var dom *Term
		if ls := o.ev.Loops; len(ls) == 1 {
			dom = ls[0].dom
		}
		o.g, o.key, dom = unfiltered(o.g, o.key, dom)
		switch o.name {
		case "Purge":
			all = Or(all, o.g)
			c.implies(o.g, empty, "everything-only-for-the-empty-pattern", c.site(o.ev))
		case "Remove":
			var ms []*Term
			for _, t := range atomsOf(o.g) {
				if callOf(t, "(*regexp.Regexp).MatchString") {
					ms = append(ms, t)
				}
			}
			found = true
			some, rel, relevant := False, False, False
			for _, match := range ms {
				some = Or(some, atom(match))
				// Where this match decides.
				mb := atom(match)
				g := And(o.g, Not(dropAtom(o.g, mb)))
				if !sat(g) {
					continue
				}
				c.need(match.args[1] == o.key, "matches-the-removed-key", c.site(o.ev), match.args[1].String(), o.key.String())
				re := match.args[0]
				if re.op == "comp" {
					re = re.args[0]
				}
				if !callOf(re, "regexp.Compile", "regexp.MustCompile") {
					c.fail("pattern-translation", c.site(o.ev), re.String())
					continue
				}
				ok, why := e.globRegex(g, re.args[0], p)
				c.need(ok, "pattern-translation", c.site(o.ev), why)
				if callOf(re, "regexp.Compile") {
					compiled := eqT(mk("comp", "1", types.Universe.Lookup("error").Type(), []*Term{re}), nilTerm())
					used := dropMatch(o.g, mb) // where this expression is used
					without := func(b B) B { return dropTrue(b, compiled) }
					c.implies(And(m.pc, ret, without(used), nilRes(v)), compiled, "bad-pattern-reported", c.fnSite(fn))
					rel = Or(rel, And(without(used), compiled, mb))
					relevant = Or(relevant, without(used))
				}
			}
			c.implies(o.g, some, "removes-only-what-matches", c.site(o.ev))
			c.implies(And(m.pc, rel), o.g, "removes-all-that-match", c.site(o.ev))
			c.implies(And(m.pc, Not(empty)), relevant, "removes-all-that-match", c.site(o.ev))
			// All keys held are considered.
			ls := o.ev.Loops
			okLoop := len(ls) == 1 && !ls[0].early && o.key.op == "load" || len(ls) == 1 && !ls[0].early
			src := o.key
			for len(src.args) > 0 && !strings.Contains(src.sym, ").Keys") {
				src = src.args[0]
			}
			okLoop = okLoop && strings.Contains(src.sym, ").Keys") && dom == lenT(src)
			c.need(okLoop, "considers-every-key", c.site(o.ev), o.key.String())
		case "RemoveOldest", "Add":
			c.fail("removes-what-matches", c.site(o.ev), o.name)
		}
	}
	c.need(found, "removes-matching-keys", c.fnSite(fn))
	c.implies(And(ret, m.pc, empty), all, "empty-pattern-removes-everything", c.fnSite(fn))
	_ = e

	// Flush.
	m = c.memory(false)
	_, ret = m.call("Flush", m.args("Flush")...)
	all = False
	for _, o := range m.ops {
		if o.name == "Purge" {
			all = Or(all, o.g)
		}
	}
	c.implies(And(ret, m.pc), all, "flush-removes-everything", c.fnSite(m.method("Flush")))

	for _, cluster := range []bool{false, true} {
		e, fn, as, v, ret, evs := c.redisOp("Purge", cluster)
		c.redisPurge(e, fn, as, v, ret, evs, cluster)
		_, fn, _, _, ret, evs = c.redisOp("Flush", cluster)
		all = False
		for _, ev := range evs {
			if ev.Kind == "call" && redisCmd(ev.Name) != "" {
				switch redisCmd(ev.Name) {
				case "FlushDB", "FlushDBAsync":
					all = Or(all, ev.Guard)
					c.everyNode(ev, cluster, "flushes-every-node")
				case "Err", "Result", "Ping":
				default:
					if !eachNode(ev.Name) {
						c.fail("redis-flush-removes-everything", c.site(ev), ev.Name)
					}
				}
			}
		}
		c.implies(ret, all, "redis-flush-removes-everything", c.fnSite(fn))
	}

	// The simple cache cannot purge and says so.
	fn = c.P.Func("provider", "NewSimpleCache")
	e = c.eval()
	sv := e.Run(fn, e.params(fn), True)
	for _, a := range alts(component(sv, 0, compType(fn.Signature.Results(), 0))) {
		if a.t.op != "iface" {
			continue
		}
		for _, name := range []string{"Purge", "Flush"} {
			f := c.methodOf(a.t.obj.(types.Type), name)
			r := e.Run(f, e.params(f), True)
			if fnEffects(e) {
				continue
			}
			c.implies(nilRes(r), False, "unsupported-is-reported", c.fnSite(f))
		}
	}
}

// fnEffects: the evaluation changed shared maps.
func fnEffects(e *Eval) bool {
	for _, ev := range e.events {
		if ev.Kind == "mapwrite" && !ev.Fresh || ev.Kind == "store" && !ev.Fresh {
			return true
		}
	}
	return false
}

func (c *Check) redisPurge(e *Eval, fn *ssa.Function, as []Val, v Val, ret B, evs []*Event, cluster bool) {
	p := term(as[1])
	var scans, dels, nexts, errs []*Event
	for _, ev := range evs {
		if ev.Kind != "call" {
			continue
		}
		switch redisCmd(ev.Name) {
		case "Scan":
			scans = append(scans, ev)
			c.everyNode(ev, cluster, "purges-every-node")
		case "Del", "Unlink":
			dels = append(dels, ev)
		case "Next":
			nexts = append(nexts, ev)
		case "Err", "Result":
			errs = append(errs, ev)
		case "Iterator", "Val":
		case "":
			if strings.Contains(ev.Name, "go-redis") {
				c.fail("redis-command", c.site(ev), ev.Name)
			}
		case "FlushDB", "FlushAll":
			c.implies(ev.Guard, eqT(p, strTerm("")), "redis-everything-only-for-the-empty-pattern", c.site(ev))
		default:
			if eachNode(ev.Name) {
				errs = append(errs, ev)
				continue
			}
			c.fail("redis-command", c.site(ev), ev.Name)
		}
	}
	if len(scans) != 1 || len(dels) != 1 || len(nexts) == 0 && scanResult(scans[0], evs) == nil {
		c.fail("redis-scan-and-delete", c.fnSite(fn), fmt.Sprintf("%d scans, %d removals", len(scans), len(dels)))
		return
	}
	scan, del := scans[0], dels[0]
	if res := scanResult(scan, evs); res != nil {
		c.redisPurgePages(e, fn, v, scan, del, res, evs, p)
		return
	}
	c.same(scan.Guard, scan.Args[2], single(intTerm(0)), "redis-scans-from-the-start", c.site(scan))
	ok, why := redisGlob(term(scan.Args[3]), p)
	c.need(ok, "redis-pattern-translation", c.site(scan), why)
	more := False
	for _, n := range nexts {
		more = Or(more, And(n.Guard, asBool(n.Ret)))
	}
	// The keys deleted are the keys found.
	var key *Term
	ks := term(del.Args[len(del.Args)-1])
	if ks.op == "seq" && len(ks.args) == 1 {
		key = ks.args[0]
	}
	if key == nil || !(strings.HasSuffix(key.sym, "ScanIterator).Val") || key.op != "" && strings.Contains(key.String(), "ScanIterator).Val")) {
		c.fail("redis-removes-the-keys-found", c.site(del), ks.String())
		return
	}
	c.implies(del.Guard, more, "redis-removes-the-keys-found", c.site(del))
	c.implies(And(more, Not(eqT(key, strTerm("")))), del.Guard, "redis-removes-all-keys-found", c.site(del))
	// Failures are returned.
	reported := map[string]bool{}
	for _, ev := range errs {
		er := ev.Ret
		if eachNode(ev.Name) {
			c.need(returns(v, er), "redis-failure-reported", c.site(ev))
			continue
		}
		src := term(ev.Args[0]).String()
		if av, ok := er.(*AV); ok {
			er = av.f[len(av.f)-1]
		}
		bad := And(ev.Guard, Not(nilRes(er)))
		switch {
		case strings.Contains(src, ").Del#") || strings.Contains(src, ").Unlink#"):
			reported["del"] = true
			// the loop ends with this failure
			c.implies(bad, Not(And(ev.Guard, nilRes(v))), "redis-failure-reported", c.site(ev))
			c.need(returns(v, er), "redis-failure-reported", c.site(ev))
		case strings.Contains(src, "Iterator#"):
			reported["scan"] = true
			c.need(returns(v, er), "redis-failure-reported", c.site(ev))
		}
	}
	c.need(reported["del"] && reported["scan"], "redis-failure-reported", c.fnSite(fn), fmt.Sprint(reported))
}

// scanResult: the event that takes the result of one scan command as a page of
// keys and the cursor of the next page.
func scanResult(scan *Event, evs []*Event) *Event {
	for _, ev := range evs {
		if ev.Kind == "call" && redisCmd(ev.Name) == "Result" && ev.RetT != nil && scan.RetT != nil {
			for _, a := range alts(ev.Args[0]) {
				if a.t == scan.RetT {
					return ev
				}
			}
		}
	}
	return nil
}

// scanPages: pages are asked for from the start, each with the cursor the page
// before came with, and to the end unless something fails.
func (c *Check) scanPages(e *Eval, scan, res *Event, failed B) (page *Term, read B) {
	tup := func(i int) *Term {
		return term(component(res.Ret, i, types.Typ[types.Int]))
	}
	page, next := tup(0), tup(1)
	read = And(scan.Guard, res.Guard, nilRes(component(res.Ret, 2, types.Universe.Lookup("error").Type())))
	cursor := term(scan.Args[2])
	on := False
	for _, st := range e.progress {
		if st.leaves || st.state != cursor {
			continue
		}
		c.same(scan.Guard, st.init, single(intTerm(0)), "redis-scans-from-the-start", c.site(scan))
		c.same(st.g, st.next, single(next), "redis-scans-to-the-end", c.site(scan))
		on = Or(on, st.g)
	}
	going := And(read, Not(failed), Not(eqT(next, intTerm(0))))
	c.implies(going, on, "redis-scans-to-the-end", c.site(scan))
	m := map[*Term]*Term{}
	for _, st := range e.progress {
		if ts := alts(st.next); len(ts) == 1 && !st.leaves {
			m[st.state] = ts[0].t
		}
	}
	c.implies(going, newSubst(m).B(scan.Guard), "redis-scans-to-the-end", c.site(scan))
	return page, read
}

// redisPurgePages: the keys are found and deleted page by page.
func (c *Check) redisPurgePages(e *Eval, fn *ssa.Function, v Val, scan, del, res *Event, evs []*Event, p *Term) {
	ok, why := redisGlob(term(scan.Args[3]), p)
	c.need(ok, "redis-pattern-translation", c.site(scan), why)
	failed, asked := False, false
	for _, ev := range evs {
		if ev.Kind != "call" || ev == res || redisCmd(ev.Name) != "Err" && redisCmd(ev.Name) != "Result" {
			continue
		}
		er := ev.Ret
		if av, ok := er.(*AV); ok {
			er = av.f[len(av.f)-1]
		}
		if del.RetT != nil && mentions(ev.Args[0], func(t *Term) bool { return t == del.RetT }) {
			asked = true
			bad := And(ev.Guard, Not(nilRes(er)))
			back := returns(v, er) || returns(v, c.left(e).V(er))
			for i := len(ev.Loops) - 1; i >= 0; i-- {
				// For any key of the page; it is the first for which it fails that
				// is returned.
				l := ev.Loops[i]
				if l.dom == nil || l.bound == nil {
					continue
				}
				lvl, _ := strconv.Atoi(l.bound.sym)
				if mentions(bad, isBound(lvl)) {
					bad = existsB(lvl, l.dom, bad)
				}
				for _, a := range alts(v) {
					back = back || a.t.op == term(er).op && a.t.sym == term(er).sym && len(a.t.args) > 0
				}
			}
			failed = Or(failed, bad)
			c.need(back, "redis-failure-reported", c.site(ev))
		}
	}
	c.need(asked, "redis-failure-reported", c.fnSite(fn), "removal")
	er := component(res.Ret, 2, types.Universe.Lookup("error").Type())
	c.need(returns(v, c.left(e).V(er)), "redis-failure-reported", c.site(res))
	page, read := c.scanPages(e, scan, res, failed)
	ks := term(del.Args[len(del.Args)-1])
	switch {
	case ks == page:
		c.implies(del.Guard, read, "redis-removes-the-keys-found", c.site(del))
		c.implies(And(read, Not(eqT(lenT(page), intTerm(0)))), del.Guard, "redis-removes-all-keys-found", c.site(del))
	case ks.op == "seq" && len(ks.args) == 1 && elementOf(ks.args[0], page):
		c.implies(del.Guard, read, "redis-removes-the-keys-found", c.site(del))
		ls := del.Loops
		c.need(len(ls) > 0, "redis-removes-all-keys-found", c.site(del))
		c.implies(And(read, Not(eqT(ks.args[0], strTerm("")))), del.Guard, "redis-removes-all-keys-found", c.site(del))
	default:
		c.fail("redis-removes-the-keys-found", c.site(del), ks.String())
	}
}

// left: what the variables of a loop that was left hold.
func (c *Check) left(e *Eval) *substT {
	m := map[*Term]*Term{}
	for _, st := range e.progress {
		if st.leaves {
			continue
		}
		m[st.state] = st.after
	}
	return newSubst(m)
}

// elementOf: the term is the element of the list at the position of a loop
// over all of it.
func elementOf(t, list *Term) bool {
	return t.op == "load" && t.args[0].op == "ia" && t.args[0].args[0] == list && t.args[0].args[1].op == "bound"
}

// returns: the value is among the alternatives of v.
func returns(v, x Val) bool {
	for _, a := range alts(v) {
		for _, b := range alts(x) {
			if a.t == b.t {
				return true
			}
		}
	}
	return false
}

// redisGlob: the pattern is escaped for redis, except for '*'.
func redisGlob(t, p *Term) (bool, string) {
	if !callOf(t, "(*strings.Replacer).Replace") || t.args[1] != p {
		return false, "not an escaped pattern: " + t.String()
	}
	r := t.args[0]
	if !callOf(r, "strings.NewReplacer") || len(r.args) != 1 || r.args[0].op != "seq" {
		return false, r.String()
	}
	done := map[string]bool{}
	a := r.args[0].args
	for i := 0; i+1 < len(a); i += 2 {
		x, ok1 := a[i].isStr()
		y, ok2 := a[i+1].isStr()
		if !ok1 || !ok2 || y != `\`+x || len(x) != 1 || x == "*" {
			return false, "replaces " + a[i].String() + " by " + a[i+1].String()
		}
		done[x] = true
	}
	for _, x := range []string{`\`, "?", "["} {
		if !done[x] {
			return false, "does not escape " + x
		}
	}
	return true, ""
}
