package main

import (
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// theory returns the constraints between the atoms the conditions depend on
// (ordering chains, exclusive constants, ...), conjoined.
func theory(fs ...B) B {
	sup := Support(fs...)
	var vs []int32
	for v := range sup {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	r := True
	add := func(c B) { r = And(r, c) }

	les := map[*Term][]int32{}
	eqs := map[*Term][]int32{}
	tys := map[*Term][]int32{}
	var exs []int32
	byTerm := map[*Term]B{}
	for _, v := range vs {
		t := atoms[v]
		byTerm[t] = bddVar(v)
		switch t.op {
		case "le":
			les[t.args[0]] = append(les[t.args[0]], v)
		case "eq":
			if t.args[1].isConst() || distinctRoot(t.args[1]) {
				eqs[t.args[0]] = append(eqs[t.args[0]], v)
			}
		case "typeis":
			tys[t.args[0]] = append(tys[t.args[0]], v)
		case "exists":
			exs = append(exs, v)
		}
	}
	for _, c := range existsTheory(exs) {
		add(c)
	}
	for _, v := range vs { // deterministic order over the groups
		t := atoms[v]
		switch t.op {
		case "le":
			g := les[t.args[0]]
			if g[0] != v {
				continue
			}
			cs := append([]int32(nil), g...)
			sort.Slice(cs, func(i, j int) bool { return bigOf(atoms[cs[i]].sym).Cmp(bigOf(atoms[cs[j]].sym)) < 0 })
			for i := 1; i < len(cs); i++ {
				add(Implies(bddVar(cs[i-1]), bddVar(cs[i])))
			}
			// x - y <= c with x, y bounded by constants elsewhere is not related.
		case "eq":
			if !(t.args[1].isConst() || distinctRoot(t.args[1])) {
				continue
			}
			g := eqs[t.args[0]]
			for _, w := range g {
				if w > v {
					add(Not(And(bddVar(v), bddVar(w))))
				}
			}
			for _, w := range tys[t.args[0]] {
				if t.args[1].op == "nil" {
					add(Not(And(bddVar(v), bddVar(w))))
				}
			}
		case "typeis":
			for _, w := range tys[t.args[0]] {
				if w > v {
					add(Not(And(bddVar(v), bddVar(w))))
				}
			}
		case "exists":
			for _, w := range exs {
				u := atoms[w]
				if w != v && u.args[0] == t.args[0] && u.sym == t.sym {
					if implies(t.bs[0], u.bs[0]) {
						add(Implies(bddVar(v), bddVar(w)))
					}
				}
			}
			if n := t.args[0]; n.op != "dom" {
				if b, ok := byTerm[mk("le", "0", nil, []*Term{n})]; ok {
					add(Implies(bddVar(v), Not(b)))
				}
			}
		}
		// Zero values of missing map entries.
		if t.op == "eq" || t.op == "le" {
			x := t.args[0]
			root := x
			for root.op == "first1" || root.op == "len" {
				root = root.args[0]
			}
			if root.op == "mapval" {
				h := atom(mk("has", "", nil, root.args))
				if _, ok := byTerm[atoms[bdd.nodes[h].v]]; ok {
					switch {
					case t.op == "eq" && (t.args[1].op == "nil" || t.args[1].sym == "s:"):
						add(Implies(Not(h), bddVar(v)))
					case t.op == "eq" && t.args[1].isConst():
						add(Implies(bddVar(v), h))
					case t.op == "le" && bigOf(t.sym).Sign() >= 0 && x.op == "len":
						add(Implies(Not(h), bddVar(v)))
					}
				}
			}
			// first1(s) != "" implies len(s) > 0
			if t.op == "eq" && x.op == "first1" && t.args[1].sym == "s:" {
				if b, ok := byTerm[mk("le", "0", nil, []*Term{lenT(x.args[0])})]; ok {
					add(Implies(b, bddVar(v)))
				}
			}
		}
		for _, ax := range axioms {
			if c := ax(t, byTerm); c != True {
				add(c)
			}
		}
	}
	return r
}

// existsTheory relates conditions on some element of one domain: together they
// may be implied by another, or by there being an element at all.
func existsTheory(exs []int32) []B {
	var out []B
	done := map[int32]bool{}
	for _, v := range exs {
		if done[v] {
			continue
		}
		var g []int32
		for _, w := range exs {
			if atoms[w].args[0] == atoms[v].args[0] && atoms[w].sym == atoms[v].sym {
				g = append(g, w)
				done[w] = true
			}
		}
		if len(g) < 2 || len(g) > 20 {
			continue
		}
		some := False
		if d := atoms[v].args[0]; d.op != "dom" && d.op != "nodom" {
			some = ltT(intTerm(0), d)
		}
		try := func(set ...int32) {
			all, any := False, False
			in := map[int32]bool{}
			for _, w := range set {
				all = Or(all, atoms[w].bs[0])
				any = Or(any, bddVar(w))
				in[w] = true
			}
			if some != False && implies(True, all) {
				out = append(out, Implies(some, any))
				return
			}
			for _, w := range g {
				if !in[w] && implies(atoms[w].bs[0], all) {
					out = append(out, Implies(bddVar(w), any))
				}
			}
		}
		for i := range g {
			for j := i + 1; j < len(g); j++ {
				try(g[i], g[j])
				for k := j + 1; k < len(g); k++ {
					try(g[i], g[j], g[k])
				}
			}
		}
	}
	return out
}

// axioms relate atoms of library calls.
var axioms = []func(t *Term, have map[*Term]B) B{firstAxiom, emptyAxiom, affixAxiom, resultAxiom, networkAxiom}

// An empty text is none that these parse.
var parsesNoEmpty = map[string]string{"time.ParseDuration": "1", "strconv.Atoi": "1", "strconv.ParseInt": "1", "strconv.ParseUint": "1",
	"strconv.ParseBool": "1", "strconv.ParseFloat": "1", "net.ParseCIDR": "2", "net.SplitHostPort": "2", "net/netip.ParseAddr": "1", "net/netip.ParsePrefix": "1", "net/http.ParseTime": "1"}

// affixAxiom relates a test for a prefix or suffix to comparisons of the text
// with constants and of its first byte.
func affixAxiom(t *Term, have map[*Term]B) B {
	if t.op != "call" || t.sym != "strings.HasPrefix" && t.sym != "strings.HasSuffix" {
		return True
	}
	x := t.args[0]
	p, ok := t.args[1].isStr()
	if !ok && len(t.args) == 2 {
		return Or(Not(have[t]), leT(lenT(t.args[1]), lenT(x)))
	}
	if !ok || x.isConst() {
		return True
	}
	r := True
	for u, b := range have {
		if u.op != "eq" || u.args[0] != x {
			continue
		}
		if s, ok := u.args[1].isStr(); ok {
			is := strings.HasPrefix(s, p)
			if t.sym == "strings.HasSuffix" {
				is = strings.HasSuffix(s, p)
			}
			r = And(r, Implies(b, Iff(have[t], boolB(is))))
		}
	}
	if t.sym == "strings.HasPrefix" && len(p) == 1 {
		// The first byte is looked at only if there is one.
		first := mk("idx", "", types.Typ[types.Uint8], []*Term{x, intTerm(0)})
		b := intEqT(first, intTerm(int64(p[0])))
		known := true
		for v := range Support(b) {
			_, ok := have[atoms[v]]
			known = known && ok
		}
		if known {
			empty, ok := have[atoms[bdd.nodes[eqT(x, strTerm(""))].v]]
			if !ok {
				empty = False
			}
			r = And(r, Implies(have[t], b), Implies(And(b, Not(empty)), have[t]))
		}
	}
	return r
}

// networkAxiom: no text is an address as well as a network.
func networkAxiom(t *Term, have map[*Term]B) B {
	parses := func(t *Term, name, comp string) (*Term, bool) {
		if t.op != "eq" || t.args[1].op != "nil" || t.args[0].op != "comp" || t.args[0].sym != comp {
			return nil, false
		}
		d := t.args[0].args[0]
		return d, d.op == "call" && d.sym == name && len(d.args) == 1
	}
	d, ok := parses(t, "net.ParseCIDR", "2")
	if !ok {
		return True
	}
	r := True
	for u, b := range have {
		if a, ok := parses(u, "net/netip.ParseAddr", "1"); ok && a.args[0] == d.args[0] {
			r = And(r, Not(And(have[t], b)))
		}
	}
	return r
}

// These return something, or an error.
var resultOrError = map[string]bool{"net/http.ReadResponse": true, "net/http.NewRequest": true, "net/http.NewRequestWithContext": true, "net/url.Parse": true,
	"net/url.ParseRequestURI": true, "os.Open": true, "os.OpenFile": true, "net.Listen": true, "regexp.Compile": true}

func resultAxiom(t *Term, have map[*Term]B) B {
	if t.op != "eq" || t.args[1].op != "nil" || t.args[0].op != "comp" || t.args[0].sym != "0" {
		return True
	}
	d := t.args[0].args[0]
	if name, _, _ := strings.Cut(d.sym, "#"); d.op != "call" && d.op != "ret" || !resultOrError[name] {
		return True
	}
	for u, b := range have {
		if u.op == "eq" && u.args[1].op == "nil" && u.args[0].op == "comp" && u.args[0].sym == "1" && u.args[0].args[0] == d {
			return Not(And(have[t], b))
		}
	}
	return True
}

func emptyAxiom(t *Term, have map[*Term]B) B {
	if t.op != "eq" || t.args[1].op != "nil" || t.args[0].op != "comp" {
		return True
	}
	d := t.args[0].args[0]
	if d.op != "call" || len(d.args) == 0 || parsesNoEmpty[d.sym] != t.args[0].sym {
		return True
	}
	empty := eqT(d.args[0], strTerm(""))
	if empty == True {
		return Not(have[t])
	}
	if empty == False {
		return True
	}
	if b, ok := have[atoms[bdd.nodes[empty].v]]; ok {
		return Not(And(have[t], b))
	}
	return True
}

// firstAxiom: the first index for which a condition holds satisfies it, if there is any.
func firstAxiom(t *Term, have map[*Term]B) B {
	r := True
	for _, f := range firstsIn(t) {
		lv := f.sym
		ex := mk("exists", lv, types.Typ[types.Bool], f.args, f.bs...)
		m := map[*Term]*Term{}
		n, _ := strconv.Atoi(strings.TrimSuffix(lv, ":"))
		for _, b := range boundTerms(n) {
			m[b] = f
		}
		r = And(r, Implies(atom(ex), newSubst(m).B(f.bs[0])))
	}
	return r
}

var firstMemo = map[*Term][]*Term{}

// firstsIn lists the closed search results t mentions.
func firstsIn(t *Term) []*Term {
	if r, ok := firstMemo[t]; ok {
		return r
	}
	firstMemo[t] = nil
	var r []*Term
	seen := map[*Term]bool{}
	add := func(x *Term) {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	if t.op == "first" && t.args[0].op != "nodom" && freeBelow(t, 1000) == 0 {
		add(t)
	}
	for _, a := range t.args {
		for _, x := range firstsIn(a) {
			add(x)
		}
	}
	firstMemo[t] = r
	return r
}

func bigOf(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }

var satMemo = map[B]bool{}

// sat reports whether b is possible.
func sat(b B) bool {
	if b <= True {
		return b == True
	}
	if r, ok := satMemo[b]; ok {
		return r
	}
	th := theory(b)
	r := And(b, th) != False
	if r && len(Support(th)) > 0 {
		if th2 := theory(b, th); th2 != th {
			r = And(b, th2) != False
		}
	}
	satMemo[b] = r
	return r
}

// implies within the theory of the conditions.
func implies(f, g B) bool { return !sat(And(f, Not(g))) }

// witness describes one possible case of b by a conjunction that implies it.
func witness(b B) string {
	ls := Cube(And(b, theory(b)))
	if len(ls) < 200 {
		conj := func(skip int) B {
			r := True
			for i := len(ls) - 1; i >= 0; i-- {
				if i == skip {
					continue
				}
				if v := bddVar(ls[i].v); ls[i].pos {
					r = And(r, v)
				} else {
					r = And(r, Not(v))
				}
			}
			return r
		}
		for i := 0; i < len(ls); {
			if implies(conj(i), b) {
				ls = append(ls[:i:i], ls[i+1:]...)
			} else {
				i++
			}
		}
		return litStr(ls, 5)
	}
	return cubeStr(And(b, theory(b)), 5)
}

// ---- semantic equality of values ----

// diff returns the condition under which a and b differ within pc.
func diff(pc B, a, b Val) B {
	if pc == False {
		return False
	}
	if x, ok := a.(*AV); ok {
		y, ok := b.(*AV)
		if !ok {
			b = explode(b, x.typ)
			if y, ok = b.(*AV); !ok {
				return pc
			}
		}
		if len(x.f) != len(y.f) {
			return pc
		}
		r := False
		for i := range x.f {
			r = Or(r, diff(pc, x.f[i], y.f[i]))
		}
		return r
	}
	if y, ok := b.(*AV); ok {
		return diff(pc, y, a)
	}
	if x, ok := a.(B); ok {
		if y, ok := b.(B); ok {
			return clean(And(pc, Not(Iff(x, y))))
		}
	}
	al, bl := altsOf(a), altsOf(b)
	r := False
	for _, x := range al {
		for _, y := range bl {
			if x.t == y.t {
				continue
			}
			g := And(pc, x.g, y.g)
			if !sat(g) {
				continue
			}
			r = Or(r, And(g, Not(eqSem(x.t, y.t, g))))
		}
	}
	return clean(r)
}

func clean(b B) B {
	if !sat(b) {
		return False
	}
	return b
}

func altsOf(v Val) []alt {
	switch v := v.(type) {
	case *GV:
		return v.alts
	case B:
		return []alt{{v, boolTerm(True)}, {Not(v), boolTerm(False)}}
	case *AV:
		return []alt{{True, term(v)}}
	}
	return nil
}

// thorough is set while values that seem to differ are compared once more.
var thorough bool

// differs is diff, using the constants that the conditions fix if necessary.
func differs(pc B, a, b Val) (B, bool) {
	d, ok := feasible(diff(pc, a, b))
	if ok {
		thorough = true
		defer func() { thorough = false }()
		d, ok = feasible(diff(d, a, b))
	}
	return d, ok
}

// eqSem is the condition under which two different terms are equal, by
// congruence and by the constants that pc fixes.
func eqSem(a, b *Term, pc B) B {
	r := congruence(a, b, pc)
	if r == True || pc <= True || !thorough || implies(pc, r) {
		return r
	}
	m := map[*Term]*Term{}
	for v := range Support(pc) {
		if t := atoms[v]; t.op == "eq" && t.args[1].isConst() && t.args[0] != a && t.args[0] != b && freeBelow(t.args[0], 1000) == 0 && implies(pc, bddVar(v)) {
			m[t.args[0]] = t.args[1]
		}
	}
	if len(m) > 0 {
		s := newSubst(m)
		if x, y := s.T(a), s.T(b); x != a || y != b {
			r = Or(r, congruence(x, y, pc))
		}
	}
	return r
}

func congruence(a, b *Term, pc B) B {
	if a == b {
		return True
	}
	if a.op == b.op && a.sym == b.sym && len(a.args) == len(b.args) && len(a.bs) == len(b.bs) && congruent(a.op) {
		r := True
		in := pc
		if binder(a.op) {
			in = True
		}
		for i := range a.args {
			d := diff(in, single(a.args[i]), single(b.args[i]))
			if binder(a.op) && d != False {
				return False
			}
			r = And(r, Not(d))
		}
		for i := range a.bs {
			if binder(a.op) {
				if !implies(a.bs[i], b.bs[i]) || !implies(b.bs[i], a.bs[i]) {
					return False
				}
			} else if a.op == "boolt" {
				r = And(r, Iff(a.bs[i], b.bs[i]))
			} else {
				return False
			}
		}
		if r != True && a.op != "agg" && a.op != "seq" && !binder(a.op) {
			r = Or(r, eqT(a, b))
		}
		return r
	}
	if a.op == "ite" || b.op == "ite" {
		return Not(diff(pc, single(a), single(b)))
	}
	if a.op == "lin" && b.op == "lin" {
		return Or(eqT(a, b), linCongruence(a, b, pc))
	}
	if a.op == "agg" && b.op != "agg" || b.op == "agg" && a.op != "agg" {
		x, y := a, b
		if x.op != "agg" {
			x, y = b, a
		}
		if x.typ != nil && x.sym != "tuple" {
			r := True
			for i := range x.args {
				r = And(r, Not(diff(pc, single(x.args[i]), component(single(y), i, x.typ))))
			}
			return r
		}
	}
	return eqT(a, b)
}

// linCongruence: sums are equal if remainders in them are taken of equal
// values and the rest is equal.
func linCongruence(a, b *Term, pc B) B {
	x, y := toLin(a), toLin(b)
	for _, s := range x.vars() {
		for _, t := range y.vars() {
			if s != t && s.op == "call" && s.sym == "op%" && t.op == "call" && t.sym == "op%" && x.c[s] == y.c[t] {
				return And(congruence(s, t, pc), intEqT(x.add(toLin(s), -x.c[s]).term(a.typ), y.add(toLin(t), -y.c[t]).term(b.typ)))
			}
		}
	}
	return False
}

func binder(op string) bool {
	switch op {
	case "exists", "first", "fold", "foldat", "foldstop", "lastm", "tab":
		return true
	}
	return false
}

func congruent(op string) bool {
	switch op {
	case "const", "param", "alloc", "global", "bound", "lc", "fn", "closure", "ite", "lin", "nil":
		return false
	}
	return true
}
