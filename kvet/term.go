package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed value expression (a value number).
type Term struct {
	id   int
	op   string
	sym  string
	args []*Term
	bs   []B
	typ  types.Type
	obj  any
	free int // 1 + highest free bound-variable level; 0 if closed.
}

var (
	terms  = map[string]*Term{}
	atoms  []*Term // atom index -> boolean term
	atomIx = map[*Term]int32{}
)

func mk(op, sym string, typ types.Type, args []*Term, bs ...B) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(sym)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, b := range bs {
		sb.WriteByte(';')
		sb.WriteString(strconv.Itoa(int(b)))
	}
	if len(args) == 0 && typ != nil && (op == "lc" || op == "param" || op == "fresh") {
		sb.WriteString("|" + typ.String())
	}
	k := sb.String()
	if t, ok := terms[k]; ok {
		return t
	}
	t := &Term{id: len(terms) + 1, op: op, sym: sym, args: args, bs: bs, typ: typ}
	if len(terms) > 3_000_000 {
		panic(budgetExceeded{"terms"})
	}
	for _, a := range args {
		t.free = max(t.free, a.free)
	}
	for _, b := range bs {
		t.free = max(t.free, freeB(b))
	}
	switch op {
	case "bound":
		n, _ := strconv.Atoi(sym)
		t.free = n + 1
	case "exists", "first", "fold", "foldat", "foldstop", "lastm", "tab":
		// binds its own level (stored before the first ':').
		n, _ := strconv.Atoi(strings.SplitN(sym, ":", 2)[0])
		if t.free == n+1 {
			t.free = 0
			for _, a := range args {
				t.free = max(t.free, freeBelow(a, n))
			}
			for _, b := range bs {
				t.free = max(t.free, freeBelowB(b, n))
			}
		}
	}
	terms[k] = t
	return t
}

func freeB(b B) int {
	f := 0
	for v := range Support(b) {
		f = max(f, atoms[v].free)
	}
	return f
}

// freeBelow over-approximates the free levels below n.
func freeBelow(t *Term, n int) int {
	if t.free <= n {
		return t.free
	}
	f := 0
	for _, a := range t.args {
		f = max(f, freeBelow(a, n))
	}
	for _, b := range t.bs {
		f = max(f, freeBelowB(b, n))
	}
	return f
}
func freeBelowB(b B, n int) int {
	f := 0
	for v := range Support(b) {
		f = max(f, freeBelow(atoms[v], n))
	}
	return f
}

// atom returns the decision variable of a boolean term.
func atom(t *Term) B {
	if t.op == "boolt" {
		return t.bs[0]
	}
	if t.op == "const" {
		return boolB(t.sym == "b:true")
	}
	if t.op == "ite" { // gated boolean
		r := False
		for i, a := range t.args {
			r = Or(r, And(t.bs[i], atom(a)))
		}
		return r
	}
	ix, ok := atomIx[t]
	if !ok {
		ix = int32(len(atoms))
		atoms = append(atoms, t)
		atomIx[t] = ix
	}
	return bddVar(ix)
}

func boolTerm(b B) *Term {
	if b == True {
		return mk("const", "b:true", types.Typ[types.Bool], nil)
	}
	if b == False {
		return mk("const", "b:false", types.Typ[types.Bool], nil)
	}
	n := bdd.nodes[b]
	if n.lo == False && n.hi == True {
		return atoms[n.v]
	}
	return mk("boolt", "", types.Typ[types.Bool], nil, b)
}

func intTerm(n int64) *Term {
	return mk("const", "i:"+strconv.FormatInt(n, 10), types.Typ[types.Int], nil)
}
func strTerm(s string) *Term  { return mk("const", "s:"+s, types.Typ[types.String], nil) }
func nilTerm() *Term          { return mk("nil", "", types.Typ[types.UntypedNil], nil) }
func zeroTime() *Term         { return mk("zerotime", "", nil, nil) }
func (t *Term) isConst() bool { return t.op == "const" || t.op == "nil" || t.op == "zerotime" }
func (t *Term) isInt() (*big.Int, bool) {
	if t.op == "const" && strings.HasPrefix(t.sym, "i:") {
		n, ok := new(big.Int).SetString(t.sym[2:], 10)
		return n, ok
	}
	return nil, false
}
func (t *Term) isStr() (string, bool) {
	if t.op == "const" && strings.HasPrefix(t.sym, "s:") {
		return t.sym[2:], true
	}
	return "", false
}

func constTerm(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return zeroScalar(typ)
	}
	switch v.Kind() {
	case constant.Bool:
		return boolTerm(boolB(constant.BoolVal(v)))
	case constant.String:
		return mk("const", "s:"+constant.StringVal(v), typ, nil)
	case constant.Int:
		if isFloat(typ) {
			return mk("const", "f:"+v.ExactString(), typ, nil)
		}
		return mk("const", "i:"+v.ExactString(), typ, nil)
	case constant.Float:
		if isInteger(typ) {
			if i := constant.ToInt(v); i.Kind() == constant.Int {
				return mk("const", "i:"+i.ExactString(), typ, nil)
			}
		}
		return mk("const", "f:"+v.ExactString(), typ, nil)
	}
	return mk("const", "x:"+v.ExactString(), typ, nil)
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// structOf returns the struct type to decompose values of type t by field.
// Structs of other modules without exported fields are opaque values.
func structOf(t types.Type) *types.Struct {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && !inModule(n.Obj().Pkg().Path()) {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Exported() {
				return s
			}
		}
		return nil
	}
	return s
}

func arrayOf(t types.Type) *types.Array {
	a, ok := t.Underlying().(*types.Array)
	if !ok || a.Len() > 64 {
		return nil
	}
	return a
}

func zeroScalar(typ types.Type) *Term {
	if typ == nil {
		return nilTerm()
	}
	if isTime(typ) {
		return zeroTime()
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return boolTerm(False)
		case u.Info()&types.IsString != 0:
			return strTerm("")
		case u.Info()&types.IsInteger != 0:
			return intTerm(0)
		case u.Info()&types.IsFloat != 0:
			return mk("const", "f:0", typ, nil)
		}
		return nilTerm()
	case *types.Struct, *types.Array:
		return mk("zero", typ.String(), typ, nil)
	}
	return nilTerm()
}

// ---- values ----

// Val is a *GV (gated scalar), *AV (aggregate) or B (boolean).
type Val interface{}

type alt struct {
	g B
	t *Term
}

// GV is a gated value: the term under each guard.
type GV struct{ alts []alt }

// AV is a struct, array or tuple by components.
type AV struct {
	typ types.Type // nil for tuples
	f   []Val
}

func single(t *Term) Val {
	if t.op == "boolt" || (t.op == "const" && strings.HasPrefix(t.sym, "b:")) {
		return atom(t)
	}
	if t.op == "ite" {
		g := &GV{}
		for i, a := range t.args {
			g.alts = append(g.alts, alt{t.bs[i], a})
		}
		return g
	}
	return &GV{[]alt{{True, t}}}
}

// term flattens a value to one term.
func term(v Val) *Term {
	switch v := v.(type) {
	case nil:
		return mk("unknown", "", nil, nil)
	case B:
		return boolTerm(v)
	case *GV:
		if len(v.alts) == 1 {
			return v.alts[0].t
		}
		if len(v.alts) == 0 {
			return mk("undef", "", nil, nil)
		}
		al := append([]alt(nil), v.alts...)
		sort.Slice(al, func(i, j int) bool { return al[i].t.id < al[j].t.id })
		var ts []*Term
		var bs []B
		for _, a := range al {
			ts = append(ts, a.t)
			bs = append(bs, a.g)
		}
		return mk("ite", "", al[0].t.typ, ts, bs...)
	case *AV:
		var ts []*Term
		for _, f := range v.f {
			ts = append(ts, term(f))
		}
		s := "tuple"
		if v.typ != nil {
			s = v.typ.String()
		}
		return mk("agg", s, v.typ, ts)
	}
	panic(fmt.Sprintf("term: %T", v))
}

type guarded struct {
	g B
	v Val
}

// join merges values under their (disjoint) guards.
func join(gs []guarded) Val {
	var xs []guarded
	for _, x := range gs {
		if x.g != False && x.v != nil {
			if g, ok := x.v.(*GV); ok && len(g.alts) == 0 {
				continue
			}
			xs = append(xs, x)
		}
	}
	if len(xs) == 0 {
		if len(gs) > 0 {
			return gs[0].v
		}
		return nil
	}
	if len(xs) == 1 {
		return xs[0].v
	}
	agg := -1
	bools := true
	for i, x := range xs {
		if _, ok := x.v.(*AV); ok && agg < 0 {
			agg = i
		}
		if _, ok := x.v.(B); !ok {
			bools = false
		}
	}
	if bools {
		same := true
		for _, x := range xs[1:] {
			same = same && x.v.(B) == xs[0].v.(B)
		}
		if same {
			return xs[0].v
		}
		r := False
		for _, x := range xs {
			r = Or(r, And(x.g, x.v.(B)))
		}
		return r
	}
	if agg >= 0 {
		a := xs[agg].v.(*AV)
		out := &AV{typ: a.typ, f: make([]Val, len(a.f))}
		for i := range a.f {
			var fs []guarded
			for _, x := range xs {
				fs = append(fs, guarded{x.g, component(x.v, i, a.typ)})
			}
			out.f[i] = join(fs)
		}
		return out
	}
	var order []*Term
	m := map[*Term]B{}
	for _, x := range xs {
		g := x.v
		if b, ok := g.(B); ok {
			g = &GV{[]alt{{b, boolTerm(True)}, {Not(b), boolTerm(False)}}}
		}
		for _, a := range g.(*GV).alts {
			c := And(x.g, a.g)
			if c == False {
				continue
			}
			if _, ok := m[a.t]; !ok {
				order = append(order, a.t)
			}
			m[a.t] = Or(m[a.t], c)
		}
	}
	if len(order) == 1 {
		return &GV{[]alt{{True, order[0]}}}
	}
	out := &GV{}
	for _, t := range order {
		out.alts = append(out.alts, alt{m[t], t})
	}
	return out
}

// component selects field or element i of an aggregate value of type typ.
func component(v Val, i int, typ types.Type) Val {
	switch v := v.(type) {
	case *AV:
		return v.f[i]
	case *GV:
		var gs []guarded
		for _, a := range v.alts {
			gs = append(gs, guarded{a.g, compTerm(a.t, i, typ)})
		}
		return join(gs)
	}
	return single(mk("unknown", "comp", nil, nil))
}

func compType(typ types.Type, i int) types.Type {
	if typ == nil {
		return nil
	}
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		if i < u.NumFields() {
			return u.Field(i).Type()
		}
	case *types.Array:
		return u.Elem()
	case *types.Tuple:
		return u.At(i).Type()
	}
	return nil
}

func compTerm(t *Term, i int, typ types.Type) Val {
	if t.op == "agg" {
		return single(t.args[i])
	}
	ct := compType(typ, i)
	if t.op == "zero" {
		return zeroVal(ct)
	}
	return opaque(mk("comp", strconv.Itoa(i), ct, []*Term{t}), ct)
}

// opaque makes an unknown value of type typ named by t.
func opaque(t *Term, typ types.Type) Val {
	if isBool(typ) {
		return atom(t)
	}
	return single(t)
}

func zeroVal(typ types.Type) Val {
	if typ == nil {
		return single(nilTerm())
	}
	if s := structOf(typ); s != nil && !isTime(typ) {
		a := &AV{typ: typ}
		for i := 0; i < s.NumFields(); i++ {
			a.f = append(a.f, zeroVal(s.Field(i).Type()))
		}
		return a
	}
	if s := arrayOf(typ); s != nil {
		a := &AV{typ: typ}
		for i := int64(0); i < s.Len(); i++ {
			a.f = append(a.f, zeroVal(s.Elem()))
		}
		return a
	}
	return single(zeroScalar(typ))
}

// explode turns an opaque aggregate into components.
func explode(v Val, typ types.Type) Val {
	if _, ok := v.(*AV); ok {
		return v
	}
	n := -1
	if s := structOf(typ); s != nil && !isTime(typ) {
		n = s.NumFields()
	} else if s := arrayOf(typ); s != nil {
		n = int(s.Len())
	}
	if n < 0 {
		return v
	}
	a := &AV{typ: typ}
	for i := 0; i < n; i++ {
		a.f = append(a.f, component(v, i, typ))
	}
	return a
}

// ---- linear integer terms ----

type lin struct {
	c  map[*Term]int64
	c0 *big.Int
}

func toLin(t *Term) lin {
	l := lin{map[*Term]int64{}, new(big.Int)}
	if n, ok := t.isInt(); ok {
		l.c0.Set(n)
		return l
	}
	if t.op == "lin" {
		cs := strings.Split(t.sym, ",")
		for i, a := range t.args {
			n, _ := strconv.ParseInt(cs[i], 10, 64)
			l.c[a] = n
		}
		l.c0.SetString(cs[len(cs)-1], 10)
		return l
	}
	if t.op == "const" {
		panic("linear form of " + t.sym + " of " + fmt.Sprint(t.typ))
	}
	l.c[t] = 1
	return l
}

func (l lin) add(o lin, k int64) lin {
	r := lin{map[*Term]int64{}, new(big.Int).Set(l.c0)}
	for t, c := range l.c {
		r.c[t] = c
	}
	for t, c := range o.c {
		r.c[t] += k * c
		if r.c[t] == 0 {
			delete(r.c, t)
		}
	}
	r.c0.Add(r.c0, new(big.Int).Mul(o.c0, big.NewInt(k)))
	return r
}

func (l lin) vars() []*Term {
	var vs []*Term
	for t := range l.c {
		vs = append(vs, t)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	return vs
}

func (l lin) term(typ types.Type) *Term {
	vs := l.vars()
	if len(vs) == 0 {
		return mk("const", "i:"+l.c0.String(), typ, nil)
	}
	if len(vs) == 1 && l.c[vs[0]] == 1 && l.c0.Sign() == 0 {
		return vs[0]
	}
	var cs []string
	for _, v := range vs {
		cs = append(cs, strconv.FormatInt(l.c[v], 10))
	}
	cs = append(cs, l.c0.String())
	return mk("lin", strings.Join(cs, ","), typ, vs)
}

func addT(a, b *Term, typ types.Type) *Term { return toLin(a).add(toLin(b), 1).term(typ) }
func subT(a, b *Term, typ types.Type) *Term { return toLin(a).add(toLin(b), -1).term(typ) }
func mulT(a *Term, k int64, typ types.Type) *Term {
	return lin{map[*Term]int64{}, new(big.Int)}.add(toLin(a), k).term(typ)
}

// leT is a <= b over the integers.
func leT(a, b *Term) B {
	l := toLin(a).add(toLin(b), -1)
	vs := l.vars()
	c := new(big.Int).Neg(l.c0) // sum <= c
	if len(vs) == 0 {
		return boolB(c.Sign() >= 0)
	}
	g := new(big.Int)
	for _, v := range vs {
		g.GCD(nil, nil, g, big.NewInt(max(l.c[v], -l.c[v])))
	}
	neg := l.c[vs[0]] < 0
	n := lin{map[*Term]int64{}, new(big.Int)}
	for _, v := range vs {
		k := l.c[v] / g.Int64()
		if neg {
			k = -k
		}
		n.c[v] = k
	}
	c = floorDiv(c, g)
	if neg { // -S <= c  <=>  not (S <= -c-1)
		c.Neg(c)
		c.Sub(c, big.NewInt(1))
	}
	if c.Sign() <= 0 && len(vs) > 1 && sumOfLens(n) {
		// None of a sum of lengths exceeds it.
		if c.Sign() < 0 {
			return boolB(neg)
		}
		r := True
		for _, v := range vs {
			r = And(r, leAtom(v, c))
		}
		if neg {
			return Not(r)
		}
		return r
	}
	r := leAtom(n.term(nil), c)
	if neg {
		return Not(r)
	}
	return r
}

func sumOfLens(l lin) bool {
	for v, k := range l.c {
		if k < 0 || v.op != "len" {
			return false
		}
	}
	return true
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q
}

// notNegative: lengths and unsigned results.
func notNegative(t *Term) bool {
	if t.op == "len" {
		return true
	}
	if t.op == "comp" && t.typ != nil {
		b, ok := t.typ.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsUnsigned != 0
	}
	return false
}

func leAtom(l *Term, c *big.Int) B {
	if l.op == "first" && l.args[0].op != "dom" && l.args[0].op != "nodom" && c.Sign() < 0 {
		return False // an index
	}
	if l.op == "len" {
		if c.Sign() < 0 {
			return False
		}
		if c.Sign() == 0 && l.sym == "s" {
			return eqT(l.args[0], strTerm(""))
		}
		if c.Sign() == 0 && len(l.bs) == 1 && l.args[0].op == "mapver" {
			return Not(l.bs[0])
		}
		if c.Sign() == 0 {
			if ff := filterFold(l.args[0]); ff != nil {
				return Not(existsB(ff.lvl, ff.dom, ff.cond))
			}
		}
		if x := l.args[0]; c.Sign() == 0 && x.op == "call" && x.sym == "strings.Split" {
			if sep, ok := x.args[1].isStr(); ok && sep != "" {
				return False // there is always a first part
			}
		}
	}
	if c.Sign() < 0 && notNegative(l) {
		return False
	}
	if l.op == "ret" && strings.HasPrefix(l.sym, "select#") {
		// The index is one of the cases.
		if p := strings.Split(l.sym, ":"); len(p) == 3 {
			lo, _ := strconv.ParseInt(p[1], 10, 64)
			hi, _ := strconv.ParseInt(p[2], 10, 64)
			if c.Cmp(big.NewInt(lo)) < 0 {
				return False
			}
			if c.Cmp(big.NewInt(hi)) >= 0 {
				return True
			}
		}
	}
	if l.op == "call" && l.sym == "abs" && c.Sign() < 0 {
		return False
	}
	return atom(mk("le", c.String(), types.Typ[types.Bool], []*Term{l}))
}

func ltT(a, b *Term) B    { return Not(leT(b, a)) }
func intEqT(a, b *Term) B { return And(leT(a, b), leT(b, a)) }

// nonNil reports whether a term can never be nil.
func nonNil(t *Term) bool {
	switch t.op {
	case "alloc", "closure", "fn", "iface", "global", "fa", "ia", "seq", "makemap", "makeslice", "makechan", "newerr":
		return true
	}
	return false
}

func distinctRoot(t *Term) bool {
	switch t.op {
	case "alloc", "closure", "fn", "global", "makemap", "makechan", "newerr":
		return true
	}
	return false
}

// hasT: key k is in the map m.
func hasT(m, k *Term) B {
	switch m.op {
	case "nil":
		return False
	case "ite":
		r := False
		for i, a := range m.args {
			r = Or(r, And(m.bs[i], hasT(a, k)))
		}
		return r
	}
	return atom(mk("has", "", types.Typ[types.Bool], []*Term{m, k}))
}

// isOld: the value existed before the evaluation began.
func isOld(t *Term) bool {
	switch t.op {
	case "param":
		return true
	case "load", "fa":
		return isOld(t.args[0])
	case "mapval":
		return isOld(t.args[0])
	}
	return false
}

// eqT is a == b for terms of any type.
func eqT(a, b *Term) B {
	if a == b {
		return True
	}
	if a.op == "boolt" || b.op == "boolt" {
		return Iff(atom(a), atom(b))
	}
	if _, ok := a.isInt(); ok {
		return intEqT(a, b)
	}
	if _, ok := b.isInt(); ok {
		return intEqT(a, b)
	}
	ai, bi := isInteger(a.typ) && a.op != "bound" && a.op != "iface", isInteger(b.typ) && b.op != "bound" && b.op != "iface"
	if ai || bi || a.op == "lin" || b.op == "lin" || isTime2(a) || isTime2(b) {
		return intEqT(a, b)
	}
	if a.isConst() && b.isConst() {
		return False
	}
	for _, x := range []*Term{a, b} {
		// A pattern compiles, or there is an error.
		if x.op == "comp" && x.sym == "0" && x.args[0].op == "call" && x.args[0].sym == "regexp.Compile" && (a.op == "nil" || b.op == "nil") {
			return Not(eqT(mk("comp", "1", types.Universe.Lookup("error").Type(), x.args), nilTerm()))
		}
	}
	if a.op == "nil" && nonNil(b) || b.op == "nil" && nonNil(a) {
		return False
	}
	for _, x := range [][2]*Term{{a, b}, {b, a}} {
		// The beginning of a text, as long as the other.
		if s, p := x[0], x[1]; s.op == "slice" && len(s.args) == 3 && s.args[1] == intTerm(0) && s.args[2] == lenT(p) && !p.isConst() {
			return atom(mk("call", "strings.HasPrefix", types.Typ[types.Bool], []*Term{s.args[0], p}))
		}
	}
	if distinctRoot(a) && distinctRoot(b) {
		return False
	}
	if a.op == "alloc" && isOld(b) || b.op == "alloc" && isOld(a) {
		return False
	}
	if a.op == "iface" && b.op == "iface" {
		if a.sym != b.sym {
			return False
		}
		return eqT(a.args[0], b.args[0])
	}
	if a.op == "ite" || b.op == "ite" {
		x, y := a, b
		if x.op != "ite" {
			x, y = b, a
		}
		r := False
		for i, t := range x.args {
			r = Or(r, And(x.bs[i], eqT(t, y)))
		}
		return r
	}
	if a.isConst() || !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	if a.op == "nil" && b.op == "shapeerr" || b.op == "nil" && a.op == "shapeerr" {
		return False
	}
	if s, ok := b.isStr(); ok {
		if isShape(a) {
			if ps, ok := piecesOf(a); ok {
				if eq, decided := shapeEq(ps, s); decided {
					return boolB(eq)
				}
			}
		}
		if a.op == "call" && a.sym == "path.Clean" && s == "" {
			return False
		}
		if a.op == "cat" { // prefix/suffix mismatch
			if p, ok := a.args[0].isStr(); ok && !strings.HasPrefix(s, p) {
				return False
			}
			if p, ok := a.args[len(a.args)-1].isStr(); ok && !strings.HasSuffix(s, p) {
				return False
			}
		}
	}
	return atom(mk("eq", "", types.Typ[types.Bool], []*Term{a, b}))
}

func isTime2(t *Term) bool { return t.op == "zerotime" || t.typ != nil && isTime(t.typ) }

func catT(a, b *Term) *Term {
	var parts []*Term
	add := func(t *Term) {
		if s, ok := t.isStr(); ok {
			if s == "" {
				return
			}
			if n := len(parts); n > 0 {
				if p, ok := parts[n-1].isStr(); ok {
					parts[n-1] = strTerm(p + s)
					return
				}
			}
		}
		parts = append(parts, t)
	}
	for _, t := range []*Term{a, b} {
		if t.op == "cat" {
			for _, x := range t.args {
				add(x)
			}
		} else {
			add(t)
		}
	}
	switch len(parts) {
	case 0:
		return strTerm("")
	case 1:
		return parts[0]
	}
	return mk("cat", "", types.Typ[types.String], parts)
}

func lenT(t *Term) *Term {
	if s, ok := t.isStr(); ok {
		return intTerm(int64(len(s)))
	}
	switch t.op {
	case "nil":
		return intTerm(0)
	case "seq":
		return intTerm(int64(len(t.args)))
	case "makeslice":
		return t.args[0]
	case "append":
		r := lenT(t.args[0])
		return addT(r, lenT(t.args[1]), types.Typ[types.Int])
	case "slice":
		if t.args[1].sym == "i:0" && t.args[2].op == "nil" {
			return lenT(t.args[0])
		}
		if t.args[2].op != "nil" {
			return subT(t.args[2], t.args[1], types.Typ[types.Int])
		}
		return subT(lenT(t.args[0]), t.args[1], types.Typ[types.Int])
	case "conv":
		return lenT(t.args[0])
	case "cat":
		if isShape(t) {
			r := intTerm(0)
			for _, a := range t.args {
				r = addT(r, lenT(a), types.Typ[types.Int])
			}
			return r
		}
	case "fold":
		if dom, _ := mapFold(t); dom != nil {
			return dom
		}
	}
	k := "v"
	if isString(t.typ) {
		k = "s"
	}
	return mk("len", k, types.Typ[types.Int], []*Term{t})
}

// mapFold: a loop over a slice that appends one element each time to an empty
// slice. The elements, by index.
func mapFold(t *Term) (dom *Term, at func(i *Term) *Term) {
	if t.op != "fold" || len(t.args) != 3 {
		return nil, nil
	}
	dom, init, body := t.args[0], t.args[1], t.args[2]
	if dom.op != "len" || body.op != "append" || body.args[0].op != "lc" || body.args[1].op != "seq" || len(body.args[1].args) != 1 {
		return nil, nil
	}
	if n, ok := lenT(init).isInt(); !ok || n.Sign() != 0 {
		return nil, nil
	}
	lvl, err := strconv.Atoi(strings.SplitN(t.sym, ":", 2)[0])
	if err != nil || mentions(single(body.args[1]), func(x *Term) bool { return x.op == "lc" }) {
		return nil, nil
	}
	return dom, func(i *Term) *Term {
		m := map[*Term]*Term{}
		for _, b := range boundTerms(lvl) {
			m[b] = i
		}
		return newSubst(m).T(body.args[1].args[0])
	}
}

// foldFilter is a loop over a slice that appends one element to an empty
// slice whenever a condition on the element holds.
type foldFilter struct {
	lvl  int
	dom  *Term
	cond B
	elem *Term
}

func filterFold(t *Term) *foldFilter {
	if t.op != "fold" || len(t.args) != 3 {
		return nil
	}
	dom, init, body := t.args[0], t.args[1], t.args[2]
	if dom.op != "len" || body.op != "ite" {
		return nil
	}
	if n, ok := lenT(init).isInt(); !ok || n.Sign() != 0 {
		return nil
	}
	lvl, err := strconv.Atoi(strings.SplitN(t.sym, ":", 2)[0])
	if err != nil {
		return nil
	}
	f := &foldFilter{lvl: lvl, dom: dom, cond: False}
	isLC := func(x *Term) bool { return x.op == "lc" }
	for i, a := range body.args {
		if mentions(body.bs[i], isLC) {
			return nil
		}
		switch {
		case a.op == "lc":
		case a.op == "append" && a.args[0].op == "lc" && a.args[1].op == "seq" && len(a.args[1].args) == 1 && f.elem == nil && !mentions(single(a.args[1]), isLC):
			f.elem = a.args[1].args[0]
			f.cond = body.bs[i]
		default:
			return nil
		}
	}
	if f.elem == nil {
		return nil
	}
	return f
}

func seqT(ts []*Term, typ types.Type) *Term { return mk("seq", "", typ, ts) }

// ---- substitution ----

type substT struct {
	m     map[*Term]*Term // leaves to replace
	memo  map[*Term]*Term
	bm    map[B]B
	lvl   int // bound level being replaced, or -1
	re    func(t *Term, args []*Term, bs []B) *Term
	cases []caseSub // substitutions for (disjoint) conditions
}

type caseSub struct {
	g B
	s *substT
}

func newSubst(m map[*Term]*Term) *substT {
	return &substT{m: m, memo: map[*Term]*Term{}, bm: map[B]B{}}
}

func (s *substT) B(b B) B {
	if b <= True {
		return b
	}
	if s.cases != nil {
		r, same := False, true
		for _, c := range s.cases {
			x := c.s.B(b)
			same = same && x == b
			r = Or(r, And(c.g, x))
		}
		if same {
			return b
		}
		return r
	}
	if r, ok := s.bm[b]; ok {
		return r
	}
	ch := false
	for v := range Support(b) {
		if s.T(atoms[v]) != atoms[v] {
			ch = true
			break
		}
	}
	r := b
	if ch {
		r = MapAtoms(b, func(v int32) B { return atom(s.T(atoms[v])) })
	}
	s.bm[b] = r
	return r
}

func (s *substT) T(t *Term) *Term {
	if s.cases != nil {
		return term(s.V(single(t)))
	}
	if r, ok := s.m[t]; ok {
		return r
	}
	if len(t.args) == 0 && len(t.bs) == 0 {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	switch t.op {
	case "exists", "first", "fold", "foldat", "foldstop", "lastm", "tab":
		// Bound variables of the same level are shadowed.
		lv := strings.SplitN(t.sym, ":", 2)[0]
		for k := range s.m {
			if k.op == "bound" && k.sym == lv {
				s.memo[t] = t
				return t
			}
		}
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = s.T(a)
		ch = ch || args[i] != a
	}
	bs := make([]B, len(t.bs))
	for i, b := range t.bs {
		bs[i] = s.B(b)
		ch = ch || bs[i] != b
	}
	r := t
	if ch {
		r = rebuild(t, args, bs)
	}
	s.memo[t] = r
	return r
}

// rebuild applies the simplifying constructors.
func rebuild(t *Term, args []*Term, bs []B) *Term {
	switch t.op {
	case "lin":
		r := lin{map[*Term]int64{}, new(big.Int)}
		cs := strings.Split(t.sym, ",")
		for i, a := range args {
			n, _ := strconv.ParseInt(cs[i], 10, 64)
			r = r.add(toLin(a), n)
		}
		c, _ := new(big.Int).SetString(cs[len(cs)-1], 10)
		r.c0.Add(r.c0, c)
		return r.term(t.typ)
	case "le":
		c, _ := new(big.Int).SetString(t.sym, 10)
		return boolTerm(leT(args[0], mk("const", "i:"+c.String(), nil, nil)))
	case "eq":
		return boolTerm(eqT(args[0], args[1]))
	case "cat":
		r := strTerm("")
		for _, a := range args {
			r = catT(r, a)
		}
		return r
	case "len":
		return lenT(args[0])
	case "call":
		consts := len(args) > 0
		for _, a := range args {
			consts = consts && a.isConst()
		}
		if consts {
			switch v := foldConst(t.sym, args, t.typ).(type) {
			case *GV, B:
				return term(v)
			}
		}
	case "boolt":
		return boolTerm(bs[0])
	case "ite":
		var gs []guarded
		for i := range args {
			gs = append(gs, guarded{bs[i], single(args[i])})
		}
		return term(join(gs))
	case "first1":
		return term(first1(args[0]))
	case "has":
		return boolTerm(hasT(args[0], args[1]))
	case "mapval":
		if m := args[0]; m.op == "ite" {
			var gs []guarded
			for i, a := range m.args {
				gs = append(gs, guarded{m.bs[i], single(rebuild(t, []*Term{a, args[1]}, nil))})
			}
			return term(join(gs))
		}
	case "exists":
		if bs[0] == False {
			return boolTerm(False)
		}
	}
	n := mk(t.op, t.sym, t.typ, args, bs...)
	if n.obj == nil {
		n.obj = t.obj
	}
	return n
}

func (s *substT) V(v Val) Val {
	if s.cases != nil {
		switch x := v.(type) {
		case nil:
			return nil
		case B:
			return s.B(x)
		case *AV:
			o := &AV{typ: x.typ, f: make([]Val, len(x.f))}
			for i := range x.f {
				o.f[i] = s.V(x.f[i])
			}
			return o
		}
		var gs []guarded
		same := true
		for _, c := range s.cases {
			w := c.s.V(v)
			same = same && w == v
			gs = append(gs, guarded{c.g, w})
		}
		if same {
			return v
		}
		return join(gs)
	}
	switch v := v.(type) {
	case nil:
		return nil
	case B:
		return s.B(v)
	case *GV:
		var gs []guarded
		ch := false
		for _, a := range v.alts {
			g, t := s.B(a.g), s.T(a.t)
			ch = ch || g != a.g || t != a.t
			gs = append(gs, guarded{g, single(t)})
		}
		if !ch {
			return v
		}
		return join(gs)
	case *AV:
		o := &AV{typ: v.typ, f: make([]Val, len(v.f))}
		for i := range v.f {
			o.f[i] = s.V(v.f[i])
		}
		return o
	}
	return v
}

// mentions reports whether v contains a term satisfying p.
func mentions(v Val, p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	seenB := map[B]bool{}
	var rt func(t *Term) bool
	var rb func(b B) bool
	rb = func(b B) bool {
		if b <= True || seenB[b] {
			return false
		}
		seenB[b] = true
		for v := range Support(b) {
			if rt(atoms[v]) {
				return true
			}
		}
		return false
	}
	rt = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if p(t) {
			return true
		}
		for _, a := range t.args {
			if rt(a) {
				return true
			}
		}
		for _, b := range t.bs {
			if rb(b) {
				return true
			}
		}
		return false
	}
	var rv func(v Val) bool
	rv = func(v Val) bool {
		switch v := v.(type) {
		case B:
			return rb(v)
		case *Term:
			return rt(v)
		case *GV:
			for _, a := range v.alts {
				if rb(a.g) || rt(a.t) {
					return true
				}
			}
		case *AV:
			for _, f := range v.f {
				if rv(f) {
					return true
				}
			}
		}
		return false
	}
	return rv(v)
}

// ---- printing ----

func (t *Term) String() string { return t.str(4) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d < 0 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.args {
			s = append(s, a.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case "const":
		if s, ok := t.isStr(); ok {
			return strconv.Quote(s)
		}
		return t.sym[2:]
	case "nil":
		return "nil"
	case "param", "lc", "bound":
		return t.op + "." + t.sym
	case "load":
		return t.args[0].str(d)
	case "fa":
		return t.args[0].str(d-1) + "." + fieldName(t)
	case "ia":
		return t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + "]"
	case "mapval":
		return t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + "]"
	case "has":
		return t.args[1].str(d-1) + " in " + t.args[0].str(d-1)
	case "eq":
		return t.args[0].str(d-1) + " == " + t.args[1].str(d-1)
	case "le":
		return t.args[0].str(d-1) + " <= " + t.sym
	case "lin":
		cs := strings.Split(t.sym, ",")
		var s []string
		for i, a := range t.args {
			c := cs[i] + "*"
			if cs[i] == "1" {
				c = ""
			}
			if cs[i] == "-1" {
				c = "-"
			}
			s = append(s, c+a.str(d-1))
		}
		if c := cs[len(cs)-1]; c != "0" {
			s = append(s, c)
		}
		return "(" + strings.Join(s, " + ") + ")"
	case "global":
		return t.sym
	case "call", "ret":
		return short(t.sym) + "(" + as() + ")"
	case "boolt":
		return "[" + bstr(t.bs[0], d-1) + "]"
	case "exists", "first":
		return t.op + "(" + as() + ": " + bstr(t.bs[0], d-1) + ")"
	case "ite":
		var s []string
		for i, a := range t.args {
			s = append(s, "["+bstr(t.bs[i], d-2)+"] "+a.str(d-1))
		}
		return "{" + strings.Join(s, " | ") + "}"
	}
	sym := t.sym
	if len(sym) > 40 {
		sym = short(sym)
	}
	return t.op + ":" + sym + "(" + as() + ")"
}

func short(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		p := s[:i]
		pre := ""
		for strings.HasPrefix(p, "(") || strings.HasPrefix(p, "*") {
			pre += p[:1]
			p = p[1:]
		}
		return pre + s[i+1:]
	}
	return s
}

func fieldName(t *Term) string {
	i, _ := strconv.Atoi(t.sym)
	if s, ok := t.obj.(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return "#" + t.sym
}

func bstr(b B, d int) string {
	if b == True {
		return "true"
	}
	if b == False {
		return "false"
	}
	if d < 0 {
		return "…"
	}
	n := bdd.nodes[b]
	if n.lo == False && n.hi == True {
		return atoms[n.v].str(d)
	}
	if n.lo == True && n.hi == False {
		return "!(" + atoms[n.v].str(d) + ")"
	}
	return cubeStr(b, d)
}

func cubeStr(b B, d int) string { return litStr(Cube(b), d) }

func litStr(ls []lit, d int) string {
	var s []string
	for _, l := range ls {
		x := atoms[l.v].str(d)
		if !l.pos {
			x = "!(" + x + ")"
		}
		s = append(s, x)
	}
	return strings.Join(s, " && ")
}

func vstr(v Val) string {
	switch v := v.(type) {
	case B:
		return bstr(v, 4)
	case *GV:
		var s []string
		for _, a := range v.alts {
			if a.g == True {
				s = append(s, a.t.String())
			} else {
				s = append(s, "["+bstr(a.g, 3)+"] "+a.t.String())
			}
		}
		return strings.Join(s, " | ")
	case *AV:
		var s []string
		for _, f := range v.f {
			s = append(s, vstr(f))
		}
		return "{" + strings.Join(s, "; ") + "}"
	case nil:
		return "<none>"
	}
	return fmt.Sprint(v)
}
