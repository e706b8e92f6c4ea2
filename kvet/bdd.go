package main

// Reduced ordered binary decision diagrams over the atoms (elementary
// conditions) of the analysed program. Guards are kept in this canonical form,
// so that a condition means the same no matter how the source spells it.

// B is a boolean function; 0 is false, 1 is true.
type B int32

const (
	False B = 0
	True  B = 1
)

type bnode struct {
	v      int32
	lo, hi B
}

type bddT struct {
	nodes []bnode
	tab   []B // open addressing, power of two
	cache []iteEnt
}

type iteEnt struct{ f, g, h, r B }

const cacheBits = 21

var bdd = newBDD()

func newBDD() *bddT {
	const last = 1 << 30
	return &bddT{nodes: []bnode{{v: last}, {v: last}}, tab: make([]B, 1<<16), cache: make([]iteEnt, 1<<cacheBits)}
}

type budgetExceeded struct{ what string }

func hash3(a, b, c uint32) uint32 {
	h := uint64(a)*0x9E3779B97F4A7C15 ^ uint64(b)*0xC2B2AE3D27D4EB4F ^ uint64(c)*0x165667B19E3779F9
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	return uint32(h >> 32)
}

func (d *bddT) mk(v int32, lo, hi B) B {
	if lo == hi {
		return lo
	}
	n := bnode{v, lo, hi}
	m := uint32(len(d.tab) - 1)
	i := hash3(uint32(v), uint32(lo), uint32(hi)) & m
	for ; d.tab[i] != 0; i = (i + 1) & m {
		if d.nodes[d.tab[i]] == n {
			return d.tab[i]
		}
	}
	if len(d.nodes) > 150_000_000 {
		panic(budgetExceeded{"decision diagram nodes"})
	}
	d.nodes = append(d.nodes, n)
	b := B(len(d.nodes) - 1)
	d.tab[i] = b
	if len(d.nodes)*2 > len(d.tab) {
		d.tab = make([]B, 2*len(d.tab))
		m = uint32(len(d.tab) - 1)
		for j := 2; j < len(d.nodes); j++ {
			x := d.nodes[j]
			i := hash3(uint32(x.v), uint32(x.lo), uint32(x.hi)) & m
			for d.tab[i] != 0 {
				i = (i + 1) & m
			}
			d.tab[i] = B(j)
		}
	}
	return b
}

func bddVar(v int32) B { return bdd.mk(v, False, True) }

func (d *bddT) cof(f B, v int32) (lo, hi B) {
	n := d.nodes[f]
	if n.v == v {
		return n.lo, n.hi
	}
	return f, f
}

// Ite is if-then-else.
func Ite(f, g, h B) B {
	switch {
	case f == True:
		return g
	case f == False:
		return h
	case g == h:
		return g
	case g == True && h == False:
		return f
	}
	switch { // commutative operations
	case h == False && g < f:
		f, g = g, f
	case g == True && h < f:
		f, h = h, f
	}
	ce := hash3(uint32(f), uint32(g), uint32(h)) & (1<<cacheBits - 1)
	if x := &bdd.cache[ce]; x.f == f && x.g == g && x.h == h {
		return x.r
	}
	v := min(bdd.nodes[f].v, bdd.nodes[g].v, bdd.nodes[h].v)
	f0, f1 := bdd.cof(f, v)
	g0, g1 := bdd.cof(g, v)
	h0, h1 := bdd.cof(h, v)
	r := bdd.mk(v, Ite(f0, g0, h0), Ite(f1, g1, h1))
	bdd.cache[ce] = iteEnt{f, g, h, r}
	return r
}

func And(fs ...B) B {
	r := True
	for _, f := range fs {
		r = Ite(r, f, False)
	}
	return r
}
func Or(fs ...B) B {
	r := False
	for _, f := range fs {
		r = Ite(r, True, f)
	}
	return r
}
func Not(f B) B        { return Ite(f, False, True) }
func Implies(f, g B) B { return Ite(f, g, True) }
func Iff(f, g B) B     { return Ite(f, g, Not(g)) }

func boolB(b bool) B {
	if b {
		return True
	}
	return False
}

// Constrain is the generalized cofactor of f with respect to c.
func Constrain(f, c B) B {
	memo := map[[2]B]B{}
	var rec func(f, c B) B
	rec = func(f, c B) B {
		if c == True || f == True || f == False {
			return f
		}
		if c == False {
			return False
		}
		if f == c {
			return True
		}
		if f == Not(c) {
			return False
		}
		k := [2]B{f, c}
		if r, ok := memo[k]; ok {
			return r
		}
		v := min(bdd.nodes[f].v, bdd.nodes[c].v)
		f0, f1 := bdd.cof(f, v)
		c0, c1 := bdd.cof(c, v)
		var r B
		if c0 == False {
			r = rec(f1, c1)
		} else if c1 == False {
			r = rec(f0, c0)
		} else if f0 == f1 { // restrict: do not introduce variables
			r = rec(f0, Or(c0, c1))
		} else {
			r = bdd.mk(v, rec(f0, c0), rec(f1, c1))
		}
		memo[k] = r
		return r
	}
	return rec(f, c)
}

// Support returns the atoms f depends on.
func Support(fs ...B) map[int32]bool {
	seen := map[B]bool{}
	out := map[int32]bool{}
	var rec func(f B)
	rec = func(f B) {
		if f <= True || seen[f] {
			return
		}
		seen[f] = true
		n := bdd.nodes[f]
		out[n.v] = true
		rec(n.lo)
		rec(n.hi)
	}
	for _, f := range fs {
		rec(f)
	}
	return out
}

// MapAtoms rebuilds f with every atom replaced by sub(atom).
func MapAtoms(f B, sub func(int32) B) B {
	memo := map[B]B{}
	var rec func(f B) B
	rec = func(f B) B {
		if f <= True {
			return f
		}
		if r, ok := memo[f]; ok {
			return r
		}
		n := bdd.nodes[f]
		r := Ite(sub(n.v), rec(n.hi), rec(n.lo))
		memo[f] = r
		return r
	}
	return rec(f)
}

// Cofactor sets one atom to a constant.
func Cofactor(f B, v int32, val bool) B {
	return MapAtoms(f, func(x int32) B {
		if x == v {
			return boolB(val)
		}
		return bddVar(x)
	})
}

type lit struct {
	v   int32
	pos bool
}

// Cube returns one satisfying assignment of f (shortest-ish path).
func Cube(f B) []lit {
	var out []lit
	for f > True {
		n := bdd.nodes[f]
		if n.hi != False {
			if n.lo == True {
				out = append(out, lit{n.v, false})
				return out
			}
			out = append(out, lit{n.v, true})
			f = n.hi
		} else {
			out = append(out, lit{n.v, false})
			f = n.lo
		}
	}
	return out
}
