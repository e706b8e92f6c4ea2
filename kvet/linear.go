package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// bound is the comparison l.c <= c, implied by the literals in from.
type bound struct {
	l    lin
	c    *big.Int
	from map[int]bool
}

func (b bound) key() string {
	var sb strings.Builder
	for _, v := range b.l.vars() {
		sb.WriteString(strconv.Itoa(v.id))
		sb.WriteByte(':')
		sb.WriteString(strconv.FormatInt(b.l.c[v], 10))
		sb.WriteByte(' ')
	}
	return sb.String()
}

// linearConflict finds literals of a conjunction whose comparisons contradict
// each other (elimination of the variables, keeping track of the sources).
func linearConflict(ls []lit) []lit {
	var bs []bound
	for i, x := range ls {
		t := atoms[x.v]
		if t.op != "le" {
			continue
		}
		l, c := toLin(t.args[0]), bigOf(t.sym)
		l.c0 = new(big.Int)
		if !x.pos {
			l = lin{map[*Term]int64{}, new(big.Int)}.add(l, -1)
			c = new(big.Int).Sub(new(big.Int).Neg(c), big.NewInt(1))
		}
		bs = append(bs, bound{l, c, map[int]bool{i: true}})
	}
	known := map[*Term]bool{}
	for _, b := range bs {
		for v := range b.l.c {
			if !known[v] && notNegative(v) {
				known[v] = true
				bs = append(bs, bound{lin{map[*Term]int64{v: -1}, new(big.Int)}, new(big.Int), map[int]bool{}})
			}
		}
	}
	for round := 0; len(bs) > 0 && round < 60; round++ {
		// Eliminate the variable with the fewest combinations.
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, b := range bs {
			for v, k := range b.l.c {
				if k > 0 {
					pos[v]++
				} else {
					neg[v]++
				}
			}
		}
		var vars []*Term
		seen := map[*Term]bool{}
		for _, b := range bs {
			for v := range b.l.c {
				if !seen[v] {
					seen[v] = true
					vars = append(vars, v)
				}
			}
		}
		if len(vars) == 0 {
			return nil
		}
		sort.Slice(vars, func(i, j int) bool {
			a, b := pos[vars[i]]*neg[vars[i]], pos[vars[j]]*neg[vars[j]]
			if a != b {
				return a < b
			}
			return vars[i].id < vars[j].id
		})
		x := vars[0]
		best := map[string]bound{}
		add := func(b bound) {
			k := b.key()
			if o, ok := best[k]; !ok || b.c.Cmp(o.c) < 0 {
				best[k] = b
			}
		}
		var up, lo []bound
		for _, b := range bs {
			switch k := b.l.c[x]; {
			case k > 0:
				up = append(up, b)
			case k < 0:
				lo = append(lo, b)
			default:
				add(b)
			}
		}
		for _, u := range up {
			for _, w := range lo {
				ku, kw := u.l.c[x], -w.l.c[x]
				z := lin{map[*Term]int64{}, new(big.Int)}
				nb := bound{z.add(u.l, kw).add(w.l, ku), new(big.Int).Add(new(big.Int).Mul(u.c, big.NewInt(kw)), new(big.Int).Mul(w.c, big.NewInt(ku))), map[int]bool{}}
				for i := range u.from {
					nb.from[i] = true
				}
				for i := range w.from {
					nb.from[i] = true
				}
				if len(nb.l.c) == 0 {
					if nb.c.Sign() < 0 {
						var r []lit
						for i := range nb.from {
							r = append(r, ls[i])
						}
						sort.Slice(r, func(i, j int) bool { return r[i].v < r[j].v })
						return r
					}
					continue
				}
				add(nb)
			}
		}
		bs = bs[:0:0]
		var ks []string
		for k := range best {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			bs = append(bs, best[k])
		}
		if len(bs) > 400 {
			return nil
		}
	}
	return nil
}

// feasible strengthens b by the theory of the comparisons it depends on until
// it is impossible or has a consistent case.
func feasible(b B) (B, bool) {
	if !sat(b) {
		return False, false
	}
	b = And(b, theory(b))
	for n := 0; n < 400; n++ {
		if b == False {
			return False, false
		}
		core := linearConflict(Cube(b))
		if core == nil {
			return b, true
		}
		c := True
		for i := len(core) - 1; i >= 0; i-- {
			if v := bddVar(core[i].v); core[i].pos {
				c = And(c, v)
			} else {
				c = And(c, Not(v))
			}
		}
		b = And(b, Not(c))
	}
	return b, true
}
