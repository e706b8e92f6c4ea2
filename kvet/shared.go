package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// mutable reports whether a field is written in the module other than into a
// new object of the same function.
func (P *Program) mutable(v *types.Var) bool {
	if P.muts == nil {
		P.findMutable()
	}
	return P.muts[v]
}

func (P *Program) findMutable() {
	P.muts = map[*types.Var]bool{}
	for _, fn := range P.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || freshBase(st.Addr) {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					P.muts[fieldVar(fa)] = true
				}
				// A struct stored as a whole.
				if s, ok := st.Val.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						P.muts[s.Field(i)] = true
					}
				}
			}
		}
	}
}

func fieldVar(fa *ssa.FieldAddr) *types.Var {
	return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field)
}

// freshBase: the address lies in an object made by this function.
func freshBase(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Alloc:
			return true
		default:
			return false
		}
	}
}

// havocShared forgets the fields of the object t that other goroutines may
// have changed.
func (e *Eval) havocShared(t *Term, g B, tag string) {
	e.nhavoc++
	tag = fmt.Sprintf("%s@%d", tag, e.nhavoc)
	if p, ok := t.typ.(*types.Pointer); ok {
		if s, ok := p.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if e.P.mutable(s.Field(i)) {
					e.havoc(faT(t, i, s), g, tag)
				}
			}
			return
		}
	}
	e.havoc(t, g, tag)
}
