package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopRun is the evaluation of one loop.
type loopRun struct {
	L          *Loop
	test       *ssa.If
	exitOnTrue bool
	evalTest   func(f *frame)
	normal     [2]int
	nextIn     *ssa.Next
	nextVal    func(f *frame) Val
}

type loopShape struct {
	kind  string // int, map, string, while
	phi   *ssa.Phi
	start *Term
	bound ssa.Value // N of the test
	plus  int64     // N adjustment (<=)
	off   int64     // test on phi+off
	next  *ssa.Next
	exitT bool
	down  bool
	test  *ssa.If
}

// shape recognizes counted loops and range loops.
func (f *frame) shape(L *Loop, init map[*ssa.Phi]Val) loopShape {
	h := L.header
	ifi, _ := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if ifi == nil {
		return loopShape{kind: "while"}
	}
	inT, inE := L.blocks[h.Succs[0]], L.blocks[h.Succs[1]]
	if inT == inE {
		return loopShape{kind: "while"}
	}
	s := loopShape{test: ifi, exitT: inE}
	// range over map or string
	if ex, ok := ifi.Cond.(*ssa.Extract); ok && ex.Index == 0 && !s.exitT {
		if nx, ok := ex.Tuple.(*ssa.Next); ok && nx.Block() == h {
			s.next = nx
			s.kind = "map"
			if nx.IsString {
				s.kind = "string"
			}
			return s
		}
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return loopShape{kind: "while"}
	}
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isInteger(phi.Type()) {
			continue
		}
		// All back edges: phi + 1, or all phi - 1.
		var inc *ssa.BinOp
		down := false
		okk := true
		for i, p := range h.Preds {
			if !L.blocks[p] {
				continue
			}
			b, isB := phi.Edges[i].(*ssa.BinOp)
			step := int64(0)
			if isB {
				step = stepOf(b, phi)
			}
			if step == 0 || inc != nil && (step < 0) != down {
				okk = false
				break
			}
			inc, down = b, step < 0
		}
		if !okk || inc == nil {
			continue
		}
		st, ok := init[phi].(*GV)
		if !ok || len(st.alts) != 1 {
			continue
		}
		isIdx := func(v ssa.Value) (int64, bool) {
			if v == ssa.Value(phi) {
				return 0, true
			}
			if b, ok := v.(*ssa.BinOp); ok {
				if st := stepOf(b, phi); st != 0 && (st < 0) == down {
					return 1, true
				}
			}
			return 0, false
		}
		op := cmp.Op
		off, ok := isIdx(cmp.X)
		n := cmp.Y
		if !ok {
			if off, ok = isIdx(cmp.Y); !ok {
				continue
			}
			n = cmp.X
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		if down {
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		in := func(o token.Token) bool { return op == o }
		switch {
		case !s.exitT && (in(token.LSS) || in(token.NEQ)), s.exitT && (in(token.GEQ) || in(token.EQL)):
		case !s.exitT && in(token.LEQ), s.exitT && in(token.GTR):
			s.plus = 1
		default:
			continue
		}
		s.kind, s.phi, s.start, s.bound, s.off, s.down = "int", phi, st.alts[0].t, n, off, down
		return s
	}
	return loopShape{kind: "while"}
}

// stepOf is +1 or -1 if b is phi + 1 or phi - 1.
func stepOf(b *ssa.BinOp, phi *ssa.Phi) int64 {
	x, y := b.X, b.Y
	if c, ok := x.(*ssa.Const); ok && b.Op == token.ADD {
		x, y = y, ssa.Value(c)
	}
	c, ok := y.(*ssa.Const)
	if !ok || x != ssa.Value(phi) || c.Value == nil {
		return 0
	}
	switch s := c.Value.ExactString(); {
	case b.Op == token.ADD && s == "1" || b.Op == token.SUB && s == "-1":
		return 1
	case b.Op == token.SUB && s == "1" || b.Op == token.ADD && s == "-1":
		return -1
	}
	return 0
}

// value is the counter in iteration i.
func (s loopShape) value(i *Term, typ types.Type) *Term {
	if s.down {
		return subT(s.start, i, typ)
	}
	return addT(i, s.start, typ)
}

type stateVar struct {
	phi  *ssa.Phi
	addr *Term
	typ  types.Type
	sym  Val
	init Val
	next Val
	leaf []*Term // lc terms
}

type exitEdge struct {
	from, to *ssa.BasicBlock
	g        B
	env      map[ssa.Value]Val
}

type snapshot struct {
	log    int
	events int
	counts map[string]int
	locks  map[*Term]lockState
	defers int
	pend   int
	rets   int
	caps   int
}

// capture is the write log of the iterations of a loop, as the events in it
// see it.
type capture struct {
	log  []write
	used bool
}

func (f *frame) snap() snapshot {
	e := f.e
	s := snapshot{len(e.log), len(e.events), map[string]int{}, map[*Term]lockState{}, len(f.defers), len(e.pending), len(f.rets), len(e.captures)}
	for k, v := range e.counts {
		s.counts[k] = v
	}
	for k, v := range e.locks {
		s.locks[k] = v
	}
	return s
}

func (f *frame) restore(s snapshot) {
	e := f.e
	e.log = e.log[:s.log:s.log]
	e.captures = e.captures[:s.caps]
	e.events = e.events[:s.events]
	e.counts = map[string]int{}
	for k, v := range s.counts {
		e.counts[k] = v
	}
	e.locks = map[*Term]lockState{}
	for k, v := range s.locks {
		e.locks[k] = v
	}
	f.defers = f.defers[:s.defers]
	e.pending = e.pending[:s.pend]
	f.rets = f.rets[:s.rets]
}

// live returns the values defined in L that are used outside of it.
func liveOut(L *Loop) []ssa.Value {
	var out []ssa.Value
	for b := range L.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !L.blocks[r.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	return out
}

func (f *frame) exits(L *Loop) []*exitEdge {
	var out []*exitEdge
	for _, b := range f.info.rpo {
		if !L.blocks[b] {
			continue
		}
		for _, s := range b.Succs {
			if !L.blocks[s] {
				out = append(out, &exitEdge{from: b, to: s})
			}
		}
	}
	return out
}

func (f *frame) evalLoop(L *Loop) {
	h := L.header
	pcIn := False
	for _, p := range h.Preds {
		if !L.blocks[p] {
			pcIn = Or(pcIn, f.edge[[2]int{p.Index, h.Index}])
		}
	}
	ex := f.exits(L)
	dead := func() {
		for _, x := range ex {
			f.edge[[2]int{x.from.Index, x.to.Index}] = False
		}
	}
	if pcIn == False || !sat(pcIn) {
		dead()
		return
	}
	init := map[*ssa.Phi]Val{}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var gs []guarded
		for i, pr := range h.Preds {
			if !L.blocks[pr] {
				if g := f.edge[[2]int{pr.Index, h.Index}]; g != False {
					gs = append(gs, guarded{Constrain(g, pcIn), f.val(p.Edges[i])})
				}
			}
		}
		init[p] = simp(join(gs), pcIn)
		phis = append(phis, p)
	}
	sh := f.shape(L, init)

	if n, ok := f.tripCount(L, sh, init, pcIn); ok && n <= 40 {
		f.unroll(L, phis, init, pcIn, ex, int(n)+2)
		return
	}
	if sh.kind == "map" {
		if ks := f.constKeys(sh, pcIn); ks != nil {
			f.unrollMap(L, sh, ks, phis, init, pcIn, ex)
			return
		}
	}
	if f.e.peel {
		f.unroll(L, phis, init, pcIn, ex, 64)
		return
	}
	f.symbolic(L, sh, phis, init, pcIn, ex)
}

// tripCount finds a constant number of iterations.
func (f *frame) tripCount(L *Loop, sh loopShape, init map[*ssa.Phi]Val, pcIn B) (int64, bool) {
	if sh.kind != "int" {
		return 0, false
	}
	st, ok := sh.start.isInt()
	if !ok {
		return 0, false
	}
	var nv Val
	if in, ok := sh.bound.(ssa.Instruction); ok && L.blocks[in.Block()] {
		if in.Block() != L.header {
			return 0, false
		}
		s := f.snap()
		q := f.e.quiet
		f.e.quiet = true
		for p, v := range init {
			f.env[p] = v
		}
		pcs := f.pc
		f.pc = pcIn
		for _, x := range L.header.Instrs {
			if _, ok := x.(*ssa.Phi); ok {
				continue
			}
			if _, ok := x.(*ssa.If); ok {
				break
			}
			f.instr(x)
		}
		f.pc = pcs
		nv = f.val(sh.bound)
		f.e.quiet = q
		f.restore(s)
	} else {
		nv = f.val(sh.bound)
	}
	g, ok := nv.(*GV)
	if !ok || len(g.alts) != 1 {
		return 0, false
	}
	n, ok := g.alts[0].t.isInt()
	if !ok || !n.IsInt64() {
		return 0, false
	}
	if sh.down {
		return st.Int64() - n.Int64() + sh.plus - sh.off, true
	}
	return n.Int64() + sh.plus - st.Int64() - sh.off, true
}

// unroll evaluates the iterations one by one.
func (f *frame) unroll(L *Loop, phis []*ssa.Phi, init map[*ssa.Phi]Val, pcIn B, ex []*exitEdge, limit int) {
	h := L.header
	live := liveOut(L)
	type exitRec struct {
		x   *exitEdge
		g   B
		env map[ssa.Value]Val
	}
	var recs []exitRec
	vals := init
	pc := pcIn
	saveCur := f.cur
	f.cur = nil
	for it := 0; pc != False && sat(pc) && it <= limit; it++ {
		for p, v := range vals {
			f.env[p] = v
		}
		f.clearEdges(L)
		f.runRegion(L, pc)
		for _, x := range ex {
			if g := f.edge[[2]int{x.from.Index, x.to.Index}]; g != False {
				r := exitRec{x, g, map[ssa.Value]Val{}}
				for _, v := range live {
					r.env[v] = f.env[v]
				}
				recs = append(recs, r)
			}
		}
		nv := map[*ssa.Phi]Val{}
		np := False
		for _, p := range h.Preds {
			if L.blocks[p] {
				np = Or(np, f.edge[[2]int{p.Index, h.Index}])
			}
		}
		for _, ph := range phis {
			var gs []guarded
			for i, p := range h.Preds {
				if L.blocks[p] {
					if g := f.edge[[2]int{p.Index, h.Index}]; g != False {
						gs = append(gs, guarded{Constrain(g, np), f.val(ph.Edges[i])})
					}
				}
			}
			nv[ph] = simp(join(gs), np)
		}
		vals, pc = nv, np
		if it == limit && f.e.peel && pc != False && sat(pc) {
			panic(unresolved{"the number of iterations of a loop in " + f.fn.String()})
		}
	}
	f.cur = saveCur
	f.clearEdges(L)
	all := False
	for _, x := range ex {
		g := False
		for _, r := range recs {
			if r.x == x {
				g = Or(g, r.g)
			}
		}
		f.edge[[2]int{x.from.Index, x.to.Index}] = g
		all = Or(all, g)
	}
	for _, v := range live {
		var gs []guarded
		for _, r := range recs {
			if r.env[v] != nil {
				gs = append(gs, guarded{Constrain(r.g, all), r.env[v]})
			}
		}
		f.env[v] = simp(join(gs), all)
	}
}

func (f *frame) clearEdges(L *Loop) {
	for b := range L.blocks {
		for _, s := range b.Succs {
			delete(f.edge, [2]int{b.Index, s.Index})
		}
	}
}

// constKeys lists the keys of a map built from constants.
func (f *frame) constKeys(sh loopShape, pc B) []*Term {
	v, ok := f.val(sh.next.Iter).(*GV)
	if !ok || len(v.alts) != 1 {
		return nil
	}
	m := v.alts[0].t
	if m.op != "makemap" {
		return nil
	}
	log := f.e.log
	if ge := f.e.P.globalEval(m); ge != nil {
		log = ge.log
	}
	var ks []*Term
	for _, w := range log {
		if w.addr.op != "me" || w.addr.args[0] != m {
			continue
		}
		if w.val == nil || w.lvl >= 0 || !w.addr.args[1].isConst() || !implies(pc, w.g) {
			return nil
		}
		for _, k := range ks {
			if k == w.addr.args[1] {
				return nil
			}
		}
		ks = append(ks, w.addr.args[1])
	}
	if len(ks) > 40 {
		return nil
	}
	return ks
}

// unrollMap evaluates a range over a constant table.
func (f *frame) unrollMap(L *Loop, sh loopShape, ks []*Term, phis []*ssa.Phi, init map[*ssa.Phi]Val, pcIn B, ex []*exitEdge) {
	f.mapIter = append(f.mapIter, &mapIter{sh.next, ks, 0})
	f.unroll(L, phis, init, pcIn, ex, len(ks)+2)
	f.mapIter = f.mapIter[:len(f.mapIter)-1]
}

type mapIter struct {
	next *ssa.Next
	keys []*Term
	pos  int
}

func (f *frame) next(in *ssa.Next) {
	tt := in.Type().(*types.Tuple)
	for i := len(f.mapIter) - 1; i >= 0; i-- {
		it := f.mapIter[i]
		if it.next != in {
			continue
		}
		m := term(f.val(in.Iter))
		if it.pos >= len(it.keys) {
			f.env[in] = &AV{f: []Val{False, zeroVal(tt.At(1).Type()), zeroVal(tt.At(2).Type())}}
			return
		}
		k := it.keys[it.pos]
		it.pos++
		var v Val = single(nilTerm())
		if mt, ok := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map); ok {
			v, _ = f.e.mapLoad(m, k, mt.Elem(), f.pc)
		}
		f.env[in] = &AV{f: []Val{True, single(k), v}}
		return
	}
	// Symbolic iteration: the loop evaluation provides key and value.
	if f.cur != nil && f.cur.nextVal != nil && f.cur.nextIn == in {
		f.env[in] = f.cur.nextVal(f)
		return
	}
	t := f.e.fresh("next", in.Type(), nil)
	f.env[in] = single(t)
}

func (f *frame) symbolic(L *Loop, sh loopShape, phis []*ssa.Phi, init map[*ssa.Phi]Val, pcIn B, ex []*exitEdge) {
	e := f.e
	h := L.header
	lvl := e.depth
	e.depth++
	defer func() { e.depth-- }()
	e.nloop++
	uid := e.nloop
	bound := mk("bound", strconv.Itoa(lvl), types.Typ[types.Int], nil)
	lc := &loopCtx{uid: uid, bound: bound, domKind: sh.kind}
	e.loops = append(append([]*loopCtx(nil), e.loops...), lc)
	defer func() { e.loops = e.loops[:len(e.loops)-1] }()

	var dom *Term
	var nTerm *Term
	lr := &loopRun{L: L}
	if sh.kind != "while" {
		lr.test, lr.exitOnTrue = sh.test, sh.exitT
	}
	var iter Val
	if sh.kind == "map" || sh.kind == "string" {
		iter = f.val(sh.next.Iter)
		mt := term(iter)
		if sh.kind == "map" {
			dom = mk("dom", "", nil, []*Term{mt})
		} else {
			dom = lenT(mt)
		}
		lc.cur = dom
		lr.nextIn = sh.next
		rt := sh.next.Iter.(*ssa.Range).X.Type().Underlying()
		lr.nextVal = func(f *frame) Val {
			if sh.kind == "string" {
				return &AV{f: []Val{True, single(bound), single(mk("idx", "", types.Typ[types.Int], []*Term{mt, bound}))}}
			}
			et := rt.(*types.Map)
			k := typedBound(lvl, et.Key())
			v, _ := e.mapLoadDom(mt, k, et.Elem(), f.pc)
			return &AV{f: []Val{True, single(k), v}}
		}
	}
	lr.evalTest = func(f *frame) {
		if sh.kind == "int" {
			n := term(f.val(sh.bound))
			from, to := sh.start, n
			if sh.down {
				from, to = n, sh.start
			}
			nTerm = addT(to, intTerm(sh.plus-sh.off), types.Typ[types.Int])
			nTerm = subT(nTerm, from, types.Typ[types.Int])
			dom = nTerm
			lc.cur = dom
		}
	}
	lr.normal = [2]int{-1, -1}

	carried := map[*Term]types.Type{}
	var order []*Term
	var earlier []write // what earlier iterations may have written to maps and slices
	base := f.snap()
	var states []*stateVar
	saveCur := f.cur
	allocBase := e.nalloc
	for pass := 0; ; pass++ {
		f.restore(base)
		f.clearEdges(L)
		states = nil
		for i, p := range phis {
			if p == sh.phi {
				f.env[p] = single(sh.value(bound, p.Type()))
				continue
			}
			s := &stateVar{phi: p, typ: p.Type(), init: init[p]}
			s.sym = e.symState(s, fmt.Sprintf("%d.p%d", uid, i), p.Type())
			f.env[p] = s.sym
			states = append(states, s)
		}
		for i, a := range order {
			s := &stateVar{addr: a, typ: carried[a]}
			s.init, _ = e.read(a, carried[a], pcIn)
			s.sym = e.symState(s, fmt.Sprintf("%d.m%d", uid, i), carried[a])
			states = append(states, s)
		}
		for _, s := range states {
			if s.addr != nil {
				e.log = append(e.log, write{g: pcIn, addr: s.addr, val: s.sym, lvl: -1, tag: "carried"})
			}
		}
		e.log = append(e.log, earlier...)
		mark := len(e.log)
		f.cur = lr
		f.runRegion(L, pcIn)
		f.cur = saveCur
		grew := false
		for _, w := range e.log[mark:] {
			if m, k := element(w.addr); m != nil && (k.free > lvl || iterDependent(k, uid, base.counts)) &&
				m.free <= lvl && !freshSince(m, allocBase) && !iterDependent(m, uid, base.counts) {
				x := write{g: pcIn, addr: m, lvl: -1, tag: fmt.Sprintf("earlier%d", uid)}
				if k.op == "bound" && k.sym == bound.sym || sh.phi != nil && k == sh.value(bound, sh.phi.Type()) {
					x.except = k
				}
				known := false
				for i, y := range earlier {
					if y.addr == m {
						known = true
						if y.except != nil && y.except != x.except {
							earlier[i].except, grew = nil, true
						}
					}
				}
				if !known {
					earlier, grew = append(earlier, x), true
				}
			}
			if w.val == nil || w.lvl >= 0 && w.addr.free > w.lvl {
				continue
			}
			if w.addr.free > lvl || freshSince(w.addr, allocBase) || iterDependent(w.addr, uid, base.counts) {
				continue
			}
			if _, ok := carried[w.addr]; !ok {
				carried[w.addr] = valType(w)
				order = append(order, w.addr)
				grew = true
			}
		}
		if !grew || pass > 6 {
			break
		}
	}
	lc.dom = dom

	back := False
	for _, p := range h.Preds {
		if L.blocks[p] {
			back = Or(back, f.edge[[2]int{p.Index, h.Index}])
		}
	}
	cRel := Constrain(back, pcIn)
	live := liveOut(L)
	var early []*exitEdge
	var normal *exitEdge
	for _, x := range ex {
		k := [2]int{x.from.Index, x.to.Index}
		if k == lr.normal && sh.kind != "while" {
			normal = x
			continue
		}
		if g := f.edge[k]; g != False && sat(g) {
			x.g = Constrain(g, pcIn)
			early = append(early, x)
		}
	}
	lc.early = len(early) > 0 || f.retsInLoop(base)
	// next values
	for _, s := range states {
		if s.phi != nil {
			var gs []guarded
			for i, p := range h.Preds {
				if L.blocks[p] {
					if g := f.edge[[2]int{p.Index, h.Index}]; g != False {
						gs = append(gs, guarded{Constrain(g, back), f.val(s.phi.Edges[i])})
					}
				}
			}
			s.next = simp(join(gs), back)
		} else if back != False {
			s.next, _ = e.read(s.addr, s.typ, back)
		}
		if s.next == nil {
			s.next = s.sym
		}
	}
	type exVal struct {
		x    *exitEdge
		vals map[*stateVar]Val // at exit
		env  map[ssa.Value]Val
	}
	var evs []*exVal
	// Variables of one iteration that are used after the loop was left hold
	// what that iteration stored.
	locals := e.iterLocals(live, allocBase, base.log)
	for _, x := range early {
		v := &exVal{x, map[*stateVar]Val{}, map[ssa.Value]Val{}}
		gx := And(pcIn, x.g)
		for _, s := range locals {
			v.vals[s], _ = e.read(s.addr, s.typ, gx)
		}
		for _, s := range states {
			if s.addr != nil {
				v.vals[s], _ = e.read(s.addr, s.typ, gx)
			}
		}
		for _, lv := range live {
			if f.env[lv] != nil {
				v.env[lv] = simp(f.env[lv], gx)
			}
		}
		evs = append(evs, v)
	}

	// States the loop never changes when it goes on keep their initial value.
	fixed := map[*stateVar]bool{}
	apply := func(sub *substT) {
		cRel = sub.B(cRel)
		for _, s := range states {
			s.next = sub.V(s.next)
			s.init = sub.V(s.init)
		}
		for _, v := range evs {
			v.x.g = sub.B(v.x.g)
			for k := range v.vals {
				v.vals[k] = sub.V(v.vals[k])
			}
			for k := range v.env {
				v.env[k] = sub.V(v.env[k])
			}
		}
		for _, lv := range live {
			if f.env[lv] != nil {
				f.env[lv] = sub.V(f.env[lv])
			}
		}
		for i := base.log; i < len(e.log); i++ {
			e.log[i].g = sub.B(e.log[i].g)
			e.log[i].addr = sub.T(e.log[i].addr)
			if e.log[i].val != nil {
				e.log[i].val = sub.V(e.log[i].val)
			}
		}
		for _, ev := range e.events[base.events:] {
			ev.subst(sub)
		}
		for _, cp := range e.captures[base.caps:] {
			for i := base.log; i < len(cp.log); i++ {
				w := &cp.log[i]
				w.g, w.addr = sub.B(w.g), sub.T(w.addr)
				if w.val != nil {
					w.val = sub.V(w.val)
				}
			}
		}
		for i := base.pend; i < len(e.pending); i++ {
			p := &e.pending[i]
			p.g = sub.B(p.g)
			p.fn = sub.V(p.fn)
			for j := range p.args {
				p.args[j] = sub.V(p.args[j])
			}
		}
		for i := base.rets; i < len(f.rets); i++ {
			f.rets[i] = guarded{sub.B(f.rets[i].g), sub.V(f.rets[i].v)}
		}
		for i := base.defers; i < len(f.defers); i++ {
			f.defers[i].g = sub.B(f.defers[i].g)
			for j := range f.defers[i].args {
				f.defers[i].args[j] = sub.V(f.defers[i].args[j])
			}
		}
		if dom != nil {
			dom = sub.T(dom)
			lc.dom = dom
		}
	}
	then := map[*stateVar]Val{} // in the iteration the bound stands for
	for changed := true; changed; {
		changed = false
		m := map[*Term]*Term{}
		for _, s := range states {
			if fixed[s] {
				continue
			}
			if diff(And(pcIn, cRel), s.next, s.sym) == False {
				fixed[s] = true
				changed = true
				s.bindTo(m, s.init)
				continue
			}
			// A constant that every iteration keeps if it starts with it.
			if gv, ok := s.init.(*GV); ok && len(gv.alts) == 1 && gv.alts[0].t.isConst() {
				own := map[*Term]*Term{}
				s.bindTo(own, s.init)
				sub := newSubst(own)
				if diff(And(pcIn, sub.B(cRel)), sub.V(s.next), s.init) == False {
					fixed[s] = true
					changed = true
					s.bindTo(m, s.init)
				}
			}
		}
		if changed {
			apply(newSubst(m))
			continue
		}
		// A constant at first, then always the same other one.
		for _, s := range states {
			if !fixed[s] && sh.kind == "int" && isOneConst(s.init) && isOneConst(s.next) {
				first := leT(bound, intTerm(0))
				v := join([]guarded{{first, s.init}, {Not(first), s.next}})
				fixed[s], changed, then[s] = true, true, v
				s.bindTo(m, v)
			}
		}
		if changed {
			apply(newSubst(m))
		}
	}
	var rest []*stateVar
	for _, s := range states {
		if !fixed[s] {
			rest = append(rest, s)
		}
	}
	isRest := func(t *Term) bool {
		if t.op != "lc" {
			return false
		}
		for _, s := range rest {
			for _, l := range s.leaf {
				if l == t {
					return true
				}
			}
		}
		return false
	}
	eRel := False
	for _, x := range early {
		eRel = Or(eRel, x.g)
	}

	post := map[*exitEdge]*substT{} // substitution on each exit
	guard := map[*exitEdge]B{}
	// The condition under which an iteration takes place.
	reach := func(w *write) B { return True }
	if eRel != False {
		reach = func(w *write) B {
			return atom(mk("reached", strconv.Itoa(uid), types.Typ[types.Bool], []*Term{bound}))
		}
	}
	if sh.kind == "while" {
		m := map[*Term]*Term{}
		for _, s := range rest {
			for _, l := range s.leaf {
				w := mk("wh", fmt.Sprintf("%d.%s", uid, l.sym), l.typ, nil)
				m[l] = w
				if len(s.leaf) == 1 {
					e.progress = append(e.progress, step{l, w, And(pcIn, back), s.init, s.next, false})
				}
			}
		}
		sub := newSubst(m)
		for _, x := range early {
			post[x] = sub
			guard[x] = And(pcIn, sub.B(x.g))
		}
		for _, v := range evs {
			for _, val := range v.vals {
				e.progress = append(e.progress, step{g: And(pcIn, v.x.g), next: val, leaves: true})
			}
			for _, val := range v.env {
				e.progress = append(e.progress, step{g: And(pcIn, v.x.g), next: val, leaves: true})
			}
		}
	} else {
		dom = domT(dom)
		var exB B
		fold := f.folder(lvl, dom, rest, eRel, cRel, isRest)
		var cases []hoisted
		if !mentions(eRel, isRest) {
			exB = existsB(lvl, dom, eRel)
			for _, h := range hoist(lvl, eRel) {
				if h.c != False && sat(And(pcIn, h.g)) {
					cases = append(cases, h)
				}
			}
			if len(cases) == 1 {
				cases[0].g = True
			}
			if len(cases) == 0 {
				cases = append(cases, hoisted{True, eRel})
			}
		} else {
			exB = fold.stop()
			cases = append(cases, hoisted{True, eRel})
		}
		var subs []caseSub
		for _, hc := range cases {
			firstJ := fold.first
			_, dom := someDom(dom)
			if !mentions(eRel, isRest) {
				hc := hc
				firstJ = func() *Term {
					if !mentions(hc.c, isBound(lvl)) && dom.op != "dom" {
						return intTerm(0)
					}
					if sh.kind == "map" {
						return mk("first", strconv.Itoa(lvl)+":", typedBoundType(sh), []*Term{dom}, hc.c)
					}
					return mk("first", strconv.Itoa(lvl)+":", types.Typ[types.Int], []*Term{dom}, hc.c)
				}
			}
			mFirst := map[*Term]*Term{}
			for _, l := range boundTerms(lvl) {
				mFirst[l] = firstJ()
			}
			for _, s := range rest {
				s.bindTo(mFirst, fold.at(s))
			}
			subs = append(subs, caseSub{hc.g, newSubst(mFirst)})
		}
		if eRel != False {
			opaque := reach
			reach = func(w *write) B {
				if sh.kind == "map" {
					return Or(Not(exB), opaque(w))
				}
				r := False
				for i, hc := range cases {
					r = Or(r, And(hc.g, leT(bound, subs[i].s.T(bound))))
				}
				return Or(Not(exB), r)
			}
		}
		subFirst := subs[0].s
		if len(subs) > 1 {
			subFirst = &substT{cases: subs}
		}
		for _, x := range early {
			g := x.g
			if len(early) > 1 {
				g = Constrain(g, eRel)
			} else {
				g = True
			}
			guard[x] = And(pcIn, exB, subFirst.B(g))
			post[x] = subFirst
		}
		if normal != nil {
			m := map[*Term]*Term{}
			for _, l := range boundTerms(lvl) {
				m[l] = dom
			}
			for _, s := range rest {
				s.bindTo(m, fold.final(s))
			}
			post[normal] = newSubst(m)
			guard[normal] = And(pcIn, Not(exB))
		}
	}
	// Exit edges and values.
	f.clearEdges(L)
	all := False
	for _, x := range ex {
		f.edge[[2]int{x.from.Index, x.to.Index}] = guard[x] // False if absent
		all = Or(all, guard[x])
	}
	loopLog := append([]write(nil), e.log[base.log:]...)
	cp := &capture{log: append([]write(nil), e.log...)}
	for _, ev := range e.events[base.events:] {
		if ev.capt == nil && ev.Mem > base.log {
			ev.capt = cp
			cp.used = true
		}
	}
	if cp.used {
		e.captures = append(e.captures, cp)
	}
	e.log = e.log[:base.log:base.log]
	type fin struct {
		s  *stateVar
		gs []guarded
	}
	fins := map[*stateVar]*fin{}
	liveVals := map[ssa.Value][]guarded{}
	for _, v := range evs {
		sub := post[v.x]
		for _, s := range states {
			if s.addr != nil {
				if fins[s] == nil {
					fins[s] = &fin{s: s}
				}
				fins[s].gs = append(fins[s].gs, guarded{Constrain(guard[v.x], all), sub.V(v.vals[s])})
			}
		}
		for lv, val := range v.env {
			liveVals[lv] = append(liveVals[lv], guarded{Constrain(guard[v.x], all), sub.V(val)})
		}
	}
	if normal != nil && guard[normal] != False {
		sub := post[normal]
		for _, s := range states {
			if s.addr != nil {
				if fins[s] == nil {
					fins[s] = &fin{s: s}
				}
				fv := s.init
				if then[s] != nil {
					fv = sub.V(then[s])
				} else if !fixed[s] {
					fv = sub.V(s.sym)
				}
				fins[s].gs = append(fins[s].gs, guarded{Constrain(guard[normal], all), fv})
			}
		}
		for _, lv := range live {
			v := f.env[lv]
			if v == nil {
				continue
			}
			if p, ok := lv.(*ssa.Phi); ok && p.Block() == h {
				if p == sh.phi {
					v = single(sh.value(dom, p.Type()))
				} else {
					for _, s := range states {
						if s.phi == p {
							v = s.init
							if then[s] != nil {
								v = then[s]
							} else if !fixed[s] {
								v = s.sym
							}
						}
					}
				}
			}
			liveVals[lv] = append(liveVals[lv], guarded{Constrain(guard[normal], all), sub.V(v)})
		}
	}
	for lv, gs := range liveVals {
		f.env[lv] = simp(join(gs), all)
	}
	for _, w := range loopLog {
		if w.tag == "carried" || strings.HasPrefix(w.tag, "earlier") {
			continue
		}
		if w.val != nil {
			if _, ok := carried[w.addr]; ok {
				continue
			}
		}
		if w.lvl < 0 && (w.addr.free > lvl || w.val != nil && mentions(w.val, isBound(lvl)) || freeB(w.g) > lvl) {
			w.lvl, w.dom = lvl, domT(dom)
			w.g = And(w.g, reach(&w))
			if w.val == nil {
				w.lvl = -1
				w.g = pcIn
			}
		}
		e.log = append(e.log, w)
	}
	for _, s := range states {
		if s.addr != nil && fins[s] != nil {
			e.log = append(e.log, write{g: all, addr: s.addr, val: simp(join(fins[s].gs), all), lvl: -1, seq: len(e.events)})
		}
	}
	for _, v := range evs {
		sub := post[v.x]
		for _, s := range locals {
			if g := guard[v.x]; g != False {
				e.log = append(e.log, write{g: g, addr: s.addr, val: sub.V(v.vals[s]), lvl: -1, seq: len(e.events)})
			}
		}
	}
	// Locks: every iteration must leave them as it found them.
	for k, now := range e.locks {
		was := base.locks[k]
		if back != False {
			if sat(And(back, Not(Iff(now.w, was.w)))) || sat(And(back, Not(Iff(now.r, was.r)))) {
				e.event(&Event{Kind: "lockerr", Guard: back, Fn: f.fn, Pos: h.Instrs[0].Pos(), Addr: k, Note: "an iteration of the loop does not leave the lock as it found it"})
			}
		}
		nw, nr := And(was.w, Not(pcIn)), And(was.r, Not(pcIn))
		for _, x := range ex {
			if g := guard[x]; g != False && g != 0 {
				if x == normal {
					nw, nr = Or(nw, And(g, was.w)), Or(nr, And(g, was.r))
					continue
				}
				xg := And(pcIn, x.g)
				if xg == False {
					continue
				}
				nw = Or(nw, And(g, post[x].B(Constrain(now.w, xg))))
				nr = Or(nr, And(g, post[x].B(Constrain(now.r, xg))))
			}
		}
		e.locks[k] = lockState{nw, nr}
	}
}

func (f *frame) retsInLoop(s snapshot) bool { return len(f.rets) > s.rets }

func isBound(lvl int) func(*Term) bool {
	l := strconv.Itoa(lvl)
	return func(t *Term) bool { return t.op == "bound" && (t.sym == l) }
}

func typedBound(lvl int, typ types.Type) *Term {
	t := mk("bound", strconv.Itoa(lvl), typ, nil)
	return t
}
func typedBoundType(sh loopShape) types.Type {
	if m, ok := sh.next.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map); ok {
		return m.Key()
	}
	return types.Typ[types.Int]
}
func boundTerms(lvl int) []*Term { return []*Term{mk("bound", strconv.Itoa(lvl), nil, nil)} }

// mapLoadDom reads the entry of a key that is known to be present.
func (e *Eval) mapLoadDom(m, k *Term, et types.Type, pc B) (Val, B) {
	v, p := e.mapLoad(m, k, et, pc)
	if p != False {
		v = simp(v, And(pc, p))
	}
	return v, p
}

// symState makes the symbol of a loop-carried value.
func (e *Eval) symState(s *stateVar, name string, typ types.Type) Val {
	if typ != nil {
		if st := structOf(typ); st != nil && !isTime(typ) {
			a := &AV{typ: typ}
			for i := 0; i < st.NumFields(); i++ {
				a.f = append(a.f, e.symState(s, fmt.Sprintf("%s.%d", name, i), st.Field(i).Type()))
			}
			return a
		}
	}
	t := mk("lc", name, typ, nil)
	s.leaf = append(s.leaf, t)
	return opaque(t, typ)
}

// isOneConst: the value is one constant.
func isOneConst(v Val) bool {
	switch v := v.(type) {
	case B:
		return v == True || v == False
	case *GV:
		return len(v.alts) == 1 && v.alts[0].t.isConst()
	}
	return false
}

// bindTo maps the symbols of s to the parts of v.
func (s *stateVar) bindTo(m map[*Term]*Term, v Val) {
	i := 0
	var rec func(sym, v Val)
	rec = func(sym, v Val) {
		if a, ok := sym.(*AV); ok {
			v = explode(v, a.typ)
			for j := range a.f {
				if av, ok := v.(*AV); ok {
					rec(a.f[j], av.f[j])
				} else {
					rec(a.f[j], component(v, j, a.typ))
				}
			}
			return
		}
		m[s.leaf[i]] = term(v)
		i++
	}
	rec(s.sym, v)
}

func valType(w write) types.Type {
	switch v := w.val.(type) {
	case B:
		return types.Typ[types.Bool]
	case *GV:
		if w.addr.typ != nil {
			if p, ok := w.addr.typ.Underlying().(*types.Pointer); ok {
				return p.Elem()
			}
		}
		for _, a := range v.alts {
			if a.t.typ != nil && a.t.op != "nil" {
				return a.t.typ
			}
		}
	}
	return nil
}

// iterLocals are the memory cells of the variables among vs that were made
// and written since.
func (e *Eval) iterLocals(vs []ssa.Value, allocBase, logBase int) []*stateVar {
	var out []*stateVar
	seen := map[*Term]bool{}
	for _, w := range e.log[logBase:] {
		if w.val == nil || w.lvl >= 0 || seen[w.addr] || !freshSince(w.addr, allocBase) {
			continue
		}
		for _, v := range vs {
			if a, ok := v.(*ssa.Alloc); ok && root(w.addr).obj == a {
				seen[w.addr] = true
				out = append(out, &stateVar{addr: w.addr, typ: valType(w)})
				break
			}
		}
	}
	return out
}

func freshSince(addr *Term, base int) bool {
	r := root(addr)
	switch r.op {
	case "alloc", "makemap", "makeslice", "makechan":
		n, _ := strconv.Atoi(r.sym)
		return n > base && n < globalBase
	}
	return false
}

// element splits the address of, or below, an element of a map or slice.
func element(a *Term) (m, k *Term) {
	for {
		switch a.op {
		case "ia", "me":
			return a.args[0], a.args[1]
		case "fa":
			a = a.args[0]
		default:
			return nil, nil
		}
	}
}

// iterDependent: the address depends on a result of this iteration.
func iterDependent(addr *Term, uid int, counts map[string]int) bool {
	return mentions(addr, func(t *Term) bool {
		return t.op == "lc" && len(t.sym) > 0 && t.sym[:1] != "" && hasPrefixUID(t.sym, uid)
	})
}

func hasPrefixUID(s string, uid int) bool {
	p := strconv.Itoa(uid) + "."
	return len(s) >= len(p) && s[:len(p)] == p
}

func (ev *Event) subst(sub *substT) {
	ev.Guard = sub.B(ev.Guard)
	for i := range ev.Args {
		ev.Args[i] = sub.V(ev.Args[i])
	}
	if ev.Ret != nil {
		ev.Ret = sub.V(ev.Ret)
	}
	if ev.Addr != nil {
		ev.Addr = sub.T(ev.Addr)
	}
	for k, h := range ev.Held {
		ev.Held[k] = lockState{sub.B(h.w), sub.B(h.r)}
	}
}

// folder builds the terms of values a loop accumulates.
type folder struct {
	lvl    int
	dom    *Term
	rest   []*stateVar
	eRel   B
	cRel   B
	isRest func(*Term) bool
	memoF  map[*stateVar]Val
}

func (f *frame) folder(lvl int, dom *Term, rest []*stateVar, eRel, cRel B, isRest func(*Term) bool) *folder {
	return &folder{lvl, dom, rest, eRel, cRel, isRest, map[*stateVar]Val{}}
}

// deps are the states s depends on (itself first).
func (fo *folder) deps(seed []*stateVar, withStop bool) []*stateVar {
	in := map[*stateVar]bool{}
	var out []*stateVar
	var add func(s *stateVar)
	addOf := func(v Val) {
		for _, r := range fo.rest {
			if in[r] {
				continue
			}
			if mentions(v, func(t *Term) bool {
				for _, l := range r.leaf {
					if l == t {
						return true
					}
				}
				return false
			}) {
				add(r)
			}
		}
	}
	add = func(s *stateVar) {
		if in[s] {
			return
		}
		in[s] = true
		out = append(out, s)
		addOf(s.next)
	}
	for _, s := range seed {
		add(s)
	}
	if withStop {
		addOf(fo.eRel)
	}
	return out
}

// canon renames the loop-carried symbols of the given states.
func (fo *folder) canon(ss []*stateVar) *substT {
	m := map[*Term]*Term{}
	n := 0
	for _, s := range ss {
		for _, l := range s.leaf {
			m[l] = mk("lc", fmt.Sprintf("c%d.%d", fo.lvl, n), l.typ, nil)
			n++
		}
	}
	return newSubst(m)
}

func (fo *folder) body(ss []*stateVar) ([]*Term, []B) {
	sub := fo.canon(ss)
	args := []*Term{fo.dom}
	for _, s := range ss {
		args = append(args, term(s.init))
	}
	for _, s := range ss {
		args = append(args, sub.T(term(simp(s.next, fo.cRel))))
	}
	return args, []B{sub.B(fo.eRel)}
}

func (fo *folder) mk(op string, s *stateVar, i int, typ types.Type) *Term {
	var ss []*stateVar
	if s != nil {
		ss = fo.deps([]*stateVar{s}, true)
	} else {
		ss = fo.deps(nil, true)
	}
	args, bs := fo.body(ss)
	return mk(op, fmt.Sprintf("%d:%d", fo.lvl, i), typ, args, bs...)
}

func (fo *folder) stop() B      { return atom(fo.mk("foldstop", nil, 0, types.Typ[types.Bool])) }
func (fo *folder) first() *Term { return fo.mk("foldat", nil, -1, types.Typ[types.Int]) }

// at is the value of s when the loop ends early.
func (fo *folder) at(s *stateVar) Val { return fo.leafs(s, "foldat") }

func (fo *folder) leafs(s *stateVar, op string) Val {
	n := 0
	var rec func(sym Val, typ types.Type) Val
	rec = func(sym Val, typ types.Type) Val {
		if a, ok := sym.(*AV); ok {
			o := &AV{typ: a.typ}
			for i, x := range a.f {
				o.f = append(o.f, rec(x, compType(a.typ, i)))
			}
			return o
		}
		l := s.leaf[n]
		n++
		t := fo.mk(op, s, n-1, l.typ)
		return opaque(t, l.typ)
	}
	return rec(s.sym, s.typ)
}

// someDom: when there are any iterations, and how many then.
func someDom(dom *Term) (B, *Term) {
	if dom.op != "ite" {
		return True, dom
	}
	g, d := False, (*Term)(nil)
	for _, a := range alts(single(dom)) {
		if n, ok := a.t.isInt(); ok && n.Sign() <= 0 {
			continue
		}
		if d != nil {
			return True, dom
		}
		g, d = a.g, a.t
	}
	if d == nil {
		return True, dom
	}
	return g, d
}

// final is the value of s after the last iteration.
func (fo *folder) final(s *stateVar) Val {
	if v, ok := fo.memoF[s]; ok {
		return v
	}
	var v Val
	if g, d := someDom(fo.dom); d != fo.dom {
		one := *fo
		one.dom, one.memoF = d, map[*stateVar]Val{}
		v = join([]guarded{{g, one.final1(s)}, {Not(g), s.init}})
	} else {
		v = fo.final1(s)
	}
	fo.memoF[s] = v
	return v
}

func (fo *folder) final1(s *stateVar) Val {
	if sym, ok := s.sym.(B); ok {
		nx := asBool(simp(s.next, fo.cRel))
		v := bdd.nodes[sym].v
		n1, n0 := Cofactor(nx, v, true), Cofactor(nx, v, false)
		if !mentions(n1, fo.isRest) && !mentions(n0, fo.isRest) {
			if implies(fo.cRel, n1) { // only ever set
				return Or(asBool(s.init), existsB(fo.lvl, fo.dom, And(fo.cRelNoStop(), n0)))
			}
			if implies(fo.cRel, Not(n0)) { // only ever cleared
				return And(asBool(s.init), Not(existsB(fo.lvl, fo.dom, And(fo.cRelNoStop(), Not(n1)))))
			}
		}
	}
	if gv, ok := s.next.(*GV); ok && len(s.leaf) == 1 {
		keep := False
		okk := true
		var chg []guarded
		for _, a := range gv.alts {
			if a.t == s.leaf[0] {
				keep = Or(keep, a.g)
			} else {
				chg = append(chg, guarded{a.g, single(a.t)})
				if mentions(a.t, fo.isRest) {
					okk = false
				}
			}
			if mentions(a.g, fo.isRest) {
				okk = false
			}
		}
		if okk && len(chg) > 0 {
			m := Not(keep)
			ex := existsB(fo.lvl, fo.dom, And(fo.cRelNoStop(), m))
			v := term(simp(join(chg), m))
			var last Val
			if it := types.Typ[types.Int]; mentions(v, isBound(fo.lvl)) && fo.dom.op != "dom" && fo.dom.op != "nodom" {
				// The last one is the first one counted from the end.
				b := boundTerms(fo.lvl)[0]
				end := addT(fo.dom, intTerm(-1), it)
				rev := newSubst(map[*Term]*Term{b: subT(end, b, it)})
				first := mk("first", strconv.Itoa(fo.lvl)+":", it, []*Term{fo.dom}, rev.B(And(fo.cRelNoStop(), m)))
				last = opaque(newSubst(map[*Term]*Term{b: subT(end, first, it)}).T(v), v.typ)
			} else if mentions(v, isBound(fo.lvl)) {
				last = opaque(mk("lastm", strconv.Itoa(fo.lvl)+":", v.typ, []*Term{fo.dom, v}, And(fo.cRelNoStop(), m)), v.typ)
			} else {
				last = single(v)
			}
			return join([]guarded{{ex, last}, {Not(ex), s.init}})
		}
	}
	return fo.leafs(s, "fold")
}

// cRelNoStop is the condition under which an iteration goes on.
func (fo *folder) cRelNoStop() B { return fo.cRel }
