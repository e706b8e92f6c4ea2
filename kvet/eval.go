package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is an effect the analysed code may have, with the condition for it.
type Event struct {
	Kind   string // call, store, load, mapwrite, mapread, send, recv, close, select, panic, go, return, deref, lockerr, defer, exec
	Guard  B
	Name   string // callee
	Fn     *ssa.Function
	Pos    token.Pos
	Args   []Val
	Ret    Val
	Addr   *Term
	Common *ssa.CallCommon
	Seq    int
	Mem    int // length of the write log before the event
	Loops  []*loopCtx
	Held   map[*Term]lockState
	Stack  []*ssa.Function
	Thread int
	Defers []*deferred
	Note   string
	RetT   *Term
	Fresh  bool
	Child  int // thread started by a go statement
	capt   *capture
}

type loopCtx struct {
	uid     int
	dom     *Term // nil: not a counted loop
	bound   *Term
	early   bool // may end before the domain is exhausted
	domKind string
	cur     *Term // the domain, as far as it is known during the evaluation
}

type lockState struct{ w, r B }

type write struct {
	g    B
	addr *Term
	val  Val // nil: havoc of everything below addr
	// quantified write of a loop
	lvl int // bound level, -1 if not quantified
	dom *Term
	tag string
	seq int
	// of a havoc: the key that is not concerned
	except *Term
}

type deferred struct {
	g    B
	fn   Val
	call *ssa.CallCommon
	args []Val
	pos  token.Pos
}

type pending struct {
	g      B
	fn     Val
	common *ssa.CallCommon
	args   []Val
	loops  []*loopCtx
	frame  *frame
	instr  ssa.Instruction
	ev     *Event
}

// Eval is one abstract evaluation from an entry point.
type Eval struct {
	P           *Program
	log         []write
	events      []*Event
	counts      map[string]int
	nalloc      int
	nloop       int
	depth       int
	loops       []*loopCtx
	stack       []*ssa.Function
	frames      []*frame
	locks       map[*Term]lockState
	thread      int
	pending     []pending
	captures    []*capture
	noInline    func(fn *ssa.Function) bool
	noGlobal    bool
	quiet       bool // do not record events
	freshLoads  bool // record reads of objects made here
	sums        []sum
	progress    []step
	pure        bool // record no access events
	Opaque      map[string]bool
	Pure        map[string]bool // functions of the module taken as functions of their arguments
	steps       int
	peel        bool // evaluate loops of unknown length one iteration after the other
	inlined     map[*ssa.Function]bool
	callHook    func(c *callCtx) (Val, bool)
	nhavoc      int
	clones      map[*Term]*cloneOf
	threadStart []int                   // allocations before each thread
	threadAt    map[int]ssa.Instruction // what starts a thread
	threadMany  map[int]bool            // several of it run at a time
}

var nevals int

// globalBase separates objects made by initializers from the others.
const globalBase = 1_000_000_000_000

func newEval(P *Program) *Eval {
	nevals++ // objects of different evaluations have different names
	return &Eval{nalloc: 1000000 * nevals, P: P, counts: map[string]int{}, locks: map[*Term]lockState{}, inlined: map[*ssa.Function]bool{}, Opaque: map[string]bool{}, clones: map[*Term]*cloneOf{}}
}

// cloneOf is the map a copy was made of, and the length of the log then.
type cloneOf struct {
	src *Term
	log int
}

type frame struct {
	e       *Eval
	fn      *ssa.Function
	env     map[ssa.Value]Val
	bind    []Val
	defers  []*deferred
	rets    []guarded
	edge    map[[2]int]B
	info    *fnInfo
	cur     *loopRun
	pc      B
	mapIter []*mapIter
}

// ---- entry points ----

// params makes symbolic arguments for fn.
func (e *Eval) params(fn *ssa.Function) []Val {
	var out []Val
	for i, p := range fn.Params {
		out = append(out, e.param(fmt.Sprintf("%s%d", p.Name(), i), p.Type()))
	}
	return out
}

func (e *Eval) param(name string, typ types.Type) Val {
	for paramTypes[name] != "" && paramTypes[name] != typ.String() {
		name += "'"
	}
	paramTypes[name] = typ.String()
	return opaque(mk("param", name, typ, nil), typ)
}

// paramTypes are the types of the symbolic arguments: names are unique.
var paramTypes = map[string]string{}

// Run evaluates fn on the arguments, followed by the goroutines it starts.
func (e *Eval) Run(fn *ssa.Function, args []Val, pc B) Val {
	v, _ := e.callFn(fn, args, nil, pc, nil)
	e.drain()
	return v
}

func (e *Eval) drain() {
	for n := 0; len(e.pending) > 0 && n < 60; n++ {
		p := e.pending[0]
		e.pending = e.pending[1:]
		e.newThread()
		e.threadAt[e.thread] = p.instr
		if p.ev != nil {
			p.ev.Child = e.thread
		}
		save, sl := e.locks, e.loops
		e.locks = map[*Term]lockState{}
		e.loops = p.loops
		if p.common == nil {
			e.CallFn(p.fn, nil, p.args, p.g)
		} else {
			e.invoke(p.fn, p.common, p.args, p.g, p.instr)
		}
		e.locks, e.loops = save, sl
	}
}

// newThread is the number of another thread.
func (e *Eval) newThread() {
	e.thread++
	if e.thread < len(e.threadStart) {
		e.thread = len(e.threadStart)
	}
	for len(e.threadStart) <= e.thread {
		e.threadStart = append(e.threadStart, e.nalloc)
	}
	if e.threadAt == nil {
		e.threadAt, e.threadMany = map[int]ssa.Instruction{}, map[int]bool{}
	}
}

// ---- functions ----

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	loops []*Loop
	inner map[*ssa.BasicBlock]*Loop
	bad   bool
}

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

var infos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := infos[fn]; ok {
		return i
	}
	in := &fnInfo{inner: map[*ssa.BasicBlock]*Loop{}}
	infos[fn] = in
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		in.rpo = append(in.rpo, post[i])
	}
	num := map[*ssa.BasicBlock]int{}
	for i, b := range in.rpo {
		num[b] = i
	}
	byHeader := map[*ssa.BasicBlock]*Loop{}
	for _, b := range in.rpo {
		for _, s := range b.Succs {
			if num[s] <= num[b] { // retreating
				if !s.Dominates(b) {
					in.bad = true
					continue
				}
				l := byHeader[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byHeader[s] = l
					in.loops = append(in.loops, l)
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] || !seen[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	sort.Slice(in.loops, func(i, j int) bool { return len(in.loops[i].blocks) > len(in.loops[j].blocks) })
	for _, l := range in.loops { // larger first: inner loops overwrite
		if p := in.inner[l.header]; p != nil {
			l.parent = p
		}
		for b := range l.blocks {
			in.inner[b] = l
		}
	}
	return in
}

// callFn evaluates the body of fn. It returns the result and the condition
// (within pc) under which the call returns.
func (e *Eval) callFn(fn *ssa.Function, args []Val, bind []Val, pc B, at ssa.Instruction) (Val, B) {
	info := infoOf(fn)
	e.inlined[fn] = true
	f := &frame{e: e, fn: fn, env: map[ssa.Value]Val{}, bind: bind, edge: map[[2]int]B{}, info: info}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(bind) {
			f.env[v] = bind[i]
		}
	}
	e.stack = append(e.stack, fn)
	e.frames = append(e.frames, f)
	f.runRegion(nil, pc)
	e.stack = e.stack[:len(e.stack)-1]
	e.frames = e.frames[:len(e.frames)-1]
	g := False
	for _, r := range f.rets {
		g = Or(g, r.g)
	}
	if len(f.rets) == 0 {
		return e.unknownResult(fn.Signature, "noreturn"), False
	}
	for i := range f.rets {
		f.rets[i].g = Constrain(f.rets[i].g, g)
	}
	return simp(join(f.rets), g), g
}

func (e *Eval) unknownResult(sig *types.Signature, why string) Val {
	r := sig.Results()
	if r.Len() == 1 {
		return zeroVal(r.At(0).Type())
	}
	a := &AV{}
	for i := 0; i < r.Len(); i++ {
		a.f = append(a.f, zeroVal(r.At(i).Type()))
	}
	return a
}

// mergeParts: a text without separator is its own first and last part.
func mergeParts(v *GV, pc B) {
	for i := 0; i < len(v.alts); i++ {
		t := v.alts[i].t
		if t.op != "load" || t.args[0].op != "ia" || t.args[0].args[0].op != "call" || t.args[0].args[0].sym != "strings.Split" {
			continue
		}
		parts, at := t.args[0].args[0], t.args[0].args[1]
		n, isInt := at.isInt()
		if at != subT(lenT(parts), intTerm(1), types.Typ[types.Int]) && !(isInt && n.Sign() == 0) {
			continue
		}
		for j := 0; j < len(v.alts); j++ {
			if v.alts[j].t != parts.args[0] || !implies(And(pc, v.alts[j].g), lacks(parts.args[0], parts.args[1], And(pc, v.alts[j].g))) {
				continue
			}
			v.alts[i].g = Or(v.alts[i].g, v.alts[j].g)
			v.alts = append(v.alts[:j:j], v.alts[j+1:]...)
			if j < i {
				i--
			}
			j--
		}
	}
}

// lacks: what the tests g is made of say about sep not being part of x.
func lacks(x, sep *Term, g B) B {
	r := False
	for v := range Support(g) {
		t := atoms[v]
		b := bddVar(v)
		if t.op == "le" && t.sym == "-1" {
			t = t.args[0]
		} else {
			b = Not(b)
		}
		if t.op != "call" || len(t.args) < 2 || t.args[0] != x {
			continue
		}
		s := t.args[1]
		if c, ok := s.isInt(); ok && c.IsInt64() {
			s = strTerm(string(rune(c.Int64())))
		}
		switch t.sym {
		case "strings.Index", "strings.LastIndex", "strings.LastIndexByte", "strings.Contains":
			if s == sep && (t.sym == "strings.Contains") == (t == atoms[v]) {
				r = Or(r, b)
			}
		}
	}
	return r
}

// simp drops what cannot happen within pc.
func simp(v Val, pc B) Val {
	switch v := v.(type) {
	case B:
		return Constrain(v, pc)
	case *GV:
		if len(v.alts) == 1 {
			return v
		}
		out := &GV{}
		for _, a := range v.alts {
			if g := And(pc, a.g); g == False || !sat(g) {
				continue
			}
			out.alts = append(out.alts, alt{Constrain(a.g, pc), a.t})
		}
		if len(out.alts) == 0 {
			return v
		}
		mergeParts(out, pc)
		if len(out.alts) == 1 {
			out.alts[0].g = True
		}
		return out
	case *AV:
		o := &AV{typ: v.typ, f: make([]Val, len(v.f))}
		for i := range v.f {
			o.f[i] = simp(v.f[i], pc)
		}
		return o
	}
	return v
}

func (f *frame) runRegion(loop *Loop, entry B) {
	for _, b := range f.info.rpo {
		l := f.info.inner[b]
		if loop != nil && !loop.blocks[b] {
			continue
		}
		if l != loop {
			// Belongs to an inner loop; run it when its header comes up, if it is a direct child.
			if l != nil && l.parent == loop && l.header == b {
				f.evalLoop(l)
			}
			continue
		}
		var pc B
		if b == f.fn.Blocks[0] && loop == nil || loop != nil && b == loop.header {
			pc = entry
		} else {
			pc = False
			for _, p := range b.Preds {
				pc = Or(pc, f.edge[[2]int{p.Index, b.Index}])
			}
		}
		if pc != False && !sat(pc) {
			pc = False
		}
		f.runBlock(b, pc, loop)
	}
}

func (f *frame) runBlock(b *ssa.BasicBlock, pc B, loop *Loop) {
	f.pc = pc
	if pc == False {
		for _, s := range b.Succs {
			f.edge[[2]int{b.Index, s.Index}] = False
		}
		return
	}
	for _, in := range b.Instrs {
		f.e.steps++
		if f.e.steps > 3_000_000 {
			panic(budgetExceeded{"evaluation steps"})
		}
		switch in := in.(type) {
		case *ssa.Phi:
			if loop != nil && b == loop.header {
				continue
			}
			var gs []guarded
			for i, p := range b.Preds {
				g := f.edge[[2]int{p.Index, b.Index}]
				if g != False {
					gs = append(gs, guarded{Constrain(g, pc), f.val(in.Edges[i])})
				}
			}
			f.env[in] = simp(join(gs), pc)
		case *ssa.If:
			f.branch(b, in, loop)
			return
		case *ssa.Jump:
			f.edge[[2]int{b.Index, b.Succs[0].Index}] = f.pc
			return
		case *ssa.Return:
			var v Val
			if len(in.Results) == 1 {
				v = f.val(in.Results[0])
			} else {
				a := &AV{}
				for _, r := range in.Results {
					a.f = append(a.f, f.val(r))
				}
				v = a
			}
			f.rets = append(f.rets, guarded{f.pc, v})
			f.e.event(&Event{Kind: "return", Guard: f.pc, Fn: f.fn, Pos: in.Pos(), Ret: v})
			return
		case *ssa.Panic:
			f.e.event(&Event{Kind: "panic", Guard: f.pc, Fn: f.fn, Pos: in.Pos(), Args: []Val{f.val(in.X)}})
			return
		default:
			f.instr(in)
			if f.pc == False {
				for _, s := range b.Succs {
					f.edge[[2]int{b.Index, s.Index}] = False
				}
				return
			}
		}
	}
}

func (f *frame) branch(b *ssa.BasicBlock, in *ssa.If, loop *Loop) {
	t, el := b.Succs[0], b.Succs[1]
	if lr := f.cur; lr != nil && lr.L == loop && b == loop.header && lr.test != nil {
		// Domain test of a counted loop.
		lr.evalTest(f)
		in, out := t, el
		if lr.exitOnTrue {
			in, out = el, t
		}
		f.edge[[2]int{b.Index, in.Index}] = f.pc
		f.edge[[2]int{b.Index, out.Index}] = False
		lr.normal = [2]int{b.Index, out.Index}
		return
	}
	c := asBool(f.val(in.Cond))
	if t == el {
		f.edge[[2]int{b.Index, t.Index}] = f.pc
		return
	}
	f.edge[[2]int{b.Index, t.Index}] = And(f.pc, c)
	f.edge[[2]int{b.Index, el.Index}] = And(f.pc, Not(c))
}

func asBool(v Val) B {
	switch v := v.(type) {
	case B:
		return v
	case *GV:
		r := False
		for _, a := range v.alts {
			r = Or(r, And(a.g, atom(a.t)))
		}
		return r
	}
	return False
}

// ---- values ----

func (f *frame) val(v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroVal(v.Type())
		}
		return single(constTerm(v.Value, v.Type()))
	case *ssa.Global:
		t := mk("global", v.Pkg.Pkg.Path()+"."+v.Name(), v.Type(), nil)
		t.obj = v
		return single(t)
	case *ssa.Function:
		return single(fnTerm(v))
	case *ssa.Builtin:
		return single(mk("builtin", v.Name(), v.Type(), nil))
	}
	if x, ok := f.env[v]; ok && x != nil {
		return x
	}
	return opaque(mk("undef", v.Name()+"@"+f.fn.String(), v.Type(), nil), v.Type())
}

func fnTerm(fn *ssa.Function) *Term {
	t := mk("fn", fn.String()+fmt.Sprintf("@%d", fn.Pos()), fn.Type(), nil)
	t.obj = fn
	return t
}

// each applies fn to every combination of the alternatives of vs possible within pc.
func each(pc B, vs []Val, fn func(g B, ts []*Term) Val) Val {
	var gs []guarded
	var rec func(i int, g B, ts []*Term)
	n := 1
	lists := make([][]alt, len(vs))
	for i, v := range vs {
		if av, ok := v.(*AV); ok {
			lists[i] = []alt{{True, term(av)}}
		} else if b, ok := v.(B); ok {
			lists[i] = []alt{{True, boolTerm(b)}}
		} else if gv, ok := v.(*GV); ok {
			lists[i] = gv.alts
		} else {
			lists[i] = []alt{{True, term(v)}}
		}
		n *= len(lists[i])
	}
	if n > 96 { // keep it bounded: merge
		for i, v := range vs {
			if len(lists[i]) > 6 {
				lists[i] = []alt{{True, term(v)}}
			}
		}
	}
	rec = func(i int, g B, ts []*Term) {
		if i == len(lists) {
			gs = append(gs, guarded{g, fn(And(pc, g), append([]*Term(nil), ts...))})
			return
		}
		for _, a := range lists[i] {
			h := And(g, a.g)
			if len(lists[i]) > 1 {
				if x := And(pc, h); x == False || !sat(x) {
					continue
				}
			}
			rec(i+1, h, append(ts, a.t))
		}
	}
	rec(0, True, nil)
	return simp(join(gs), pc)
}

func (e *Eval) event(ev *Event) *Event {
	if e.quiet {
		return ev
	}
	ev.Seq = len(e.events)
	if ev.Mem == 0 {
		ev.Mem = len(e.log)
	}
	ev.Loops = e.loops
	ev.Thread = e.thread
	ev.Stack = append([]*ssa.Function(nil), e.stack...)
	ev.Held = map[*Term]lockState{}
	for k, s := range e.locks {
		if s.w != False || s.r != False {
			ev.Held[k] = s
		}
	}
	for _, f := range e.frames {
		ev.Defers = append(ev.Defers, f.defers...)
	}
	e.events = append(e.events, ev)
	return ev
}

// ---- instructions ----

func (f *frame) instr(in ssa.Instruction) {
	e := f.e
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		e.nalloc++
		t := mk("alloc", strconv.Itoa(e.nalloc), in.Type(), nil)
		t.obj = in
		f.env[in] = single(t)
	case *ssa.UnOp:
		f.unop(in)
	case *ssa.BinOp:
		f.env[in] = f.binop(in)
	case *ssa.Store:
		f.store(in)
	case *ssa.FieldAddr:
		st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f.env[in] = each(f.pc, []Val{f.val(in.X)}, func(g B, ts []*Term) Val {
			e.deref(f, ts[0], g, in)
			return single(faT(ts[0], in.Field, st))
		})
	case *ssa.Field:
		f.env[in] = component(f.val(in.X), in.Field, in.X.Type())
	case *ssa.IndexAddr:
		f.env[in] = each(f.pc, []Val{f.val(in.X), f.val(in.Index)}, func(g B, ts []*Term) Val {
			return single(iaT(ts[0], ts[1], in.Type()))
		})
	case *ssa.Index:
		f.env[in] = e.index(f.pc, f.val(in.X), f.val(in.Index), in.X.Type(), in.Type())
	case *ssa.Lookup:
		f.lookup(in)
	case *ssa.MapUpdate:
		each(f.pc, []Val{f.val(in.Map), f.val(in.Key)}, func(g B, ts []*Term) Val {
			e.mapStore(f, ts[0], ts[1], f.val(in.Value), g, in.Pos())
			return nil
		})
	case *ssa.Extract:
		f.env[in] = component(f.val(in.Tuple), in.Index, in.Tuple.Type())
	case *ssa.MakeInterface:
		f.env[in] = e.makeIface(f.val(in.X), in.X.Type(), f.pc)
	case *ssa.ChangeInterface:
		f.env[in] = f.val(in.X)
	case *ssa.ChangeType:
		f.env[in] = f.val(in.X)
	case *ssa.Convert:
		f.env[in] = each(f.pc, []Val{f.val(in.X)}, func(g B, ts []*Term) Val {
			return single(convT(ts[0], in.X.Type(), in.Type()))
		})
	case *ssa.MultiConvert:
		f.env[in] = f.val(in.X)
	case *ssa.SliceToArrayPointer:
		f.env[in] = f.val(in.X)
	case *ssa.TypeAssert:
		f.typeAssert(in)
	case *ssa.MakeClosure:
		e.nalloc++
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, f.val(b))
		}
		t := mk("closure", strconv.Itoa(e.nalloc), in.Type(), nil)
		t.obj = &closure{in.Fn.(*ssa.Function), bs}
		f.env[in] = single(t)
	case *ssa.MakeMap:
		e.nalloc++
		t := mk("makemap", strconv.Itoa(e.nalloc), in.Type(), nil)
		t.obj = in
		f.env[in] = single(t)
	case *ssa.MakeChan:
		e.nalloc++
		t := mk("makechan", strconv.Itoa(e.nalloc), in.Type(), []*Term{term(f.val(in.Size))})
		f.env[in] = single(t)
	case *ssa.MakeSlice:
		e.nalloc++
		f.env[in] = each(f.pc, []Val{f.val(in.Len)}, func(g B, ts []*Term) Val {
			if n, ok := ts[0].isInt(); ok && n.Sign() == 0 {
				return single(seqT(nil, in.Type()))
			}
			return single(mk("makeslice", strconv.Itoa(e.nalloc), in.Type(), ts))
		})
	case *ssa.Slice:
		f.slice(in)
	case *ssa.Range:
		f.env[in] = f.val(in.X)
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			e.readMap(f.fn, f.env[in], f.pc, in.Pos())
		}
	case *ssa.Next:
		f.next(in)
	case *ssa.Send:
		e.event(&Event{Kind: "send", Guard: f.pc, Fn: f.fn, Pos: in.Pos(), Args: []Val{f.val(in.Chan), f.val(in.X)}})
	case *ssa.Select:
		f.sel(in)
	case *ssa.Go:
		fnv, args := f.callee(&in.Call)
		ev := e.event(&Event{Kind: "go", Guard: f.pc, Fn: f.fn, Pos: in.Pos(), Args: append([]Val{fnv}, args...), Common: &in.Call})
		e.pending = append(e.pending, pending{f.pc, fnv, &in.Call, args, append([]*loopCtx(nil), e.loops...), f, in, ev})
	case *ssa.Defer:
		fnv, args := f.callee(&in.Call)
		d := &deferred{f.pc, fnv, &in.Call, args, in.Pos()}
		f.defers = append(f.defers, d)
		e.event(&Event{Kind: "defer", Guard: f.pc, Fn: f.fn, Pos: in.Pos(), Args: append([]Val{fnv}, args...), Common: &in.Call})
	case *ssa.RunDefers:
		ds := f.defers
		f.defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			if g := And(f.pc, ds[i].g); g != False {
				e.invoke(ds[i].fn, ds[i].call, ds[i].args, g, in)
			}
		}
		f.defers = ds // of the paths that return elsewhere
	case *ssa.Call:
		fnv, args := f.callee(&in.Call)
		v, g := e.invoke(fnv, &in.Call, args, f.pc, in)
		f.env[in] = v
		f.pc = g
	default:
		if v, ok := in.(ssa.Value); ok {
			f.env[v] = opaque(mk("unknown", fmt.Sprintf("%T", in), v.Type(), nil), v.Type())
		}
	}
}

type closure struct {
	fn   *ssa.Function
	bind []Val
}

func (f *frame) callee(c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, f.val(a))
	}
	return f.val(c.Value), args
}

func faT(base *Term, i int, st *types.Struct) *Term {
	var ft types.Type
	if st != nil && i < st.NumFields() {
		ft = types.NewPointer(st.Field(i).Type())
	}
	t := mk("fa", strconv.Itoa(i), ft, []*Term{base})
	if t.obj == nil && st != nil {
		t.obj = st
	}
	return t
}

func iaT(base, ix *Term, typ types.Type) *Term {
	// Reslicing shifts the index.
	if base.op == "slice" {
		return iaT(base.args[0], addT(ix, base.args[1], types.Typ[types.Int]), typ)
	}
	return mk("ia", "", typ, []*Term{base, ix})
}

func (e *Eval) deref(f *frame, base *Term, g B, in ssa.Instruction) {
	if nonNil(base) || e.quiet {
		return
	}
	e.event(&Event{Kind: "deref", Guard: g, Fn: f.fn, Pos: in.Pos(), Addr: base})
}

func (f *frame) unop(in *ssa.UnOp) {
	e := f.e
	x := f.val(in.X)
	switch in.Op {
	case token.MUL:
		f.env[in] = each(f.pc, []Val{x}, func(g B, ts []*Term) Val {
			if ts[0].op != "fa" && ts[0].op != "ia" {
				e.deref(f, ts[0], g, in)
			}
			e.access("load", ts[0], g, f.fn, in.Pos(), nil)
			return e.load(ts[0], in.Type(), g)
		})
	case token.NOT:
		f.env[in] = Not(asBool(x))
	case token.SUB:
		f.env[in] = each(f.pc, []Val{x}, func(g B, ts []*Term) Val {
			if isInteger(in.Type()) {
				return single(mulT(ts[0], -1, in.Type()))
			}
			return single(mk("call", "neg", in.Type(), ts))
		})
	case token.ARROW:
		ev := e.event(&Event{Kind: "recv", Guard: f.pc, Fn: f.fn, Pos: in.Pos(), Args: []Val{x}})
		t := e.fresh("recv", in.Type(), []*Term{term(x)})
		if in.CommaOk {
			tt := in.Type().(*types.Tuple)
			v := &AV{f: []Val{opaque(mk("comp", "0", tt.At(0).Type(), []*Term{t}), tt.At(0).Type()), atom(mk("comp", "1", tt.At(1).Type(), []*Term{t}))}}
			f.env[in] = v
		} else {
			f.env[in] = opaque(t, in.Type())
		}
		ev.Ret = f.env[in]
	default:
		f.env[in] = each(f.pc, []Val{x}, func(g B, ts []*Term) Val {
			return opaque(mk("call", "unop"+in.Op.String(), in.Type(), ts), in.Type())
		})
	}
}

// fresh makes the term of an impure result.
func (e *Eval) fresh(name string, typ types.Type, args []*Term) *Term {
	key := name
	for _, a := range args {
		key += "," + strconv.Itoa(a.id)
	}
	e.counts[key]++
	return mk("ret", fmt.Sprintf("%s#%d", name, e.counts[key]), typ, args)
}

func (f *frame) binop(in *ssa.BinOp) Val {
	if e := f.e; in.Op == token.ADD && isInteger(in.X.Type()) && !e.quiet && !e.pure {
		if _, ok := in.Y.(*ssa.Const); !ok {
			e.sums = append(e.sums, sum{f.pc, f.val(in.X), f.val(in.Y), f.fn, in.Pos()})
		}
	}
	return binop(f.pc, in.Op, f.val(in.X), f.val(in.Y), in.X.Type(), in.Type())
}

func binop(pc B, op token.Token, x, y Val, xt, rt types.Type) Val {
	switch op {
	case token.EQL:
		return eqV(pc, x, y, xt)
	case token.NEQ:
		return Not(eqV(pc, x, y, xt))
	}
	return each(pc, []Val{x, y}, func(g B, ts []*Term) Val {
		a, b := ts[0], ts[1]
		num := isInteger(xt)
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if num {
				switch op {
				case token.LSS:
					return ltT(a, b)
				case token.LEQ:
					return leT(a, b)
				case token.GTR:
					return ltT(b, a)
				}
				return leT(b, a)
			}
			// Other orders: one atom per direction.
			switch op {
			case token.LSS:
				return atom(mk("lt", "", types.Typ[types.Bool], []*Term{a, b}))
			case token.GTR:
				return atom(mk("lt", "", types.Typ[types.Bool], []*Term{b, a}))
			case token.LEQ:
				return Not(atom(mk("lt", "", types.Typ[types.Bool], []*Term{b, a})))
			}
			return Not(atom(mk("lt", "", types.Typ[types.Bool], []*Term{a, b})))
		case token.ADD:
			if num {
				return single(addT(a, b, rt))
			}
			if isString(xt) {
				return single(catT(a, b))
			}
		case token.SUB:
			if num {
				return single(subT(a, b, rt))
			}
		case token.MUL:
			if num {
				if n, ok := b.isInt(); ok && n.IsInt64() {
					return single(mulT(a, n.Int64(), rt))
				}
				if n, ok := a.isInt(); ok && n.IsInt64() {
					return single(mulT(b, n.Int64(), rt))
				}
				if a.id > b.id {
					a, b = b, a
				}
			}
		}
		if x, ok := a.isInt(); ok {
			if y, ok := b.isInt(); ok {
				cv := constant.BinaryOp
				if (op == token.QUO || op == token.REM) && y.Sign() == 0 {
					return single(mk("unknown", "div0", rt, nil))
				}
				if op == token.SHL || op == token.SHR {
					return single(constTerm(constant.Shift(constant.Make(x), op, uint(y.Uint64())), rt))
				}
				if op == token.QUO {
					op = token.QUO_ASSIGN
				}
				return single(constTerm(cv(constant.Make(x), op, constant.Make(y)), rt))
			}
		}
		return opaque(mk("call", "op"+op.String(), rt, []*Term{a, b}), rt)
	})
}

func eqV(pc B, x, y Val, typ types.Type) B {
	_, ax := x.(*AV)
	_, ay := y.(*AV)
	if ax || ay {
		var t types.Type = typ
		x, y = explode(x, t), explode(y, t)
		a, ok1 := x.(*AV)
		b, ok2 := y.(*AV)
		if ok1 && ok2 {
			r := True
			for i := range a.f {
				r = And(r, eqV(pc, a.f[i], b.f[i], compType(t, i)))
			}
			return r
		}
	}
	if a, ok := x.(B); ok {
		return Iff(a, asBool(y))
	}
	if b, ok := y.(B); ok {
		return Iff(asBool(x), b)
	}
	return asBool(each(pc, []Val{x, y}, func(g B, ts []*Term) Val { return eqT(ts[0], ts[1]) }))
}

// sizes are those of the 64-bit platforms the proxy is built for.
var sizes = types.SizesFor("gc", "amd64")

func convT(t *Term, from, to types.Type) *Term {
	if isInteger(from) && isInteger(to) {
		if n, ok := t.isInt(); ok && n.BitLen() < int(sizes.Sizeof(to.Underlying()))*8 {
			return t
		}
		if sizes.Sizeof(to.Underlying()) < sizes.Sizeof(from.Underlying()) {
			return mk("call", "narrow", to, []*Term{t}) // may lose bits
		}
		return t
	}
	if isFloat(from) && isFloat(to) {
		return t
	}
	if isInteger(from) && isFloat(to) {
		if n, ok := t.isInt(); ok {
			return mk("const", "f:"+n.String(), to, nil)
		}
		return mk("call", "float", to, []*Term{t})
	}
	if isFloat(from) && isInteger(to) {
		if t.op == "call" && t.sym == "float" {
			return t.args[0]
		}
		return mk("call", "int", to, []*Term{t})
	}
	if isString(to) && isInteger(from) {
		return mk("call", "runestr", to, []*Term{t})
	}
	if t.op == "conv" && types.Identical(t.args[0].typ0(), to) {
		return t.args[0]
	}
	if isString(from) && isString(to) {
		return t
	}
	if _, ok := to.Underlying().(*types.Basic); !ok && !isString(from) {
		return t // unsafe or named conversions
	}
	if t.op == "conv" && t.args[0].typ != nil && isString(t.args[0].typ) && isString(to) {
		return t.args[0]
	}
	k := "bytes"
	if isString(to) {
		k = "string"
		if t.op == "nil" || t.op == "seq" && len(t.args) == 0 {
			return strTerm("")
		}
	}
	return mk("conv", k, to, []*Term{t})
}

func (t *Term) typ0() types.Type {
	if t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ
}

func (e *Eval) makeIface(x Val, typ types.Type, pc B) Val {
	if types.IsInterface(typ) {
		return x
	}
	switch v := x.(type) {
	case *GV:
		return each(pc, []Val{v}, func(g B, ts []*Term) Val { return single(ifaceT(ts[0], typ)) })
	}
	return single(ifaceT(term(x), typ))
}

func ifaceT(t *Term, typ types.Type) *Term {
	r := mk("iface", typ.String(), typ, []*Term{t})
	r.obj = typ
	return r
}

func (f *frame) typeAssert(in *ssa.TypeAssert) {
	v := each(f.pc, []Val{f.val(in.X)}, func(g B, ts []*Term) Val {
		var res Val
		var ok B
		t := ts[0]
		toIface := types.IsInterface(in.AssertedType)
		switch {
		case t.op == "iface":
			ct := t.obj.(types.Type)
			if toIface {
				it := in.AssertedType.Underlying().(*types.Interface)
				if types.Implements(ct, it) {
					res, ok = single(t), True
				} else {
					res, ok = zeroVal(in.AssertedType), False
				}
			} else if types.Identical(ct, in.AssertedType) {
				res, ok = fromTerm(t.args[0], ct), True
			} else {
				res, ok = zeroVal(in.AssertedType), False
			}
		case t.op == "nil":
			res, ok = zeroVal(in.AssertedType), False
		default:
			ok = atom(mk("typeis", in.AssertedType.String(), types.Typ[types.Bool], ts))
			if toIface {
				res = single(t)
			} else {
				res = opaque(mk("assert", in.AssertedType.String(), in.AssertedType, ts), in.AssertedType)
			}
		}
		if in.CommaOk {
			if ok != True {
				res = join([]guarded{{ok, res}, {Not(ok), zeroVal(in.AssertedType)}})
			}
			return &AV{f: []Val{res, ok}}
		}
		return &AV{f: []Val{res, ok}}
	})
	a := v.(*AV)
	if in.CommaOk {
		f.env[in] = a
		return
	}
	ok := asBool(a.f[1])
	if g := And(f.pc, Not(ok)); sat(g) {
		f.e.event(&Event{Kind: "assertpanic", Guard: g, Fn: f.fn, Pos: in.Pos()})
	}
	f.pc = And(f.pc, ok)
	f.env[in] = a.f[0]
}

// fromTerm is the value of a flattened term.
func fromTerm(t *Term, typ types.Type) Val {
	if t.op == "agg" && t.sym != "tuple" {
		a := &AV{typ: typ}
		for i, x := range t.args {
			a.f = append(a.f, fromTerm(x, compType(typ, i)))
		}
		return a
	}
	if isBool(typ) {
		return atom(t)
	}
	return single(t)
}

func (e *Eval) index(pc B, x, ix Val, xt, rt types.Type) Val {
	if a, ok := x.(*AV); ok {
		return each(pc, []Val{ix}, func(g B, ts []*Term) Val {
			if n, ok := ts[0].isInt(); ok && n.IsInt64() && int(n.Int64()) < len(a.f) {
				return a.f[n.Int64()]
			}
			var gs []guarded
			for i, v := range a.f {
				gs = append(gs, guarded{intEqT(ts[0], intTerm(int64(i))), v})
			}
			return join(gs)
		})
	}
	return each(pc, []Val{x, ix}, func(g B, ts []*Term) Val {
		if s, ok := ts[0].isStr(); ok {
			if n, ok := ts[1].isInt(); ok && n.IsInt64() && n.Int64() >= 0 && int(n.Int64()) < len(s) {
				return single(intTerm(int64(s[n.Int64()])))
			}
		}
		return opaque(mk("idx", "", rt, ts), rt)
	})
}

func (f *frame) slice(in *ssa.Slice) {
	e := f.e
	opt := func(v ssa.Value) Val {
		if v == nil {
			return single(nilTerm())
		}
		return f.val(v)
	}
	lo := opt(in.Low)
	if in.Low == nil {
		lo = single(intTerm(0))
	}
	f.env[in] = each(f.pc, []Val{f.val(in.X), lo, opt(in.High)}, func(g B, ts []*Term) Val {
		x, l, h := ts[0], ts[1], ts[2]
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			arr := p.Elem().Underlying().(*types.Array)
			if arrayOf(p.Elem()) != nil {
				if x.op == "alloc" {
					if _, isArr := x.obj.(*ssa.Alloc); isArr {
						v := e.load(x, p.Elem(), g).(*AV)
						var es []*Term
						for _, el := range v.f {
							es = append(es, term(el))
						}
						x = seqT(es, in.Type())
					}
				}
			}
			_ = arr
		}
		return single(sliceT(x, l, h, in.Type()))
	})
}

func sliceT(x, l, h *Term, typ types.Type) *Term {
	if isShape(x) {
		if t, ok := shapeSlice(x, l, h); ok {
			return t
		}
	}
	ln, lok := l.isInt()
	if lok && ln.Sign() == 0 && h.op == "nil" {
		return x
	}
	hn, hok := h.isInt()
	if lok && ln.IsInt64() {
		if s, ok := x.isStr(); ok {
			hi := int64(len(s))
			if hok && hn.IsInt64() {
				hi = hn.Int64()
			}
			if (hok || h.op == "nil") && ln.Int64() <= hi && hi <= int64(len(s)) && ln.Sign() >= 0 {
				return strTerm(s[ln.Int64():hi])
			}
		}
		if x.op == "seq" {
			hi := int64(len(x.args))
			if hok && hn.IsInt64() {
				hi = hn.Int64()
			}
			if (hok || h.op == "nil") && ln.Sign() >= 0 && ln.Int64() <= hi && hi <= int64(len(x.args)) {
				return seqT(x.args[ln.Int64():hi], x.typ)
			}
		}
	}
	if lok && ln.Sign() == 0 && h == lenT(x) {
		return x
	}
	if k := toLin(l); h.op == "nil" && len(k.c) == 1 && k.c0.IsInt64() && k.c0.Int64() == 1 {
		// What follows the last separator is the last part.
		for v, n := range k.c {
			if n == 1 && v.op == "call" && (v.sym == "strings.LastIndex" || v.sym == "strings.LastIndexByte") && v.args[0] == x {
				sep, ok := v.args[1].isStr()
				if c, isC := v.args[1].isInt(); isC && c.IsInt64() && c.Int64() < 128 && c.Sign() > 0 {
					sep, ok = string(rune(c.Int64())), true
				}
				if ok && len(sep) == 1 {
					parts := mk("call", "strings.Split", types.NewSlice(types.Typ[types.String]), []*Term{x, strTerm(sep)})
					last := subT(lenT(parts), intTerm(1), types.Typ[types.Int])
					return mk("load", "", types.Typ[types.String], []*Term{iaT(parts, last, types.NewPointer(types.Typ[types.String]))})
				}
			}
		}
	}
	return mk("slice", "", typ, []*Term{x, l, h})
}

func (f *frame) sel(in *ssa.Select) {
	e := f.e
	tup := in.Type().(*types.Tuple)
	e.counts["select"]++
	lo := 0
	if !in.Blocking {
		lo = -1
	}
	st := mk("ret", fmt.Sprintf("select#%s.%d:%d:%d", f.fn.Name(), e.counts["select"], lo, len(in.States)-1), types.Typ[types.Int], nil)
	ev := &Event{Kind: "select", Guard: f.pc, Fn: f.fn, Pos: in.Pos(), RetT: st}
	if in.Blocking {
		ev.Note = "blocking"
	}
	for _, s := range in.States {
		d := "recv"
		if s.Dir == types.SendOnly {
			d = "send"
		}
		a := &AV{f: []Val{single(strTerm(d)), f.val(s.Chan)}}
		if s.Send != nil {
			a.f = append(a.f, f.val(s.Send))
		}
		ev.Args = append(ev.Args, a)
	}
	e.event(ev)
	v := &AV{f: []Val{single(st), atom(mk("comp", "ok", types.Typ[types.Bool], []*Term{st}))}}
	for i := 2; i < tup.Len(); i++ {
		t := mk("comp", strconv.Itoa(i), tup.At(i).Type(), []*Term{st})
		v.f = append(v.f, opaque(t, tup.At(i).Type()))
	}
	f.env[in] = v
	// The index is one of the cases.
	rng := False
	for i := lo; i < len(in.States); i++ {
		rng = Or(rng, intEqT(st, intTerm(int64(i))))
	}
	f.pc = And(f.pc, rng)
}

// sum is an addition of numbers.
// A step: what an iteration of a loop with an unknown number of iterations
// makes of a variable, if another one may follow.
type step struct {
	state, after *Term // in an iteration, and once the loop was left
	g            B     // reached, and another may follow
	init, next   Val
	leaves       bool // what the variable holds when the loop is left, instead
}

type sum struct {
	g    B
	x, y Val
	fn   *ssa.Function
	pos  token.Pos
}

// ---- memory ----

func (e *Eval) access(kind string, addr *Term, g B, fn *ssa.Function, pos token.Pos, v Val) {
	if e.quiet || e.pure {
		return
	}
	r := root(addr)
	ev := &Event{Kind: kind, Guard: g, Fn: fn, Pos: pos, Addr: addr}
	if v != nil {
		ev.Args = []Val{v}
	}
	if r.op == "alloc" || r.op == "makemap" || r.op == "makeslice" || r.op == "seq" {
		ev.Fresh = true
		if (kind == "load" || kind == "mapread") && !e.freshLoads {
			return
		}
	}
	e.event(ev)
}

// readMap records a read of a whole map.
func (e *Eval) readMap(fn *ssa.Function, m Val, pc B, pos token.Pos) {
	each(pc, []Val{m}, func(g B, ts []*Term) Val {
		e.access("mapread", ts[0], g, fn, pos, nil)
		return nil
	})
}

// accessMap records a change of a map: "set" (key, value) or "delete" (key).
func (e *Eval) accessMap(op string, m *Term, g B, fn *ssa.Function, pos token.Pos, args ...Val) {
	if e.quiet || e.pure {
		return
	}
	r := root(m)
	e.event(&Event{Kind: "mapwrite", Name: op, Guard: g, Fn: fn, Pos: pos, Addr: m, Args: args, Fresh: r.op == "alloc" || r.op == "makemap"})
}

func root(t *Term) *Term {
	for t.op == "fa" || t.op == "ia" || t.op == "me" {
		t = t.args[0]
	}
	return t
}

func (f *frame) store(in *ssa.Store) {
	e := f.e
	v := f.val(in.Val)
	typ := in.Val.Type()
	each(f.pc, []Val{f.val(in.Addr)}, func(g B, ts []*Term) Val {
		if ts[0].op != "fa" && ts[0].op != "ia" {
			e.deref(f, ts[0], g, in)
		}
		e.access("store", ts[0], g, f.fn, in.Pos(), v)
		e.store(ts[0], v, typ, g)
		return nil
	})
}

func (e *Eval) store(addr *Term, v Val, typ types.Type, g B) {
	if s := structOf(typ); s != nil && !isTime(typ) {
		v = explode(v, typ)
		for i := 0; i < s.NumFields(); i++ {
			e.store(faT(addr, i, s), v.(*AV).f[i], s.Field(i).Type(), g)
		}
		return
	}
	if a := arrayOf(typ); a != nil {
		v = explode(v, typ)
		for i := int64(0); i < a.Len(); i++ {
			e.store(iaT(addr, intTerm(i), nil), v.(*AV).f[i], a.Elem(), g)
		}
		return
	}
	e.log = append(e.log, write{g: g, addr: addr, val: v, lvl: -1, seq: len(e.events)})
}

func (e *Eval) load(addr *Term, typ types.Type, pc B) Val {
	if s := structOf(typ); s != nil && !isTime(typ) {
		a := &AV{typ: typ}
		for i := 0; i < s.NumFields(); i++ {
			a.f = append(a.f, e.load(faT(addr, i, s), s.Field(i).Type(), pc))
		}
		return a
	}
	if s := arrayOf(typ); s != nil {
		a := &AV{typ: typ}
		for i := int64(0); i < s.Len(); i++ {
			a.f = append(a.f, e.load(iaT(addr, intTerm(i), nil), s.Elem(), pc))
		}
		return a
	}
	v, _ := e.read(addr, typ, pc)
	return v
}

var absent = mk("absent", "", nil, nil)

// read walks back the write log. The second result is the condition under
// which a map entry is present.
func (e *Eval) read(addr *Term, typ types.Type, pc B) (Val, B) {
	var gs []guarded
	rem := True // not overwritten later
	present := False
	for i := len(e.log) - 1; i >= 0; i-- {
		w := &e.log[i]
		if w.val == nil { // havoc
			if c := w.forgets(addr); c != False {
				g := And(rem, Constrain(And(w.g, c), pc))
				if sat(And(pc, g)) {
					h := mk("havoc", w.tag, typ, []*Term{addr})
					gs = append(gs, guarded{g, opaque(h, typ)})
					has := g
					if addr.op == "me" {
						has = And(g, atom(mk("kept", w.tag, types.Typ[types.Bool], []*Term{addr})))
					}
					present = Or(present, has)
					rem = And(rem, Not(g))
				}
			}
			continue
		}
		c, sub, qv := e.matchWrite(w, addr, typ)
		if c == False {
			continue
		}
		hit := c // of an iteration: its condition is part of it
		if qv == nil {
			hit = And(w.g2(sub), c)
		}
		g := And(rem, Constrain(hit, pc))
		if g == False || !sat(And(pc, g)) {
			continue
		}
		v := qv
		if v == nil {
			v = w.val
			if sub != nil {
				v = sub.V(v)
			}
		}
		if gv, ok := v.(*GV); ok && len(gv.alts) == 1 && gv.alts[0].t == absent {
			v = zeroVal(typ)
		} else {
			present = Or(present, g)
		}
		gs = append(gs, guarded{g, v})
		rem = And(rem, Not(g))
		if x := And(pc, rem); x == False || !sat(x) {
			rem = False
			break
		}
	}
	if rem != False {
		iv, p := e.initial(addr, typ, And(pc, rem))
		gs = append(gs, guarded{rem, iv})
		present = Or(present, And(rem, p))
	}
	return simp(join(gs), pc), present
}

func (w *write) g2(sub *substT) B {
	if sub != nil {
		return sub.B(w.g)
	}
	return w.g
}

// forgets: when the havoc concerns the address.
func (w *write) forgets(addr *Term) B {
	if w.except == nil {
		if below(addr, w.addr) {
			return True
		}
		return False
	}
	// What earlier iterations have written, every one at a key of its own.
	for a := addr; ; a = a.args[0] {
		switch a.op {
		case "ia", "me":
			if a.args[0] == w.addr {
				return Not(eqT(a.args[1], w.except))
			}
		case "fa":
		default:
			return False
		}
	}
}

func below(a, r *Term) bool {
	for {
		if a == r {
			return true
		}
		switch a.op {
		case "fa", "ia", "me":
			a = a.args[0]
		default:
			return false
		}
	}
}

// ranges: the index is the one of a current loop over the domain.
func (e *Eval) ranges(j, dom *Term) bool {
	for _, l := range e.loops {
		if l.bound == j && (l.dom == dom || l.cur == dom) {
			return true
		}
	}
	return false
}

// matchWrite is the condition under which the write hits addr.
func (e *Eval) matchWrite(w *write, addr *Term, typ types.Type) (B, *substT, Val) {
	if w.addr == addr {
		if w.lvl < 0 || w.addr.free <= w.lvl {
			return True, nil, nil
		}
	}
	if w.lvl < 0 || w.addr.free <= w.lvl {
		return match(w.addr, addr), nil, nil
	}
	if w.addr.op != addr.op || root(w.addr).op != root(addr).op {
		return False, nil, nil
	}
	b := mk("bound", strconv.Itoa(w.lvl), nil, nil)
	if j, ok := unify(w.addr, addr, b); ok {
		sub := newSubst(map[*Term]*Term{b: j})
		in := True
		if w.dom != nil && w.dom.op != "nodom" && !e.ranges(j, w.dom) {
			switch {
			case w.dom.op == "dom":
				in = hasT(w.dom.args[0], j)
			case w.dom.typ != nil && isInteger(w.dom.typ):
				in = And(leT(intTerm(0), j), ltT(j, w.dom))
			}
		}
		return in, sub, nil
	}
	// Some iteration may hit it.
	c := match(w.addr, addr)
	if c == False {
		return False, nil, nil
	}
	cond := And(w.g, c)
	ex := existsB(w.lvl, w.dom, cond)
	v := w.val
	if mentions(v, func(t *Term) bool { return t == b }) {
		v = single(mk("lastm", strconv.Itoa(w.lvl)+":", typ, []*Term{domT(w.dom), term(v)}, cond))
	}
	// w.g is part of cond; neutralize it.
	return ex, newSubst(map[*Term]*Term{b: mk("last", "", nil, []*Term{domT(w.dom), boolTerm(ex)})}), v
}

func domT(d *Term) *Term {
	if d == nil {
		return mk("nodom", "", nil, nil)
	}
	return d
}

func existsB(lvl int, dom *Term, cond B) B {
	if cond == False {
		return False
	}
	dom = domT(dom)
	if g, d := someDom(dom); d != dom {
		return And(g, existsB(lvl, d, cond))
	}
	if dom.op == "len" {
		// Some element of a filtered slice: some element that passed.
		if ff := filterFold(dom.args[0]); ff != nil {
			b := boundTerms(lvl)[0]
			m := map[*Term]*Term{}
			for _, x := range boundTerms(ff.lvl) {
				m[x] = b
			}
			sub := newSubst(m)
			el := sub.T(ff.elem)
			r := map[*Term]*Term{}
			mentions(cond, func(t *Term) bool {
				if t.op == "load" && t.args[0].op == "ia" && t.args[0].args[0] == dom.args[0] && t.args[0].args[1] == b {
					r[t] = el
				}
				return false
			})
			if len(r) > 0 {
				rest := map[*Term]*Term{}
				for k := range r {
					rest[k] = mk("none", "", k.typ, nil)
				}
				if !mentions(newSubst(rest).B(cond), func(t *Term) bool { return t == b }) {
					return existsB(lvl, ff.dom, And(sub.B(ff.cond), newSubst(r).B(cond)))
				}
			}
		}
	}
	if freeB(cond) <= lvl || !mentions(cond, func(t *Term) bool { return t.op == "bound" && t.sym == strconv.Itoa(lvl) }) {
		if dom.op != "dom" && dom.op != "nodom" {
			return And(ltT(intTerm(0), dom), cond)
		}
	}
	if dom.op != "dom" && dom.op != "nodom" {
		// The order does not matter: count upwards.
		b := boundTerms(lvl)[0]
		down := func(c B) bool {
			return mentions(c, func(t *Term) bool { return t.op == "lin" && toLin(t).c[b] == -1 })
		}
		if down(cond) {
			rev := newSubst(map[*Term]*Term{b: subT(addT(dom, intTerm(-1), types.Typ[types.Int]), b, types.Typ[types.Int])}).B(cond)
			if !down(rev) {
				cond = rev
			}
		}
	}
	r := False
	for _, h := range hoist(lvl, cond) {
		r = Or(r, And(h.g, exists1(lvl, dom, h.c)))
	}
	return r
}

func exists1(lvl int, dom *Term, cond B) B {
	if cond == False {
		return False
	}
	if dom.op != "dom" && dom.op != "nodom" && !mentions(cond, isBound(lvl)) {
		return And(ltT(intTerm(0), dom), cond)
	}
	return atom(mk("exists", strconv.Itoa(lvl)+":", types.Typ[types.Bool], []*Term{dom}, cond))
}

// hoisted is a case of a condition on a bound index: within g (which does not
// depend on the index) the condition is c.
type hoisted struct{ g, c B }

// hoist splits a condition by what does not depend on the bound index.
func hoist(lvl int, cond B) []hoisted {
	free := map[int32]bool{}
	for v := range Support(cond) {
		if atoms[v].free <= lvl || !mentions(atom(atoms[v]), isBound(lvl)) {
			free[v] = true
		}
	}
	if len(free) == 0 || len(free) > 60 {
		return []hoisted{{True, cond}}
	}
	memo := map[B][]hoisted{}
	var split func(b B) []hoisted
	split = func(b B) []hoisted {
		if r, ok := memo[b]; ok {
			return r
		}
		top := int32(-1)
		for v := range Support(b) {
			if free[v] && (top < 0 || v < top) {
				top = v
			}
		}
		if top < 0 {
			memo[b] = []hoisted{{True, b}}
			return memo[b]
		}
		x := bddVar(top)
		var r []hoisted
		for _, side := range []hoisted{{x, Cofactor(b, top, true)}, {Not(x), Cofactor(b, top, false)}} {
			for _, h := range split(side.c) {
				g := And(side.g, h.g)
				found := false
				for i := range r {
					if r[i].c == h.c {
						r[i].g = Or(r[i].g, g)
						found = true
					}
				}
				if !found {
					r = append(r, hoisted{g, h.c})
				}
			}
		}
		if len(r) > 16 {
			panic(tooMany{})
		}
		memo[b] = r
		return r
	}
	var r []hoisted
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(tooMany); !ok {
					panic(x)
				}
				r = []hoisted{{True, cond}}
			}
		}()
		r = split(cond)
	}()
	return r
}

type tooMany struct{}

func unify(pat, t, b *Term) (*Term, bool) {
	var j *Term
	var rec func(p, t *Term) bool
	rec = func(p, t *Term) bool {
		if p == b {
			if j != nil && j != t {
				return false
			}
			j = t
			return true
		}
		if p.op == "lin" || (p.op == "ia" && p.args[1].op == "lin") {
			if p.op == "lin" && mentions(p, func(x *Term) bool { return x == b }) {
				l := toLin(p)
				if l.c[b] == 1 {
					delete(l.c, b)
					x := toLin(t).add(l, -1).term(nil)
					if j != nil && j != x {
						return false
					}
					j = x
					return true
				}
			}
		}
		if p == t && !mentions(single(p), func(x *Term) bool { return x == b }) {
			return true
		}
		if p.op != t.op || p.sym != t.sym || len(p.args) != len(t.args) || len(p.bs) > 0 {
			return false
		}
		for i := range p.args {
			if !rec(p.args[i], t.args[i]) {
				return false
			}
		}
		return len(p.args) > 0
	}
	if rec(pat, t) && j != nil {
		return j, true
	}
	return nil, false
}

// match is the condition under which two addresses are the same.
func match(a, b *Term) B {
	if a == b {
		return True
	}
	if a.op != b.op {
		return False
	}
	switch a.op {
	case "fa":
		if a.sym != b.sym {
			return False
		}
		return match(a.args[0], b.args[0])
	case "ia":
		m := match(a.args[0], b.args[0])
		if m == False {
			return False
		}
		return And(m, intEqT(a.args[1], b.args[1]))
	case "me":
		m := match(a.args[0], b.args[0])
		if m == False {
			return False
		}
		return And(m, keyEq(a.args[1], b.args[1]))
	case "mapval":
		if a.args[0] == b.args[0] {
			return keyEq(a.args[1], b.args[1])
		}
	}
	return False
}

// keyEq compares map keys. A configured name is assumed to differ from the
// constant names the code uses.
func keyEq(a, b *Term) B {
	if a != b && (a.op == "canon" && b.isConst() || b.op == "canon" && a.isConst()) {
		return False
	}
	return eqT(a, b)
}

// initial is the value before any write of the evaluation.
func (e *Eval) initial(addr *Term, typ types.Type, pc B) (Val, B) {
	r := root(addr)
	switch r.op {
	case "alloc":
		if ge := e.P.globalEval(r); ge != nil && ge != e {
			return ge.read(addr, typ, True)
		}
		return zeroVal(typ), True
	case "makemap":
		if ge := e.P.globalEval(r); ge != nil && ge != e {
			return ge.read(addr, typ, True)
		}
		if addr.op == "me" && addr.args[0] == r {
			if c := e.clones[r]; c != nil {
				save := e.log
				e.log = e.log[:c.log]
				v, p := e.read(meT(c.src, addr.args[1]), typ, pc)
				e.log = save
				return v, p
			}
			return zeroVal(typ), False
		}
	case "makeslice":
		return zeroVal(typ), True
	case "nil": // never reached: the dereference panics
		return zeroVal(typ), True
	case "seq":
		if addr.op == "ia" && addr.args[0] == r {
			v := seqElem(r, addr.args[1], typ)
			return v, True
		}
		if addr.op == "fa" { // field of a struct element
			if v := e.elemField(addr, typ); v != nil {
				return v, True
			}
		}
	case "append":
		if v := e.appendElem(addr, r, typ, pc); v != nil {
			return v, True
		}
	case "fold":
		if _, at := mapFold(r); at != nil && addr.op == "ia" && addr.args[0] == r {
			return fromTerm(at(addr.args[1]), typ), True
		}
	case "global":
		if g, ok := r.obj.(*ssa.Global); ok && g.Name() == "init$guard" {
			return False, True
		}
		if g, ok := r.obj.(*ssa.Global); ok && !e.P.gmut[g] && !e.noGlobal && g.Pkg != nil && inModule(g.Pkg.Pkg.Path()) {
			ge := e.P.globals(g.Pkg)
			v, p := ge.read(addr, typ, True)
			return v, p
		}
	case "makechan", "closure":
	}
	if r.op == "load" && r.args[0].op == "global" {
	}
	if addr.op == "me" {
		m, k := addr.args[0], addr.args[1]
		if m.op == "nil" {
			return zeroVal(typ), False
		}
		t := mk("mapval", "", typ, []*Term{m, k})
		return opaque(t, typ), atom(mk("has", "", types.Typ[types.Bool], []*Term{m, k}))
	}
	if r.op == "conv" && addr.op == "ia" && addr.args[0] == r {
		return opaque(mk("idx", "", typ, []*Term{r.args[0], addr.args[1]}), typ), True
	}
	t := mk("load", "", typ, []*Term{addr})
	return opaque(t, typ), True
}

func seqElem(r, ix *Term, typ types.Type) Val {
	if n, ok := ix.isInt(); ok && n.IsInt64() && n.Sign() >= 0 && int(n.Int64()) < len(r.args) {
		return fromTerm(r.args[n.Int64()], typ)
	}
	var gs []guarded
	for i, a := range r.args {
		g := intEqT(ix, intTerm(int64(i)))
		if i == len(r.args)-1 {
			g = True
			for _, x := range gs {
				g = And(g, Not(x.g))
			}
		}
		gs = append(gs, guarded{g, fromTerm(a, typ)})
	}
	if len(gs) == 0 {
		return zeroVal(typ)
	}
	return join(gs)
}

func (e *Eval) elemField(addr *Term, typ types.Type) Val {
	var path []int
	a := addr
	for a.op == "fa" {
		i, _ := strconv.Atoi(a.sym)
		path = append(path, i)
		a = a.args[0]
	}
	if a.op != "ia" || a.args[0].op != "seq" {
		return nil
	}
	v := seqElem(a.args[0], a.args[1], nil)
	for i := len(path) - 1; i >= 0; i-- {
		v = component(v, path[i], nil)
	}
	if isBool(typ) {
		return asBool(v)
	}
	return v
}

// appendElem reads an element of append(a, b...).
func (e *Eval) appendElem(addr, r *Term, typ types.Type, pc B) Val {
	a, b := r.args[0], r.args[1]
	var rb func(t *Term) *Term
	if n := lenT(a); n.sym == "i:0" && n.op == "const" {
		rb = func(t *Term) *Term {
			if t == r {
				return b
			}
			switch t.op {
			case "fa":
				st, _ := t.obj.(*types.Struct)
				i, _ := strconv.Atoi(t.sym)
				return faT(rb(t.args[0]), i, st)
			case "ia":
				return iaT(rb(t.args[0]), t.args[1], t.typ)
			}
			return t
		}
		return e.load(rb(addr), typ, pc)
	}
	// Constant index within a known prefix.
	ia := addr
	for ia.op == "fa" {
		ia = ia.args[0]
	}
	if ia.op == "ia" {
		c := ltT(ia.args[1], lenT(a))
		if !sat(And(pc, Not(c))) || c == True {
			rb = func(t *Term) *Term {
				if t == r {
					return a
				}
				switch t.op {
				case "fa":
					st, _ := t.obj.(*types.Struct)
					i, _ := strconv.Atoi(t.sym)
					return faT(rb(t.args[0]), i, st)
				case "ia":
					return iaT(rb(t.args[0]), t.args[1], t.typ)
				}
				return t
			}
			return e.load(rb(addr), typ, pc)
		}
	}
	return nil
}

func (f *frame) lookup(in *ssa.Lookup) {
	e := f.e
	if isString(in.X.Type()) {
		f.env[in] = e.index(f.pc, f.val(in.X), f.val(in.Index), in.X.Type(), in.Type())
		return
	}
	mt := in.X.Type().Underlying().(*types.Map)
	v := each(f.pc, []Val{f.val(in.X), f.val(in.Index)}, func(g B, ts []*Term) Val {
		e.access("mapread", ts[0], g, f.fn, in.Pos(), single(ts[1]))
		x, p := e.mapLoad(ts[0], ts[1], mt.Elem(), g)
		if e.rangedKey(ts[0], ts[1]) && p != False {
			x, p = simp(x, And(g, p)), True
		}
		return &AV{f: []Val{x, p}}
	}).(*AV)
	if in.CommaOk {
		f.env[in] = v
	} else {
		f.env[in] = v.f[0]
	}
}

func (e *Eval) mapLoad(m, k *Term, et types.Type, pc B) (Val, B) {
	if structOf(et) != nil && structOf(et).NumFields() == 0 {
		_, p := e.read(meT(m, k), types.Typ[types.Int], pc)
		return zeroVal(et), p
	}
	v, p := e.read(meT(m, k), et, pc)
	return v, p
}

// rangedKey: the key is that of a loop over the keys of the map, from which
// nothing is deleted.
func (e *Eval) rangedKey(m, k *Term) bool {
	for _, lc := range e.loops {
		if k != lc.bound || lc.cur != mk("dom", "", nil, []*Term{m}) {
			continue
		}
		for _, w := range e.log {
			if w.addr.op == "me" && w.addr.args[0] == m && (w.val == nil || !isStored(w.val)) {
				return false
			}
		}
		return true
	}
	return false
}

// isStored: the value written to a map is certainly an entry.
func isStored(v Val) bool {
	for _, a := range altsOf(v) {
		if a.t == absent {
			return false
		}
	}
	return true
}

func meT(m, k *Term) *Term { return mk("me", "", nil, []*Term{m, k}) }

func (e *Eval) mapStore(f *frame, m, k *Term, v Val, g B, pos token.Pos) {
	var fn *ssa.Function
	if f != nil {
		fn = f.fn
	}
	e.accessMap("set", m, g, fn, pos, single(k), v)
	e.log = append(e.log, write{g: g, addr: meT(m, k), val: v, lvl: -1, seq: len(e.events)})
}

func (e *Eval) mapDelete(fn *ssa.Function, m, k *Term, g B, pos token.Pos) {
	e.accessMap("delete", m, g, fn, pos, single(k))
	e.log = append(e.log, write{g: g, addr: meT(m, k), val: single(absent), lvl: -1, seq: len(e.events)})
}

func (e *Eval) havoc(addr *Term, g B, tag string) {
	e.log = append(e.log, write{g: g, addr: addr, lvl: -1, tag: tag, seq: len(e.events)})
}

// globals evaluates the initializer of a package.
func (P *Program) globals(p *ssa.Package) *Eval {
	if g, ok := P.ginit[p]; ok {
		return g
	}
	e := newEval(P)
	e.quiet = true
	e.noGlobal = true
	P.gevals = append(P.gevals, e)
	e.nalloc = globalBase * len(P.gevals)
	P.ginit[p] = e
	if fn := p.Func("init"); fn != nil {
		e.noInline = func(f *ssa.Function) bool { return strings.HasPrefix(f.Name(), "init#") || f.Name() == "init" }
		f := &frame{e: e, fn: fn, env: map[ssa.Value]Val{}, edge: map[[2]int]B{}, info: infoOf(fn)}
		e.frames = append(e.frames, f)
		e.stack = append(e.stack, fn)
		f.runRegion(nil, True)
	}
	return e
}
