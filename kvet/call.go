package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callCtx is one call being evaluated.
type callCtx struct {
	e      *Eval
	name   string
	args   []Val
	pc     B // the result: condition under which the call returns
	common *ssa.CallCommon
	at     ssa.Instruction
	sig    *types.Signature
	fn     *ssa.Function // static callee, if any
}

func (c *callCtx) pos() token.Pos {
	if c.at != nil {
		if p := c.at.Pos(); p.IsValid() {
			return p
		}
	}
	if c.common != nil {
		return c.common.Pos()
	}
	return token.NoPos
}

func (c *callCtx) caller() *ssa.Function {
	if n := len(c.e.stack); n > 0 {
		return c.e.stack[n-1]
	}
	return nil
}

func (c *callCtx) resType() types.Type {
	r := c.sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return r.At(0).Type()
	}
	return r
}

// invoke evaluates a call of the value fnv.
func (e *Eval) invoke(fnv Val, common *ssa.CallCommon, args []Val, pc B, at ssa.Instruction) (Val, B) {
	if b, ok := fnv.(B); ok {
		fnv = &GV{[]alt{{True, boolTerm(b)}}}
	}
	gv, ok := fnv.(*GV)
	if !ok {
		gv = &GV{[]alt{{True, term(fnv)}}}
	}
	type res struct {
		v  Val
		pc B
	}
	var rs []res
	for _, a := range gv.alts {
		g := And(pc, a.g)
		if g == False || len(gv.alts) > 1 && !sat(g) {
			continue
		}
		v, rpc := e.call1(a.t, common, args, g, at)
		rs = append(rs, res{v, rpc})
	}
	out := False
	for _, r := range rs {
		out = Or(out, r.pc)
	}
	if len(rs) == 1 {
		return rs[0].v, rs[0].pc
	}
	var gs []guarded
	for _, r := range rs {
		if r.pc != False && r.v != nil {
			gs = append(gs, guarded{Constrain(r.pc, out), r.v})
		}
	}
	return simp(join(gs), out), out
}

// call1 evaluates a call of one callee (or interface value).
func (e *Eval) call1(t *Term, common *ssa.CallCommon, args []Val, pc B, at ssa.Instruction) (Val, B) {
	sig := common.Signature()
	if common.IsInvoke() {
		m := common.Method
		if t.op == "iface" {
			ct := t.obj.(types.Type)
			if fn := e.P.lookupMethod(ct, m); fn != nil {
				return e.static(fn, append([]Val{fromTerm(t.args[0], ct)}, args...), nil, pc, common, at)
			}
		}
		c := &callCtx{e: e, name: m.FullName(), args: append([]Val{single(t)}, args...), pc: pc, common: common, at: at, sig: sig}
		if !nonNil(t) && !e.quiet {
			e.event(&Event{Kind: "deref", Guard: pc, Fn: c.caller(), Pos: c.pos(), Addr: t})
		}
		v := e.extern(c)
		return v, c.pc
	}
	switch t.op {
	case "builtin":
		c := &callCtx{e: e, name: "builtin." + t.sym, args: args, pc: pc, common: common, at: at, sig: sig}
		v := e.builtin(c, t.sym)
		return v, c.pc
	case "fn":
		return e.static(t.obj.(*ssa.Function), args, nil, pc, common, at)
	case "closure":
		cl := t.obj.(*closure)
		return e.static(cl.fn, args, cl.bind, pc, common, at)
	}
	c := &callCtx{e: e, name: "dyncall", args: append([]Val{single(t)}, args...), pc: pc, common: common, at: at, sig: sig}
	v := e.extern(c)
	return v, c.pc
}

func (P *Program) lookupMethod(ct types.Type, m *types.Func) *ssa.Function {
	ms := P.prog.MethodSets.MethodSet(ct)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return P.prog.MethodValue(sel)
}

const maxDepth = 40

// CallFn evaluates a function value from a rule.
func (e *Eval) CallFn(fnv Val, sig *types.Signature, args []Val, pc B) (Val, B) {
	gv := fnv.(*GV)
	var gs []guarded
	out := False
	for _, a := range gv.alts {
		g := And(pc, a.g)
		if g == False {
			continue
		}
		var v Val
		var r B
		switch a.t.op {
		case "fn":
			v, r = e.static(a.t.obj.(*ssa.Function), args, nil, g, nil, nil)
		case "closure":
			cl := a.t.obj.(*closure)
			v, r = e.static(cl.fn, args, cl.bind, g, nil, nil)
		case "iface":
			v, r = e.CallFn(single(a.t.args[0]), sig, args, g)
		default:
			c := &callCtx{e: e, name: "dyncall", args: append([]Val{single(a.t)}, args...), pc: g, sig: sig}
			v = e.extern(c)
			r = c.pc
		}
		gs = append(gs, guarded{r, v})
		out = Or(out, r)
	}
	for i := range gs {
		gs[i].g = Constrain(gs[i].g, out)
	}
	return simp(join(gs), out), out
}

// static evaluates a call of a known function.
func (e *Eval) static(fn *ssa.Function, args []Val, bind []Val, pc B, common *ssa.CallCommon, at ssa.Instruction) (Val, B) {
	if len(fn.FreeVars) > 0 && fn.Synthetic != "" && len(fn.Blocks) > 0 { // a bound method
		return e.callFn(fn, args, bind, pc, at)
	}
	name := fnName(fn)
	c := &callCtx{e: e, name: name, args: args, pc: pc, common: common, at: at, sig: fn.Signature, fn: fn}
	if e.callHook != nil {
		if v, ok := e.callHook(c); ok {
			return v, c.pc
		}
	}
	if m, ok := models[name]; ok {
		return m(c), c.pc
	}
	if e.Pure[name] {
		return explode(e.pureCall(c), c.resType()), c.pc
	}
	body := len(fn.Blocks) > 0
	mod := inModule(fnPkgPath(fn)) || fn.Synthetic != ""
	if body && mod && !(e.noInline != nil && e.noInline(fn)) && !e.Opaque[name] {
		n := 0
		for _, s := range e.stack {
			if s == fn {
				n++
			}
		}
		if n < 1 && len(e.stack) < maxDepth {
			if inModule(fnPkgPath(fn)) && fn.Synthetic == "" {
				e.event(&Event{Kind: "enter", Guard: pc, Name: name, Fn: fn, Pos: c.pos(), Args: args})
			}
			return e.callFn(fn, args, bind, pc, at)
		}
	}
	v := e.extern(c)
	return v, c.pc
}

// ext evaluates calls without a body.
func (e *Eval) extern(c *callCtx) Val {
	if e.callHook != nil {
		if v, ok := e.callHook(c); ok {
			return v
		}
	}
	if m, ok := models[c.name]; ok {
		return m(c)
	}
	if endsProgram(c) {
		e.impureCall(c)
		c.pc = False
		return nil
	}
	if strings.HasSuffix(c.name, "rs/zerolog.ParseLevel") {
		return e.pureCall(c)
	}
	if isLogCall(c) {
		e.event(&Event{Kind: "log", Guard: c.pc, Name: c.name, Fn: c.caller(), Pos: c.pos(), Args: c.args, Common: c.common})
		rt := c.resType()
		if rt == nil {
			return nil
		}
		ts := make([]*Term, 0, len(c.args))
		for _, a := range c.args {
			ts = append(ts, term(a))
		}
		return opaque(mk("call", c.name, rt, ts), rt)
	}
	if isPure(c.name) {
		v := e.pureCall(c)
		if isReader(c.name) {
			e.event(&Event{Kind: "reader", Guard: c.pc, Name: c.name, Fn: c.caller(), Pos: c.pos(), Args: c.args, Ret: v, Common: c.common})
		}
		return v
	}
	return e.impureCall(c)
}

// isReader: what is made can be read once.
func isReader(name string) bool {
	return name == "bytes.NewReader" || name == "bytes.NewBuffer" || name == "bytes.NewBufferString" || name == "strings.NewReader"
}

// endsProgram: the call does not return.
func endsProgram(c *callCtx) bool {
	switch c.name {
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "syscall.Exit":
		return true
	}
	for _, m := range []string{"Msg", "Msgf", "Send", "MsgFunc"} {
		if strings.HasSuffix(c.name, "rs/zerolog.Event)."+m) {
			// An event of the fatal level ends the program.
			for t := term(c.args[0]); t != nil && t.op == "call" && strings.Contains(t.sym, "rs/zerolog"); t = t.args[0] {
				if strings.HasSuffix(t.sym, "log.Fatal") || strings.HasSuffix(t.sym, ".Logger).Fatal") || strings.HasSuffix(t.sym, "log.Panic") || strings.HasSuffix(t.sym, ".Logger).Panic") {
					return true
				}
				if len(t.args) == 0 {
					break
				}
			}
		}
	}
	return false
}

func isLogCall(c *callCtx) bool {
	return strings.Contains(c.name, "github.com/rs/zerolog")
}

// impureCall is an effect the engine does not look into.
func (e *Eval) impureCall(c *callCtx) Val {
	ev := &Event{Kind: "call", Guard: c.pc, Name: c.name, Fn: c.caller(), Pos: c.pos(), Args: c.args, Common: c.common}
	e.event(ev)
	rt := c.resType()
	if c.sig != nil {
		e.writesThrough(c)
	}
	if rt == nil {
		return nil
	}
	var ts []*Term
	for _, a := range c.args {
		ts = append(ts, term(a))
	}
	t := e.fresh(c.name, rt, ts)
	v := e.result(t, rt)
	ev.Ret, ev.RetT = v, t
	return v
}

// result is the (possibly tuple) value named t.
func (e *Eval) result(t *Term, rt types.Type) Val {
	if tup, ok := rt.(*types.Tuple); ok {
		a := &AV{}
		for i := 0; i < tup.Len(); i++ {
			ct := tup.At(i).Type()
			a.f = append(a.f, opaque(mk("comp", strconv.Itoa(i), ct, []*Term{t}), ct))
		}
		return a
	}
	return opaque(t, rt)
}

// writers fill the memory their pointer arguments point to.
var writers = []string{"Decode", "Unmarshal", "Read", "ReadFull", "Scan", "Sscan", "Sscanf", "Var", "BoolVar", "DurationVar", "StringVar", "IntVar"}

func (e *Eval) writesThrough(c *callCtx) {
	base := c.name[strings.LastIndex(c.name, ".")+1:]
	ok := base == "dyncall"
	for _, w := range writers {
		ok = ok || strings.HasPrefix(base, w)
	}
	if !ok {
		return
	}
	for _, a := range c.args {
		gv, isG := a.(*GV)
		if !isG {
			continue
		}
		for _, al := range gv.alts {
			t := al.t
			for t.op == "iface" {
				t = t.args[0]
			}
			r := root(t)
			if r.op == "alloc" || t.op == "fa" || t.op == "ia" {
				e.nhavoc++
				e.havoc(t, And(c.pc, al.g), fmt.Sprintf("%s@%d", base, e.nhavoc))
			}
		}
	}
}

// pureCall is a function of its arguments (and the fields of the structs they point to).
func (e *Eval) pureCall(c *callCtx) Val {
	rt := c.resType()
	if rt == nil {
		return nil
	}
	snap := make([]Val, len(c.args))
	for i, a := range c.args {
		snap[i] = e.snapshot(a, c.pc)
	}
	if c.name == "strings.Join" {
		snap[0] = each(c.pc, snap[:1], func(g B, ts []*Term) Val { return single(e.contents(ts[0], And(c.pc, g))) })
	}
	return each(c.pc, snap, func(g B, ts []*Term) Val {
		if v := foldConst(c.name, ts, rt); v != nil {
			return v
		}
		return e.result(mk("call", c.name, rt, ts), rt)
	})
}

// snapshot replaces pointers to structs by the current contents.
func (e *Eval) snapshot(a Val, pc B) Val {
	gv, ok := a.(*GV)
	if !ok {
		return a
	}
	var gs []guarded
	for _, al := range gv.alts {
		gs = append(gs, guarded{al.g, e.snapTerm(al.t, And(pc, al.g))})
	}
	return join(gs)
}

// contents is the slice with its current elements, if they were written to.
func (e *Eval) contents(t *Term, g B) *Term {
	st, ok := t.typ.Underlying().(*types.Slice)
	if !ok || t.op == "nil" || t.op == "seq" {
		return t
	}
	const lvl = "40" // beyond the level of any loop
	k := mk("bound", lvl, types.Typ[types.Int], nil)
	n := e.lenOf(t, g)
	in := And(g, leT(intTerm(0), k), ltT(k, n))
	if !sat(in) {
		return t
	}
	at := iaT(t, k, types.NewPointer(st.Elem()))
	v := simp(e.load(at, st.Elem(), in), in)
	gv, ok := v.(*GV)
	if !ok || same(simp(e.initial1(at, st.Elem(), in), in), v) == True {
		return t
	}
	var gs []guarded
	for _, a := range gv.alts {
		gs = append(gs, guarded{a.g, single(a.t)})
	}
	return mk("tab", lvl+":", t.typ, []*Term{n, term(join(gs))})
}

// mapContents is the map with its current entries, if it was written to.
func (e *Eval) mapContents(t *Term, g B) *Term {
	touched := false
	for _, w := range e.log {
		touched = touched || w.addr != nil && w.addr.op == "me" && (w.val == nil || w.addr.args[0] == t)
	}
	mt := t.typ.Underlying().(*types.Map)
	if !touched {
		return t
	}
	q := e.quiet
	e.quiet = true
	defer func() { e.quiet = q }()
	k := mk("bound", "41", mt.Key(), nil)
	v, has := e.mapLoad(t, k, mt.Elem(), g)
	log := e.log
	e.log = nil
	v0, has0 := e.mapLoad(t, k, mt.Elem(), g)
	e.log = log
	if !sat(And(g, Or(And(has, Not(has0)), And(has0, Not(has))))) && diff(And(g, has), v, v0) == False {
		return t
	}
	gs := []guarded{{Not(has), single(absent)}}
	for _, a := range altsOf(v) {
		gs = append(gs, guarded{And(has, a.g), single(a.t)})
	}
	return mk("maptab", "41", t.typ, []*Term{term(simp(join(gs), g))})
}

func (e *Eval) initial1(addr *Term, typ types.Type, g B) Val {
	q := e.quiet
	e.quiet = true
	defer func() { e.quiet = q }()
	v, _ := e.initial(addr, typ, g)
	return v
}

func (e *Eval) snapTerm(t *Term, pc B) Val {
	if t.op == "nil" || t.typ == nil {
		return single(t)
	}
	if _, ok := t.typ.Underlying().(*types.Map); ok {
		return single(e.mapContents(t, pc))
	}
	p, ok := t.typ.Underlying().(*types.Pointer)
	if !ok {
		return single(t)
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || !snapTypes[n.Obj().Pkg().Path()+"."+n.Obj().Name()] {
		return single(t)
	}
	v := e.load(t, p.Elem(), pc)
	return single(mk("ref", p.Elem().String(), t.typ, []*Term{term(v)}))
}

var snapTypes = map[string]bool{"net/url.URL": true}

// builtin evaluates the predeclared functions.
func (e *Eval) builtin(c *callCtx, name string) Val {
	pc := c.pc
	switch name {
	case "len", "cap":
		if c.common != nil && len(c.common.Args) == 1 {
			if _, ok := c.common.Args[0].Type().Underlying().(*types.Map); ok {
				e.readMap(c.caller(), c.args[0], pc, c.pos())
			}
		}
		return each(pc, c.args[:1], func(g B, ts []*Term) Val {
			if name == "cap" && ts[0].op != "makechan" {
				return single(mk("call", "cap", types.Typ[types.Int], ts))
			}
			return single(e.lenOf(ts[0], g))
		})
	case "append":
		rt := c.sig.Results().At(0).Type()
		return each(pc, c.args, func(g B, ts []*Term) Val {
			if len(ts) < 2 {
				return single(ts[0])
			}
			return single(appendT(ts[0], ts[1], rt))
		})
	case "copy":
		e.event(&Event{Kind: "call", Name: "builtin.copy", Guard: pc, Fn: c.caller(), Pos: c.pos(), Args: c.args})
		each(pc, c.args, func(g B, ts []*Term) Val {
			if st, ok := ts[0].typ.Underlying().(*types.Slice); ok && lenT(ts[0]) == lenT(ts[1]) && ts[0] != ts[1] {
				// Element by element.
				lvl, n := e.depth, len(e.log)
				e.depth++
				b := mk("bound", strconv.Itoa(lvl), types.Typ[types.Int], nil)
				ia := func(t *Term) *Term { return iaT(t, b, types.NewPointer(st.Elem())) }
				v := e.load(ia(ts[1]), st.Elem(), g)
				e.store(ia(ts[0]), v, st.Elem(), g)
				for i := n; i < len(e.log); i++ {
					e.log[i].lvl, e.log[i].dom = lvl, lenT(ts[1])
				}
				e.depth--
				return nil
			}
			e.nhavoc++
			e.havoc(ts[0], g, fmt.Sprintf("copy@%d", e.nhavoc))
			return nil
		})
		return single(mk("call", "copy", types.Typ[types.Int], []*Term{term(c.args[0]), term(c.args[1])}))
	case "delete":
		each(pc, c.args, func(g B, ts []*Term) Val {
			e.mapDelete(c.caller(), ts[0], ts[1], g, c.pos())
			return nil
		})
		return nil
	case "clear":
		each(pc, c.args, func(g B, ts []*Term) Val {
			e.access("mapwrite", ts[0], g, c.caller(), c.pos(), nil)
			e.nhavoc++
			e.havoc(ts[0], g, fmt.Sprintf("clear@%d", e.nhavoc))
			return nil
		})
		return nil
	case "close":
		e.event(&Event{Kind: "close", Guard: pc, Fn: c.caller(), Pos: c.pos(), Args: c.args})
		return nil
	case "max", "min":
		v := c.args[0]
		rt := c.sig.Results().At(0).Type()
		for _, w := range c.args[1:] {
			v = each(pc, []Val{v, w}, func(g B, ts []*Term) Val {
				if !isInteger(rt) {
					return single(mk("call", name, rt, ts))
				}
				le := leT(ts[0], ts[1])
				if name == "min" {
					le = Not(le)
				}
				return join([]guarded{{le, single(ts[1])}, {Not(le), single(ts[0])}})
			})
		}
		return v
	case "recover":
		return single(e.fresh("recover", types.NewInterfaceType(nil, nil), nil))
	case "ssa:wrapnilchk":
		return c.args[0]
	}
	return e.impureCall(c)
}

// lenOf is the length of a slice, map, string or channel.
func (e *Eval) lenOf(t *Term, pc B) *Term {
	if t.op == "makemap" {
		n := 0
		log := e.log
		if ge := e.P.globalEval(t); ge != nil {
			log = ge.log
		}
		for _, w := range log {
			if w.addr.op == "me" && w.addr.args[0] == t || w.addr == t {
				n++
			}
		}
		if n == 0 && e.clones[t] == nil {
			return intTerm(0)
		}
		// It is not empty if something was put into it and nothing removed.
		some := False
		for _, w := range log {
			switch {
			case w.addr.op == "me" && w.addr.args[0] == t && w.val != nil && some >= 0 && !isAbsent(w.val):
				g := w.g
				if w.lvl >= 0 {
					g = existsB(w.lvl, w.dom, g)
				}
				some = Or(some, g)
			case w.addr == t || w.addr.op == "me" && w.addr.args[0] == t:
				some = -1
			}
			if some < 0 {
				break
			}
		}
		ver := []*Term{mk("mapver", strconv.Itoa(n), t.typ, []*Term{t})}
		for _, w := range log {
			if w.addr == t && strings.HasPrefix(w.tag, "earlier") {
				for _, l := range e.loops {
					ver = append(ver, l.bound)
				}
				break
			}
		}
		if some >= 0 && e.clones[t] == nil {
			return mk("len", "v", types.Typ[types.Int], ver, some)
		}
		return mk("len", "v", types.Typ[types.Int], ver)
	}
	return lenT(t)
}

func isAbsent(v Val) bool {
	for _, a := range alts(v) {
		if a.t == absent {
			return true
		}
	}
	return false
}

func appendT(a, b *Term, typ types.Type) *Term {
	if b.op == "nil" || b.op == "seq" && len(b.args) == 0 {
		return a
	}
	if a.op == "seq" && b.op == "seq" {
		return seqT(append(append([]*Term(nil), a.args...), b.args...), typ)
	}
	if a.op == "nil" && b.op == "seq" {
		return seqT(b.args, typ)
	}
	return mk("append", "", typ, []*Term{a, b})
}

// first1 is the first value of a header line list.
func first1(t *Term) Val {
	switch t.op {
	case "nil":
		return single(strTerm(""))
	case "seq":
		if len(t.args) == 0 {
			return single(strTerm(""))
		}
		return single(t.args[0])
	case "ite":
		var gs []guarded
		for i, a := range t.args {
			gs = append(gs, guarded{t.bs[i], first1(a)})
		}
		return join(gs)
	}
	return single(mk("first1", "", types.Typ[types.String], []*Term{t}))
}

// globalEval finds the initializer evaluation a table was made in.
func (P *Program) globalEval(m *Term) *Eval {
	if m.op != "makemap" && m.op != "alloc" {
		return nil
	}
	n, _ := strconv.Atoi(m.sym)
	if n < globalBase {
		return nil
	}
	k := n/globalBase - 1
	if k < len(P.gevals) {
		return P.gevals[k]
	}
	return nil
}
