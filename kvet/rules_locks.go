package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// entries are the functions of the module that other code may call at any
// time: exported ones, those without a caller in the module and function
// literals handed out.
func (P *Program) entries() (exported, rest []*ssa.Function) {
	called := map[*ssa.Function]bool{}
	callback := map[*ssa.Function]bool{}
	local := map[*ssa.Function]bool{} // literals called, deferred or started where they are made
	for _, fn := range P.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if f := cc.StaticCallee(); f != nil {
					called[f] = true
					if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
						local[mc.Fn.(*ssa.Function)] = true
					}
					if inModule(fnPkgPath(f)) {
						for _, a := range cc.Args {
							if mc := closureOf(a); mc != nil {
								local[mc] = true // evaluated where it is called
							}
						}
					}
					if strings.Contains(f.String(), "golang-lru") {
						for _, a := range cc.Args {
							if mc := closureOf(a); mc != nil {
								callback[boundMethod(mc)] = true
								local[mc] = true
							}
						}
					}
				}
			}
		}
	}
	var exp []*ssa.Function
	for _, fn := range P.funcs {
		if fn.Synthetic != "" || callback[fn] || strings.HasPrefix(fnPkgPath(fn), specPath) || strings.Contains(fnPkgPath(fn), "/tools/") {
			continue
		}
		if fn.Parent() != nil {
			if !local[fn] && !called[fn] && escapes(fn) {
				rest = append(rest, fn)
			}
			continue
		}
		o := fn.Object()
		if fn.Name() == "init" || o == nil || !o.Exported() && called[fn] {
			continue
		}
		if o.Exported() || fn.Name() == "main" {
			exp = append(exp, fn)
		} else {
			rest = append(rest, fn)
		}
	}
	for _, l := range [][]*ssa.Function{exp, rest} {
		sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	}
	return exp, rest
}

func closureOf(v ssa.Value) *ssa.Function {
	for {
		switch x := v.(type) {
		case *ssa.MakeClosure:
			return x.Fn.(*ssa.Function)
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Function:
			return x
		default:
			return nil
		}
	}
}

// boundMethod is the method a bound method closure calls.
func boundMethod(fn *ssa.Function) *ssa.Function {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && fn.Synthetic != "" {
				if f := ci.Common().StaticCallee(); f != nil {
					return f
				}
			}
		}
	}
	return fn
}

// escapes: the literal is passed on, stored or returned.
func escapes(fn *ssa.Function) bool {
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if g, ok := in.(*ssa.Go); ok && closureOf(g.Call.Value) == fn {
				return false
			}
			if d, ok := in.(*ssa.Defer); ok && closureOf(d.Call.Value) == fn {
				return false
			}
		}
	}
	return true
}

// runEntry evaluates an entry point, and the goroutines it starts.
func (c *Check) runEntry(fn *ssa.Function, set func(e *Eval)) (*Eval, B) {
	e := c.eval()
	e.Pure = parsers
	if set != nil {
		set(e)
	}
	var bind []Val
	for _, v := range fn.FreeVars {
		bind = append(bind, e.param("free_"+v.Name(), v.Type()))
	}
	_, ret := e.callFn(fn, e.params(fn), bind, True, nil)
	e.drain()
	return e, ret
}

// evictHook runs the eviction callback of a golang-lru cache when one of its
// methods may evict.
func (c *Check) evictHook(e *Eval) func(cc *callCtx) (Val, bool) {
	cb := c.evictCallback()
	return func(cc *callCtx) (Val, bool) {
		m := lruMethod(cc.name)
		if m == "" || cb == nil {
			return nil, false
		}
		switch m {
		case "Remove", "RemoveOldest", "Purge", "Add", "Resize", "ContainsOrAdd", "PeekOrAdd":
			v := e.impureCall(cc)
			for _, a := range alts(cc.args[0]) {
				if o := owner(a.t); o != nil && len(cb.Params) == 3 {
					k := e.param("evictedKey", cb.Params[1].Type())
					x := e.param("evictedValue", cb.Params[2].Type())
					g := And(cc.pc, a.g, atom(mk("param", fmt.Sprintf("evicts%d", len(e.events)), types.Typ[types.Bool], nil)))
					e.static(cb, []Val{single(o), k, x}, nil, g, nil, nil)
				}
			}
			return v, true
		}
		return nil, false
	}
}

func lruMethod(name string) string {
	if !strings.HasPrefix(name, "(*github.com/hashicorp/golang-lru/") {
		return ""
	}
	return name[strings.LastIndex(name, ".")+1:]
}

// evictCallback is the method registered as eviction callback.
func (c *Check) evictCallback() *ssa.Function {
	for _, fn := range c.P.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if f := ci.Common().StaticCallee(); f != nil && strings.Contains(f.String(), "golang-lru") {
					for _, a := range ci.Common().Args {
						if mc := closureOf(a); mc != nil {
							return boundMethod(mc)
						}
					}
				}
			}
		}
	}
	return nil
}

// access is one use of shared state.
type access struct {
	site  string
	write bool
	locks map[string]bool // locks held, relative to the object
}

// unsafeObjects are types without synchronization of their own.
var unsafeObjects = []string{"container/list.", "container/heap.", "container/ring.", "bytes.Buffer", "strings.Builder", "math/rand.Rand", "golang-lru/v2/simplelru"}

// classify is the field a location belongs to, and the object with that field.
func classify(t *Term) (*types.Var, *Term, string) {
	suffix := ""
	for {
		switch t.op {
		case "fa":
			st, ok := t.obj.(*types.Struct)
			if !ok {
				return nil, nil, ""
			}
			i := fieldIndex(t)
			v := st.Field(i)
			if v.Pkg() == nil || !inModule(v.Pkg().Path()) {
				t = t.args[0]
				continue
			}
			return v, t.args[0], suffix
		case "ia":
			t, suffix = t.args[0], "[]"
			continue
		case "load":
			t, suffix = t.args[0], "[]"
			continue
		case "iface", "havoc":
			t = t.args[0]
			continue
		}
		return nil, nil, ""
	}
}

func init() {
	register(&rule{id: "C13", technique: "lockset dataflow over every entry point of the module: guard-precise sets of held locks at each access to a field, map or list written after construction",
		about: "for every field, map or list of the module's types that is written after construction, one lock of the same object is held at all its accesses, exclusively at the writes; variables and maps written by several instances of a goroutine are under a lock, and no goroutine started in a loop uses a variable that the loop sets again; no function leaves a lock held, releases a lock it does not hold or acquires one it holds; the order of acquisition has no cycle",
		min:   40,
		run:   runLocks})
}

func runLocks(c *Check) {
	classes := map[*types.Var]map[string][]access{}
	order := map[string]map[string]string{}
	n := 0
	shared := c.sharedTypes()
	exp, rest := c.P.entries()
	done := map[*ssa.Function]bool{}
	for k, fn := range append(exp, rest...) {
		if k >= len(exp) && done[fn] {
			continue // evaluated where it is called
		}
		e, ret := c.runEntry(fn, func(e *Eval) { e.callHook = c.evictHook(e) })
		n++
		for f := range e.inlined {
			done[f] = true
		}
		for _, ev := range e.events {
			switch ev.Kind {
			case "lockerr":
				c.fail("lock-discipline", c.site(ev), ev.Note+": "+ev.Addr.String())
			case "lock":
				if !strings.HasSuffix(ev.Name, "Unlock") {
					for l, s := range ev.Held {
						if l != ev.Addr && sat(And(ev.Guard, Or(s.w, s.r))) {
							a, b := lockClass(l), lockClass(ev.Addr)
							if a != "" && b != "" {
								if order[a] == nil {
									order[a] = map[string]string{}
								}
								order[a][b] = c.site(ev)
							}
						}
					}
				}
			case "load", "store", "mapread", "mapwrite", "call":
				addr := ev.Addr
				write := ev.Kind == "store" || ev.Kind == "mapwrite"
				if ev.Kind == "call" {
					if len(ev.Args) == 0 || !unsafeCall(ev.Name) {
						continue
					}
					addr = alts(ev.Args[0])[0].t
					write = !strings.HasSuffix(ev.Name, ".Len") && !strings.HasSuffix(ev.Name, ".Front") && !strings.HasSuffix(ev.Name, ".Back")
				}
				if addr == nil {
					continue
				}
				if (ev.Kind == "store" || ev.Kind == "mapwrite") && e.ofSeveral(addr, ev.Thread) && sat(ev.Guard) {
					held := false
					for _, s := range ev.Held {
						held = held || !sat(And(ev.Guard, Not(s.w)))
					}
					c.need(held, "written-by-several-goroutines", c.site(ev), addr.String())
				}
				v, o, suf := classify(addr)
				if v == nil || syncType(v.Type()) || !shared[v] {
					continue
				}
				if ev.Kind == "mapread" || ev.Kind == "mapwrite" || ev.Kind == "call" {
					suf = "[]"
				}
				if root(o).op == "nil" || !sat(ev.Guard) || e.ownAlloc(root(o), ev.Thread) {
					continue
				}
				acc := access{site: c.site(ev), write: write, locks: map[string]bool{}}
				for l, s := range ev.Held {
					h := s.w
					if !write {
						h = Or(s.w, s.r)
					}
					if sat(And(ev.Guard, Not(h))) {
						continue
					}
					acc.locks[relative(l, o)] = true
				}
				if classes[v] == nil {
					classes[v] = map[string][]access{}
				}
				classes[v][suf] = append(classes[v][suf], acc)
			}
		}
		for l, s := range e.locks {
			if x := And(ret, Or(s.w, s.r)); sat(x) {
				c.fail("lock-released", c.fnSite(fn), "may return while it holds "+l.String())
			}
		}
		c.need(true, "lock-released", c.fnSite(fn))
	}
	c.tally("entry_points", n)
	var vs []*types.Var
	for v := range classes {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Pos() < vs[j].Pos() })
	for _, v := range vs {
		for suf, as := range classes[v] {
			w := false
			for _, a := range as {
				w = w || a.write
			}
			if !w {
				continue
			}
			c.tally("shared_locations", 1)
			best, bn := "", -1
			cnt := map[string]int{}
			for _, a := range as {
				for l := range a.locks {
					cnt[l]++
				}
			}
			for l, k := range cnt {
				if k > bn || k == bn && l < best {
					best, bn = l, k
				}
			}
			for _, a := range as {
				c.need(bn > 0 && a.locks[best], "accessed-under-its-lock", a.site, v.Name()+suf+" of "+c.at(v.Pos()), "lock "+best, fmt.Sprintf("write %v", a.write))
			}
		}
	}
	for _, fn := range c.P.funcs {
		c.captured(fn)
	}
	for a := range order {
		for b, site := range order[a] {
			cyc := reaches(order, b, a, map[string]bool{})
			c.need(!cyc, "lock-order", site, a+" before "+b)
		}
	}
}

// ofSeveral: the variable or map belongs to another thread than the one
// given, of which several run at a time.
func (e *Eval) ofSeveral(addr *Term, thread int) bool {
	if thread == 0 || thread >= len(e.threadStart) || addr.op == "ia" {
		return false
	}
	t := root(addr)
	if t.op != "alloc" && t.op != "makemap" || e.ownAlloc(t, thread) {
		return false
	}
	if e.threadMany[thread] {
		return true
	}
	at, made := e.threadAt[thread], t.obj
	in, ok := made.(ssa.Instruction)
	return at != nil && ok && in.Parent() == at.Parent() && loopWithout(at.Block(), in.Block()) != nil
}

// loopWithout is a loop with the one block and without the other.
func loopWithout(with, without *ssa.BasicBlock) *Loop {
	for l := infoOf(with.Parent()).inner[with]; l != nil; l = l.parent {
		if !l.blocks[without] {
			return l
		}
	}
	return nil
}

// captured: no goroutine started in a loop uses a variable that the following
// iterations set.
func (c *Check) captured(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			g, ok := in.(*ssa.Go)
			if !ok {
				continue
			}
			mc, ok := g.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			for i, x := range mc.Bindings {
				a, ok := x.(*ssa.Alloc)
				if !ok {
					continue
				}
				l := loopWithout(b, a.Block())
				if l == nil || mutexOf(a.Type()) || waitsIn(l) {
					continue
				}
				reads := false
				for _, r := range *mc.Fn.(*ssa.Function).FreeVars[i].Referrers() {
					if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
						reads = true
					}
				}
				for _, r := range *a.Referrers() {
					st, ok := r.(*ssa.Store)
					if ok && st.Addr == a && l.blocks[st.Block()] && reads {
						c.fail("set-besides-a-goroutine", c.at(st.Pos())+" in "+fnName(fn), a.Comment)
					}
				}
			}
			c.need(true, "set-besides-a-goroutine", c.fnSite(fn))
		}
	}
}

func mutexOf(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && syncType(p.Elem())
}

// waitsIn: something in the loop waits for other goroutines.
func waitsIn(l *Loop) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return true
				}
			case *ssa.Select:
				return true
			case *ssa.Call:
				if f := in.Call.StaticCallee(); f != nil && (waits(fnName(f)) || strings.HasSuffix(fnName(f), "ock")) {
					return true
				}
			}
		}
	}
	return false
}

// ownAlloc: the object was made by the same thread of the evaluation.
func (e *Eval) ownAlloc(t *Term, thread int) bool {
	if t.op != "alloc" && t.op != "makemap" && t.op != "makeslice" && t.op != "seq" {
		return false
	}
	n, err := strconv.Atoi(t.sym)
	return err == nil && (thread == 0 || thread >= len(e.threadStart) || n > e.threadStart[thread])
}

// sharedTypes are the fields of the types whose objects several goroutines
// use: those with a lock or atomic, the providers, the round trippers and the
// long-lived objects, and the objects these hold in maps.
func (c *Check) sharedTypes() map[*types.Var]bool {
	out := map[*types.Var]bool{}
	var add func(t types.Type)
	add = func(t types.Type) {
		st := structOf(t)
		n, ok := types.Unalias(t).(*types.Named)
		if st == nil || !ok || n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg().Path()) || st.NumFields() == 0 || out[st.Field(0)] {
			return
		}
		c.units["type "+n.Obj().Pkg().Name()+"."+n.Obj().Name()] = true
		for i := 0; i < st.NumFields(); i++ {
			out[st.Field(i)] = true
			if m, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
				if p, ok := m.Elem().Underlying().(*types.Pointer); ok {
					add(p.Elem())
				}
			}
		}
	}
	var ifaces []*types.Interface
	for _, n := range [][2]string{{"provider", "Provider"}} {
		if t := c.P.Type(n[0], n[1]); t != nil {
			if i, ok := t.Underlying().(*types.Interface); ok {
				ifaces = append(ifaces, i)
			}
		}
	}
	for _, p := range c.P.pkgs {
		if !inModule(p.Pkg.Path()) || strings.HasPrefix(p.Pkg.Path(), specPath) {
			continue
		}
		for _, m := range p.Members {
			tn, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			st := structOf(tn.Type())
			if st == nil {
				continue
			}
			hit := false
			for i := 0; i < st.NumFields(); i++ {
				s := st.Field(i).Type().String()
				hit = hit || strings.HasPrefix(strings.TrimPrefix(s, "*"), "sync.") || strings.HasPrefix(strings.TrimPrefix(s, "*"), "sync/atomic.")
			}
			ms := types.NewMethodSet(types.NewPointer(tn.Type()))
			if s := ms.Lookup(nil, "RoundTrip"); s != nil {
				hit = true
			}
			for _, i := range ifaces {
				hit = hit || types.Implements(types.NewPointer(tn.Type()), i)
			}
			switch tn.Name() {
			case "Loader", "Kache", "HttpCache", "Server", "API", "Listener":
				hit = true
			}
			if hit {
				add(tn.Type())
			}
		}
	}
	return out
}

func reaches(o map[string]map[string]string, a, b string, seen map[string]bool) bool {
	if a == b {
		return true
	}
	if seen[a] {
		return false
	}
	seen[a] = true
	for x := range o[a] {
		if reaches(o, x, b, seen) {
			return true
		}
	}
	return false
}

func lockClass(l *Term) string {
	v, _, suf := classify(l)
	if v == nil {
		return ""
	}
	return fmt.Sprintf("%s#%d%s", v.Name(), v.Pos(), suf)
}

// relative names the lock l as seen from the object o.
func relative(l, o *Term) string {
	s := newSubst(map[*Term]*Term{o: mk("self", "", o.typ, nil)})
	return s.T(l).String()
}

func unsafeCall(name string) bool {
	for _, p := range unsafeObjects {
		if strings.Contains(name, p) && strings.HasPrefix(name, "(") {
			return true
		}
	}
	return false
}

// syncType: the field synchronizes itself.
func syncType(t types.Type) bool {
	s := t.String()
	return strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "*sync.") || strings.HasPrefix(s, "sync/atomic.") || strings.HasPrefix(s, "*sync/atomic.")
}
