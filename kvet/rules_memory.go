package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// memory is an in-memory cache in an arbitrary state, with the LRU list it
// uses modelled as a map.
type memory struct {
	c    *Check
	e    *Eval
	obj  *Term
	typ  types.Type // pointer to the cache type
	cfg  Val
	ops  []*lruOp
	cb   *ssa.Function
	comp bool
	pc   B // the cache was made

	noEvict bool // consider only executions without eviction
}

// lruOp is one operation on the LRU list.
type lruOp struct {
	name string
	ev   *Event
	g    B
	key  *Term
	val  Val
	size Val // accounted size before the operation
	ok   B
}

var byteSlice = types.NewSlice(types.Typ[types.Byte])

// memory builds the cache by its constructor and forgets what operations may
// have changed since. With comp the accounted size is kept relative to the
// size of the items held: every change of the list changes it by the opposite.
func (c *Check) memory(comp bool) *memory {
	e := c.eval()
	e.Pure = parsers
	m := &memory{c: c, e: e, comp: comp, cb: c.evictCallback()}
	fn := c.P.Func("provider", "NewInMemoryCache")
	as := e.params(fn)
	m.cfg = as[0]
	v := e.Run(fn, as, True)
	for _, a := range alts(component(v, 0, compType(fn.Signature.Results(), 0))) {
		t := a.t
		if t.op == "iface" && t.args[0].op == "alloc" {
			m.obj = t.args[0]
			m.typ = t.obj.(types.Type)
			m.pc = a.g
		}
	}
	if m.obj == nil {
		panic(unresolved{"the cache made by NewInMemoryCache: " + vstr(v)})
	}
	for _, ev := range e.events {
		if n := lruMethod2(ev.Name); n == "NewWithEvict" || n == "New" {
			for _, a := range alts(ev.Args[0]) {
				n, ok := a.t.isInt()
				c.need(ok && n.BitLen() >= 31, "no-limit-on-the-number-of-items", c.site(ev), a.t.String())
			}
		}
	}
	e.havocShared(m.obj, True, "history")
	if comp {
		m.setSize(single(intTerm(0)), True)
	}
	e.callHook = m.hook
	return m
}

func (m *memory) curSize() (*Term, types.Type) { return fieldAddr(m.obj, "curSize") }

func (m *memory) size() Val {
	a, t := m.curSize()
	return m.e.load(a, t, True)
}

func (m *memory) setSize(v Val, g B) {
	a, t := m.curSize()
	m.e.store(a, v, t, g)
}

func (m *memory) itemSize(v Val) Val { return m.e.spec("ItemSize", v) }

// shift changes the accounted size by k times the size of an item.
func (m *memory) shift(v Val, k int64, g B) {
	if !m.comp {
		return
	}
	_, t := m.curSize()
	n := each(g, []Val{m.size(), m.itemSize(v)}, func(g B, ts []*Term) Val { return single(addT(ts[0], mulT(ts[1], k, t), t)) })
	m.setSize(n, g)
}

func (m *memory) evicted(k *Term, v Val, g B) {
	if m.cb != nil && sat(g) {
		m.e.static(m.cb, []Val{single(m.obj), single(k), v}, nil, g, nil, nil)
	}
}

// hook models the LRU list. Adding to an existing key does not evict.
func (m *memory) hook(cc *callCtx) (Val, bool) {
	name := lruMethod(cc.name)
	if name == "" {
		return nil, false
	}
	e := m.e
	rec := func(g B, k *Term, v Val, ok B) *lruOp {
		ev := e.event(&Event{Kind: "call", Guard: g, Name: cc.name, Fn: cc.caller(), Pos: cc.pos(), Args: cc.args, Common: cc.common})
		o := &lruOp{name: name, ev: ev, g: g, key: k, val: v, ok: ok}
		o.size = m.size()
		m.ops = append(m.ops, o)
		return o
	}
	load := func(l, k *Term, g B) (Val, B) {
		q := e.quiet
		e.quiet = true
		v, p := e.mapLoad(l, k, byteSlice, g)
		e.quiet = q
		return v, p
	}
	write := func(l, k *Term, v Val, g B) {
		e.log = append(e.log, write{g: g, addr: meT(l, k), val: v, lvl: -1, seq: len(e.events)})
	}
	if m.noEvict && (name == "RemoveOldest" || name == "Purge") {
		cc.pc = False
		return zeroVal(cc.resType()), true
	}
	bools := func(b B) Val { return b }
	switch name {
	case "Get", "Peek", "Contains":
		return each(cc.pc, cc.args[:2], func(g B, ts []*Term) Val {
			v, p := load(ts[0], ts[1], g)
			rec(g, ts[1], v, p)
			if name == "Contains" {
				return bools(p)
			}
			return &AV{f: []Val{v, p}}
		}), true
	case "Add":
		return each(cc.pc, cc.args[:2], func(g B, ts []*Term) Val {
			old, p := load(ts[0], ts[1], g)
			rec(g, ts[1], cc.args[2], p)
			m.shift(cc.args[2], -1, g)
			m.shift(old, 1, And(g, p))
			write(ts[0], ts[1], cc.args[2], g)
			return bools(False)
		}), true
	case "Remove":
		return each(cc.pc, cc.args[:2], func(g B, ts []*Term) Val {
			old, p := load(ts[0], ts[1], g)
			rec(g, ts[1], old, p)
			m.shift(old, 1, And(g, p))
			write(ts[0], ts[1], single(absent), g)
			m.evicted(ts[1], old, And(g, p))
			return bools(p)
		}), true
	case "RemoveOldest", "GetOldest":
		return each(cc.pc, cc.args[:1], func(g B, ts []*Term) Val {
			k := e.fresh("oldest", types.Typ[types.String], nil)
			ok := atom(e.fresh("nonempty", types.Typ[types.Bool], nil))
			old := single(e.fresh("oldestItem", byteSlice, nil))
			rec(g, k, old, ok)
			if name == "RemoveOldest" {
				m.shift(old, 1, And(g, ok))
				m.evicted(k, old, And(g, ok))
			}
			return &AV{f: []Val{single(k), old, ok}}
		}), true
	case "Purge":
		each(cc.pc, cc.args[:1], func(g B, ts []*Term) Val {
			k := e.fresh("purged", types.Typ[types.String], nil)
			some := atom(e.fresh("nonempty", types.Typ[types.Bool], nil))
			old, _ := load(ts[0], k, g)
			rec(g, nil, nil, True)
			m.shift(old, 1, And(g, some))
			m.evicted(k, old, And(g, some))
			e.nhavoc++
			e.havoc(ts[0], g, fmt.Sprintf("purged@%d", e.nhavoc))
			return nil
		})
		return nil, true
	case "Len", "Keys", "Values":
		rec(cc.pc, nil, nil, True)
		return nil, false
	}
	panic(unresolved{"effect of " + cc.name + " on the items held"})
}

func (m *memory) method(name string) *ssa.Function {
	o, _, _ := types.LookupFieldOrMethod(m.typ, true, deref(m.typ).(*types.Named).Obj().Pkg(), name)
	f, ok := o.(*types.Func)
	if !ok {
		panic(unresolved{name + " of the in-memory cache"})
	}
	fn := m.c.P.lookupMethod(m.typ, f)
	if fn == nil {
		panic(unresolved{name + " of the in-memory cache"})
	}
	return fn
}

// call evaluates a method of the cache.
func (m *memory) call(name string, args ...Val) (Val, B) {
	return m.e.callFn(m.method(name), append([]Val{single(m.obj)}, args...), nil, m.pc, nil)
}

// args are arbitrary arguments of a method, after the receiver.
func (m *memory) args(name string) []Val { return m.e.params(m.method(name))[1:] }

func lruMethod2(name string) string {
	const p = "github.com/hashicorp/golang-lru/v2."
	if len(name) > len(p) && name[:len(p)] == p {
		for i := len(p); i < len(name); i++ {
			if name[i] == '[' {
				return name[len(p):i]
			}
		}
		return name[len(p):]
	}
	return ""
}

func (m *memory) limit(field string, def int64) Val {
	st := structOf(m.c.P.Type("provider", "InMemoryCacheConfig"))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return m.e.spec("Limit", component(m.cfg, i, st.Field(i).Type()), single(intTerm(def)))
		}
	}
	panic(unresolved{"setting " + field + " of the in-memory cache"})
}

func init() {
	register(&rule{id: "C14", technique: "guarded value-numbering dataflow over every method of the in-memory cache with a model of the LRU list: invariance of accounted minus held size, guard implication of inserts and evictions",
		about: "every method leaves the accounted size minus the size of the items held as it was, and at most the configured maximum; inserts stay within the item limit; evictions are of the oldest item and only while the new item does not fit; the bookkeeping of a removed item is removed",
		min:   14,
		run:   runAccounting})
}

func runAccounting(c *Check) {
	for _, name := range []string{"Get", "Set", "Delete", "Purge", "Flush", "Keys", "Size"} {
		m := c.memory(true)
		fn := m.method(name)
		_, ret := m.call(name, m.args(name)...)
		c.same(ret, m.size(), single(intTerm(0)), "accounted-size-is-the-size-held", c.fnSite(fn))
		m = c.memory(false)
		m.call(name, m.args(name)...)
		addr, _ := m.curSize()
		var zeros []*Event
		for _, ev := range m.e.events {
			if ev.Kind == "store" && ev.Addr == addr && len(alts(ev.Args[0])) == 1 {
				if n, ok := alts(ev.Args[0])[0].t.isInt(); ok && n.Sign() == 0 {
					zeros = append(zeros, ev)
				}
			}
		}
		for _, ev := range zeros {
			purged := False
			for _, o := range m.ops {
				if o.name != "Purge" || len(o.ev.Loops) != len(ev.Loops) {
					continue
				}
				if o.ev.Seq < ev.Seq {
					purged = Or(purged, o.g)
				}
				for _, z := range zeros {
					if z.Seq > o.ev.Seq {
						purged = Or(purged, And(o.g, z.Guard))
					}
				}
			}
			c.implies(ev.Guard, purged, "size-reset-only-with-the-items", c.site(ev))
		}
	}

	m := c.memory(false)
	e := m.e
	fn := m.method("Set")
	maxItem, maxAll := m.limit("MaxItemSize", 1<<27), m.limit("MaxSize", 1<<28)
	before := m.size()
	as := m.args("Set")
	key, val := as[0], as[1]
	size := m.itemSize(val)
	_, ret := m.call("Set", as...)
	_ = ret
	adds := False
	for i, o := range m.ops {
		switch o.name {
		case "Add":
			adds = Or(adds, o.g)
			c.same(o.g, single(o.key), key, "own-key", c.site(o.ev))
			c.same(o.g, o.val, val, "own-value", c.site(o.ev))
			c.atMost(o.g, size, maxItem, "item-limit", c.site(o.ev))
		case "RemoveOldest":
			c.exceeds(o.g, o.size, size, maxAll, "evicts-only-for-room", c.site(o.ev))
		case "Remove":
			c.same(o.g, single(o.key), key, "evicts-the-oldest", c.site(o.ev))
		case "Purge":
			empty := False
			for _, p := range m.ops[:i] {
				if p.name == "RemoveOldest" {
					empty = Or(empty, And(p.g, Not(p.ok)))
				}
			}
			c.implies(o.g, empty, "purged-only-when-nothing-is-left", c.site(o.ev))
		}
	}
	c.need(adds != False, "stores", c.fnSite(fn))
	// The total stays within the limit if it was.
	within := cmp(before, maxAll)
	c.atMost(And(ret, within, cmp(size, maxItem), cmp(maxItem, maxAll)), m.size(), maxAll, "total-limit", c.fnSite(fn))
	// An item within the limit is stored.
	fits := cmp(size, maxItem)
	c.implies(And(ret, m.pc, fits), adds, "stores-what-fits", c.fnSite(fn))

	// Bookkeeping.
	m = c.memory(false)
	e = m.e
	k := e.param("key", types.Typ[types.String])
	if m.cb != nil {
		e.static(m.cb, []Val{single(m.obj), k, e.param("val", byteSlice)}, nil, True, nil, nil)
		for _, mp := range m.bookkeeping() {
			_, has := e.mapLoad(mp.t, term(k), mp.typ.Elem(), True)
			c.implies(True, Not(has), "bookkeeping-removed-with-the-item", c.fnSite(m.cb))
		}
	}
	// The item used is the one most recently used.
	m = c.memory(false)
	m.call("Get", m.args("Get")...)
	for _, o := range m.ops {
		c.need(o.name != "Peek", "reading-counts-as-use", c.site(o.ev))
	}
}

type mapField struct {
	t   *Term
	typ *types.Map
}

// bookkeeping are the maps by key the cache keeps beside the list.
func (m *memory) bookkeeping() []mapField {
	var out []mapField
	st := structOf(deref(m.typ))
	for i := 0; i < st.NumFields(); i++ {
		mt, ok := st.Field(i).Type().Underlying().(*types.Map)
		if !ok || !isString(mt.Key()) {
			continue
		}
		for _, a := range alts(m.e.load(faT(m.obj, i, st), st.Field(i).Type(), True)) {
			out = append(out, mapField{a.t, mt})
		}
	}
	return out
}

// cmp is the condition a <= b.
func cmp(a, b Val) B {
	r := False
	for _, x := range alts(a) {
		for _, y := range alts(b) {
			r = Or(r, And(x.g, y.g, leT(x.t, y.t)))
		}
	}
	return r
}

// atMost: within g, a <= b.
func (c *Check) atMost(g B, a, b Val, rule, site string) { c.implies(g, cmp(a, b), rule, site) }

// exceeds: within g, a + n > b.
func (c *Check) exceeds(g B, a, n, b Val, rule, site string) {
	s := each(True, []Val{a, n}, func(g B, ts []*Term) Val { return single(addT(ts[0], ts[1], ts[1].typ)) })
	c.implies(g, Not(cmp(s, b)), rule, site)
}

// built wraps a cache made by another constructor.
func (c *Check) layered() (*memory, *Term, []Val) {
	e := c.eval()
	e.Pure = parsers
	m := &memory{c: c, e: e, cb: c.evictCallback()}
	fn := c.P.Func("provider", "NewCached")
	as := e.params(fn)
	m.cfg = as[3]
	v := e.Run(fn, as, True)
	var obj *Term
	for _, a := range alts(component(v, 0, compType(fn.Signature.Results(), 0))) {
		if a.t.op == "alloc" {
			obj = a.t
			m.pc = a.g
		}
	}
	if obj == nil {
		panic(unresolved{"the cache made by NewCached: " + vstr(v)})
	}
	a, t := fieldAddr(obj, "outer")
	for _, x := range alts(e.load(a, t, m.pc)) {
		if x.t.op == "iface" && x.t.args[0].op == "alloc" {
			m.obj = x.t.args[0]
			m.typ = x.t.obj.(types.Type)
		}
	}
	if m.obj == nil {
		panic(unresolved{"the local tier made by NewCached"})
	}
	e.havocShared(m.obj, True, "history")
	e.callHook = m.hook
	return m, obj, as
}

// nows are the first and last time read among the events, given that one was.
func (m *memory) nows(from, to int) (first, last Val, any B) {
	var f, l []guarded
	for _, ev := range m.e.events[from:to] {
		if ev.Kind == "call" && ev.Name == "time.Now" {
			f = append(f, guarded{And(ev.Guard, Not(any)), ev.Ret})
			for i := range l {
				l[i].g = And(l[i].g, Not(ev.Guard))
			}
			l = append(l, guarded{ev.Guard, ev.Ret})
			any = Or(any, ev.Guard)
		}
	}
	if any == False {
		return nil, nil, False
	}
	return join(f), join(l), any
}

func addV(a, b Val) Val {
	return each(True, []Val{a, b}, func(g B, ts []*Term) Val { return single(addT(ts[0], ts[1], ts[0].typ)) })
}

// enabled: the configured default TTL does not disable expiry.
func (m *memory) enabled() B {
	st := structOf(m.c.P.Type("provider", "InMemoryCacheConfig"))
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "DefaultTTL" {
			return Not(eqAny(component(m.cfg, i, st.Field(i).Type()), strTerm("-1")))
		}
	}
	panic(unresolved{"setting DefaultTTL of the in-memory cache"})
}

func init() {
	register(&rule{id: "C15", technique: "guarded value-numbering dataflow over the composition of a write and a later read of the in-memory cache, on the same memory with a model of the LRU list",
		about: "a read of a written key returns the written value until its TTL has passed and nothing afterwards, also with another operation on another key in between; an expired item is removed; the local tier's copies of remote items are written with the layered TTL; redis writes carry the TTL",
		min:   12,
		run:   runExpiry})
}

func runExpiry(c *Check) {
	for _, between := range []string{"", "Get", "Delete", "Set", "same Get"} {
		m := c.memory(false)
		c.writeThenRead(m, m.method("Set"), m.obj, between, "memory")
	}
	l, lo, _ := c.layered()
	c.writeThenRead(l, c.P.Method("provider", "Cached", "Set"), lo, "", "local tier")
	c.copiesTTL()
	e := c.eval()
	e.Pure = parsers
	fn := c.P.Func("provider", "CreateCacheProvider")
	as := e.params(fn)
	v := e.Run(fn, as, True)
	layType := c.resultType("NewCached")
	for _, a := range alts(component(v, 0, compType(fn.Signature.Results(), 0))) {
		if a.t.op == "iface" && a.t.args[0].op == "alloc" && types.Identical(a.t.obj.(types.Type), layType) {
			c.localTTL(e, a.t.args[0], as[1], And(a.g, nilRes(component(v, 1, compType(fn.Signature.Results(), 1)))))
		}
	}
	// Redis.
	e, fn, sets := c.redisStore()
	for _, ev := range sets {
		c.same(ev.Guard, ev.Args[len(ev.Args)-1], e.params(fn)[3], "redis-ttl", c.site(ev))
	}
	c.need(len(sets) > 0, "redis-set", c.fnSite(fn))
	_, fn, as, _, _, evs := c.redisOp("Set", false)
	sets = cmds(evs, "Set")
	for _, ev := range sets {
		c.same(ev.Guard, ev.Args[len(ev.Args)-1], as[2], "redis-ttl", c.site(ev))
	}
	c.need(len(sets) > 0, "redis-set", c.fnSite(fn))
}

// copiesTTL: copies of remote items live for the layered TTL.
func (c *Check) copiesTTL() {
	// The layered cache: copies of remote items.
	m, obj, as := c.layered()
	e := m.e
	fn := c.P.Method("provider", "Cached", "Get")
	kv := e.params(fn)
	set := m.method("Set")
	_, _ = e.callFn(fn, []Val{single(obj), kv[1], kv[2]}, nil, m.pc, nil)
	found := false
	for _, ev := range e.events {
		if ev.Kind == "enter" && ev.Fn == set {
			found = true
			c.same(ev.Guard, ev.Args[3], as[2], "copies-live-for-the-layered-ttl", c.site(ev))
		}
	}
	c.need(found, "keeps-a-copy", c.fnSite(fn))
}

// same is the condition under which the values agree.
func same(a, b Val) B {
	r := False
	for _, x := range alts(a) {
		for _, y := range alts(b) {
			r = Or(r, And(x.g, y.g, eqT(x.t, y.t)))
		}
	}
	return r
}

// redisType is the client NewRedisClient makes.
func (c *Check) redisType() types.Type {
	e := c.eval()
	fn := c.P.Func("provider", "NewRedisClient")
	v := e.Run(fn, e.params(fn), True)
	for _, a := range alts(component(v, 0, compType(fn.Signature.Results(), 0))) {
		if a.t.op == "iface" && a.t.args[0].op == "alloc" {
			return a.t.obj.(types.Type)
		}
	}
	panic(unresolved{"the client made by NewRedisClient"})
}

func (c *Check) methodOf(t types.Type, name string) *ssa.Function {
	var pkg *types.Package
	if n, ok := deref(t).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	o, _, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	if f, ok := o.(*types.Func); ok {
		if fn := c.P.lookupMethod(t, f); fn != nil {
			return fn
		}
	}
	panic(unresolved{name + " of " + t.String()})
}

func (c *Check) redisStore() (*Eval, *ssa.Function, []*Event) {
	fn := c.methodOf(c.redisType(), "Store")
	e := c.eval()
	e.Run(fn, e.params(fn), True)
	return e, fn, e.evs(func(ev *Event) bool { return ev.Kind == "call" && redisCmd(ev.Name) == "Set" })
}

// redisCmd is the redis command a call issues.
func redisCmd(name string) string {
	if len(name) > 0 && name[0] == '(' {
		for _, p := range []string{"(github.com/redis/go-redis/v9.", "(*github.com/redis/go-redis/v9."} {
			if len(name) > len(p) && name[:len(p)] == p {
				for i := len(name) - 1; i >= 0; i-- {
					if name[i] == '.' {
						return name[i+1:]
					}
				}
			}
		}
	}
	return ""
}

// writeThenRead evaluates a write of an item and a later read of its key, with
// an operation on another key in between.
func (c *Check) writeThenRead(m *memory, write *ssa.Function, recv *Term, between, name string) {
	e := m.e
	as := e.params(write)[1:]
	key, val, ttl := as[0], as[1], as[2]
	from := len(e.events)
	_, ret := e.callFn(write, append([]Val{single(recv)}, as...), nil, m.pc, nil)
	to := len(e.events)
	pc := And(ret, m.pc, cmp(m.itemSize(val), m.limit("MaxItemSize", 1<<27)))
	l0, any0 := Val(nil), False
	if between == "same Get" {
		n := len(e.events)
		_, r := m.call("Get", e.param("ctx1", m.method("Get").Params[1].Type()), key)
		pc = And(pc, r)
		_, l0, any0 = m.nows(n, len(e.events))
	} else if between != "" {
		m.noEvict = true
		var bs []Val
		for _, p := range m.method(between).Params[1:] {
			bs = append(bs, e.param("other_"+p.Name(), p.Type()))
		}
		_, r := m.call(between, bs...)
		pc = And(pc, r)
		for _, b := range bs {
			if t := term(b); t.typ != nil && isString(t.typ) {
				pc = And(pc, Not(eqT(t, term(key))))
			}
		}
		m.noEvict = false
	}
	from2 := len(e.events)
	ops := len(m.ops)
	v, r := m.call("Get", e.param("ctx", m.method("Get").Params[1].Type()), key)
	pc = And(pc, r)
	f1, l1, any1 := m.nows(from, to)
	f2, l2, any2 := m.nows(from2, len(e.events))
	name += " read-after-write"
	if between != "" {
		name += "-and-" + between
	}
	site := c.fnSite(m.method("Get"))
	if f1 == nil || f2 == nil {
		c.fail(name, site, "the write or the read does not consult the clock")
		return
	}
	if l0 != nil {
		pc = And(pc, any0, Not(cmp(addV(f1, ttl), l0))) // found by the read in between
	}
	on := m.enabled()
	c.implies(pc, any1, name+"/deadline-set", c.fnSite(write))
	c.implies(And(pc, on), any2, name+"/deadline-checked", site)
	isNil := nilRes(v)
	past := Not(cmp(f2, addV(l1, ttl)))  // every reading is after the deadline
	alive := Not(cmp(addV(f1, ttl), l2)) // no reading reaches the deadline
	c.implies(And(pc, on, any1, any2, past), isNil, name+"/expired", site)
	removed := False
	for _, o := range m.ops[ops:] {
		if o.name == "Remove" {
			c.same(o.g, single(o.key), key, name+"/removes-its-key", c.site(o.ev))
			removed = Or(removed, o.g)
		}
	}
	c.implies(And(pc, on, any1, any2, past), removed, name+"/expired-is-removed", site)
	c.implies(And(pc, Or(Not(on), And(any1, any2, alive))), same(v, val), name+"/returned", site)
}
