package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&rule{id: "C18", technique: "guarded value-numbering dataflow over the redis client composed with its constructor and the redis cache; guard implications; effect analysis of the caller's thread",
		about: "a read whose command fails yields nil; failures of the other commands are returned or logged; the write command is issued only within the configured size and with a positive TTL; storing a response issues no command and does nothing that blocks in the caller's thread, enqueues exactly the job that writes the same key, value and TTL, and reports a full queue",
		min:   15,
		run:   runRedis})
	register(&rule{id: "C19", technique: "guarded value-numbering dataflow over queue constructor, submission, worker and stop; channel-effect and ordering rules",
		about: "submission is one non-blocking send of the job, nil exactly if it was sent; exactly the configured number of workers is started and registered beforehand; a worker runs each received job once, in its own goroutine, and ends only and always when stopped; stop closes that channel, then waits for the workers; the job channel is never closed",
		min:   10,
		run:   runQueue})
	register(&rule{id: "C20", technique: "guarded value-numbering dataflow from CreateCacheProvider; comparison of the created objects' fields with the configuration",
		about: "which provider is created for which configuration, invalid ones are rejected, limits, address, credentials, database and queue bounds reach the client, defaults fill only what is unset",
		min:   15,
		run:   runProviderConfig})
}

// redisClient makes a client by its constructor.
func (c *Check) redisClient(e *Eval) (client Val, cfg Val, made B) {
	fn := c.P.Func("provider", "NewRedisClient")
	as := e.params(fn)
	v := e.Run(fn, as, True)
	made = False
	var gs []guarded
	for _, a := range alts(component(v, 0, compType(fn.Signature.Results(), 0))) {
		if a.t.op == "iface" && a.t.args[0].op == "alloc" {
			made = Or(made, a.g)
			gs = append(gs, guarded{a.g, single(a.t)})
		}
	}
	if len(gs) != 1 {
		panic(unresolved{"the client made by NewRedisClient: " + vstr(v)})
	}
	return gs[0].v, as[1], made
}

// clustered is the condition under which the client is one of a cluster: it
// is made for several addresses.
func (c *Check) clustered(e *Eval) (yes, no B) {
	yes, no = True, True
	for _, ev := range e.events {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "go-redis/v9.NewUniversalClient") {
			is := atom(mk("typeis", "*github.com/redis/go-redis/v9.ClusterClient", types.Typ[types.Bool], []*Term{term(ev.Ret)}))
			several := False
			e.atEv(ev, func() Val {
				several = cmp(single(intTerm(2)), single(lenT(term(e.field(ev.Args[0], "Addrs")))))
				return nil
			})
			yes, no = And(yes, is, several), And(no, Not(is), Not(several))
		}
	}
	return
}

// everyNode: a command about all keys goes to every node, in a cluster.
func (c *Check) everyNode(ev *Event, cluster bool, rule string) {
	if cluster {
		for _, a := range alts(ev.Args[0]) {
			t := a.t
			if t.op == "iface" {
				t = t.args[0]
			}
			for (t.op == "fa" || t.op == "f" || t.op == "load") && len(t.args) > 0 {
				t = t.args[0]
			}
			c.need(t.op == "ret" && strings.Contains(t.sym, "ClusterClient).ForEach"), rule, c.site(ev), "not for every node of a cluster: "+a.t.String())
		}
	}
}

// invokeOn evaluates a method of the value in an interface.
func (c *Check) invokeOn(e *Eval, recv Val, name string, args ...Val) (Val, B, *ssa.Function) {
	return c.invokeIf(True, e, recv, name, args...)
}

func (c *Check) invokeIf(pc B, e *Eval, recv Val, name string, args ...Val) (Val, B, *ssa.Function) {
	t := term(recv)
	if t.op != "iface" {
		panic(unresolved{"dynamic type of " + t.String()})
	}
	fn := c.methodOf(t.obj.(types.Type), name)
	v, g := e.callFn(fn, append([]Val{single(t.args[0])}, args...), nil, pc, nil)
	e.drain()
	return v, g, fn
}

func (e *Eval) sigParams(fn *ssa.Function) []Val { return e.params(fn)[1:] }

// method of an interface's dynamic type.
func (c *Check) dynMethod(recv Val, name string) *ssa.Function {
	return c.methodOf(term(recv).obj.(types.Type), name)
}

// redisErr is the error of the command, and the value where it is asked for.
func redisErr(evs []*Event) (err Val, val Val, at *Event) {
	for _, ev := range evs {
		if ev.Kind != "call" {
			continue
		}
		switch redisCmd(ev.Name) {
		case "Err":
			return ev.Ret, nil, ev
		case "Result", "Bytes":
			if a, ok := ev.Ret.(*AV); ok {
				return a.f[1], a.f[0], ev
			}
		}
	}
	return nil, nil, nil
}

func runRedis(c *Check) {
	// Reading.
	e := c.eval()
	cl, _, made := c.redisClient(e)
	n := len(e.events)
	fn := c.dynMethod(cl, "Fetch")
	as := e.sigParams(fn)
	v, ret, _ := c.invokeOn(e, cl, "Fetch", as...)
	evs := e.events[n:]
	gets := cmds(evs, "Get")
	err, val, at := redisErr(evs)
	if len(gets) != 1 || err == nil || val == nil {
		c.fail("read", c.fnSite(fn), fmt.Sprintf("%d reads", len(gets)))
	} else {
		ret = And(ret, made)
		c.implies(True, gets[0].Guard, "read", c.site(gets[0]))
		c.same(True, gets[0].Args[2], as[1], "read-same-key", c.site(gets[0]))
		c.implies(And(ret, Not(nilRes(err))), nilRes(v), "failing-read-is-a-miss", c.site(at))
		for _, a := range alts(v) {
			if g := And(ret, nilRes(err), a.g); sat(g) {
				ok := mentions(single(a.t), func(t *Term) bool { return t == term(val) })
				c.need(ok, "read-value-returned", c.fnSite(fn), a.t.String())
			}
		}
	}

	// Listing.
	for _, cluster := range []bool{false, true} {
		e = c.eval()
		cl, _, _ = c.redisClient(e)
		pc, one := c.clustered(e)
		if !cluster {
			pc = one
		}
		n = len(e.events)
		fn = c.dynMethod(cl, "Keys")
		v, ret, _ = c.invokeIf(pc, e, cl, "Keys", e.sigParams(fn)...)
		evs = e.events[n:]
		err, _, at = redisErr(evs)
		if err == nil {
			c.fail("failing-listing-logged", c.fnSite(fn), "the error of the iteration is not looked at")
			continue
		}
		c.implies(And(at.Guard, Not(nilRes(err))), logged(evs), "failing-listing-logged", c.site(at))
		c.implies(ret, at.Guard, "failing-listing-logged", c.site(at))
		for _, ev := range cmds(evs, "Scan", "Keys") {
			c.everyNode(ev, cluster, "lists-every-node")
		}
		for _, ev := range evs {
			if ev.Kind == "call" && eachNode(ev.Name) {
				c.implies(And(ret, ev.Guard, Not(nilRes(ev.Ret))), logged(evs), "failing-listing-logged", c.site(ev))
			}
		}
	}

	// Removing.
	for name, cmd := range map[string][]string{"Delete": {"Del", "Unlink"}, "Flush": {"FlushDB", "FlushAll", "FlushDBAsync", "FlushAllAsync"}} {
		for _, cluster := range []bool{false, true} {
			e = c.eval()
			cl, _, _ = c.redisClient(e)
			pc, one := c.clustered(e)
			if !cluster {
				pc = one
			}
			n = len(e.events)
			fn = c.dynMethod(cl, name)
			as = e.sigParams(fn)
			v, ret, _ = c.invokeIf(pc, e, cl, name, as...)
			evs = e.events[n:]
			ds := cmds(evs, cmd...)
			err, _, at = redisErr(evs)
			if len(ds) != 1 || err == nil {
				c.fail("removal", c.fnSite(fn), name)
				continue
			}
			c.implies(pc, ds[0].Guard, "removal", c.site(ds[0]))
			fails := Not(nilRes(err))
			for _, ev := range evs {
				if ev.Kind == "call" && eachNode(ev.Name) {
					fails = Or(fails, And(ev.Guard, Not(nilRes(ev.Ret))))
				}
			}
			if name == "Delete" {
				ks := term(ds[0].Args[2])
				c.need(ks.op == "seq" && len(ks.args) == 1 && ks.args[0] == term(as[1]), "removal-same-key", c.site(ds[0]), ks.String())
			}
			c.implies(And(ret, nilRes(v)), Not(fails), "failing-removal-reported", c.site(at))
			c.implies(And(ret, Not(fails)), nilRes(v), "removal-reported", c.site(at))
		}
	}

	// Writing.
	e = c.eval()
	cl, cfg, _ := c.redisClient(e)
	n = len(e.events)
	fn = c.dynMethod(cl, "Store")
	as = e.sigParams(fn)
	v, ret, _ = c.invokeOn(e, cl, "Store", as...)
	evs = e.events[n:]
	sets := cmds(evs, "Set", "SetEx", "SetArgs", "SetNX", "Do")
	err, _, at = redisErr(evs)
	limit := e.field(cfg, "MaxItemSize")
	size := single(lenT(term(as[1])))
	zero := single(intTerm(0))
	fits := Or(cmp(limit, zero), cmp(size, limit))
	if len(sets) != 1 || redisCmd(sets[0].Name) != "Set" || err == nil {
		c.fail("write", c.fnSite(fn), fmt.Sprintf("%d write commands", len(sets)))
	} else {
		c.write(sets[0], as)
		c.implies(sets[0].Guard, fits, "size-limit", c.site(sets[0]))
		c.implies(And(made, fits, Not(cmp(as[2], zero))), sets[0].Guard, "writes-what-fits", c.site(sets[0]))
		c.implies(And(ret, nilRes(v)), sets[0].Guard, "refused-write-reported", c.fnSite(fn))
		c.implies(And(ret, nilRes(v), sets[0].Guard), nilRes(err), "failing-write-reported", c.site(at))
	}

	// Storing a response.
	e = c.eval()
	cache, ct, made := c.redisCache(e)
	fn = c.methodOf(ct, "Set")
	as = e.params(fn)[1:]
	n = len(e.events)
	_, ret = e.callFn(fn, append([]Val{cache}, as...), nil, True, nil)
	evs = e.events[n:]
	var sends []*Event
	job := False
	var closures []alt
	for _, ev := range evs {
		switch ev.Kind {
		case "send", "recv":
			c.fail("storing-does-not-wait", c.site(ev), ev.Kind)
		case "select":
			if ev.Note == "blocking" {
				c.fail("storing-does-not-wait", c.site(ev), "select without default")
			}
			for i, a := range ev.Args {
				x := a.(*AV)
				if isLit(term(x.f[0]), "send") {
					sends = append(sends, ev)
					sent := And(ev.Guard, intEqT(ev.RetT, intTerm(int64(i))))
					job = Or(job, sent)
					for _, y := range alts(x.f[2]) {
						closures = append(closures, alt{And(sent, y.g), y.t})
					}
				}
			}
		case "call":
			if redisCmd(ev.Name) != "" || waits(ev.Name) {
				c.fail("storing-does-not-wait", c.site(ev), ev.Name)
			}
		case "lock":
			if !strings.Contains(ev.Name, "Unlock") && !strings.Contains(ev.Name, "Try") {
				c.fail("storing-does-not-wait", c.site(ev), ev.Name)
			}
		}
	}
	if len(sends) != 1 {
		c.fail("storing-enqueues", c.fnSite(fn), fmt.Sprintf("%d submissions", len(sends)))
	} else {
		c.implies(ret, sends[0].Guard, "storing-enqueues", c.site(sends[0]))
		full := intEqT(sends[0].RetT, intTerm(-1))
		c.implies(And(ret, full), logged(evs), "full-queue-reported", c.site(sends[0]))
		for _, y := range closures {
			k := len(e.events)
			sig, _ := y.t.typ.Underlying().(*types.Signature)
			if y.t.op != "closure" && y.t.op != "fn" || sig == nil {
				c.fail("job-writes", c.site(sends[0]), y.t.String())
				continue
			}
			e.CallFn(single(y.t), sig, nil, And(made, y.g))
			sets := cmds(e.events[k:], "Set")
			jerr, _, jat := redisErr(e.events[k:])
			if len(sets) != 1 || jerr == nil {
				c.fail("job-writes", c.site(sends[0]), fmt.Sprintf("%d write commands", len(sets)))
				continue
			}
			c.write(sets[0], as)
			c.implies(And(jat.Guard, Not(nilRes(jerr))), logged(e.events[k:]), "failing-write-logged", c.site(jat))
		}
	}
	// The caller of the asynchronous write learns of a full queue.
	e = c.eval()
	cl, _, _ = c.redisClient(e)
	n = len(e.events)
	fn = c.dynMethod(cl, "StoreAsync")
	v, ret, _ = c.invokeOn(e, cl, "StoreAsync", e.sigParams(fn)...)
	for _, ev := range e.events[n:] {
		if ev.Kind != "select" {
			continue
		}
		for i, a := range ev.Args {
			if isLit(term(a.(*AV).f[0]), "send") {
				sent := And(ev.Guard, intEqT(ev.RetT, intTerm(int64(i))))
				c.implies(And(ret, nilRes(v)), sent, "full-queue-reported", c.site(ev))
				c.implies(And(ret, sent), nilRes(v), "accepted-is-no-error", c.site(ev))
			}
		}
	}
}

// redisCache is the redis cache with its client.
func (c *Check) redisCache(e *Eval) (cache Val, typ types.Type, made B) {
	cl, _, made := c.redisClient(e)
	nc := c.P.Func("provider", "NewRedisCache")
	cache = e.Run(nc, []Val{e.param("name", nc.Params[0].Type()), cl}, True)
	return cache, nc.Signature.Results().At(0).Type(), made
}

// eachNode: the call runs a function for every node of a cluster.
func eachNode(name string) bool {
	return strings.HasPrefix(name, "(*github.com/redis/go-redis/v9.ClusterClient).ForEach")
}

// redisOp evaluates a method of the redis cache, and the jobs it enqueues.
func (c *Check) redisOp(name string, cluster bool) (e *Eval, fn *ssa.Function, as []Val, v Val, ret B, evs []*Event) {
	e = c.eval()
	cache, ct, made := c.redisCache(e)
	pc, one := c.clustered(e)
	if !cluster {
		pc = one
	}
	fn = c.methodOf(ct, name)
	as = e.params(fn)[1:]
	n := len(e.events)
	v, ret = e.callFn(fn, append([]Val{cache}, as...), nil, pc, nil)
	e.drain()
	for _, ev := range e.events[n:] {
		if ev.Kind != "select" && ev.Kind != "send" {
			continue
		}
		for _, cc := range chanCases(ev) {
			if !cc.send {
				continue
			}
			for _, y := range alts(cc.val) {
				if sig, ok := y.t.typ.Underlying().(*types.Signature); ok && (y.t.op == "closure" || y.t.op == "fn") {
					e.CallFn(single(y.t), sig, nil, And(made, cc.g, y.g))
				}
			}
		}
	}
	return e, fn, as, v, And(ret, made), e.events[n:]
}

// write: the command writes what was asked for.
func (c *Check) write(ev *Event, as []Val) {
	for i, what := range []string{"key", "value"} {
		got := ev.Args[2+i]
		if what == "value" { // in an interface
			t := term(got)
			if t.op == "iface" {
				got = single(stripConv(t.args[0]))
			}
		}
		c.same(ev.Guard, got, as[i], "write-same-"+what, c.site(ev))
	}
	c.same(ev.Guard, ev.Args[4], as[2], "write-same-ttl", c.site(ev))
	c.implies(ev.Guard, Not(cmp(ev.Args[4], single(intTerm(0)))), "write-expires", c.site(ev))
}

// stripConv removes conversions between strings and bytes.
func stripConv(t *Term) *Term {
	for t.op == "conv" && (t.sym == "bytes" || t.sym == "string") && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

// cmds are the calls issuing one of the redis commands.
func cmds(evs []*Event, names ...string) []*Event {
	var out []*Event
	for _, ev := range evs {
		if ev.Kind != "call" {
			continue
		}
		for _, n := range names {
			if redisCmd(ev.Name) == n {
				out = append(out, ev)
			}
		}
	}
	return out
}

// waits: the call may wait for something.
func waits(name string) bool {
	switch name {
	case "time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait":
		return true
	}
	return false
}

// logged is the condition under which a message is written at level warn or
// above.
func logged(evs []*Event) B {
	r := False
	for _, ev := range evs {
		if ev.Kind != "log" {
			continue
		}
		i := strings.LastIndexByte(ev.Name, '.')
		switch ev.Name[i+1:] {
		case "Msg", "Msgf", "Send", "MsgFunc":
			if len(ev.Args) > 0 && mentions(ev.Args[0], func(t *Term) bool {
				return strings.HasSuffix(t.sym, "log.Error") || strings.HasSuffix(t.sym, "log.Warn") || strings.HasSuffix(t.sym, "log.Err") || strings.HasSuffix(t.sym, "Logger).Error") || strings.HasSuffix(t.sym, "Logger).Warn")
			}) {
				r = Or(r, ev.Guard)
			}
		case "Printf", "Print", "Println":
			r = Or(r, ev.Guard)
		}
	}
	return r
}

// chanCases are the cases of a select, or the single one of a plain operation.
type chanCase struct {
	ev   *Event
	send bool
	ch   Val
	val  Val
	g    B // taken
}

func chanCases(ev *Event) []chanCase {
	switch ev.Kind {
	case "send":
		return []chanCase{{ev, true, ev.Args[0], ev.Args[1], ev.Guard}}
	case "recv":
		return []chanCase{{ev, false, ev.Args[0], ev.Ret, ev.Guard}}
	case "select":
		var out []chanCase
		k := 0
		for i, a := range ev.Args {
			x := a.(*AV)
			cc := chanCase{ev, isLit(term(x.f[0]), "send"), x.f[1], nil, And(ev.Guard, intEqT(ev.RetT, intTerm(int64(i))))}
			if cc.send {
				cc.val = x.f[2]
			} else {
				if ct, ok := term(x.f[1]).typ.Underlying().(*types.Chan); ok {
					cc.val = opaque(mk("comp", strconv.Itoa(2+k), ct.Elem(), []*Term{ev.RetT}), ct.Elem())
				}
				k++
			}
			out = append(out, cc)
		}
		return out
	}
	return nil
}

// recovers: a function that returns to its caller if something panics in it.
func recovers(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			f := d.Call.StaticCallee()
			if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
				f, _ = mc.Fn.(*ssa.Function)
			}
			if f == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(*ssa.Call); ok {
						if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// cyclic: the block is part of a loop.
func cyclic(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, y := range x.Succs {
			if y == b {
				return true
			}
			if !seen[y] {
				seen[y] = true
				if walk(y) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

// endsAfterPanic: a panic at the event is recovered from by a function that has
// the loop around the other event in it, and is not called in a loop itself.
func endsAfterPanic(at, in *Event) bool {
	for i := len(at.Stack) - 1; i >= 0; i-- {
		fn := at.Stack[i]
		if !recovers(fn) {
			continue
		}
		if i >= len(in.Stack) || in.Stack[i] != fn {
			return false
		}
		for ; i > 0; i-- {
			for _, b := range at.Stack[i-1].Blocks {
				for _, x := range b.Instrs {
					if call, ok := x.(*ssa.Call); ok && call.Call.StaticCallee() == at.Stack[i] && cyclic(b) {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

func runQueue(c *Check) {
	e := c.eval()
	mkq := c.P.Func("provider", "newJobQueue")
	as := e.params(mkq)
	q := e.Run(mkq, as, True)
	qt := mkq.Signature.Results().At(0).Type()
	evs := e.events

	// Workers.
	var gos, adds, dones, returns []*Event
	var jobCh, stopCh *Term
	for _, ev := range evs {
		switch {
		case ev.Kind == "go":
			if ev.Thread != 0 {
				c.fail("jobs-run-in-a-worker", c.site(ev), "a worker starts another goroutine")
				continue
			}
			gos = append(gos, ev)
		case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Add":
			adds = append(adds, ev)
		case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Done":
			dones = append(dones, ev)
		case ev.Kind == "return" && ev.Thread != 0 && len(ev.Stack) == 1:
			returns = append(returns, ev)
		}
		if ev.Kind == "select" || ev.Kind == "recv" {
			for _, cc := range chanCases(ev) {
				if !cc.send && isFuncChan(term(cc.ch)) {
					if jobCh != nil && jobCh != term(cc.ch) {
						c.fail("one-job-channel", c.site(ev))
					}
					jobCh = term(cc.ch)
				}
			}
		}
	}
	if len(gos) != 1 || jobCh == nil || jobCh.op != "makechan" {
		c.fail("workers", c.fnSite(mkq), fmt.Sprintf("%d starts of workers", len(gos)))
		return
	}
	g := gos[0]
	n := as[1]
	c.same(True, single(jobCh.args[0]), as[0], "configured-room", c.fnSite(mkq))
	ls := g.Loops
	counted := len(ls) == 1 && !ls[0].early && ls[0].dom != nil && ls[0].bound != nil
	c.need(counted, "configured-number-of-workers", c.site(g), "not started once per turn of one counted loop")
	if counted {
		b := ls[0].bound
		c.same(leT(intTerm(1), term(n)), single(ls[0].dom), n, "configured-number-of-workers", c.site(g))
		c.implies(And(leT(intTerm(0), b), ltT(b, term(n))), g.Guard, "configured-number-of-workers", c.site(g))
	}
	// Registration.
	var wg *Term
	okAdd := len(adds) == 1 && adds[0].Thread == 0 && adds[0].Seq < g.Seq
	if okAdd {
		a := adds[0]
		wg = term(a.Args[0])
		switch len(a.Loops) {
		case 0:
			c.same(True, a.Args[1], n, "workers-registered", c.site(a))
			c.implies(g.Guard, a.Guard, "workers-registered", c.site(a))
		case 1:
			okAdd = counted && a.Loops[0] == ls[0] && term(a.Args[1]) == intTerm(1)
			c.implies(g.Guard, a.Guard, "workers-registered", c.site(a))
			c.implies(a.Guard, g.Guard, "workers-registered", c.site(a))
		default:
			okAdd = false
		}
	}
	c.need(okAdd, "workers-registered", c.site(g), fmt.Sprintf("%d registrations", len(adds)))
	all := False
	for i, d := range dones {
		c.need(d.Thread != 0 && term(d.Args[0]) == wg, "worker-reports-its-end", c.site(d))
		for _, x := range dones[i+1:] {
			c.implies(And(d.Guard, x.Guard), False, "worker-reports-its-end-once", c.site(x))
		}
		all = Or(all, d.Guard)
	}
	ended := False
	for _, r := range returns {
		ended = Or(ended, r.Guard)
		c.implies(r.Guard, all, "worker-reports-its-end", c.site(r))
	}
	c.need(len(dones) > 0, "worker-reports-its-end", c.site(g))

	// Stopping.
	mark := len(evs)
	stop := c.methodOf(qt, "stop")
	_, ret := e.callFn(stop, []Val{q}, nil, True, nil)
	waited := False
	closedAt := False
	for _, ev := range e.events[mark:] {
		switch {
		case ev.Kind == "close":
			ch := term(ev.Args[0])
			if ch == jobCh {
				c.fail("job-channel-stays-open", c.site(ev))
				continue
			}
			stopCh = ch
			closedAt = Or(closedAt, ev.Guard)
		case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Wait":
			c.need(term(ev.Args[0]) == wg, "stop-waits-for-the-workers", c.site(ev))
			c.implies(ev.Guard, closedAt, "stop-signals-before-it-waits", c.site(ev))
			waited = Or(waited, ev.Guard)
		case ev.Kind == "send" || ev.Kind == "recv" || ev.Kind == "select" || ev.Kind == "go" || ev.Kind == "call" && (ev.Name == "dyncall" || waits(ev.Name)):
			c.fail("stop-only-stops", c.site(ev), ev.Kind+" "+ev.Name)
		}
	}
	c.implies(ret, waited, "stop-waits-for-the-workers", c.fnSite(stop))
	if stopCh == nil {
		c.fail("stop-signals", c.fnSite(stop))
		return
	}

	// The worker's loop.
	stopped := False
	for _, ev := range evs {
		if ev.Thread == 0 {
			if ev.Kind == "send" || ev.Kind == "select" {
				c.fail("constructor-submits-nothing", c.site(ev))
			}
			continue
		}
		ccs := chanCases(ev)
		takes := false
		sees := false
		for _, cc := range ccs {
			switch ch := term(cc.ch); {
			case cc.send:
				c.fail("workers-submit-nothing", c.site(ev))
			case ch == stopCh:
				sees = true
				stopped = Or(stopped, cc.g)
				c.implies(cc.g, ended, "worker-ends-when-stopped", c.site(ev))
			case ch == jobCh:
				takes = true
				run := False
				var runs []*Event
				for _, x := range evs {
					if x.Kind == "call" && x.Name == "dyncall" && x.Thread == ev.Thread && eqAny(x.Args[0], term(cc.val)) != False {
						runs = append(runs, x)
						run = Or(run, x.Guard)
						c.need(sameLoops(x, ev), "job-runs-once", c.site(x))
						c.implies(x.Guard, cc.g, "runs-only-received-jobs", c.site(x))
						c.need(!endsAfterPanic(x, ev), "worker-ends-only-when-stopped", c.site(x), "a panic of the job is recovered from, but ends the worker")
					}
				}
				for i, x := range runs {
					for _, y := range runs[i+1:] {
						c.implies(And(x.Guard, y.Guard), False, "job-runs-once", c.site(y))
					}
				}
				c.implies(cc.g, run, "received-job-runs", c.site(ev))
				c.need(len(ev.Loops) > 0, "worker-keeps-working", c.site(ev))
			default:
				c.fail("worker-waits-for-jobs-or-stop", c.site(ev), ch.String())
			}
		}
		if takes && (ev.Kind == "recv" || ev.Note == "blocking") {
			c.need(sees, "idle-worker-sees-the-stop", c.site(ev))
		}
		if ev.Kind == "lock" || ev.Kind == "call" && waits(ev.Name) {
			c.fail("worker-waits-for-jobs-or-stop", c.site(ev), ev.Name)
		}
	}
	c.implies(ended, stopped, "worker-ends-only-when-stopped", c.site(g))

	// Submitting.
	mark = len(e.events)
	disp := c.methodOf(qt, "dispatch")
	job := e.param("job", disp.Params[1].Type())
	v, ret := e.callFn(disp, []Val{q, job}, nil, True, nil)
	sent, full := False, False
	var nsend int
	for _, ev := range e.events[mark:] {
		if ev.Kind == "send" || ev.Kind == "recv" || ev.Kind == "select" && ev.Note == "blocking" || ev.Kind == "call" && (waits(ev.Name) || ev.Name == "dyncall") || ev.Kind == "lock" {
			c.fail("submitting-never-blocks", c.site(ev), ev.Kind+" "+ev.Name)
			continue
		}
		if ev.Kind == "go" {
			c.fail("submission-only-enqueues", c.site(ev))
		}
		for _, cc := range chanCases(ev) {
			if !cc.send {
				continue
			}
			nsend++
			c.need(term(cc.ch) == jobCh && len(ev.Loops) == 0, "submits-once", c.site(ev))
			c.same(cc.g, cc.val, job, "submits-the-job", c.site(ev))
			c.implies(And(cc.g, sent), False, "submits-once", c.site(ev))
			sent = Or(sent, cc.g)
			full = Or(full, And(ev.Guard, intEqT(ev.RetT, intTerm(-1))))
		}
	}
	c.need(nsend > 0, "submits-the-job", c.fnSite(disp))
	c.implies(And(ret, nilRes(v)), sent, "rejection-reported", c.fnSite(disp))
	c.implies(And(ret, sent), nilRes(v), "acceptance-reported", c.fnSite(disp))
	c.implies(ret, Or(sent, full), "rejected-only-if-full", c.fnSite(disp))

	// Nothing else touches the channels.
	known := map[*ssa.Function]bool{}
	for _, ev := range e.events {
		known[ev.Fn] = true
	}
	for _, fn := range c.P.funcs {
		if known[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				bad := ""
				switch in := in.(type) {
				case *ssa.Send:
					if isFuncChanT(in.Chan.Type()) {
						bad = "send"
					}
				case *ssa.UnOp:
					if in.Op.String() == "<-" && isFuncChanT(in.X.Type()) {
						bad = "receive"
					}
				case *ssa.Select:
					for _, s := range in.States {
						if isFuncChanT(s.Chan.Type()) {
							bad = "select"
						}
					}
				case *ssa.Call:
					if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "close" && isFuncChanT(in.Call.Args[0].Type()) {
						bad = "close"
					}
				}
				if bad != "" {
					c.fail("job-channel-used-by-the-queue-only", c.fnSite(fn), bad)
				}
			}
		}
	}
}

func sameLoops(a, b *Event) bool {
	if len(a.Loops) != len(b.Loops) {
		return false
	}
	for i := range a.Loops {
		if a.Loops[i] != b.Loops[i] {
			return false
		}
	}
	return true
}

func isFuncChan(t *Term) bool { return t.typ != nil && isFuncChanT(t.typ) }

func isFuncChanT(t types.Type) bool {
	ct, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	_, ok = ct.Elem().Underlying().(*types.Signature)
	return ok
}

func runProviderConfig(c *Check) {
	e := c.eval()
	e.Pure = parsers
	fn := c.P.Func("provider", "CreateCacheProvider")
	as := e.params(fn)
	v := e.Run(fn, as, True)
	cfg := as[1]
	prov, err := component(v, 0, compType(fn.Signature.Results(), 0)), component(v, 1, compType(fn.Signature.Results(), 1))
	site := c.fnSite(fn)
	is := func(name string) B { return eqAny(e.field(cfg, "Backend"), strTerm(name)) }
	mem, red := is("inmemory"), is("redis")
	layered := asBool(e.field(cfg, "Layered"))
	ok := nilRes(err)
	c.need(sat(And(ok, mem)) && sat(And(ok, red)), "both-backends-available", site)
	c.implies(ok, Or(mem, red), "unknown-backend-rejected", site)
	c.implies(ok, Not(nilRes(prov)), "provider-created", site)
	memType := c.resultType("NewInMemoryCache")
	redType := c.resultType("NewRedisCache")
	layType := c.resultType("NewCached")
	kind := func(t types.Type) B {
		r := False
		for _, a := range alts(prov) {
			if a.t.op == "iface" && types.Identical(a.t.obj.(types.Type), t) && nonNil(a.t.args[0]) {
				r = Or(r, a.g)
			}
		}
		return r
	}
	c.implies(And(ok, mem), kind(memType), "inmemory-backend", site)
	c.implies(And(ok, red, Not(layered)), kind(redType), "redis-backend", site)
	c.implies(And(ok, red, layered), kind(layType), "layered-backend", site)

	// Rejected configurations.
	rc, mc := e.field(cfg, "Redis"), e.field(cfg, "InMemory")
	c.implies(And(ok, red), Not(eqAny(e.field(rc, "Endpoint"), strTerm(""))), "redis-endpoint-required", site)
	c.implies(And(ok, red), cmp(single(intTerm(1)), e.field(rc, "MaxQueueConcurrency")), "redis-workers-required", site)
	size := e.spec("Limit", e.field(mc, "MaxSize"), single(intTerm(1<<28)))
	item := e.spec("Limit", e.field(mc, "MaxItemSize"), single(intTerm(1<<27)))
	usesMem := Or(mem, And(red, layered))
	c.implies(And(ok, usesMem), cmp(item, size), "inmemory-limits-consistent", site)
	lru := True
	pings := True
	for _, ev := range e.events {
		if n := lruMethod2(ev.Name); n == "NewWithEvict" || n == "New" {
			if a, ok := ev.Ret.(*AV); ok {
				lru = And(lru, Or(Not(ev.Guard), nilRes(a.f[1])))
			}
		}
		if ev.Kind == "call" && (redisCmd(ev.Name) == "Err" || redisCmd(ev.Name) == "Result") {
			er := ev.Ret
			if a, ok := er.(*AV); ok {
				er = a.f[1]
			}
			pings = And(pings, Or(Not(ev.Guard), nilRes(er)))
		}
	}
	c.implies(And(mem, cmp(item, size), lru), ok, "valid-configuration-accepted", site)
	valid := And(red, Not(eqAny(e.field(rc, "Endpoint"), strTerm(""))), cmp(single(intTerm(1)), e.field(rc, "MaxQueueConcurrency")))
	c.implies(And(valid, Not(layered), pings), ok, "valid-configuration-accepted", site)
	c.implies(And(valid, layered, cmp(item, size), pings, lru), ok, "valid-configuration-accepted", site)

	// The client's options.
	n := 0
	for _, ev := range e.events {
		if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "github.com/redis/go-redis/v9.New") || ev.Thread != 0 {
			continue
		}
		n++
		g := And(ev.Guard, ok)
		c.implies(And(ok, red), ev.Guard, "redis-client", c.site(ev))
		c.need(strings.HasSuffix(ev.Name, ".NewUniversalClient"), "redis-client", c.site(ev), ev.Name)
		e.atEv(ev, func() Val {
			o := ev.Args[0]
			for field, name := range map[string]string{"Username": "Username", "Password": "Password", "DB": "DB"} {
				c.same(g, e.field(o, field), e.field(rc, name), "redis-"+strings.ToLower(name), c.site(ev))
			}
			want := mk("call", "strings.Split", strSlice, []*Term{term(e.field(rc, "Endpoint")), strTerm(",")})
			c.same(g, e.field(o, "Addrs"), single(want), "redis-addresses", c.site(ev))
			return nil
		})
	}
	c.need(n == 1, "redis-client", site, fmt.Sprintf("%d clients", n))

	// The queue's bounds.
	n = 0
	for _, ev := range e.events {
		for _, cc := range chanCases(ev) {
			if ch := term(cc.ch); !cc.send && ch.op == "makechan" && isFuncChan(ch) && ev.Thread != 0 {
				n++
				c.same(And(ok, red), single(ch.args[0]), e.field(rc, "MaxQueueBufferSize"), "queue-room", c.site(ev))
			}
		}
		if ev.Kind == "go" && len(ev.Loops) == 1 && ev.Loops[0].dom != nil {
			c.same(And(ok, red), single(ev.Loops[0].dom), e.field(rc, "MaxQueueConcurrency"), "queue-workers", c.site(ev))
			n++
		}
	}
	c.need(n == 2, "queue", site, fmt.Sprint(n))

	// The in-memory limits, of the backend and of the local tier.
	for _, a := range alts(prov) {
		if a.t.op != "iface" || a.t.args[0].op != "alloc" {
			continue
		}
		o := a.t.args[0]
		t := a.t.obj.(types.Type)
		if types.Identical(t, layType) {
			for _, x := range alts(e.load2(o, "outer")) {
				if x.t.op == "iface" && x.t.args[0].op == "alloc" {
					c.memLimits(e, x.t.args[0], memType, mc, And(ok, a.g, x.g), size, item, site)
				} else if sat(And(ok, a.g, x.g)) {
					c.fail("local-tier", site, x.t.String())
				}
			}
			c.localTTL(e, o, cfg, And(ok, a.g))
		}
		if types.Identical(t, memType) {
			c.memLimits(e, o, memType, mc, And(ok, a.g), size, item, site)
		}
	}
}

// localTTL: how long the local tier keeps copies of remote items.
func (c *Check) localTTL(e *Eval, o *Term, cfg Val, ok B) {
	get := c.methodOf(c.resultType("NewCached"), "Get")
	set := c.methodOf(c.resultType("NewInMemoryCache"), "Set")
	gas := e.params(get)
	k := len(e.events)
	e.callFn(get, append([]Val{single(o)}, gas[1:]...), nil, ok, nil)
	for _, ev := range e.events[k:] {
		if ev.Kind == "enter" && ev.Fn == set {
			val, good := parsedDuration(c, term(e.field(cfg, "LayeredTTL")))
			c.same(And(ev.Guard, good), ev.Args[3], val, "local-tier-ttl", c.site(ev))
		}
	}
}

func durationType(c *Check) types.Type {
	return c.P.Func("provider", "NewCached").Params[2].Type()
}

// load2 reads a field of an object.
func (e *Eval) load2(o *Term, name string) Val {
	a, t := fieldAddr(o, name)
	return e.load(a, t, True)
}

// resultType is the concrete type a constructor makes.
func (c *Check) resultType(name string) types.Type {
	fn := c.P.Func("provider", name)
	t := fn.Signature.Results().At(0).Type()
	if _, ok := t.Underlying().(*types.Interface); !ok {
		return t
	}
	e := c.eval()
	e.Pure = parsers
	v := e.Run(fn, e.params(fn), True)
	if r := fn.Signature.Results(); r.Len() > 1 {
		v = component(v, 0, compType(r, 0))
	}
	for _, a := range alts(v) {
		if a.t.op == "iface" {
			return a.t.obj.(types.Type)
		}
	}
	panic(unresolved{"the type made by " + name})
}

// memLimits: the cache obeys the configured limits, where unset the defaults.
// Which items are refused is what setting them shows.
func (c *Check) memLimits(e *Eval, o *Term, t types.Type, cfg Val, g B, size, item Val, site string) {
	st := structOf(deref(t))
	var vals []Val
	for i := 0; i < st.NumFields(); i++ {
		if isInteger(st.Field(i).Type()) {
			vals = append(vals, e.load(faT(o, i, st), st.Field(i).Type(), g))
		}
	}
	has := func(want Val) bool {
		for _, v := range vals {
			if implies(g, same(v, want)) {
				return true
			}
		}
		return false
	}
	c.need(has(size), "inmemory-size-limit", site, o.String())
	c.need(has(item), "inmemory-item-limit", site, o.String())
	// The TTL for items without one, where the text is a duration.
	def := e.spec("Text", e.field(cfg, "DefaultTTL"), single(strTerm("120s")))
	found := false
	for i := 0; i < st.NumFields(); i++ {
		if !types.Identical(st.Field(i).Type(), durationType(c)) {
			continue
		}
		x := e.load(faT(o, i, st), st.Field(i).Type(), g)
		all := true
		for _, a := range alts(def) {
			val, good := parsedDuration(c, a.t)
			if sat(And(g, a.g, good, Not(same(x, val)))) {
				all = false
			}
		}
		found = found || all
	}
	c.need(found, "inmemory-default-ttl", site, o.String())
}

// parsedDuration is the duration a text stands for, and that it is one.
func parsedDuration(c *Check, t *Term) (Val, B) {
	dt, et := durationType(c), types.Universe.Lookup("error").Type()
	d := mk("call", "time.ParseDuration", types.NewTuple(types.NewVar(0, nil, "", dt), types.NewVar(0, nil, "", et)), []*Term{t})
	return single(mk("comp", "0", dt, []*Term{d})), eqT(mk("comp", "1", et, []*Term{d}), nilTerm())
}
