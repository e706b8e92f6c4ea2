package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&rule{id: "C30", technique: "guarded value-numbering dataflow of a broadcast, of the queue's workers and of every retry, composed with the constructors; error-path, must-close, must-follow and blocking rules",
		about: "for each endpoint one request is queued, with the given method and path, the body that was read, a copy of the headers, the mark, the sender's address and the host; a worker sends each message once, repeats it exactly if it failed and attempts are left, with a renewed body and after the backoff; answers are looked at only without an error and their bodies are closed; every operation that can block ends when the queue is stopped; requests have a deadline; ready addresses with the named port are the endpoints",
		min:   40,
		run:   runBroadcast})
}

// cluster is a connection made by its constructor.
type peers struct {
	e    *Eval
	conn Val // dynamic value
	typ  types.Type
	ok   B
	site string
}

func (c *Check) makeConn() *peers {
	e := c.eval()
	e.Pure = parsers
	ctor := c.P.Func("cluster", "NewKubernetesClient")
	v, _ := e.callFn(ctor, e.params(ctor), nil, True, nil)
	e.drain()
	p := &peers{e: e, site: c.fnSite(ctor)}
	p.ok = nilRes(component(v, 1, compType(ctor.Signature.Results(), 1)))
	for _, a := range alts(within(component(v, 0, compType(ctor.Signature.Results(), 0)), p.ok)) {
		if a.t.op == "iface" {
			c.need(p.conn == nil || term(p.conn) == a.t.args[0], "anchor", p.site, "one kind of connection")
			p.conn, p.typ = single(a.t.args[0]), a.t.obj.(types.Type)
		}
	}
	if p.conn == nil {
		panic(unresolved{"the connection made by NewKubernetesClient"})
	}
	return p
}

// wiring: the connection made for a configuration looks at the configured
// service, and its queue sends and repeats.
func (c *Check) wiring() {
	e := c.eval()
	e.Pure = parsers
	ctor := c.P.Func("cluster", "NewConnection")
	site := c.fnSite(ctor)
	cfg := e.params(ctor)
	mk := c.P.Func("cluster", "NewRequestQueue")
	made := False
	e.callHook = func(cc *callCtx) (Val, bool) {
		if cc.fn == mk {
			opt := func(n string) Val { return structField(cc.args[0], mk.Signature.Params().At(0).Type(), n) }
			at := c.at(cc.pos())
			made = Or(made, cc.pc)
			c.implies(cc.pc, leT(intTerm(1), term(opt("MaxWorkers"))), "queue-sends", at)
			c.implies(cc.pc, leT(intTerm(2), term(opt("MaxRetries"))), "queue-repeats", at)
			c.implies(cc.pc, leT(intTerm(1), term(opt("Backoff"))), "queue-waits", at)
			c.implies(cc.pc, leT(intTerm(0), term(opt("Size"))), "queue-sends", at)
		}
		return nil, false
	}
	v, _ := e.callFn(ctor, cfg, nil, True, nil)
	ok := nilRes(component(v, 1, compType(ctor.Signature.Results(), 1)))
	c.need(sat(ok), "connects", site)
	c.implies(ok, made, "queue-sends", site)
	want := func(f string) Val { return e.atMem(0, func() Val { return e.field(cfg[0], f) }) }
	n := 0
	for _, a := range alts(within(component(v, 0, compType(ctor.Signature.Results(), 0)), ok)) {
		g := And(ok, a.g)
		if !sat(g) {
			continue
		}
		if !c.need(a.t.op == "iface", "connects", site, a.t.String()) {
			continue
		}
		fn := c.methodOf(a.t.obj.(types.Type), "Endpoints")
		name := e.param("portname", types.Typ[types.String])
		q := len(e.events)
		e.callFn(fn, []Val{single(a.t.args[0]), name}, nil, g, nil)
		for _, ev := range e.events[q:] {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case strings.HasSuffix(ev.Name, "EndpointsInterface).Get"):
				n++
				c.same(ev.Guard, ev.Args[2], want("Service"), "configured-service", c.site(ev))
			case strings.HasSuffix(ev.Name, "EndpointsGetter).Endpoints") || strings.HasSuffix(ev.Name, ".Endpoints") && len(ev.Args) == 2:
				c.same(ev.Guard, ev.Args[1], want("Namespace"), "configured-service", c.site(ev))
			}
		}
	}
	c.need(n > 0, "configured-service", site)
}

func runBroadcast(c *Check) {
	c.wiring()
	c.endpoints()
	c.broadcasts()
	c.queue()
	c.broadcastBodies()
}

func (c *Check) endpoints() {
	p := c.makeConn()
	e := p.e
	fn := c.methodOf(p.typ, "Endpoints")
	site := c.fnSite(fn)
	name := e.param("portname", types.Typ[types.String])
	q := len(e.events)
	v, ret := e.callFn(fn, []Val{p.conn, name}, nil, p.ok, nil)
	c.implies(p.ok, ret, "endpoints-returned", site)
	got := 0
	for _, ev := range e.events[q:] {
		if ev.Kind != "call" || !strings.HasSuffix(ev.Name, "EndpointsInterface).Get") {
			continue
		}
		got++
		err := component(ev.Ret, 1, compType(ev.Common.Signature().Results(), 1))
		eps := component(ev.Ret, 0, compType(ev.Common.Signature().Results(), 0))
		g := And(ev.Guard, nilRes(err))
		subsets := e.atEv(ev, func() Val { return e.field(eps, "Subsets") })
		c.sameAs(g, v, "ready-endpoints-with-the-port", c.site(ev),
			e.specEv(ev, "EndpointsLast", subsets, name), e.specEv(ev, "EndpointsFirst", subsets, name))
		c.implies(And(ev.Guard, Not(nilRes(err))), logged(after(e.events, ev)), "failure-is-reported", c.site(ev))
	}
	c.need(got == 1, "ready-endpoints-with-the-port", site, "one query")
}

// body is the content a reader yields, as far as it is known.
func readerOf(t *Term) *Term {
	for {
		switch {
		case t.op == "iface" || t.op == "conv":
			t = t.args[0]
		case (t.op == "call" || t.op == "ret") && len(t.args) > 0 && (strings.HasPrefix(t.sym, "bytes.NewReader") || strings.HasPrefix(t.sym, "bytes.NewBuffer") || strings.HasPrefix(t.sym, "strings.NewReader") || strings.HasPrefix(t.sym, "io.NopCloser") || strings.HasPrefix(t.sym, "io/ioutil.NopCloser") || strings.HasPrefix(t.sym, "bytes.NewBufferString")):
			t = t.args[0]
		default:
			return t
		}
	}
}

// replayable: net/http can read the body again.
func replayable(t *Term) bool {
	if t.op == "nil" {
		return true
	}
	if t.op != "iface" {
		return false
	}
	pkg, name := namedPtr(t.obj.(types.Type))
	return pkg == "bytes" && (name == "Reader" || name == "Buffer") || pkg == "strings" && name == "Reader"
}

func (c *Check) broadcasts() {
	p := c.makeConn()
	e := p.e
	fn := c.methodOf(p.typ, "Broadcast")
	eps := c.methodOf(p.typ, "Endpoints")
	site := c.fnSite(fn)
	as := e.params(fn)
	req, port, method, path := as[1], as[2], as[3], as[4]
	list := e.param("endpoints", eps.Signature.Results().At(0).Type())
	ept := eps.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
	listed := False
	e.callHook = func(cc *callCtx) (Val, bool) {
		if cc.fn == eps {
			c.same(cc.pc, cc.args[1], port, "endpoints-of-the-port", c.at(cc.pos()))
			listed = Or(listed, cc.pc)
			return list, true
		}
		return nil, false
	}
	base := And(p.ok, Not(nilRes(e.field(req, "Body"))))
	body := e.field(req, "Body")
	hdr0 := e.field(req, "Header")
	host := e.field(req, "Host")
	mem0 := len(e.log)
	q := len(e.events)
	e.callFn(fn, append([]Val{p.conn}, as[1:]...), nil, base, nil)
	e.drain()
	evs := e.events[q:]
	// The body is read once.
	var rd *Event
	for _, ev := range evs {
		if ev.Kind == "call" && isFileRead(ev.Name) {
			c.need(rd == nil, "body-read-once", c.site(ev))
			rd = ev
			c.same(ev.Guard, ev.Args[0], body, "body-read-once", c.site(ev))
		}
	}
	if !c.need(rd != nil, "anchor", site, "reads the body") {
		return
	}
	content := term(component(rd.Ret, 0, compType(rd.Common.Signature().Results(), 0)))
	rdErr := component(rd.Ret, 1, compType(rd.Common.Signature().Results(), 1))
	okRead := And(base, nilRes(rdErr))
	c.implies(And(base, Not(nilRes(rdErr))), logged(after(evs, rd)), "failure-is-reported", c.site(rd))
	// A request for each endpoint.
	mark := c.broadcastMark()
	sent := 0
	for _, ev := range evs {
		for _, cs := range chanCases(ev) {
			if !cs.send || !isMessage(cs.val) {
				continue
			}
			sent++
			ssite := c.site(ev)
			if !c.need(len(ev.Loops) == 1 && ev.Loops[0].dom != nil && ev.Loops[0].dom == lenT(term(list)), "every-endpoint", ssite, "for each endpoint") {
				continue
			}
			msg := cs.val
			mt := msgType(msg)
			out := structField(msg, mt, "Request")
			c.same(ev.Guard, structField(msg, mt, "Attempt"), single(intTerm(0)), "first-attempt", ssite)
			// Made for it.
			var made *Event
			for _, m := range evs {
				if m.Kind == "call" && (m.Name == "net/http.NewRequest" || m.Name == "net/http.NewRequestWithContext") && m.Thread == ev.Thread && m.Seq < ev.Seq && sameLoops(m, ev) {
					c.need(made == nil, "one-request-each", c.site(m))
					made = m
				}
			}
			if !c.need(made != nil, "one-request-each", ssite) {
				continue
			}
			margs := made.Args
			if made.Name != "net/http.NewRequest" {
				c.need(background(term(margs[0])), "not-bound-to-the-sender", c.site(made), vstr(margs[0]))
				margs = margs[1:]
			}
			merr := component(made.Ret, 1, compType(made.Common.Signature().Results(), 1))
			c.same(ev.Guard, out, component(made.Ret, 0, compType(made.Common.Signature().Results(), 0)), "one-request-each", ssite)
			bi := mk("bound", "0", types.Typ[types.Int], nil)
			ep := e.atEv(made, func() Val { return e.load(iaT(term(list), bi, types.NewPointer(ept)), ept, made.Guard) })
			c.same(made.Guard, margs[0], method, "method-as-given", c.site(made))
			c.same(made.Guard, margs[1], e.specEv(made, "PeerURL", ep, path), "address-of-the-endpoint", c.site(made))
			for _, a := range alts(margs[2]) {
				if sat(And(made.Guard, a.g)) {
					c.need(readerOf(a.t) == content, "body-as-received", c.site(made), a.t.String())
					c.need(replayable(a.t), "body-can-be-repeated", c.site(made), a.t.String())
					// A reader is read once: each request has its own.
					own := a.t.op == "nil"
					for _, rd := range evs {
						if rd.Kind == "reader" && rd.Seq < made.Seq && sameLoops(rd, made) && mentions(single(a.t), func(t *Term) bool { return t == term(rd.Ret) }) {
							own = true
						}
					}
					c.need(own, "body-of-its-own", c.site(made), a.t.String())
				}
			}
			c.implies(And(made.Guard, nilRes(merr)), ev.Guard, "every-endpoint", ssite)
			c.implies(And(made.Guard, Not(nilRes(merr))), logged(after(evs, made)), "failure-is-reported", c.site(made))
			c.implies(And(listed, okRead), Or(made.Guard, Not(inRange(list))), "every-endpoint", c.site(made))
			// What it carries.
			at := func(f string) Val { return e.atEv(ev, func() Val { return e.field(out, f) }) }
			c.same(ev.Guard, at("Host"), host, "host-as-received", ssite)
			h := at("Header")
			for _, a := range alts(h) {
				if sat(And(ev.Guard, a.g)) {
					c.need(isFresh(rootOf(a.t)) || dependsOn(single(a.t), made.RetT) || rootedIn(a.t, out), "headers-of-its-own", ssite, a.t.String())
				}
			}
			in := And(ev.Guard, inRange(list))
			k := e.param("field", types.Typ[types.String])
			kt := term(k)
			xff := strTerm("X-Forwarded-For")
			other := And(Not(eqT(kt, xff)), Not(eqT(kt, strTerm(mark))))
			at2 := func(k Val) (Val, B) {
				v := e.specEv(ev, "HeaderAt", h, k).(*AV)
				return v.f[0], asBool(v.f[1])
			}
			want := e.specAt(mem0, "HeaderAt", hdr0, k).(*AV)
			got, has := at2(k)
			c.same(And(in, other), has, want.f[1], "headers-as-received", ssite)
			c.same(And(in, And(other, has)), got, want.f[0], "headers-as-received", ssite)
			_, marked := at2(single(strTerm(mark)))
			c.implies(in, marked, "marked-as-broadcast", ssite)
			snd := e.specAt(mem0, "Sender", req).(*AV)
			xv, xh := at2(single(xff))
			g := And(in, asBool(snd.f[1]))
			c.implies(g, xh, "tells-the-sender", ssite)
			for _, a := range alts(xv) {
				if !sat(And(g, a.g)) {
					continue
				}
				vs, isList := elems(a.t)
				if c.need(isList && len(vs) == 1, "tells-the-sender", ssite, a.t.String()) {
					c.same(And(g, a.g), single(vs[0]), snd.f[0], "tells-the-sender", ssite)
				}
			}
		}
	}
	c.need(sent > 0, "every-endpoint", site)
	// The request of the sender is left alone.
	for _, ev := range evs {
		if ev.Kind == "mapwrite" && sat(ev.Guard) {
			c.need(ev.Addr != term(hdr0), "sender-untouched", c.site(ev), ev.Addr.String())
		}
	}
	e.callHook = nil
	// Nobody waits for a queue that is stopped, and nothing is dropped for
	// another reason.
	stops := c.closing(p, evs, base)
	for _, ev := range evs {
		for _, cs := range chanCases(ev) {
			if cs.send && isMessage(cs.val) {
				c.delivers(ev, stops)
			}
		}
	}
}

// rootedIn: memory reached from out.
func rootedIn(t *Term, out Val) bool {
	for _, a := range alts(out) {
		if mentions(single(t), func(x *Term) bool { return x == a.t }) {
			return true
		}
	}
	return false
}

// inRange: the iteration exists.
func inRange(list Val) B {
	in := True
	for _, b := range boundTerms(0) {
		in = And(in, And(leT(intTerm(0), b), ltT(b, lenT(term(list)))))
	}
	return in
}

// closing: what Close closes is what every blocking operation listens to.
func (c *Check) closing(p *peers, evs []*Event, g B) map[*Term]bool {
	e := p.e
	fn := c.methodOf(p.typ, "Close")
	q := len(e.events)
	e.callFn(fn, []Val{p.conn}, nil, p.ok, nil)
	e.drain()
	cl := e.events[q:]
	closed := map[*Term]bool{}
	for _, ev := range cl {
		if ev.Kind == "close" {
			closed[term(ev.Args[0])] = true
		}
	}
	c.need(len(closed) > 0, "stops", c.fnSite(fn))
	c.unblocked(evs, closed)
	return closed
}

// delivers: a message is queued unless the queue is stopped.
func (c *Check) delivers(ev *Event, stops map[*Term]bool) {
	c.need(ev.Kind != "select" || ev.Note == "blocking", "nothing-dropped", c.site(ev), "if the queue is full")
	for _, cs := range chanCases(ev) {
		for _, a := range alts(cs.ch) {
			c.need(cs.send || stops[a.t], "nothing-dropped", c.site(ev), a.t.String())
		}
	}
}

// unblocked: every operation on a channel ends when the queue is stopped.
func (c *Check) unblocked(evs []*Event, closed map[*Term]bool) {
	for _, ev := range evs {
		cs := chanCases(ev)
		if len(cs) == 0 || !sat(ev.Guard) || ev.Kind == "select" && ev.Note != "blocking" {
			continue
		}
		ok := false
		for _, x := range cs {
			if !x.send {
				all := true
				for _, a := range alts(x.ch) {
					all = all && (closed[a.t] || isTimer(a.t))
				}
				ok = ok || all
			}
		}
		c.need(ok, "never-blocked-for-good", c.site(ev))
	}
}

func msgType(v Val) types.Type {
	if a, ok := v.(*AV); ok {
		return a.typ
	}
	return alts(v)[0].t.typ
}

// isMessage: a value of the queue.
func isMessage(v Val) bool {
	t := msgType(v)
	if t == nil {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Message" && strings.HasSuffix(n.Obj().Pkg().Path(), "/cluster")
}

func (c *Check) queue() {
	e := c.eval()
	e.Pure = parsers
	ctor := c.P.Func("cluster", "NewRequestQueue")
	site := c.fnSite(ctor)
	opts := e.params(ctor)
	qv, ret := e.callFn(ctor, opts, nil, True, nil)
	e.drain()
	c.implies(True, ret, "queue-made", site)
	evs := append([]*Event(nil), e.events...)
	h := &history{evs: evs}
	opt := func(f string) Val { return e.field(opts[0], f) }
	ch := e.field(qv, "Queue")
	workers := 0
	type take struct {
		ev *Event
		cs chanCase
	}
	var takes []take
	var closedCases []chanCase
	for _, ev := range evs {
		for _, cs := range chanCases(ev) {
			if cs.send || !is(cs.ch, ch) || !isMessage(recvVal(cs)) {
				continue
			}
			workers++
			takes = append(takes, take{ev, cs})
		}
	}
	c.need(workers > 0, "messages-are-sent", site)
	// As many workers as configured.
	stop := c.P.Method("cluster", "RequestQueue", "Stop")
	n := len(e.events)
	_, sret := e.callFn(stop, []Val{qv}, nil, True, nil)
	e.drain()
	closed := map[*Term]bool{}
	for _, ev := range e.events[n:] {
		if ev.Kind == "close" {
			closed[term(ev.Args[0])] = true
			c.implies(True, ev.Guard, "stops", c.site(ev))
		}
	}
	c.implies(True, sret, "stops", c.fnSite(stop))
	c.need(len(closed) > 0, "stops", c.fnSite(stop))
	c.unblocked(evs, closed)
	for _, t := range takes {
		c.worker(e, h, t.ev, t.cs, ch, opt, closed)
	}
	// Workers end.
	for _, ev := range evs {
		for _, cs := range chanCases(ev) {
			if cs.send || !closed[alts(cs.ch)[0].t] {
				continue
			}
			closedCases = append(closedCases, cs)
			if len(ev.Loops) == 0 {
				continue
			}
			end := False
			for _, r := range after(evs, ev) {
				if r.Kind == "return" && len(r.Stack) <= 1 {
					end = Or(end, r.Guard)
				}
			}
			c.implies(cs.g, end, "workers-end", c.site(ev))
		}
	}
	c.need(len(closedCases) > 0, "workers-end", site)
	// And those waited for are those counted.
	all := append(append([]*Event(nil), evs...), e.events[n:]...)
	ha := &history{evs: all}
	for _, w := range e.events[n:] {
		if w.Kind != "call" || w.Name != "(*sync.WaitGroup).Wait" {
			continue
		}
		for _, g := range evs {
			if g.Kind != "go" || g.Thread != 0 {
				continue
			}
			var last *Event
			for _, x := range evs {
				if x.Thread == g.Child && x.Kind == "return" && len(x.Stack) <= 1 {
					last = x
				}
			}
			if c.need(last != nil, "workers-end", c.site(g)) {
				c.need(ha.joinsCount(g, w), "waits-for-the-workers", c.site(w))
			}
		}
	}
}

// joinsCount: what is added for a goroutine is what it takes off.
func (h *history) joinsCount(g, w *Event) bool {
	wg := term(w.Args[0])
	adds, dones := 0, 0
	for _, ev := range h.evs {
		if ev.Kind != "call" || len(ev.Args) == 0 || term(ev.Args[0]) != wg {
			continue
		}
		switch {
		case ev.Name == "(*sync.WaitGroup).Add" && ev.Thread == g.Thread:
			n := term(ev.Args[1])
			if i, ok := n.isInt(); ok && i.IsInt64() && i.Int64() == 1 && sameLoops(ev, g) && implies(g.Guard, ev.Guard) && implies(ev.Guard, g.Guard) {
				adds++
			} else if len(g.Loops) == len(ev.Loops)+1 && g.Loops[len(g.Loops)-1].dom == n && ev.Seq < g.Seq {
				adds++
			} else {
				return false
			}
		case ev.Name == "(*sync.WaitGroup).Done" && ev.Thread == g.Child:
			dones++
		}
	}
	return g.Note == "waitgroup" && adds == 0 || adds == 1 && dones >= 1
}

func recvVal(cs chanCase) Val {
	if v, ok := cs.val.(*AV); ok && v.typ == nil && len(v.f) == 2 {
		return v.f[0]
	}
	return cs.val
}

// worker decides what happens to a message a worker takes.
func (c *Check) worker(e *Eval, h *history, rv *Event, cs chanCase, ch Val, opt func(string) Val, stops map[*Term]bool) {
	site := c.site(rv)
	c.need(rv.Thread != 0 && len(rv.Loops) > 0, "messages-are-sent", site, "again and again")
	msg := recvVal(cs)
	mt := msgType(msg)
	req := structField(msg, mt, "Request")
	attempt := structField(msg, mt, "Attempt")
	mine := after(h.evs, rv)
	// It is sent once.
	var do *Event
	for _, ev := range mine {
		if ev.Kind != "call" || !sameLoops(ev, rv) {
			continue
		}
		switch ev.Name {
		case "(*net/http.Client).Do", "(net/http.RoundTripper).RoundTrip", "(*net/http.Transport).RoundTrip":
			c.need(do == nil, "sent-once", c.site(ev))
			do = ev
		}
	}
	if !c.need(do != nil, "messages-are-sent", site) {
		return
	}
	dsite := c.site(do)
	c.implies(cs.g, do.Guard, "messages-are-sent", dsite)
	c.implies(do.Guard, cs.g, "messages-are-sent", dsite)
	c.same(do.Guard, do.Args[1], req, "messages-are-sent", dsite)
	// In limited time.
	if do.Name == "(*net/http.Client).Do" {
		lim := e.atEv(do, func() Val { return e.field(do.Args[0], "Timeout") })
		c.positive(do.Guard, lim, "requests-have-a-deadline", dsite)
	} else {
		c.fail("requests-have-a-deadline", dsite, do.Name)
	}
	res := compType(do.Common.Signature().Results(), 0)
	resp, err := component(do.Ret, 0, res), component(do.Ret, 1, compType(do.Common.Signature().Results(), 1))
	good := And(do.Guard, nilRes(err))
	respNil := nilRes(resp)
	fact := Or(Not(nilRes(err)), Not(respNil)) // of net/http
	// A response is looked at only if there is one.
	for _, ev := range mine {
		if ev.Kind == "deref" && ev.Addr != nil && rootOf(ev.Addr) == term(resp) {
			c.implies(ev.Guard, nilRes(err), "no-response-no-look", c.site(ev))
		}
	}
	// Its body is closed, in the same round.
	body := e.atEv(do, func() Val { return e.field(resp, "Body") })
	closed := False
	for _, ev := range mine {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "Closer).Close") && sameLoops(ev, rv) && is(ev.Args[0], body) {
			closed = Or(closed, ev.Guard)
		}
	}
	c.implies(And(good, Not(respNil)), closed, "body-is-closed", dsite)
	// Failures.
	status := e.atEv(do, func() Val { return e.field(resp, "StatusCode") })
	refused := asBool(e.specEv(do, "Refused", status))
	failing := Or(And(do.Guard, Not(nilRes(err))), And(And(good, Not(respNil)), refused))
	next := each(True, []Val{attempt}, func(g B, ts []*Term) Val { return single(addT(ts[0], intTerm(1), types.Typ[types.Int])) })
	left := asBool(e.spec("AttemptsLeft", next, opt("MaxRetries")))
	renewFails := False
	var renewals []*Event
	for _, ev := range mine {
		if ev.Kind == "call" && ev.Name == "dyncall" {
			renewals = append(renewals, ev)
			for _, x := range errorsOf(ev) {
				renewFails = Or(renewFails, And(ev.Guard, Not(nilRes(x))))
			}
		}
	}
	again, stopped := False, False
	for _, ev := range h.evs {
		if ev.Seq <= do.Seq || !h.begun(do, ev) {
			continue
		}
		for _, s := range chanCases(ev) {
			if !s.send && stops[alts(s.ch)[0].t] && ev.Thread != rv.Thread {
				stopped = Or(stopped, s.g)
			}
		}
		for _, s := range chanCases(ev) {
			if !s.send || !is(s.ch, ch) {
				continue
			}
			rsite := c.site(ev)
			c.delivers(ev, stops)
			inThisRound := len(ev.Loops) == len(rv.Loops) || ev.Thread != rv.Thread
			c.need(inThisRound, "repeated-once", rsite)
			if ev.Thread == rv.Thread {
				// A worker that waits for room in the queue it empties.
				c.fail("workers-do-not-wait-for-each-other", rsite, "")
			}
			c.implies(And(again, ev.Guard), False, "repeated-once", rsite)
			again = Or(again, ev.Guard)
			c.implies(And(ev.Guard, fact), And(failing, left), "repeated-only-if-failed", rsite)
			c.same(ev.Guard, structField(s.val, mt, "Attempt"), next, "attempts-are-counted", rsite)
			// The same request, with a body that was not read.
			r2 := structField(s.val, mt, "Request")
			at := func(r Val, f string, m *Event) Val { return e.atEv(m, func() Val { return e.field(r, f) }) }
			for _, f := range []string{"Method", "URL", "Host", "Header"} {
				if f == "Header" || f == "URL" {
					continue
				}
				c.same(ev.Guard, at(r2, f, ev), at(req, f, do), "the-same-request", rsite)
			}
			for _, f := range []string{"Scheme", "Host", "Path", "RawQuery"} {
				u2, u := at(r2, "URL", ev), at(req, "URL", do)
				c.same(ev.Guard, at(notNil(u2, ev.Guard), f, ev), at(u, f, do), "the-same-request", rsite)
			}
			k := e.param("field", types.Typ[types.String])
			h2 := e.specEv(ev, "HeaderAt", at(r2, "Header", ev), k).(*AV)
			h1 := e.specEv(do, "HeaderAt", at(req, "Header", do), k).(*AV)
			c.same(ev.Guard, h2.f[1], h1.f[1], "the-same-request", rsite)
			c.same(And(ev.Guard, asBool(h1.f[1])), h2.f[0], h1.f[0], "the-same-request", rsite)
			getBody := at(req, "GetBody", do)
			renewed := False
			for _, x := range renewals {
				if is(x.Args[0], getBody) && x.Seq < ev.Seq {
					nb := component(x.Ret, 0, compType(x.Common.Signature().Results(), 0))
					renewed = Or(renewed, And(x.Guard, same(at(r2, "Body", ev), nb)))
				}
			}
			c.implies(And(ev.Guard, Not(nilRes(getBody))), renewed, "body-is-renewed", rsite)
			// After the backoff.
			waits := False
			for _, w := range h.evs {
				if w.Kind == "call" && w.Name == "time.Sleep" && w.Seq > do.Seq && w.Seq < ev.Seq && h.begun(do, w) && h.begun(w, ev) {
					c.same(w.Guard, w.Args[0], opt("Backoff"), "waits-for-the-backoff", c.site(w))
					waits = Or(waits, w.Guard)
				}
				for _, t := range chanCases(w) {
					if !t.send && w.Thread == ev.Thread && w.Seq < ev.Seq && isTimer(term(t.ch)) && mentions(t.ch, func(x *Term) bool { return x == term(opt("Backoff")) }) {
						waits = Or(waits, t.g)
					}
				}
			}
			c.implies(ev.Guard, waits, "waits-for-the-backoff", rsite)
		}
	}
	c.implies(And(failing, And(left, And(Not(renewFails), Not(stopped)))), again, "repeated-if-failed", dsite)
	// Failures are reported.
	c.implies(And(do.Guard, Not(nilRes(err))), logged(mine), "failure-is-reported", dsite)
	_ = (*ssa.Function)(nil)
}

// broadcastBodies: the handlers broadcast the body they received.
func (c *Check) broadcastBodies() {
	ad := c.makeAdmin()
	e := ad.s.e
	n := 0
	for _, ep := range ad.eps {
		for _, ev := range ep.evs {
			if ev.Kind != "call" || !strings.HasSuffix(ev.Name, "cluster.Connection).Broadcast") {
				continue
			}
			n++
			site := c.site(ev)
			body := e.atMem(ep.mem, func() Val { return e.field(ep.req, "Body") })
			now := e.atEv(ev, func() Val { return e.field(ep.req, "Body") })
			content := map[*Term]bool{}
			used := False
			for _, r := range ep.evs {
				if r.Kind != "call" || r.Seq >= ev.Seq {
					continue
				}
				for _, a := range r.Args {
					if _, isAV := a.(*AV); isAV {
						continue
					}
					if mentions(a, func(t *Term) bool { return t == term(body) }) {
						used = Or(used, r.Guard)
						if isFileRead(r.Name) {
							content[term(component(r.Ret, 0, compType(r.Common.Signature().Results(), 0)))] = true
						}
					}
				}
			}
			for _, a := range alts(now) {
				g := And(ev.Guard, a.g)
				if !sat(g) {
					continue
				}
				if a.t == term(body) {
					c.implies(And(g, used), False, "body-as-received", site)
					continue
				}
				c.need(content[readerOf(a.t)], "body-as-received", site, a.t.String())
			}
		}
	}
	c.need(n > 0, "anchor", ad.a.site, "broadcasts")
}
