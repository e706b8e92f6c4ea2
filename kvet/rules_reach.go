package main

import (
	"go/types"
	"strings"
)

func init() {
	register(&rule{id: "C40", technique: "value-numbering dataflow from the configured addresses through the constructors to the listening sockets that are served; guards of the effects that follow a failure",
		about: "every served listener is a TCP socket bound to the address of its own configuration section, a socket that cannot be bound makes the constructor fail; the API listens on the configured port of every interface, and its end ends the process with a failure; its endpoints are below the configured prefix",
		min:   8,
		run:   runReach})
}

// binding is what a socket is bound to.
type binding struct {
	ev            *Event
	network, addr Val
}

// bound is the binding of a listener, or of the call that listens and serves.
func (c *Check) bound(e *Eval, evs []*Event, l *Term) *binding {
	for l.op == "iface" || l.op == "comp" && l.sym == "0" {
		l = l.args[0]
	}
	for _, ev := range evs {
		if ev.RetT == nil || ev.RetT != l {
			continue
		}
		switch ev.Name {
		case "net.Listen":
			return &binding{ev, ev.Args[0], ev.Args[1]}
		case "(*net.ListenConfig).Listen":
			return &binding{ev, ev.Args[2], ev.Args[3]}
		case "net.ListenTCP":
			// The address is the one resolved.
			a := term(ev.Args[1])
			if a.op == "comp" && a.sym == "0" {
				a = a.args[0]
			}
			for _, r := range evs {
				if r.RetT == a && r.Name == "net.ResolveTCPAddr" {
					return &binding{ev, ev.Args[0], r.Args[1]}
				}
			}
		}
	}
	return nil
}

func runReach(c *Check) {
	s := c.makeServer(false)
	e := s.e
	mk := c.fnSite(c.P.Func("server", "NewServer"))
	made := len(e.events)
	sections := e.field(s.cfg, "Listeners")
	sockets := map[*Event]bool{}
	for _, ev := range c.startServer(s) {
		if !isServe(ev.Name) {
			continue
		}
		if len(ev.Args) < 2 {
			c.fail("served-where-configured", c.site(ev), ev.Name)
			continue
		}
		for _, a := range alts(ev.Args[1]) {
			g := iteration(And(ev.Guard, a.g))
			if !sat(g) {
				continue
			}
			for _, t := range e.instances(a.t) {
				if t.op == "nil" {
					c.implies(g, False, "served-where-configured", c.site(ev)+" nothing is bound")
					continue
				}
				b := c.bound(e, e.events[:made], t)
				if b == nil {
					c.fail("served-where-configured", c.site(ev), "the listener is "+t.String())
					continue
				}
				sockets[b.ev] = true
				site := c.site(b.ev)
				c.same(And(g, b.ev.Guard), b.network, single(strTerm("tcp")), "every-ip-version", site)
				if !c.need(len(b.ev.Loops) == 1, "served-where-configured", site, "one for every section") {
					continue
				}
				m := term(sections)
				sec, _ := e.mapLoad(m, b.ev.Loops[0].bound, m.typ.Underlying().(*types.Map).Elem(), b.ev.Guard)
				c.same(iteration(And(s.ok, b.ev.Guard)), b.addr, e.field(sec, "Addr"), "served-where-configured", site)
			}
		}
	}
	c.need(len(sockets) > 0, "anchor", mk, "listeners are served")
	for ev := range sockets {
		rs := errorsOf(ev)
		if len(rs) == 1 {
			c.implies(iteration(And(s.ok, ev.Guard)), nilRes(rs[0]), "unbound-is-an-error", c.site(ev))
		}
	}
	c.apiReach()
}

func (c *Check) apiReach() {
	a := c.makeAPI()
	e := a.e
	run := c.methodOf(a.api.(*GV).alts[0].t.typ, "Run")
	n := len(e.events)
	e.callFn(run, []Val{a.api}, nil, a.ok, nil)
	e.drain()
	evs := e.events[n:]
	want := e.specAt(0, "APIAddr", a.cfg)
	over := False
	for _, ev := range evs {
		over = Or(over, endsWithFailure(ev))
	}
	served := False
	for _, ev := range evs {
		if ev.Kind != "call" || !isServe(ev.Name) && !isServeFunc(ev.Name) {
			continue
		}
		site := c.site(ev)
		served = Or(served, ev.Guard)
		switch {
		case strings.Contains(ev.Name, "ListenAndServe") && isServe(ev.Name):
			c.same(ev.Guard, e.atEv(ev, func() Val { return e.field(ev.Args[0], "Addr") }), want, "api-on-its-port", site)
		case strings.Contains(ev.Name, "ListenAndServe"):
			c.same(ev.Guard, ev.Args[0], want, "api-on-its-port", site)
		default:
			l := ev.Args[0]
			if isServe(ev.Name) {
				l = ev.Args[1]
			}
			for _, x := range alts(within(l, ev.Guard)) {
				b := c.bound(e, evs, x.t)
				if b == nil {
					c.fail("api-on-its-port", site, "the listener is "+x.t.String())
					continue
				}
				c.same(And(ev.Guard, x.g), b.network, single(strTerm("tcp")), "every-ip-version", c.site(b.ev))
				c.same(And(ev.Guard, x.g), b.addr, want, "api-on-its-port", c.site(b.ev))
			}
		}
		for _, r := range errorsOf(ev) {
			c.implies(And(ev.Guard, Not(nilRes(r))), over, "api-failure-ends-the-process", site)
		}
	}
	// What cannot be bound is not served, and ends the process as well.
	c.implies(a.ok, Or(served, over), "api-on-its-port", c.fnSite(run))
	c.need(sat(served), "api-on-its-port", c.fnSite(run))
}
