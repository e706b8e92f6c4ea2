package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register(&rule{id: "C27", technique: "guarded value-numbering dataflow of every handler the API registers, composed with its route; must-happen, status and effect rules over the endpoints",
		about: "purge, invalidate, flush, key listing, config reading and config update exist at their method and path; removals happen only on their method and with the key of the request, are answered 200 exactly if they succeeded and 404 otherwise, other methods 405; reading endpoints change nothing; an update is applied once, only after reading and decoding without an error, and is answered 400 otherwise; a failed reload is answered 400",
		min:   40,
		run:   runAdmin})
	register(&rule{id: "C31", technique: "guarded value-numbering dataflow of every handler the API registers and of the broadcast; table agreement of broadcast targets and routes; ordering rules",
		about: "the endpoint a broadcast targets is registered with that method and path, and its handler broadcasts nothing for a marked request; a broadcast happens only, and always, after its effect on this node succeeded; purges are broadcast only with a cluster and a layered cache",
		min:   12,
		run:   runEcho})
}

// normPath is a path up to what path.Join cleans: its parts, and whether it
// starts with a slash (1 yes, 0 no, -1 unknown).
type normPath struct {
	parts  []string
	rooted int
}

func (n normPath) String() string { return fmt.Sprint(n.rooted, n.parts) }

// normPaths are the cases of a path, by what decides them.
type pathCase struct {
	g B
	n normPath
}

func normalPaths(t *Term, g B) []pathCase {
	if !sat(g) {
		return nil
	}
	if t.op == "ite" {
		var out []pathCase
		for i, x := range t.args {
			out = append(out, normalPaths(x, And(g, t.bs[i]))...)
		}
		return out
	}
	each1 := func(x *Term, f func(normPath) normPath) []pathCase {
		out := normalPaths(x, g)
		for i := range out {
			out[i].n = f(out[i].n)
		}
		return out
	}
	if s, ok := t.isStr(); ok {
		n := normPath{}
		if strings.HasPrefix(s, "/") {
			n.rooted = 1
		}
		for _, p := range strings.Split(s, "/") {
			if p != "" && p != "." {
				n.parts = append(n.parts, p)
			}
		}
		return []pathCase{{g, n}}
	}
	join := func(ts []*Term) []pathCase {
		out := []pathCase{{g, normPath{rooted: 2}}}
		for _, a := range ts {
			if s, ok := a.isStr(); ok && s == "" {
				continue
			}
			var next []pathCase
			for _, o := range out {
				for _, x := range normalPaths(a, o.g) {
					n := normPath{rooted: o.n.rooted, parts: append(append([]string(nil), o.n.parts...), x.n.parts...)}
					if n.rooted == 2 {
						n.rooted = x.n.rooted
					}
					next = append(next, pathCase{x.g, n})
				}
			}
			out = next
		}
		for i := range out {
			if out[i].n.rooted == 2 {
				out[i].n.rooted = 0
			}
		}
		return out
	}
	slash := strTerm("/")
	switch {
	case t.op == "call" && t.sym == "path.Join":
		if ts, ok := elems(t.args[0]); ok {
			return join(ts)
		}
		return join(t.args)
	case t.op == "call" && t.sym == "path.Clean":
		return normalPaths(t.args[0], g)
	case t.op == "cat":
		// Parts that meet at a slash.
		n := len(t.args)
		ok := true
		for i := 0; i+1 < n; i++ {
			a, aok := t.args[i].isStr()
			b, bok := t.args[i+1].isStr()
			ok = ok && (aok && strings.HasSuffix(a, "/") || bok && strings.HasPrefix(b, "/"))
		}
		if ok {
			return join(t.args)
		}
	case t.op == "slice" && t.args[1].sym == "i:0":
		// Without the slash at its end.
		x := t.args[0]
		last := subT(lenT(x), intTerm(1), types.Typ[types.Int])
		if t.args[2] == last {
			is := Or(eqAny(single(mk("idx", "", types.Typ[types.Uint8], []*Term{x, last})), intTerm('/')),
				atom(mk("call", "strings.HasSuffix", types.Typ[types.Bool], []*Term{x, slash})))
			if implies(g, is) {
				return normalPaths(x, g)
			}
		}
	case t.op == "call" && (t.sym == "strings.TrimSuffix" || t.sym == "strings.TrimRight") && t.args[1] == slash:
		return normalPaths(t.args[0], g)
	case t.op == "call" && (t.sym == "strings.TrimPrefix" || t.sym == "strings.TrimLeft" || t.sym == "strings.Trim") && t.args[1] == slash:
		return each1(t.args[0], func(n normPath) normPath { n.rooted = 0; return n })
	}
	n := normPath{parts: []string{"<" + t.String() + ">"}, rooted: -1}
	if implies(g, affixB(t, "/")) {
		n.rooted = 1
	}
	return []pathCase{{g, n}}
}

// pathsMeet: where the two are the same path.
func pathsMeet(a, b Val, g B) B {
	r := False
	for _, p := range normalPaths(term(a), g) {
		for _, q := range normalPaths(term(b), p.g) {
			if strings.Join(p.n.parts, "/") == strings.Join(q.n.parts, "/") && p.n.rooted != 0 && q.n.rooted != 0 {
				r = Or(r, q.g)
			}
		}
	}
	return r
}

// affixB: the text starts with a slash, as the code may have asked for it.
func affixB(t *Term, p string) B {
	at := eqAny(single(mk("idx", "", types.Typ[types.Uint8], []*Term{t, intTerm(0)})), intTerm(int64(p[0])))
	pre := atom(mk("call", "strings.HasPrefix", types.Typ[types.Bool], []*Term{t, strTerm(p)}))
	return Or(at, pre)
}

// endpoint is a route with the evaluation of its handler.
type endpoint struct {
	r    *route
	w    Val
	req  Val
	g    B // the route is registered and the filter admits
	m    B // the route accepts the method of the request
	ret  B
	evs  []*Event
	mem  int
	name string
}

// admin is the API of a running server.
type admin struct {
	s    *proxyServer
	a    *apiServer
	eps  []*endpoint
	base B
}

// makeAdmin composes the constructors of server and API with all handlers.
func (c *Check) makeAdmin() *admin {
	s := c.makeServer(true)
	e := s.e
	a := &apiServer{e: e}
	mk, nf := c.P.Func("api", "New"), c.P.Func("api", "NewIPFilter")
	rs := nf.Signature.Results()
	a.filter = e.param("filter", rs.At(0).Type())
	hook := func(cc *callCtx) (Val, bool) {
		if cc.fn == nf {
			return &AV{f: []Val{a.filter, single(nilTerm())}}, true
		}
		if cc.fn != nil && cc.fn.Signature.Recv() != nil {
			pk, n := namedPtr(cc.fn.Signature.Recv().Type())
			if pk == modPath+"/pkg/cache" && n == "HttpCache" {
				switch cc.fn.Name() {
				case "UpdateConfig", "Config":
					ev := e.event(&Event{Kind: "call", Guard: cc.pc, Name: "HttpCache." + cc.fn.Name(), Fn: cc.caller(), Pos: cc.pos(), Args: cc.args, Common: cc.common})
					if cc.resType() == nil {
						return nil, true
					}
					v := e.param("currentConfig", cc.resType())
					ev.Ret = v
					return v, true
				}
			}
		}
		return nil, false
	}
	prev := e.callHook
	e.callHook = hook
	sp := mk.Signature.Params()
	cfgPtr := e.field(s.cfg, "API")
	cfg := e.load(term(cfgPtr), sp.At(0).Type(), True)
	n := len(e.events)
	v, _ := e.callFn(mk, []Val{cfg, s.srv}, nil, s.ok, nil)
	a.ok = nilRes(component(v, 1, compType(mk.Signature.Results(), 1)))
	a.cfg = cfg
	a.site = c.fnSite(mk)
	a.evs = e.events[n:]
	a.api = within(component(v, 0, compType(mk.Signature.Results(), 0)), And(s.ok, a.ok))
	ad := &admin{s: s, a: a, base: And(s.ok, a.ok)}
	c.need(sat(ad.base), "api-made", a.site)
	ps := c.serveHTTP().Type().(*types.Signature).Params()
	for _, r := range c.routes(a.evs) {
		ep := &endpoint{r: r, w: e.param("w", ps.At(0).Type()), req: e.param("request", ps.At(1).Type())}
		var adm B
		q := len(e.events)
		mem := len(e.log)
		adm, _ = c.admits(e, a.filter, ep.w, ep.req)
		e.events = e.events[:q]
		e.log = e.log[:mem:mem]
		ep.m = True
		if len(r.methods) > 0 {
			ep.m = False
			for _, m := range r.methods {
				ep.m = Or(ep.m, eqAny(e.field(ep.req, "Method"), strTerm(m)))
			}
		}
		ep.g = And(ad.base, r.g, adm)
		ep.mem = mem
		ep.name = strings.Join(r.methods, ",") + " " + r.path.String()
		q = len(e.events)
		ep.ret = c.handle(e, r.handler, ep.w, ep.req, And(ep.g, ep.m))
		e.drain()
		ep.evs = e.events[q:]
		keep := &capture{log: e.log}
		for _, ev := range ep.evs {
			if ev.capt == nil {
				ev.capt = keep
			}
		}
		// The next handler starts from the state after the construction.
		e.log = e.log[:mem:mem]
		ad.eps = append(ad.eps, ep)
	}
	e.callHook = prev
	return ad
}

// find is the endpoint at the method and the path below the prefix.
func (c *Check) find(ad *admin, method string, tail ...string) *endpoint {
	want := strings.Join(tail, "/")
	var out *endpoint
	for _, ep := range ad.eps {
		has := len(ep.r.methods) == 0
		for _, m := range ep.r.methods {
			has = has || m == method
		}
		if !has || ep.r.path == nil || ep.r.parent != nil {
			continue
		}
		at := pathsMeet(single(ep.r.path), single(strTerm("/")), And(ad.base, ep.r.g))
		if len(tail) > 0 {
			at = c.belowPrefix(ad, ep.r.path, ep.r.g, want)
		}
		if implies(And(ad.base, ep.r.g), at) {
			out = ep
		}
		if out != nil {
			break
		}
	}
	return out
}

// effects on the cache or its configuration.
func mutates(name string) string {
	for _, m := range []string{"Purge", "Flush", "Delete", "Set"} {
		if strings.HasSuffix(name, "provider.Provider)."+m) {
			return m
		}
	}
	if name == "HttpCache.UpdateConfig" {
		return "UpdateConfig"
	}
	return ""
}

func runAdmin(c *Check) {
	ad := c.makeAdmin()
	e := ad.s.e
	method := func(ep *endpoint) Val { return e.atMem(ep.mem, func() Val { return e.field(ep.req, "Method") }) }
	// What only reads, and what changes by which method.
	allowed := map[string][]string{
		"Purge":        {"PURGE", "DELETE"},
		"Delete":       {"PURGE", "DELETE"},
		"Flush":        {"DELETE"},
		"UpdateConfig": {"PUT"},
	}
	for _, ep := range ad.eps {
		for _, ev := range ep.evs {
			if ev.Kind != "call" {
				continue
			}
			if m := mutates(ev.Name); m != "" {
				ok := False
				for _, x := range allowed[m] {
					ok = Or(ok, eqAny(method(ep), strTerm(x)))
				}
				c.implies(ev.Guard, ok, "changes-only-on-its-method", c.site(ev)+" "+m)
			}
		}
	}
	// Removals.
	type rm struct {
		method string
		tail   []string
		effect string
	}
	done := map[*endpoint]bool{}
	for _, x := range []rm{
		{"PURGE", nil, "Purge"},
		{"DELETE", []string{"cache", "invalidate"}, "Purge"},
		{"DELETE", []string{"cache", "flush"}, "Flush"},
	} {
		ep := c.find(ad, x.method, x.tail...)
		if ep == nil {
			c.fail("endpoint-exists", ad.a.site, x.method+" /"+strings.Join(x.tail, "/"))
			continue
		}
		done[ep] = true
		site := c.site(ep.r.ev) + " " + ep.name
		c.implies(And(ad.base), ep.r.g, "endpoint-exists", site)
		c.need(len(ep.r.other) == 0, "endpoint-exists", site, strings.Join(ep.r.other, ","))
		c.need(!ep.r.prefix, "at-its-path-only", site)
		right := eqAny(method(ep), strTerm(x.method))
		run := And(ep.g, ep.m, right)
		c.need(sat(run), "endpoint-exists", site)
		rp := replies(ep.evs, ep.w)
		did, okd := False, False
		for _, ev := range ep.evs {
			if ev.Kind != "call" {
				continue
			}
			m := mutates(ev.Name)
			if m == "" {
				continue
			}
			c.implies(ev.Guard, right, "changes-only-on-its-method", c.site(ev)+" "+m)
			c.need(m == x.effect, "does-what-it-says", c.site(ev), m)
			c.need(len(ev.Loops) == 0 && !sat(And(did, ev.Guard)), "does-what-it-says", c.site(ev), "repeated")
			c.same(ev.Guard, ev.Args[0], ad.s.cache, "on-the-cache-in-use", c.site(ev))
			if x.effect == "Purge" {
				c.same(ev.Guard, ev.Args[2], e.specAt(ep.mem, "PurgeKey", ep.req), "key-of-the-request", c.site(ev))
			}
			c.liveContext(ev)
			did = Or(did, ev.Guard)
			okd = Or(okd, And(ev.Guard, nilRes(ev.Ret)))
		}
		c.implies(run, did, "does-what-it-says", site)
		c.implies(run, ep.ret, "always-answered", site)
		c.answers(And(run, okd), rp, 200, "success-is-200", site)
		c.answers(And(run, did, Not(okd)), rp, 404, "failure-is-404", site)
		// The handler decides on the method by itself, too: it is exported.
		q := len(e.events)
		wrong := And(ep.g, Not(right))
		save := e.log
		e.log = e.log[:ep.mem:ep.mem]
		c.handle(e, ep.r.handler, ep.w, ep.req, wrong)
		e.drain()
		e.log = save
		for _, ev := range e.events[q:] {
			if ev.Kind == "call" && mutates(ev.Name) != "" {
				c.fail("changes-only-on-its-method", c.site(ev)+" "+mutates(ev.Name))
			}
		}
		c.answers(wrong, replies(e.events[q:], ep.w), 405, "other-methods-are-405", site)
		for _, r := range rp {
			c.implies(And(r.g, right), did, "answered-when-done", c.site(r.ev))
		}
	}
	// Reading.
	for _, x := range []struct {
		tail []string
		src  string
	}{{[]string{"cache", "keys"}, "Keys"}, {[]string{"cache", "config"}, "Config"}} {
		ep := c.find(ad, "GET", x.tail...)
		if ep == nil {
			c.fail("endpoint-exists", ad.a.site, "GET /"+strings.Join(x.tail, "/"))
			continue
		}
		done[ep] = true
		site := c.site(ep.r.ev) + " " + ep.name
		c.implies(ad.base, ep.r.g, "endpoint-exists", site)
		c.need(len(ep.r.other) == 0, "endpoint-exists", site, strings.Join(ep.r.other, ","))
		right := eqAny(method(ep), strTerm("GET"))
		run := And(ep.g, ep.m, right)
		c.need(sat(run), "endpoint-exists", site)
		shown := False
		for _, ev := range ep.evs {
			if ev.Kind != "call" {
				continue
			}
			m := mutates(ev.Name)
			c.need(m == "", "reading-changes-nothing", c.site(ev), m)
			if encodesJSON(ev.Name) {
				for _, src := range ep.evs {
					var v Val
					switch {
					case x.src == "Keys" && strings.HasSuffix(src.Name, "provider.Provider).Keys"):
						c.same(src.Guard, src.Args[2], single(strTerm("")), "all-keys", c.site(src))
						c.same(src.Guard, src.Args[0], ad.s.cache, "on-the-cache-in-use", c.site(src))
						v = src.Ret
					case x.src == "Config" && src.Name == "HttpCache.Config":
						v = src.Ret
					default:
						continue
					}
					if src.Seq < ev.Seq && mentions(ev.Args[len(ev.Args)-1], func(t *Term) bool { return t == term(v) }) {
						shown = Or(shown, And(ev.Guard, src.Guard))
					}
				}
			}
		}
		c.implies(run, shown, "shows-what-it-says", site)
		c.implies(run, ep.ret, "always-answered", site)
		for _, r := range replies(ep.evs, ep.w) {
			if r.status != nil {
				// A status is set only if there was an error.
				bad := False
				for _, ev := range ep.evs {
					if ev.Seq < r.ev.Seq && ev.Ret != nil {
						for _, er := range errorsOf(ev) {
							bad = Or(bad, And(ev.Guard, Not(nilRes(er))))
						}
					}
				}
				c.implies(And(r.g, right), Or(bad, eqAny(r.status, intTerm(200))), "success-is-200", c.site(r.ev))
			}
		}
	}
	// Update.
	ep := c.find(ad, "PUT", "cache", "config", "update")
	if ep == nil {
		c.fail("endpoint-exists", ad.a.site, "PUT /cache/config/update")
	} else {
		done[ep] = true
		c.updates(ad, ep)
	}
	c.tally("endpoints", len(ad.eps))
	var names []string
	for _, ep := range ad.eps {
		if !done[ep] {
			names = append(names, ep.name)
		}
	}
	sort.Strings(names)
	c.tally("other endpoints without effects", len(names))
	c.registers(ad)
	c.reloadEndpoint()
}

// registers: a route registered later is at its method and below the prefix.
func (c *Check) registers(ad *admin) {
	e := ad.s.e
	reg := c.P.Method("api", "API", "RegisterRoute")
	site := c.fnSite(reg)
	q := len(e.events)
	h := e.params(reg)[3]
	_, ret := e.callFn(reg, []Val{ad.a.api, single(strTerm("POST")), single(strTerm("/x/y")), h}, nil, ad.base, nil)
	c.implies(ad.base, ret, "registers-what-it-is-told", site)
	late := map[*Event]bool{}
	for _, ev := range e.events[q:] {
		late[ev] = true
	}
	rs := c.routes(append(append([]*Event(nil), ad.a.evs...), e.events[q:]...))
	ps := c.serveHTTP().Type().(*types.Signature).Params()
	g := False
	for _, r := range rs {
		if r.handler == nil || !late[r.ev] {
			continue
		}
		rsite := c.site(r.ev)
		c.need(len(r.methods) == 1 && r.methods[0] == "POST", "registers-what-it-is-told", rsite, strings.Join(r.methods, ","))
		c.need(len(r.other) == 0 && r.parent == nil && !r.prefix, "registers-what-it-is-told", rsite)
		g = Or(g, And(r.g, c.belowPrefix(ad, r.path, r.g, "/x/y")))
		w, req := e.param("w", ps.At(0).Type()), e.param("request", ps.At(1).Type())
		n := len(e.events)
		c.handle(e, r.handler, w, req, And(ad.base, r.g))
		runs := False
		for _, ev := range e.events[n:] {
			if ev.Kind == "call" && (ev.Name == "dyncall" || strings.HasSuffix(ev.Name, "Handler).ServeHTTP") || strings.HasSuffix(ev.Name, "HandlerFunc).ServeHTTP")) && term(strip(ev.Args[0])) == term(strip(h)) {
				runs = Or(runs, ev.Guard)
			}
		}
		c.implies(And(ad.base, r.g), runs, "registers-what-it-is-told", rsite)
	}
	c.implies(ad.base, g, "registers-what-it-is-told", site)
}

// belowPrefix: where the path of a route is p below the configured prefix.
func (c *Check) belowPrefix(ad *admin, path *Term, g B, p string) B {
	e := ad.s.e
	return pathsMeet(single(path), e.specAt(0, "APIPath", ad.a.cfg, single(strTerm(p))), And(ad.base, g))
}

// errorsOf are the errors a call returns.
func errorsOf(ev *Event) []Val {
	var out []Val
	if ev.Common == nil {
		return nil
	}
	sig := ev.Common.Signature()
	rs := sig.Results()
	for i := 0; i < rs.Len(); i++ {
		if rs.At(i).Type().String() != "error" {
			continue
		}
		if rs.Len() == 1 {
			out = append(out, ev.Ret)
		} else {
			out = append(out, component(ev.Ret, i, rs.At(i).Type()))
		}
	}
	return out
}

// liveContext: the effect is not bound to a context that ended already.
func (c *Check) liveContext(ev *Event) {
	if len(ev.Args) < 2 {
		return
	}
	c.need(!mentions(ev.Args[1], func(t *Term) bool { return t.op == "nil" }), "live-context", c.site(ev), vstr(ev.Args[1]))
	// The client may leave.
	for _, a := range alts(ev.Args[1]) {
		if sat(And(ev.Guard, a.g)) {
			c.need(outlivesRequest(a.t), "not-cut-short", c.site(ev), a.t.String())
		}
	}
}

// outlivesRequest: the context does not end with a request.
func outlivesRequest(t *Term) bool {
	if strings.HasPrefix(t.sym, "context.WithoutCancel") {
		return true
	}
	if t.op == "load" && fieldName(t.args[0]) == "ctx" {
		return false
	}
	for _, a := range t.args {
		if !outlivesRequest(a) {
			return false
		}
	}
	return true
}

func (c *Check) updates(ad *admin, ep *endpoint) {
	e := ad.s.e
	site := c.site(ep.r.ev) + " " + ep.name
	c.implies(ad.base, ep.r.g, "endpoint-exists", site)
	c.need(len(ep.r.other) == 0, "endpoint-exists", site, strings.Join(ep.r.other, ","))
	c.need(!ep.r.prefix, "at-its-path-only", site)
	run := And(ep.g, ep.m, eqAny(e.atMem(ep.mem, func() Val { return e.field(ep.req, "Method") }), strTerm("PUT")))
	c.need(sat(run), "endpoint-exists", site)
	did := False
	var upd []*Event
	for _, ev := range ep.evs {
		if ev.Kind == "call" && ev.Name == "HttpCache.UpdateConfig" {
			c.need(len(ev.Loops) == 0 && !sat(And(did, ev.Guard)), "applied-once", c.site(ev))
			did = Or(did, ev.Guard)
			upd = append(upd, ev)
		}
	}
	// Reading and decoding come first, and must not fail.
	failed, read, decoded := False, False, False
	for _, ev := range ep.evs {
		if ev.Kind != "call" {
			continue
		}
		isRead := ev.Name == "io.ReadAll" || ev.Name == "io/ioutil.ReadAll" || strings.HasSuffix(ev.Name, ".ReadFrom")
		isDec := strings.HasSuffix(ev.Name, "yaml.v3.Decoder).Decode") || ev.Name == "gopkg.in/yaml.v3.Unmarshal"
		if !isRead && !isDec {
			continue
		}
		for _, er := range errorsOf(ev) {
			bad := And(ev.Guard, Not(nilRes(er)))
			failed = Or(failed, bad)
			c.implies(bad, Not(did), "applied-completely-or-not-at-all", c.site(ev))
		}
		if isRead {
			read = Or(read, ev.Guard)
			c.same(ev.Guard, ev.Args[0], e.atMem(ep.mem, func() Val { return e.field(ep.req, "Body") }), "body-of-the-request", c.site(ev))
		}
		if isDec {
			decoded = Or(decoded, ev.Guard)
			for _, u := range upd {
				c.need(ev.Seq < u.Seq, "applied-completely-or-not-at-all", c.site(u))
				x := ev.Args[len(ev.Args)-1]
				if t := term(x); t.op == "iface" {
					x = single(t.args[0])
				}
				c.same(And(ev.Guard, u.Guard), u.Args[1], x, "applies-what-was-sent", c.site(u))
			}
		}
	}
	for _, u := range upd {
		c.implies(u.Guard, decoded, "applies-what-was-sent", c.site(u))
		c.same(u.Guard, u.Args[0], e.atMem(ep.mem, func() Val { return ad.httpcache() }), "on-the-cache-in-use", c.site(u))
	}
	c.need(sat(And(run, failed)), "both-outcomes", site)
	c.implies(run, Or(failed, did), "does-what-it-says", site)
	c.implies(run, ep.ret, "always-answered", site)
	rp := replies(ep.evs, ep.w)
	c.answers(And(run, did), rp, 200, "success-is-200", site)
	c.answers(And(run, Not(did)), rp, 400, "failure-is-400", site)
}

// httpcache is the HTTP cache the server was made with.
func (ad *admin) httpcache() Val {
	return ad.s.hc
}

// reloadEndpoint: what the process registers besides.
func (c *Check) reloadEndpoint() {
	e := c.eval()
	e.Pure = parsers
	fn := c.P.Method("kache", "Kache", "Run")
	reg := c.P.Method("api", "API", "RegisterRoute")
	load := c.P.Method("config", "Loader", "Load")
	var found []*callCtx
	var pcs []B
	e.callHook = func(cc *callCtx) (Val, bool) {
		if cc.fn == reg {
			d := *cc
			found = append(found, &d)
			pcs = append(pcs, cc.pc)
			return nil, true
		}
		if cc.fn == load {
			ev := e.event(&Event{Kind: "call", Guard: cc.pc, Name: "Loader.Load", Fn: cc.caller(), Pos: cc.pos(), Args: cc.args, Common: cc.common})
			err := e.fresh("loadErr", cc.resType().(*types.Tuple).At(1).Type(), nil)
			ch := e.fresh("changed", types.Typ[types.Bool], nil)
			ev.Ret = &AV{f: []Val{atom(ch), single(err)}}
			return ev.Ret, true
		}
		return nil, false
	}
	e.callFn(fn, e.params(fn), nil, True, nil)
	ps := c.serveHTTP().Type().(*types.Signature).Params()
	ok := false
	for i, cc := range found {
		m, _ := term(cc.args[1]).isStr()
		p := normPath{}
		if ps := normalPaths(term(cc.args[2]), pcs[i]); len(ps) > 0 {
			p = ps[0].n
		}
		if strings.Join(p.parts, "/") != "cache/config/reload" {
			continue
		}
		ok = true
		site := c.at(cc.pos()) + " " + m + " /" + strings.Join(p.parts, "/")
		c.need(m == "POST", "endpoint-exists", site)
		w, r := e.param("w", ps.At(0).Type()), e.param("request", ps.At(1).Type())
		n := len(e.events)
		ret := c.handle(e, cc.args[3], w, r, pcs[i])
		rp := replies(e.events[n:], w)
		loads := False
		for _, ev := range e.events[n:] {
			if ev.Kind == "call" && ev.Name == "Loader.Load" {
				loads = Or(loads, ev.Guard)
				err := ev.Ret.(*AV).f[1]
				c.answers(And(ev.Guard, Not(nilRes(err))), rp, 400, "failed-reload-is-400", site)
				c.answers(And(ev.Guard, nilRes(err)), rp, 200, "success-is-200", site)
			}
		}
		c.implies(pcs[i], And(loads, ret), "does-what-it-says", site)
	}
	c.need(ok, "endpoint-exists", c.fnSite(fn), "POST /cache/config/reload")
}

func runEcho(c *Check) {
	// The mark of a broadcast.
	mark := c.broadcastMark()
	c.borrow((*Check).broadcasts, "marked-as-broadcast", "method-as-given")
	ad := c.makeAdmin()
	e := ad.s.e
	type cast struct {
		ep   *endpoint
		ev   *Event
		kind string
	}
	var casts []cast
	for _, ep := range ad.eps {
		for _, ev := range ep.evs {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "cluster.Connection).Broadcast") {
				casts = append(casts, cast{ep: ep, ev: ev})
			}
		}
	}
	c.tally("broadcasts", len(casts))
	c.need(len(casts) > 0, "broadcasts", ad.a.site)
	field := func(ep *endpoint, f string) Val { return e.atMem(ep.mem, func() Val { return e.field(ep.req, f) }) }
	cluster := And(Not(nilRes(e.field(ad.s.cfg, "Cluster"))), Not(nilRes(ad.s.conn)))
	layered := asBool(e.field(e.field(ad.s.cfg, "Provider"), "Layered"))
	isSet := func(ep *endpoint) B {
		return asBool(e.specAt(ep.mem, "Marked", ep.req, single(strTerm(mark))))
	}
	for _, x := range casts {
		ev, ep := x.ev, x.ep
		site := c.site(ev)
		c.need(len(ev.Loops) == 0, "broadcast-once", site)
		c.implies(And(ev.Guard, Not(nilRes(ad.s.conn))), cluster, "only-in-a-cluster", site)
		c.same(ev.Guard, ev.Args[0], ad.s.conn, "only-in-a-cluster", site)
		c.same(ev.Guard, ev.Args[1], ep.req, "broadcasts-its-request", site)
		// After it took effect here.
		took := False
		purge := false
		for _, y := range ep.evs {
			if y.Kind != "call" || y.Seq >= ev.Seq || y.Thread != ev.Thread {
				continue
			}
			switch m := mutates(y.Name); m {
			case "":
			case "UpdateConfig":
				took = Or(took, y.Guard)
			default:
				took = Or(took, And(y.Guard, nilRes(y.Ret)))
				purge = true
			}
		}
		c.implies(ev.Guard, took, "took-effect-first", site)
		if purge {
			c.implies(ev.Guard, layered, "purges-only-if-layered", site)
		}
		// The request goes to an existing endpoint, which is silent.
		meth, pth := ev.Args[3], ev.Args[4]
		hit := False
		var targets []*endpoint
		for _, ep2 := range ad.eps {
			if ep2.r.path == nil || ep2.r.parent != nil {
				continue
			}
			mOK := False
			if len(ep2.r.methods) == 0 {
				mOK = True
			}
			for _, m := range ep2.r.methods {
				mOK = Or(mOK, eqAny(meth, strTerm(m)))
			}
			pOK := False
			own := same(pth, e.atMem(ep.mem, func() Val { return e.field(e.field(ep.req, "URL"), "Path") }))
			if ep2 == ep {
				pOK = own // a path of this very route
			}
			pOK = Or(pOK, pathsMeet(pth, single(ep2.r.path), ev.Guard))
			if sat(And(ev.Guard, mOK, pOK)) {
				targets = append(targets, ep2)
				if len(ep2.r.other) == 0 {
					hit = Or(hit, And(ep2.r.g, mOK, pOK))
				}
			}
		}
		c.implies(ev.Guard, hit, "target-is-registered", site)
		for _, t := range targets {
			for _, y := range t.evs {
				if y.Kind == "call" && strings.HasSuffix(y.Name, "cluster.Connection).Broadcast") {
					// A target of its own method and path only.
					c.implies(And(y.Guard, isSet(t)), False, "broadcasts-do-not-echo", c.site(y))
				}
			}
			// And it does what the sender did.
			eff := map[string]bool{}
			for _, y := range t.evs {
				if y.Kind == "call" && mutates(y.Name) != "" && sat(And(y.Guard, isSet(t))) {
					eff[mutates(y.Name)] = true
				}
			}
			for _, y := range ep.evs {
				if y.Kind == "call" && mutates(y.Name) != "" {
					c.need(eff[mutates(y.Name)], "same-effect-at-the-peer", c.site(y), t.name)
				}
			}
		}
		_ = field
	}
	// What must be broadcast.
	for _, x := range []struct {
		method string
		tail   []string
		extra  B
	}{
		{"PURGE", nil, layered},
		{"PUT", []string{"cache", "config", "update"}, True},
	} {
		ep := c.find(ad, x.method, x.tail...)
		if ep == nil {
			c.fail("endpoint-exists", ad.a.site, x.method)
			continue
		}
		took, sent := False, False
		for _, y := range ep.evs {
			if y.Kind != "call" {
				continue
			}
			switch m := mutates(y.Name); {
			case m == "UpdateConfig":
				took = Or(took, y.Guard)
			case m != "":
				took = Or(took, And(y.Guard, nilRes(y.Ret)))
			case strings.HasSuffix(y.Name, "cluster.Connection).Broadcast"):
				sent = Or(sent, y.Guard)
			}
		}
		c.implies(And(took, cluster, x.extra, Not(isSet(ep))), sent, "effects-are-broadcast", c.site(ep.r.ev)+" "+ep.name)
	}
}

// broadcastMark is the header that marks a broadcast: the one, besides the
// address of the sender, that a broadcast sets under a constant name.
func (c *Check) broadcastMark() string {
	const known = "X-Kache-Cluster"
	p := c.makeConn()
	fn := c.methodOf(p.typ, "Broadcast")
	as := p.e.params(fn)
	q := len(p.e.events)
	p.e.callFn(fn, append([]Val{p.conn}, as[1:]...), nil, p.ok, nil)
	names := map[string]bool{}
	for _, ev := range p.e.events[q:] {
		if ev.Kind != "mapwrite" || len(ev.Args) == 0 || !sat(ev.Guard) {
			continue
		}
		for _, a := range alts(ev.Args[0]) {
			if s, ok := a.t.isStr(); ok && s != "X-Forwarded-For" {
				names[s] = true
			}
		}
	}
	if len(names) == 1 {
		for s := range names {
			return s
		}
	}
	return known
}
