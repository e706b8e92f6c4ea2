package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&rule{id: "C04", technique: "abstract interpretation of the Cache-Control parsers over shapes of strings (constants, names in any letter case, blanks, tokens, numbers, malformed arguments), compared with the specified result; comparison of the header values they get with the specification",
		about: "for every sequence of up to two (thorough: three) directives of every kind, with any blanks, letter case, argument and quotes, the parsed directives are the specified ones; the parsers get all lines of the header; dates are accepted in the three formats",
		min:   1000,
		run:   runDirectives})
}

// directive is an element of a Cache-Control header.
type directive struct {
	text *Term // without the comma
	name string
	kind string // bare, value, invalid, unknown
	val  *Term
}

const lastSecond = int64(1)<<31 - 1

// directivesAt are the kinds of elements at position i of a header.
func directivesAt(i int, flags, durations []string) []directive {
	id := strconv.Itoa(i)
	var out []directive
	cat := func(ts ...*Term) *Term {
		return ofPieces(append(append([]*Term{piece("ws", id+"a")}, ts...), piece("ws", id+"b")))
	}
	k := strTerm
	add := func(name, kind string, val *Term, ts ...*Term) {
		out = append(out, directive{cat(ts...), name, kind, val})
	}
	for _, f := range flags {
		add(f, "bare", nil, piece("case:"+f, id))
		add(f, "bare", nil, piece("case:"+f, id), k(`="`), piece("tok", id), k(`"`)) // arguments are ignored
	}
	secs := mulT(numberOf(piece("num", id)), 1_000_000_000, types.Typ[types.Int])
	for _, d := range durations {
		n := piece("case:"+d, id)
		eq := k("=")
		add(d, "value", secs, n, eq, piece("num", id))
		add(d, "value", secs, n, k(`="`), piece("num", id), k(`"`))
		add(d, "big", nil, n, eq, piece("big", id))
		add(d, "invalid", nil, n, eq, piece("bad", id))
		add(d, "invalid", nil, n, k(`="`), piece("bad", id), k(`"`))
		add(d, "invalid", nil, n, k(`=-`), piece("num", id))
		if d != "max-stale" { // no value, or an empty one
			add(d, "invalid", nil, n, eq)
		}
		add(d, "invalid", nil, n, k(`=""`))
		if d == "max-stale" {
			add(d, "any", nil, n)
		} else {
			add(d, "invalid", nil, n)
		}
	}
	add("", "unknown", nil)
	add("", "unknown", nil, piece("tok", id))
	add("", "unknown", nil, piece("tok", id), k("="), piece("num", id))
	add("", "unknown", nil, piece("tok", id), k(`="`), piece("tok", id+"v"), k(`"`))
	return out
}

// almostDirectives only begin or end with a known name.
func almostDirectives(i int, names []string) []directive {
	id := strconv.Itoa(i)
	var out []directive
	for _, n := range names {
		known := piece("case:"+n, id)
		for _, ts := range [][]*Term{
			{known, strTerm(";"), piece("tok", id)},
			{known, strTerm(" "), piece("tok", id)},
			{known, strTerm("-x="), piece("num", id)},
			{strTerm("x-"), known},
			{strTerm("x-"), known, strTerm("="), piece("num", id)},
		} {
			ts = append(append([]*Term{piece("ws", id+"a")}, ts...), piece("ws", id+"b"))
			out = append(out, directive{ofPieces(ts), "", "unknown", nil})
		}
	}
	return out
}

type parser struct {
	fn    *ssa.Function
	typ   types.Type
	flags map[string][]string // field: directives
	durs  map[string][]string // field: directives, the first wins over the others
}

func (c *Check) parseHeader(p *parser, list []directive) (r Val, err string) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(unresolved); ok {
				err = u.what + " is not decided"
				return
			}
			panic(x)
		}
	}()
	var ps []*Term
	for i, d := range list {
		if i > 0 {
			ps = append(ps, strTerm(","))
		}
		ps = append(ps, d.text)
	}
	e := newEval(c.P)
	e.peel = true
	if len(c.evals) < 4 {
		c.evals = append(c.evals, e)
	}
	v, _ := e.callFn(p.fn, []Val{single(ofPieces(ps))}, nil, True, nil)
	return v, ""
}

func (c *Check) checkHeader(p *parser, list []directive) {
	site := c.fnSite(p.fn)
	show := func() string {
		var out []string
		for _, d := range list {
			out = append(out, d.text.String())
		}
		return "header: " + strings.Join(out, " , ")
	}
	r, err := c.parseHeader(p, list)
	if err != "" {
		c.fail("directives-are-understood", site, err, show())
		return
	}
	of := func(names []string) (ds []directive) {
		for _, n := range names {
			for _, d := range list {
				if d.name == n {
					ds = append(ds, d)
				}
			}
		}
		return
	}
	for f, names := range p.flags {
		want := len(of(names)) > 0
		got := asBool(structField(r, p.typ, f))
		c.need(got == boolB(want), "directives-are-understood", site, fmt.Sprintf("%s is %s, not %v", f, bstr(got, 4), want), show())
	}
	for f, names := range p.durs {
		var allowed []func(*Term) bool
		var text []string
		never := func(t *Term) bool { n, ok := t.isInt(); return ok && n.Sign() < 0 }
		for _, n := range names {
			ds := of([]string{n})
			invalid := false
			for _, d := range ds {
				switch d.kind {
				case "value":
					allowed = append(allowed, func(t *Term) bool { return eqT(t, d.val) == True })
					text = append(text, d.val.String())
				case "big":
					allowed = append(allowed, func(t *Term) bool {
						n, ok := t.isInt()
						return ok && n.IsInt64() && n.Int64() >= lastSecond*1_000_000_000
					})
					text = append(text, "the largest duration")
				case "any":
					allowed = append(allowed, func(t *Term) bool { n, ok := t.isInt(); return ok && n.IsInt64() && n.Int64() == 1<<63-1 })
					text = append(text, "any")
				default:
					invalid = true
				}
			}
			if len(allowed) > 0 {
				// Of repeated directives any may count, also one without a meaning.
				if invalid && len(names) == 1 {
					allowed = append(allowed, never)
				}
				break
			}
		}
		if len(allowed) == 0 {
			allowed, text = append(allowed, never), append(text, "unset")
		}
		got := structField(r, p.typ, f)
		ok := true
		for _, a := range alts(got) {
			if !sat(a.g) {
				continue
			}
			one := false
			for _, w := range allowed {
				one = one || w(a.t)
			}
			ok = ok && one
		}
		c.need(ok, "directives-are-understood", site, f+" is "+limit(vstr(got), 300)+", not "+strings.Join(text, " or "), show())
	}
}

func runDirectives(c *Check) {
	req := &parser{c.P.Func("cache", "ParseRequestCacheControl"), c.P.Named("cache", "RequestCacheControl"),
		map[string][]string{"MustValidate": {"no-cache"}, "NoStore": {"no-store"}, "NoTransform": {"no-transform"}, "OnlyIfCached": {"only-if-cached"}},
		map[string][]string{"MaxAge": {"max-age"}, "MinFresh": {"min-fresh"}, "MaxStale": {"max-stale"}}}
	res := &parser{c.P.Func("cache", "ParseResponseCacheControl"), c.P.Named("cache", "ResponseCacheControl"),
		map[string][]string{"MustValidate": {"no-cache"}, "NoStore": {"no-store", "private"}, "NoTransform": {"no-transform"}, "NoStale": {"must-revalidate", "proxy-revalidate"}, "IsPublic": {"public"}},
		map[string][]string{"MaxAge": {"s-maxage", "max-age"}}}
	for _, p := range []*parser{req, res} {
		var flags, durs []string
		for _, n := range knownDirectives {
			for _, ns := range p.flags {
				for _, x := range ns {
					if x == n {
						flags = append(flags, n)
					}
				}
			}
			for _, ns := range p.durs {
				for _, x := range ns {
					if x == n {
						durs = append(durs, n)
					}
				}
			}
		}
		at := func(i int) []directive { return directivesAt(i, flags, durs) }
		n := 0
		for _, a := range at(0) {
			c.checkHeader(p, []directive{a})
			n++
			for _, b := range at(1) {
				c.checkHeader(p, []directive{a, b})
				n++
				if c.tier == "thorough" {
					for _, d := range at(2) {
						c.checkHeader(p, []directive{a, b, d})
						n++
					}
				}
			}
		}
		for _, a := range almostDirectives(0, append(append([]string{}, flags...), durs...)) {
			c.checkHeader(p, []directive{a})
			c.checkHeader(p, []directive{a, at(1)[0]})
			n += 2
		}
		// Long headers.
		for _, ks := range [][2]int{{0, 2}, {2, 0}, {1, 1}, {0, 9}, {9, 0}} {
			for k := range at(0) {
				var list []directive
				other := func(m int) {
					for ; m > 0; m-- {
						ds := at(len(list))
						list = append(list, ds[len(ds)-1-m%4])
					}
				}
				other(ks[0])
				list = append(list, at(len(list))[k])
				other(ks[1])
				c.checkHeader(p, list)
				n++
			}
		}
		c.tally("headers", n)
	}
	c.headerLines()
	c.dates()
}

// headerLines: what the parsers get.
func (c *Check) headerLines() {
	e := c.eval()
	e.Pure = parsers
	fn := c.P.Func("cache", "NewLookupRequest")
	args := e.params(fn)
	r := e.Run(fn, args, True)
	lr := c.P.Named("cache", "LookupRequest")
	got := e.load(term(r), lr, True)
	c.same(True, structField(got, lr, "ReqCacheControl"), e.specAt(0, "RequestCC", args[0]), "every-header-line-counts", c.fnSite(fn))

	n := 0
	for _, f := range []*ssa.Function{c.P.Func("cache", "NewLookupRequest"), c.P.Func("cache", "IsCacheableResponse"), c.P.Method("cache", "LookupRequest", "makeResult")} {
		e := c.eval()
		e.callHook = func(cc *callCtx) (Val, bool) {
			if !parsers[cc.name] {
				return nil, false
			}
			for _, a := range alts(cc.args[0]) {
				if !sat(And(cc.pc, a.g)) {
					continue
				}
				n++
				c.need(joinedLines(a.t), "every-header-line-counts", c.at(cc.pos()), "parsed is "+a.t.String())
			}
			return explode(e.pureCall(cc), cc.resType()), true
		}
		e.Run(f, e.params(f), True)
	}
	c.need(n >= 4, "anchor", "pkg/cache", "uses of the parsers")
}

// joinedLines: all lines of the Cache-Control or Pragma header, joined.
func joinedLines(t *Term) bool {
	if s, ok := t.isStr(); ok {
		return s == ""
	}
	if t.op != "call" || t.sym != "strings.Join" {
		return false
	}
	sep, ok := t.args[1].isStr()
	return ok && strings.TrimSpace(sep) == "," && (strings.Contains(t.args[0].String(), `"Cache-Control"`) || strings.Contains(t.args[0].String(), `"Pragma"`))
}

// dates: a date in one of the formats of HTTP is understood, anything else is
// the zero time.
func (c *Check) dates() {
	e := c.eval()
	fn := c.P.Func("cache", "parseHttpTime")
	args := e.params(fn)
	r := e.Run(fn, args, True)
	layouts := []string{"Mon, 02 Jan 2006 15:04:05 GMT", "Monday, 02-Jan-06 15:04:05 GMT", "Mon Jan _2 15:04:05 2006"}
	tt := fn.Signature.Results().At(0).Type()
	nonEmpty := Not(eqT(term(args[0]), strTerm("")))
	var oks []B
	var vals []Val
	for _, l := range layouts {
		p := mk("call", "time.Parse", nil, []*Term{strTerm(l), term(args[0])})
		oks = append(oks, eqT(mk("comp", "1", types.Universe.Lookup("error").Type(), []*Term{p}), nilTerm()))
		vals = append(vals, compTerm(p, 0, tt))
	}
	none := True
	for i := range layouts {
		g := And(nonEmpty, oks[i])
		for j := range layouts {
			if j != i {
				g = And(g, Not(oks[j])) // the formats exclude one another
			}
		}
		none = And(none, Not(oks[i]))
		c.same(g, r, vals[i], "dates-are-understood", c.fnSite(fn))
	}
	c.same(none, r, single(zeroTime()), "dates-are-understood", c.fnSite(fn))
	c.same(Not(nonEmpty), r, single(zeroTime()), "dates-are-understood", c.fnSite(fn))
}
