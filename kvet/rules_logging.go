package main

import (
	"go/types"
	"strings"
)

func init() {
	register(&rule{id: "C39", technique: "guarded value-numbering dataflow of the logger's setup: comparison of the writer, its file limits and the level of the global logger with the specification",
		about: "the global logger writes to a rotating file with the configured name, size, age and number of backups exactly if a file is configured, else to the standard error, as JSON exactly if the format is json, at the configured level; the setup always completes and runs before the modules are made",
		min:   10,
		run:   runLogging})
}

func runLogging(c *Check) {
	e := c.eval()
	e.Pure = parsers
	fn := c.P.Func("utils/logger", "InitLogger")
	site := c.fnSite(fn)
	as := e.params(fn)
	cfg := as[0]
	_, ret := e.callFn(fn, as, nil, True, nil)
	c.implies(True, ret, "setup-completes", site)
	file := each(True, []Val{e.spec("LogFile", cfg)}, func(g B, ts []*Term) Val { return single(ts[0]) })
	named := Not(isEmpty(file))
	json := asBool(e.spec("LogJSON", cfg))
	level := e.spec("LogLevel", cfg)
	var made []*Event
	n := 0
	for _, ev := range e.events {
		switch {
		case strings.HasSuffix(ev.Name, "rs/zerolog.New"):
			made = append(made, ev)
			c.writer(e, ev, ev.Args[0], cfg, named, json, False)
		case strings.HasSuffix(ev.Name, "rs/zerolog.SetGlobalLevel"):
			n++
			c.same(ev.Guard, ev.Args[0], level, "level-as-configured", c.site(ev))
		case strings.HasSuffix(ev.Name, "rs/zerolog.Logger).Level"):
			// A level of its own must not hide what the global one shows.
			c.same(ev.Guard, ev.Args[1], level, "level-as-configured", c.site(ev))
		}
	}
	c.need(n > 0, "level-as-configured", site, "the global level is set")
	used := False
	for _, ev := range e.events {
		if ev.Kind != "store" || !strings.Contains(ev.Addr.String(), "rs/zerolog/log.Logger") {
			continue
		}
		for _, m := range made {
			if m.RetT != nil && dataMentions(ev.Args[0], func(t *Term) bool { return t == m.RetT || t.op == "call" && strings.HasSuffix(t.sym, "rs/zerolog.New") }) {
				used = Or(used, And(ev.Guard, m.Guard))
			}
		}
		used = Or(used, And(ev.Guard, boolOf(dataMentions(ev.Args[0], func(t *Term) bool { return t.op == "call" && strings.HasSuffix(t.sym, "zerolog.New") }))))
	}
	c.implies(True, used, "global-logger-is-the-one-made", site)
	c.need(len(made) > 0, "anchor", site, "the logger is made")
}

func boolOf(b bool) B {
	if b {
		return True
	}
	return False
}

// writer: what a logger (or the console writer in front of it) writes to.
func (c *Check) writer(e *Eval, ev *Event, w, cfg Val, named, json, console B) {
	site := c.site(ev)
	for _, a := range alts(w) {
		g := And(ev.Guard, a.g)
		if !sat(g) {
			continue
		}
		t := a.t
		if t.op != "iface" {
			c.fail("writer", site, "the log is written to "+t.String())
			continue
		}
		typ := t.obj.(types.Type)
		p, name := namedPtr(typ)
		switch {
		case name == "ConsoleWriter" && strings.HasSuffix(p, "rs/zerolog"):
			c.implies(g, Not(json), "json-if-configured", site)
			v := single(t.args[0])
			var out Val
			if _, ptr := types.Unalias(typ).(*types.Pointer); ptr {
				out = e.atEv(ev, func() Val { return e.field(v, "Out") })
			} else {
				out = structField(v, typ, "Out")
			}
			in := *ev
			in.Guard = g
			c.writer(e, &in, out, cfg, named, json, True)
			continue
		case name == "Logger" && strings.HasSuffix(p, "lumberjack"):
			c.implies(g, named, "file-only-if-configured", site)
			for f, o := range map[string]string{"Filename": "File", "MaxSize": "MaxSize", "MaxBackups": "MaxBackups", "MaxAge": "MaxAge"} {
				c.same(And(g, named), e.atEv(ev, func() Val { return e.field(single(t.args[0]), f) }), e.atMem(0, func() Val { return e.field(cfg, o) }), "file-as-configured", site+" "+o)
			}
		case name == "File" && p == "os":
			c.implies(g, Not(named), "file-if-configured", site)
			c.need(strings.HasSuffix(t.args[0].String(), "os.Stderr"), "else-standard-error", site, t.args[0].String())
		default:
			c.fail("writer", site, "the log is written to a "+typ.String())
			continue
		}
		if console == False {
			c.implies(g, json, "console-unless-json", site)
		}
	}
}
