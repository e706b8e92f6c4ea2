package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check collects the obligations of one property.
type Check struct {
	P     *Program
	ID    string
	tier  string
	obls  []obligation
	evals []*Eval
	count map[string]int
	notes []string
	units map[string]bool // further analysed units (files, tables)
}

type obligation struct {
	rule, site, detail string
	ok                 bool
}

type rule struct {
	id        string
	technique string
	about     string // what was analysed, and the rule
	run       func(c *Check)
	deep      func(c *Check) // in addition, for the thorough tier
	min       int            // least number of obligations on the confirmed tree
	noFork    bool
}

var rules = map[string]*rule{}

func register(r *rule) { rules[r.id] = r }

// need records an obligation and its verdict.
func (c *Check) need(ok bool, rule, site string, detail ...string) bool {
	c.obls = append(c.obls, obligation{rule, site, strings.Join(detail, "; "), ok})
	return ok
}

// implies records the obligation that g implies s (guards over the same terms).
func (c *Check) implies(g, s B, rule, site string) bool {
	bad := And(g, Not(s))
	bad, ok := feasible(bad)
	if !ok {
		return c.need(true, rule, site)
	}
	return c.need(false, rule, site, "possible when: "+wit(bad))
}

// same records the obligation that two values agree within pc.
func (c *Check) same(pc B, a, b Val, rule, site string) bool {
	d, ok := differs(pc, a, b)
	if !ok {
		return c.need(true, rule, site)
	}
	return c.need(false, rule, site, "differs when: "+wit(d), "code: "+limit(vstr(a), 500), "rule: "+limit(vstr(b), 500))
}

func (c *Check) fail(rule, site string, detail ...string) { c.need(false, rule, site, detail...) }

// borrow takes over the obligations of some rules of another analysis.
func (c *Check) borrow(run func(*Check), rules ...string) {
	o := &Check{P: c.P, ID: c.ID, tier: c.tier, count: map[string]int{}, units: map[string]bool{}}
	run(o)
	for _, b := range o.obls {
		for _, r := range rules {
			if b.rule == r {
				c.obls = append(c.obls, b)
			}
		}
	}
	c.evals = append(c.evals, o.evals...)
}

func (c *Check) tally(k string, n int) { c.count[k] += n }

// eval starts an abstract evaluation.
func (c *Check) eval() *Eval {
	e := newEval(c.P)
	c.evals = append(c.evals, e)
	return e
}

func (c *Check) at(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := c.P.prog.Fset.Position(p)
	if r, err := filepath.Rel(c.P.repo, q.Filename); err == nil {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (c *Check) site(ev *Event) string {
	s := c.at(ev.Pos)
	if ev.Fn != nil {
		s += " in " + shortFn(ev.Fn)
	}
	if len(ev.Stack) > 0 && ev.Stack[0] != ev.Fn {
		s += " from " + shortFn(ev.Stack[0])
	}
	return s
}

func (c *Check) fnSite(fn *ssa.Function) string { return c.at(fn.Pos()) + " in " + shortFn(fn) }

func shortFn(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), modPath+"/pkg/", "")
}

type violation struct {
	Rule   string `json:"rule"`
	Site   string `json:"site"`
	Detail string `json:"detail"`
}

// runCheck decides one property. It reports whether it holds.
func runCheck(P *Program, loadErr error, r *rule, tier, out string) bool {
	start := time.Now()
	c := &Check{P: P, ID: r.id, tier: tier, count: map[string]int{}, units: map[string]bool{}}
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch x := x.(type) {
				case unresolved:
					c.fail("anchor", x.what, "the anchor of the rule cannot be resolved in the analysed program")
				case budgetExceeded:
					c.fail("undecided", x.what, "the analysis exceeded its budget")
				default:
					if os.Getenv("KVET_TRACE") != "" {
						fmt.Println(string(debug.Stack()))
					}
					c.fail("undecided", fmt.Sprint(x), "the analysis could not interpret the program")
				}
			}
		}()
		if loadErr != nil {
			c.fail("load", loadErr.Error(), "the program does not type-check")
			return
		}
		r.run(c)
		if tier == "thorough" && r.deep != nil {
			r.deep(c)
		}
		if len(c.obls) < r.min {
			c.fail("vacuity", fmt.Sprintf("%d obligations", len(c.obls)), fmt.Sprintf("at least %d instances were confirmed for this rule", r.min))
		}
	}()
	var vs []violation
	byRule := map[string]int{}
	seen := map[string]bool{}
	for _, o := range c.obls {
		byRule[o.rule]++
		if !o.ok && !seen[o.rule+o.site] {
			seen[o.rule+o.site] = true
			vs = append(vs, violation{o.rule, o.site, o.detail})
		}
	}
	funcs := map[string]bool{}
	events := 0
	for _, e := range c.evals {
		events += len(e.events)
		for fn := range e.inlined {
			if !strings.HasPrefix(fnPkgPath(fn), specPath) && fn.Synthetic == "" {
				funcs[shortFn(fn)] = true
			}
		}
	}
	for f := range c.units {
		funcs[f] = true
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var open []violation
	for _, v := range vs {
		if k := known(r.id, v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, k)
			continue
		}
		open = append(open, v)
	}
	var samples []string
	for i, o := range c.obls {
		if i%max(1, len(c.obls)/12) == 0 {
			samples = append(samples, o.rule+" @ "+o.site)
		}
	}
	cov := map[string]interface{}{
		"explanation":        r.about,
		"obligations":        len(c.obls),
		"obligations_proved": len(c.obls) - len(vs),
		"by_rule":            byRule,
		"functions_analysed": len(fl),
		"functions":          fl,
		"effects_considered": events,
		"evaluations":        len(c.evals),
		"bdd_nodes":          len(bdd.nodes),
		"instances":          samples,
	}
	for k, n := range c.count {
		cov[k] = n
	}
	ev := map[string]interface{}{
		"property": r.id, "tier": tier, "seed": 1, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(),
		"assumptions": assumptions,
	}
	if len(open) > 0 {
		ev["violations"] = len(open)
	}
	writeJSON(filepath.Join(out, r.id+".json"), ev)
	if len(open) == 0 {
		fmt.Printf("%s holds: %d obligations in %d functions (%.1fs)\n", r.id, len(c.obls), len(fl), time.Since(start).Seconds())
		return true
	}
	path := filepath.Join(out, r.id+"-violation.txt")
	var sb strings.Builder
	for _, v := range open {
		fmt.Fprintf(&sb, "%s: rule %s broken at %s\n    %s\n", r.id, v.Rule, v.Site, v.Detail)
	}
	_ = os.WriteFile(path, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, path)
	return false
}

var assumptions = []string{
	"the module is type-checked and built as by the repository's own build (default tags, linux)",
	"library calls without a body in the module have no effect on the module's memory beyond what their model states",
	"values read twice without an intervening write of the analysed code are equal (interference is the subject of the lock rules)",
	"integers do not overflow",
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", "  ")
	if err != nil {
		panic(err)
	}
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		panic(err)
	}
}

var knownFile string

// known looks the violation up in the known findings: "open: property=ID rule=R site=FUNCTION what".
func known(id string, v violation) string {
	b, err := os.ReadFile(knownFile)
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "open:" || f[1] != "property="+id || f[2] != "rule="+v.Rule {
			continue
		}
		if s := strings.TrimPrefix(f[3], "site="); s != "" && strings.Contains(v.Site, s) {
			return strings.Join(f[4:], " ")
		}
	}
	return ""
}

func limit(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "…"
	}
	return s
}

// wit describes a case without the conditions that always hold for eligible requests.
func wit(b B) string {
	var out []string
	for _, l := range strings.Split(witness(b), " && ") {
		if strings.HasPrefix(l, `!("If-`) || strings.HasPrefix(l, `!("Range"`) || strings.HasPrefix(l, `!("Authorization"`) || strings.HasPrefix(l, "!(param.req1.") {
			continue
		}
		out = append(out, l)
	}
	return limit(strings.Join(out, " && "), 3000)
}
