package main

// flow is what depends on a source value: results of calls, and objects in
// memory, in the order of the effects of one evaluation.
type flow struct {
	e     *Eval
	t     map[*Term]bool // tainted terms (results, objects)
	reach map[*Event]bool
}

// flowFrom follows the value named src through the calls made after it.
// stop cuts the propagation at an event.
func (e *Eval) flowFrom(src []*Term, stop func(ev *Event) bool) *flow {
	f := &flow{e: e, t: map[*Term]bool{}, reach: map[*Event]bool{}}
	for _, s := range src {
		if s != nil {
			f.t[s] = true
		}
	}
	for _, ev := range e.events {
		if ev.Kind != "call" && ev.Kind != "exec" {
			continue
		}
		hit := false
		for _, a := range ev.Args {
			hit = hit || f.in(a, ev)
		}
		if !hit {
			continue
		}
		f.reach[ev] = true
		if stop != nil && stop(ev) {
			continue
		}
		if ev.RetT != nil {
			f.t[ev.RetT] = true
		}
		for _, a := range ev.Args {
			dataMentions(a, func(x *Term) bool {
				if x.op == "alloc" {
					f.t[x] = true
				}
				return false
			})
		}
	}
	return f
}

// in: the value depends on the source in the memory after n writes.
func (f *flow) in(v Val, ev *Event) bool {
	return f.in1(v, f.e.logAt(ev), map[*Term]bool{})
}

func (f *flow) in1(v Val, log []write, seen map[*Term]bool) bool {
	var objs []*Term
	hit := dataMentions(v, func(x *Term) bool {
		if x.op == "alloc" && !seen[x] {
			seen[x] = true
			objs = append(objs, x)
		}
		return f.t[x]
	})
	if hit {
		return true
	}
	for _, o := range objs {
		for i := range log {
			w := &log[i]
			if w.val != nil && root(w.addr) == o && f.in1(w.val, log, seen) {
				return true
			}
		}
	}
	return false
}

// dataMentions is mentions without the conditions of alternatives.
func dataMentions(v Val, p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rt func(t *Term) bool
	rt = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if p(t) {
			return true
		}
		for _, a := range t.args {
			if rt(a) {
				return true
			}
		}
		return false
	}
	switch v := v.(type) {
	case *GV:
		for _, a := range v.alts {
			if rt(a.t) {
				return true
			}
		}
	case *AV:
		for _, f := range v.f {
			if dataMentions(f, p) {
				return true
			}
		}
	}
	return false
}
