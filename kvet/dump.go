package main

import (
	"fmt"
	"strings"
)

// dump prints the effects of one function, for developing rules.
func dump(P *Program, pkg, name string, all bool) {
	e := newEval(P)
	e.Pure = parsers
	var v Val
	if i := strings.Index(name, "."); i > 0 {
		fn := P.Method(pkg, name[:i], name[i+1:])
		v = e.Run(fn, e.params(fn), True)
	} else {
		fn := P.Func(pkg, name)
		v = e.Run(fn, e.params(fn), True)
	}
	for _, ev := range e.events {
		if !all {
			switch ev.Kind {
			case "load", "store", "mapread", "mapwrite", "deref", "log", "enter", "return":
				continue
			}
		}
		fmt.Printf("%s %s", ev.Kind, ev.Name)
		for _, a := range ev.Args {
			fmt.Printf(" <%.150s>", vstr(a))
		}
		if ev.Addr != nil {
			fmt.Printf(" @%.100s", ev.Addr)
		}
		if ev.Thread > 0 {
			fmt.Printf(" T%d", ev.Thread)
		}
		fmt.Printf("\n     IF %.400s\n", bstr(ev.Guard, 3))
	}
	fmt.Printf("RET %.6000s\n", vstr(v))
	fmt.Println("events", len(e.events), "log", len(e.log), "bdd", len(bdd.nodes))
}
