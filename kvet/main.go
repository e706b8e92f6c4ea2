package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "/verif/evidence", "evidence directory")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.StringVar(&knownFile, "known", "/verif/KNOWN_FINDINGS.txt", "known findings")
	flag.Parse()
	debug.SetGCPercent(300)
	args := flag.Args()
	if len(args) > 0 && args[0] == "list" {
		var ids []string
		for id := range rules {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Printf("%s\t%s\t%s\n", id, rules[id].technique, rules[id].about)
		}
		return
	}
	if len(args) > 0 && args[0] == "dump" {
		P, err := loadProgram(*repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		dump(P, args[1], args[2], len(args) > 3)
		return
	}
	if len(args) < 2 || args[0] != "check" {
		fmt.Println("usage: kvet check ID...")
		os.Exit(2)
	}
	ids := args[1:]
	if ids[0] == "all" {
		ids = nil
		for id := range rules {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	P, err := loadProgram(*repo)
	ok := true
	for _, id := range ids {
		r := rules[id]
		if r == nil {
			fmt.Println("no rule for", id)
			os.Exit(2)
		}
		t := time.AfterFunc(800*time.Second, func() {
			fmt.Printf("%s: rule undecided: the analysis did not end in time\nVIOLATION property=%s replay=%s\n", id, id, *out)
			os.Exit(1)
		})
		ok = runCheck(P, err, r, *tier, *out) && ok
		t.Stop()
	}
	if !ok {
		os.Exit(1)
	}
}
