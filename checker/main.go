// Command vstat decides the properties of /verif/properties.jsonl from the source of /repo.
// It loads, type-checks and SSA-builds every package; it never runs repository code.
package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
)

type checkFn func(p *Program, r *Report)

var checks = map[string]checkFn{}

func register(id string, fn checkFn) { checks[id] = fn }

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func main() {
	repo, verif := env("VSTAT_REPO", "/repo"), env("VSTAT_VERIF", "/verif")
	if len(os.Args) < 2 {
		fmt.Println("usage: vstat <property>...|all")
		os.Exit(2)
	}
	ids := os.Args[1:]
	if ids[0] == "dump" {
		dumpMain(repo, verif, ids[1:])
		return
	}
	if ids[0] == "hmodel" {
		hmodelMain(repo, verif, ids[1:])
		return
	}
	if ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	p, err := Load(repo, verif)
	code := 0
	for _, id := range ids {
		fn := checks[id]
		if fn == nil {
			fmt.Printf("unknown property %s\n", id)
			os.Exit(2)
		}
		r := NewReport(id, p)
		if err != nil {
			// The build precedes every check, so a tree that does not type-check here is undecided: fail.
			r.Rule = "load"
			r.Violate("load", "repository", "-", "the repository could not be loaded: %v", err)
		} else {
			runGuarded(fn, p, r)
		}
		if c := r.Finish(verif); c > code {
			code = c
		}
	}
	os.Exit(code)
}

func runGuarded(fn checkFn, p *Program, r *Report) {
	defer func() {
		if e := recover(); e != nil {
			r.Violate("undecided", "analysis", "-", "the analysis failed: %v\n%s", e, debug.Stack())
		}
	}()
	fn(p, r)
}

func dumpMain(repo, verif string, names []string) {
	p, err := Load(repo, verif)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, fn := range p.Funcs {
		for _, n := range names {
			if p.FuncName(fn) == n {
				fn.WriteTo(os.Stdout)
			}
		}
		if len(names) == 0 {
			fmt.Println(p.FuncName(fn))
		}
	}
}

func hmodelMain(repo, verif string, args []string) {
	p, err := Load(repo, verif)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	m, err := handlerModel(p, args[0], "NewHandler")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("%d states, %d steps, %d functions, %d call sites\n", len(m.States), m.Steps, len(m.Funcs), len(m.Calls))
	for _, es := range m.escapers {
		fmt.Println("escaper", p.FuncName(es.fn), es.ok, es.why, es.paths)
	}
	for _, pr := range hProps {
		fmt.Println(pr, m.Counts[pr])
		for _, v := range m.Viol[pr] {
			fmt.Printf("   %s [%s] %s\n", v.At, v.Key, v.What)
		}
	}
}
