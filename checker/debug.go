package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// dumpSums prints the inputs of every summary of a function (debugging aid of the analyser itself).
func (e *Engine) dumpSums(name string) {
	var ks []string
	for k, s := range e.sums {
		if strings.HasSuffix(e.P.FuncName(s.fn), name) {
			t := fmt.Sprintf("---- %d results\n", len(s.results)) + k
			for rk, r := range s.results {
				t += "\n   RESULT " + strings.ReplaceAll(rk, "\n", "\n          ") + "\n       FACTS " + strings.ReplaceAll(r.St.factsKey(), "\n", " & ")
			}
			ks = append(ks, t)
		}
	}
	sort.Strings(ks)
	fmt.Printf("== %s: %d summaries\n", name, len(ks))
	for i, k := range ks {
		if i > 30 {
			break
		}
		fmt.Println(k)
	}
}

var dumpAt = 20000

var dumpName = os.Getenv("VSTAT_SUMS")
