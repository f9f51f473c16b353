package main

import (
	"fmt"
	"sort"
)

// handlerPkgs are the repository's own slog handlers, each analysed from its constructor.
var handlerPkgs = []string{"handlers/flash", "handlers/sloggy"}

type hRule struct {
	rule   string
	counts []string // quantities that must not be empty
	sites  bool
}

var hRules = map[string]hRule{
	"H01": {"path-sensitive effect analysis of WithAttrs and WithGroup from every reachable handler state: no store, in-place append or copy reaches memory that existed before the call and is not freshly allocated, exclusively owned, or taken from a pool", []string{"derivations analysed", "appends and copies analysed"}, false},
	"H02": {"path-sensitive effect analysis of Handle and Enabled from every reachable handler state: memory shared with other calls is written only while a lock shared by all handlers of the family is held", []string{"appends and copies analysed"}, false},
	"H03": {"typestate of the writer and the shared lock over every path of Handle: a successful call makes exactly one Write under the shared lock (or hands the same record once to the enclosing handler), a failed call makes at most one, and the lock is never held on return", []string{"Handle outcomes", "writes analysed"}, true},
	"H04": {"every byte sequence that can be passed to the writer is abstracted to its effect on a JSON recogniser (with start states for fragments precomputed by WithAttrs and WithGroup); the effect must be one complete object followed by one newline", []string{"writes analysed"}, false},
	"H05": {"taint: text of unknown characters may enter a JSON string only through an encoder of the standard library or through an escaping loop proven byte by byte to emit a JSON encoding of exactly that byte", []string{"writes analysed"}, true},
	"H06": {"every outcome of Enabled is compared with the order of the asked level and the configured minimum read during that call; absent a configured minimum it is Info", []string{"Enabled outcomes"}, true},
	"H07": {"value-kind dataflow: kind-specific accessors only where the kind is established, no unresolved LogValuer reaches an accessor or a member key", []string{"value accessors analysed"}, true},
	"H08": {"per attribute obligation on every path: it is written, reported as an error, or omitted for being empty or a group; unnamed groups are inlined; the traversal of the record's attributes is never cut short on a path that writes", []string{"member keys analysed", "omissions analysed", "record traversals analysed"}, false},
	"H09": {"per attribute obligation on every path: where a replacement function is configured, each non-group field passes through it resolved, and only its result is used", []string{"member keys analysed", "replacement calls analysed"}, true},
	"H10": {"error flow: a failed write, marshalling or composition makes Handle return a non-nil error", []string{"Handle outcomes"}, true},
	"H11": {"pool typestate: nothing is used, written or returned to the caller after being put back, nothing shared is put into a pool, stale fields of pooled objects are not read", nil, true},
	"H12": {"effect analysis of constructor and methods: memory reachable from the options and extras passed by the caller is never written", []string{"constructions analysed"}, true},
	"H13": {"no reachable explicit panic, unchecked type assertion that can fail, context consultation that changes the outcome, or call of the global logger with a lock held", []string{"functions analysed"}, true},
	"H14": {"use of the record's message, level, time and (when requested and known) source is established on every path that writes; zero times and unwanted sources are not", []string{"writes analysed"}, false},
	"H15": {"the constructor is analysed for every field of options and extras set and unset: the value kept is the one given, or the documented default; derived handlers keep it unchanged; built-in fields are paired with their configured keys and times with the configured layout on every path", []string{"configurations kept", "built-in fields analysed"}, false},
}

func init() {
	for id, r := range hRules {
		register(id, func(p *Program, rep *Report) { handlerCheck(p, rep, id, r) })
	}
}

func handlerCheck(p *Program, rep *Report, id string, r hRule) {
	rep.Rule = r.rule
	rep.Assume("writers, replacement functions and marshalers supplied by the user do not call back into the handler, retain what they are given, or panic")
	rep.Assume("a time layout chosen by the user contains no character that JSON strings must escape")
	for _, rel := range handlerPkgs {
		m, err := handlerModel(p, rel, "NewHandler")
		if err != nil {
			rep.Violate("model", rel, "-", "the handler could not be modelled: %v", err)
			continue
		}
		for _, v := range m.Viol[id] {
			rep.Violate(v.Rule, rel+": "+v.Key[len(v.Rule)+4:], v.At, "%s", v.What)
		}
		rep.Count("handler states", len(m.States))
		rep.Count("abstract steps", m.Steps)
		rep.Count("functions analysed", len(m.Funcs))
		rep.Count("call sites analysed", len(m.Calls))
		rep.Count("constructions analysed", 1)
		for k, n := range m.Counts[id] {
			rep.Count(k, n)
		}
		var ss []string
		for s := range m.Sites[id] {
			ss = append(ss, s)
		}
		sort.Strings(ss)
		for _, s := range ss {
			rep.Site("%s", s)
		}
		for f := range m.Funcs {
			rep.Site("function %s", f)
		}
		if id == "H05" {
			for _, es := range m.escapers {
				rep.Count("escaping loops analysed", 1)
				rep.Count("escaping loop paths", es.paths)
				rep.Site("escaper %s", p.FuncName(es.fn))
				if !es.ok {
					rep.Violate("H05-escaper", p.FuncName(es.fn), p.Pos(es.at), "an escaping loop is not proven: %s", es.why)
				}
			}
		}
		if id == "H08" {
			for k, c := range m.scans.claims {
				if c == 'y' {
					rep.Site("scan function %s: %v only for empty attributes", p.FuncName(k.fn), k.b)
				} else if c == '?' {
					rep.Assume("scan function not understood: " + p.FuncName(k.fn) + " (" + m.scans.why[k] + ")")
				}
			}
			for _, u := range m.unproven {
				rep.Assume(u)
			}
		}
		if len(m.undecided) > 0 {
			for _, u := range m.undecided {
				rep.Assume(fmt.Sprintf("paths beyond this point were not explored: %s: %s", rel, u))
			}
		}
		for _, k := range r.counts {
			if k != "functions analysed" && k != "constructions analysed" && m.Counts[id][k] == 0 {
				rep.Violate("coverage-floor", rel+": "+k, "-", "no %s in %s: the rule would pass vacuously", k, rel)
			}
		}
	}
	rep.Floor("handler states", 8)
	rep.Floor("functions analysed", 20)
}
