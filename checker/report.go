package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one broken obligation. Key identifies the rule and the construct, never a line.
type Violation struct {
	Key  string `json:"key"`
	Rule string `json:"rule"`
	At   string `json:"at"`
	What string `json:"what"`
}

// Report collects what one property's analysis covered and found.
type Report struct {
	Prop       string
	Rule       string // explanation of the rule as applied
	Prog       *Program
	violations map[string]Violation
	counts     map[string]int
	sites      []string
	notes      []string
	assume     []string
	start      time.Time
}

func NewReport(prop string, p *Program) *Report {
	return &Report{Prop: prop, Prog: p, violations: map[string]Violation{}, counts: map[string]int{}, start: time.Now()}
}

// Violate records a broken obligation; reports with the same key collapse.
func (r *Report) Violate(rule, construct, at, format string, args ...any) {
	key := rule + " :: " + construct
	if _, dup := r.violations[key]; dup {
		return
	}
	r.violations[key] = Violation{Key: key, Rule: rule, At: at, What: fmt.Sprintf(format, args...)}
}

// Count adds n to a measured quantity of the evidence.
func (r *Report) Count(name string, n int) { r.counts[name] += n }

// Site records one analysed construct.
func (r *Report) Site(format string, args ...any) {
	r.sites = append(r.sites, fmt.Sprintf(format, args...))
}

func (r *Report) Assume(s string) { r.assume = append(r.assume, s) }

// parallel analyses n independent parts at once, each into a report of its own; the reports are merged in order.
func (r *Report) parallel(n int, part func(rep *Report, i int)) {
	subs := make([]*Report, n)
	var next atomic.Int64
	var wg sync.WaitGroup
	for range min(runtime.NumCPU(), 8, n) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				subs[i] = NewReport(r.Prop, r.Prog)
				func() {
					defer func() {
						if e := recover(); e != nil {
							subs[i].Violate("undecided", "analysis", "-", "the analysis failed: %v\n%s", e, debug.Stack())
						}
					}()
					part(subs[i], i)
				}()
			}
		}()
	}
	wg.Wait()
	for _, s := range subs {
		for k, v := range s.violations {
			if _, dup := r.violations[k]; !dup {
				r.violations[k] = v
			}
		}
		for k, v := range s.counts {
			r.counts[k] += v
		}
		r.sites = append(r.sites, s.sites...)
		r.notes = append(r.notes, s.notes...)
		r.assume = append(r.assume, s.assume...)
	}
}

// Floor fails the check when fewer instances were analysed than were confirmed by hand.
func (r *Report) Floor(name string, min int) {
	if r.counts[name] < min {
		r.Violate("coverage-floor", name, "-", "only %d %s were found to analyse, at least %d are expected: the rule would pass vacuously", r.counts[name], name, min)
	}
}

// ---------------------------------------------------------------------------

type finding struct {
	kind, prop, key string
	line            string
}

// readFindings parses /verif/KNOWN_FINDINGS.txt:
//
//	known: property=<id> key=<rule :: construct> | <what fails>
//	fixed: property=<id> <commit> <what failed>
func readFindings(path string) ([]finding, error) {
	data, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []finding
	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "known: property=") {
			continue
		}
		rest := strings.TrimPrefix(line, "known: property=")
		sp := strings.IndexByte(rest, ' ')
		if sp < 0 {
			return nil, fmt.Errorf("bad line %q", line)
		}
		prop, rest := rest[:sp], rest[sp+1:]
		if !strings.HasPrefix(rest, "key=") {
			return nil, fmt.Errorf("bad line %q", line)
		}
		rest = strings.TrimPrefix(rest, "key=")
		key, what, ok := strings.Cut(rest, " | ")
		if !ok {
			return nil, fmt.Errorf("bad line %q", line)
		}
		out = append(out, finding{kind: "known", prop: prop, key: strings.TrimSpace(key), line: what})
	}
	return out, nil
}

// Finish prints the verdict, writes evidence and replay, and returns the exit code.
func (r *Report) Finish(verif string) int {
	findings, err := readFindings(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		r.Violate("known-findings", "KNOWN_FINDINGS.txt", "-", "unreadable: %v", err)
	}
	var keys []string
	for k := range r.violations {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var live []Violation
	var known []string
	for _, k := range keys {
		matched := false
		for _, f := range findings {
			if f.prop == r.Prop && f.key == k {
				known = append(known, fmt.Sprintf("KNOWN-FINDING: property=%s %s [%s]", r.Prop, f.line, k))
				matched = true
				break
			}
		}
		if !matched {
			live = append(live, r.violations[k])
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{"explanation": r.Rule}
	var cn []string
	for k := range r.counts {
		cn = append(cn, k)
	}
	sort.Strings(cn)
	for _, k := range cn {
		cov[strings.ReplaceAll(k, " ", "_")] = r.counts[k]
	}
	sites := append([]string(nil), r.sites...)
	sort.Strings(sites)
	sites = uniq(sites)
	cov["constructs_analysed"] = len(sites)
	max := 60
	if tier == "thorough" {
		max = 2000
	}
	if len(sites) > max {
		sites = sites[:max]
	}
	cov["samples"] = sites
	if r.Prog != nil {
		cov["packages_loaded"] = len(r.Prog.Pkgs)
		cov["functions_loaded"] = len(r.Prog.Funcs)
	}
	if len(known) > 0 {
		cov["known_findings"] = known
	}
	ev := map[string]any{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": len(live),
		"assumptions": r.assume,
	}
	if r.assume == nil {
		ev["assumptions"] = []string{}
	}
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	writeJSON(filepath.Join(verif, "evidence", r.Prop+".json"), ev)
	fmt.Printf("%s: %s\n", r.Prop, r.Rule)
	for _, k := range cn {
		fmt.Printf("  analysed %-40s %d\n", k, r.counts[k])
	}
	for _, k := range known {
		fmt.Println(k)
	}
	replay := filepath.Join(verif, "evidence", r.Prop+".violations.json")
	_ = os.Remove(replay)
	if len(live) == 0 {
		fmt.Printf("PASS property=%s\n", r.Prop)
		return 0
	}
	writeJSON(replay, live)
	for _, v := range live {
		fmt.Printf("  %s: [%s] %s\n      key: %s\n", v.At, v.Rule, v.What, v.Key)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	return 1
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", "  ")
	if err == nil {
		_ = os.WriteFile(path, append(b, '\n'), 0o644)
	}
}

func uniq(in []string) []string {
	var out []string
	for i, s := range in {
		if i == 0 || s != in[i-1] {
			out = append(out, s)
		}
	}
	return out
}
