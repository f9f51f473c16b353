package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// W01: the list of warnings and their levels. The registry starts empty; warnings of unknown names are made in
// every order relative to the questions asked about them.

func init() {
	register("W01", warningRegistry)
}

type regRun struct {
	*objRun
	levelT types.Type
	levels []*types.Const
}

func newRegRun(p *Program, rep *Report) *regRun {
	r := &regRun{objRun: newObjRun(p, rep, wpkg, "W01")}
	sc := p.Pkg(wpkg).Types.Scope()
	r.levelT = sc.Lookup("Level").Type()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && c.Exported() && types.Identical(c.Type(), r.levelT) {
			r.levels = append(r.levels, c)
		}
	}
	sort.Slice(r.levels, func(i, j int) bool { return levelNum(r.levels[i]) > levelNum(r.levels[j]) })
	r.KeepWritten, r.Ages = true, 4
	r.InitCall = func(c *Call) ([]Outcome, bool) {
		// the warnings of the module are not looked at here
		if c.Callee != nil && p.IsRepoFunc(c.Callee) && c.Sig.Results().Len() == 1 && strings.HasSuffix(c.Sig.Results().At(0).Type().String(), wpkg+".Warning") {
			return one(c.St, VSym{ID: "g:in/warning", Cls: "nonnil", T: c.Sig.Results().At(0).Type()}), true
		}
		return nil, false
	}
	r.OnCall = func(c *Call) ([]Outcome, bool) {
		if c.Callee == nil {
			return nil, false
		}
		switch k := fnKey(c.Callee); k {
		case "log/slog.Warn", "log/slog.Info", "log/slog.Error", "log/slog.Debug":
			return one(c.St, VTuple{}), true
		case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
			if s, ok := asStr(c.St.resolve(c.Args[0])); ok {
				switch k {
				case "strings.ToLower":
					s = strings.ToLower(s)
				case "strings.ToUpper":
					s = strings.ToUpper(s)
				default:
					s = strings.TrimSpace(s)
				}
				return one(c.St, constStr(s)), true
			}
		case "strings.EqualFold":
			a, ok1 := asStr(c.St.resolve(c.Args[0]))
			b, ok2 := asStr(c.St.resolve(c.Args[1]))
			if ok1 && ok2 {
				return one(c.St, constBool(strings.EqualFold(a, b))), true
			}
		}
		if r.P.IsRepoFunc(c.Callee) && c.St.Mon["newWarning"] != nil {
			// what is made of the description is not looked at
			res := c.Sig.Results()
			if c.Callee.Name() != "NewWarning" && res.Len() == 1 && res.At(0).Type().String() == "string" && len(c.Args) == 1 {
				return one(c.St, VTerm{Op: "text", Args: resolveAll(c.St, c.Args), T: types.Typ[types.String]}), true
			}
		}
		return nil, false
	}
	r.ensureGlobals(p.relSSA(wpkg))
	return r
}

func levelNum(c *types.Const) int64 {
	n, _ := constant.Int64Val(constant.ToInt(c.Val()))
	return n
}

func (r *regRun) lv(i int) Val { return VConst{r.levels[i].Val(), r.levelT} }

func (r *regRun) fn(name string) *ssa.Function { return r.p.fnByName(wpkg + "." + name) }

func warningRegistry(p *Program, rep *Report) {
	rep.Rule = "every path of NewWarning, ByName, WarningsForLevel and the lists of warnings in every order of making up to three warnings and asking about them; every level constant through String, ParseLevel and LevelOrder; every call of NewWarning in the source"
	r := newRegRun(p, rep)
	r.levelTables()
	r.histories()
	r.declared()
	rep.Floor("histories analysed", 30)
	rep.Floor("levels analysed", 4)
	rep.Floor("warnings declared", 20)
	r.done()
}

// levelTables checks the names and the order of the levels.
func (r *regRun) levelTables() {
	str := r.p.fnByName("(" + wpkg + ".Level).String")
	parse := r.fn("ParseLevel")
	if str == nil || parse == nil {
		r.bad("W01-missing", "Level", nil, "Level.String or ParseLevel is missing")
		return
	}
	names := map[string]string{}
	for i, c := range r.levels {
		r.rep.Count("levels analysed", 1)
		for _, x := range r.callFn("Level.String", str, newState(), r.lv(i)) {
			s, ok := asStr(x.St.resolve(x.Rets[0]))
			if !ok {
				r.bad("W01-level-name", c.Name(), str, "the name of %s is not a fixed text: %s", c.Name(), valName(x.Rets[0]))
				continue
			}
			low := strings.ToLower(s)
			if other := names[low]; other != "" && other != c.Name() {
				r.bad("W01-level-name", c.Name(), str, "%s and %s have the same name %q", other, c.Name(), s)
			}
			names[low] = c.Name()
			if strings.ContainsFunc(s, func(c rune) bool {
				return !(c == '_' || c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z')
			}) || s == "" {
				r.bad("W01-level-name", c.Name(), str, "the name %q of %s is not one word, as the reader of the test output expects", s, c.Name())
			}
			for _, t := range []string{s, low, strings.ToUpper(s)} {
				for _, y := range r.callFn("ParseLevel", parse, x.St, constStr(t)) {
					got, okG := asInt(y.St.resolve(y.Rets[0]))
					isNil, okN := isNilVal(y.St.resolve(y.Rets[1]))
					if !okG || !okN || !isNil || int64(got) != levelNum(c) {
						r.bad("W01-level-parse", c.Name(), parse, "ParseLevel(%q) gives %s, %s, not %s", t, valName(y.Rets[0]), valName(y.Rets[1]), c.Name())
					}
				}
			}
		}
	}
	for _, t := range []string{"", "no such level", "Unknown level 0"} {
		for _, y := range r.callFn("ParseLevel", parse, newState(), constStr(t)) {
			if isNil, ok := isNilVal(y.St.resolve(y.Rets[1])); !ok || isNil {
				r.bad("W01-level-parse", "ParseLevel", parse, "ParseLevel(%q) gives no error", t)
			}
		}
	}
	// LevelOrder
	g, _ := r.p.relSSA(wpkg).Members["LevelOrder"].(*ssa.Global)
	if g == nil {
		r.bad("W01-missing", "LevelOrder", nil, "LevelOrder is missing")
		return
	}
	o := r.Base["g:"+g.RelString(nil)]
	if o == nil {
		r.bad("W01-level-order", "LevelOrder", nil, "the value of LevelOrder is not known")
		return
	}
	l, ok := r.elemsOf(newState(), o.F[""]).(VTuple)
	if !ok || len(l.E) != len(r.levels) {
		r.bad("W01-level-order", "LevelOrder", nil, "LevelOrder does not list the %d levels", len(r.levels))
		return
	}
	for i, v := range l.E {
		if n, ok := asInt(v); !ok || int64(n) != levelNum(r.levels[i]) {
			r.bad("W01-level-order", "LevelOrder", nil, "entry %d of LevelOrder is not %s", i, r.levels[i].Name())
		}
	}
}

type regWarn struct {
	id    string
	level int
	w     Val
}

// histories makes warnings and asks about them in every order.
func (r *regRun) histories() {
	// a, b, c make a warning, d and e make one of another level with the name of the first; ? asks for the lists
	orders := []string{"?a?", "a?b?", "ab?", "ba?", "abc?", "cba?", "bca?", "ad?", "a?d?", "ae?", "ade?", "a?ed?", "?ab??", "a?b?c?", "acb?d?"}
	levels := [][3]int{{0, 0, 0}, {0, 1, 0}, {1, 0, 2}}
	for _, o := range orders {
		for _, lv := range levels {
			r.history(o, lv)
		}
	}
}

func (r *regRun) history(order string, lv [3]int) {
	r.rep.Count("histories analysed", 1)
	mk, by, list := r.fn("NewWarning"), r.fn("ByName"), r.fn("WarningsForLevel")
	if mk == nil || by == nil || list == nil {
		r.bad("W01-missing", "NewWarning", nil, "NewWarning, ByName or WarningsForLevel is missing")
		return
	}
	strT := types.Typ[types.String]
	st := newState()
	nm := func(id string) Val { return in("name."+id, strT) }
	for i, a := range "abcx" {
		for _, b := range "abcx"[i+1:] {
			r.ne(st, nm(string(a)), nm(string(b)))
		}
	}
	type world struct {
		st  *State
		all []regWarn
	}
	worlds := []world{{st: st}}
	for _, op := range order {
		var next []world
		for _, w := range worlds {
			switch op {
			case 'a', 'b', 'c', 'd', 'e':
				id := string(op)
				level := lv[(op-'a')%3]
				name := nm(id)
				again := op == 'd' || op == 'e'
				if again {
					name, level = nm("a"), 3
					if op == 'e' {
						level = 1 - lv[0]
					}
				}
				s := w.st.clone()
				s.Mon["newWarning"] = constBool(true)
				for _, x := range r.callFn("NewWarning", mk, s, r.lv(level), name, in("summary."+id, strT), in("description."+id, strT)) {
					delete(x.St.Mon, "newWarning")
					all := append([]regWarn(nil), w.all...)
					if again {
						if a := find(all, "a"); a == nil || x.Rets[0].key() != a.w.key() {
							r.bad("W01-duplicate", "NewWarning", mk, "a second warning with a name already taken is made, or the first one is not returned")
						}
					} else {
						all = append(all, regWarn{id, level, x.Rets[0]})
					}
					next = append(next, world{x.St, all})
				}
				continue
			}
			// questions
			bad := false
			badf := func(rule string, fn *ssa.Function, f string, a ...any) {
				bad = true
				r.bad(rule, fn.Name(), fn, "after %q: %s", order, fmt.Sprintf(f, a...))
			}
			s := w.st
			for _, a := range w.all {
				lvl, name, sum := r.field(s, a.w, "Level"), r.field(s, a.w, "Name"), r.field(s, a.w, "Summary")
				if lvl.key() != r.lv(a.level).key() || name.key() != nm(a.id).key() || sum.key() != in("summary."+a.id, strT).key() {
					badf("W01-fields", mk, "the warning made has level %s, name %s, summary %s", valName(lvl), valName(name), valName(sum))
				}
			}
			states := []*State{s}
			for _, id := range []string{"a", "b", "c", "x"} {
				var nn []*State
				for _, s := range states {
					for _, x := range r.callFn("ByName", by, s, nm(id)) {
						nn = append(nn, x.St)
						got := x.St.resolve(x.Rets[0])
						if a := find(w.all, id); a != nil {
							if got.key() != a.w.key() {
								badf("W01-by-name", by, "ByName gives %s, not the warning of that name", valName(got))
							}
						} else if isNil, ok := isNilVal(got); !ok || !isNil {
							badf("W01-by-name", by, "ByName gives %s for a name no warning has", valName(got))
						}
					}
				}
				states = nn
			}
			for lvl := range r.levels {
				var nn []*State
				for _, s := range states {
					for _, x := range r.callFn("WarningsForLevel", list, s, r.lv(lvl)) {
						nn = append(nn, x.St)
						r.judgeList("WarningsForLevel", list, x, w.all, lvl, order)
					}
				}
				states = nn
			}
			if len(states) == 0 {
				return
			}
			// the other ways to ask
			for lvl, c := range r.levels {
				fn := r.p.fnByName("(" + wpkg + ".Level).Warnings")
				if fn != nil {
					for _, x := range r.callFn("Level.Warnings", fn, states[0], r.lv(lvl)) {
						r.judgeList("Level.Warnings", fn, x, w.all, lvl, order)
					}
				}
				short := strings.TrimPrefix(c.Name(), "Level")
				if short == "Admin" {
					short = "Administrative"
				}
				if fn := r.fn(short); fn != nil {
					for _, x := range r.callFn(short, fn, states[0]) {
						r.judgeList(short, fn, x, w.all, lvl, order)
					}
				} else {
					r.bad("W01-missing", short, nil, "the function %s is missing", short)
				}
			}
			if bad {
				return
			}
			for _, s := range states {
				next = append(next, world{s, w.all})
			}
		}
		worlds = next
		if len(worlds) > 60 {
			r.bad("W01-construct", "NewWarning", mk, "too many outcomes to follow")
			return
		}
	}
}

func find(l []regWarn, id string) *regWarn {
	for i := range l {
		if l[i].id == id {
			return &l[i]
		}
	}
	return nil
}

// judgeList compares a list of warnings with those made at that level.
func (r *regRun) judgeList(what string, fn *ssa.Function, x Result, all []regWarn, lvl int, order string) {
	r.rep.Count("lists analysed", 1)
	l, ok := r.list(x.St, x.Rets[0])
	if !ok {
		r.bad("W01-list", what, fn, "after %q: the list of warnings is not known: %s", order, valName(x.Rets[0]))
		return
	}
	want := 0
	for _, a := range all {
		if a.level != lvl {
			continue
		}
		want++
		n := 0
		for _, v := range l {
			if v.key() == a.w.key() {
				n++
			}
		}
		if n != 1 {
			r.bad("W01-list", what, fn, "after %q: a warning of the level is listed %d times", order, n)
			return
		}
	}
	if len(l) != want {
		r.bad("W01-list", what, fn, "after %q: %d warnings are listed, not %d", order, len(l), want)
		return
	}
	for i := 1; i < len(l); i++ {
		if r.relate(x.St, r.field(x.St, l[i-1], "Name"), r.field(x.St, l[i], "Name"))&4 != 0 {
			r.bad("W01-order", what, fn, "after %q: the warnings of a level are not sorted by name", order)
		}
	}
}

// declared checks every call of NewWarning in the source.
func (r *regRun) declared() {
	mk := r.fn("NewWarning")
	if mk == nil {
		return
	}
	seen := map[string]string{}
	for _, fn := range r.p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() != mk {
					continue
				}
				args := call.Common().Args
				pos := r.p.Pos(ins.Pos())
				name, ok := args[1].(*ssa.Const)
				if !ok || name.Value == nil {
					continue
				}
				r.rep.Count("warnings declared", 1)
				n := constant.StringVal(name.Value)
				if at := seen[n]; at != "" {
					r.rep.Violate("W01-declared", n, pos, "the warning name %q is already used at %s, so this declaration gives that warning instead", n, at)
				}
				seen[n] = pos
				if n == "" {
					r.rep.Violate("W01-declared", n, pos, "a warning without a name")
				}
				if lvl, ok := args[0].(*ssa.Const); ok && lvl.Value != nil {
					known := false
					for _, c := range r.levels {
						known = known || constant.Compare(c.Val(), token.EQL, lvl.Value)
					}
					if !known {
						r.rep.Violate("W01-declared", n, pos, "the warning %q has a level which is in no list", n)
					}
				}
			}
		}
	}
}
