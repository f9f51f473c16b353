package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// W02: the warning manager. The manager is used only through its exported methods, from the state its
// constructor leaves; warnings, texts, and record contents are unknowns, and what has been recorded before is
// replaced by an unknown history.

func init() {
	register("W02", warningManager)
}

const wpkg = "infra/warning"

type wmanRun struct {
	*objRun
	warnT types.Type // Warning
	instT types.Type // Instance
	insT  types.Type // Instances
	flag  Val
	admin []Val
}

// call runs one method of the manager.
func (r *wmanRun) call(name string, st *State, args ...Val) []Result {
	return r.callFn(name, r.method(name), st, args...)
}

func (r *wmanRun) method(name string) *ssa.Function {
	if fn := r.p.fnByName("(*" + wpkg + ".Manager)." + name); fn != nil {
		return fn
	}
	return r.p.fnByName("(" + wpkg + ".Manager)." + name)
}

func (r *wmanRun) global(name string) Val {
	pkg := r.p.relSSA(wpkg)
	g, ok := pkg.Members[name].(*ssa.Global)
	if !ok {
		return nil
	}
	if o := r.Base["g:"+g.RelString(nil)]; o != nil {
		return o.F[""]
	}
	return nil
}

func newWman(p *Program, rep *Report, what string) *wmanRun {
	r := &wmanRun{objRun: newObjRun(p, rep, what, "W02")}
	sc := p.Pkg(wpkg).Types.Scope()
	r.warnT, r.instT, r.insT = sc.Lookup("Warning").Type(), sc.Lookup("Instance").Type(), sc.Lookup("Instances").Type()
	r.flag = VSym{ID: "g:in/useWarnings", T: types.Typ[types.Bool]}
	model := func(c *Call) ([]Outcome, bool) {
		if c.Callee == nil {
			return nil, false
		}
		switch fnKey(c.Callee) {
		case "flag.Bool":
			id := "g:in/flag:" + strings.Trim(c.St.resolve(c.Args[0]).key(), `c:"`)
			v := Val(VSym{ID: id, T: types.Typ[types.Bool]})
			if strings.HasSuffix(id, "useWarnings") {
				v = r.flag
			}
			c.St.H[id] = &Object{Kind: "cell", Pre: true, T: types.Typ[types.Bool], F: map[string]Val{"": v}}
			return one(c.St, VPtr{Obj: id}), true
		}
		if r.p.IsRepoFunc(c.Callee) && r.p.FuncName(c.Callee) == wpkg+".NewWarning" && c.St.Mon["live"] == nil {
			name, ok := asStr(c.St.resolve(c.Args[1]))
			if !ok {
				return nil, false
			}
			id := "g:warning/" + name
			c.St.H[id] = &Object{Kind: "struct", Pre: true, T: r.warnT, F: map[string]Val{".Level": c.Args[0], ".Name": c.Args[1], ".Summary": c.Args[2]}}
			return one(c.St, VPtr{Obj: id}), true
		}
		return nil, false
	}
	r.InitCall = model
	r.ensureGlobals(p.relSSA(wpkg))
	for _, n := range []string{"Unused", "SkippingTest", "Undefined"} {
		if v := r.global(n); v != nil {
			r.admin = append(r.admin, v)
		}
	}
	r.OnCall = func(c *Call) ([]Outcome, bool) {
		if outs, ok := model(c); ok {
			return outs, true
		}
		if c.Callee == nil {
			return nil, false
		}
		switch fnKey(c.Callee) {
		case "strings.TrimRight", "strings.TrimSuffix", "strings.TrimSpace", "strings.Trim":
			if len(c.Args) > 0 {
				return one(c.St, VTerm{Op: c.Callee.Name(), Args: resolveAll(c.St, c.Args), T: types.Typ[types.String]}), true
			}
		case "log/slog.Warn", "log/slog.Info", "log/slog.Error", "log/slog.Debug":
			return one(c.St, VTuple{}), true
		}
		if r.p.IsRepoFunc(c.Callee) {
			switch r.p.FuncName(c.Callee) {
			case wpkg + ".Administrative":
				return one(c.St, sliceOf(c.St, "admin", c.Sig.Results().At(0).Type(), r.admin)), true
			case "internal/misc.CurrentFunctionName":
				return one(c.St, VTerm{Op: "caller", Args: resolveAll(c.St, c.Args), T: types.Typ[types.String]}), true
			}
		}
		return nil, false
	}
	r.OnEvent = func(e *Engine, kind string, st *State, fr *Frame, at ssa.Instruction, data ...any) {
		switch kind {
		case "append":
			base, add, res := data[0].(Val), data[1].(Val), data[2].(Val)
			s, ok := res.(VSlice)
			if !ok || s.N >= 0 {
				return
			}
			sym, isSym := base.(VSym)
			l, _ := st.Mon["appends"].(VTuple)
			if !isSym || len(l.E) > 3 || !global(sym.ID) {
				return
			}
			st.Mon["appends"] = VTuple{E: append(append([]Val(nil), l.E...), VTuple{E: []Val{VPtr{Obj: s.Arr}, base, r.elemsOf(st, add)}})}
		}
	}
	return r
}

// warn makes an unknown warning.
func (r *wmanRun) warn(st *State, id string) Val {
	o := &Object{Kind: "struct", Pre: true, T: r.warnT, F: map[string]Val{
		".Level": in(id+".Level", fieldType(r.warnT, "Level")), ".Name": in(id+".Name", types.Typ[types.String]), ".Summary": in(id+".Summary", types.Typ[types.String])}}
	st.H["g:in/"+id] = o
	return VPtr{Obj: "g:in/" + id}
}

// instance checks one recorded instance.
func (r *wmanRun) instance(rule, construct string, fn *ssa.Function, st *State, v, fnName, text, record Val) {
	fnName, text, record = st.resolve(fnName), st.resolve(text), st.resolve(record)
	if got := r.field(st, v, "Function"); got.key() != fnName.key() {
		r.bad(rule, construct, fn, "the function recorded is %s, not %s", valName(got), valName(fnName))
	}
	if got := r.field(st, v, "Text"); got.key() != text.key() {
		r.bad(rule, construct, fn, "the text recorded is %s, not %s", valName(got), valName(text))
	}
	got := r.field(st, v, "Record")
	if s, ok := asStr(record); ok && s == "" || r.cmpBits(st, VTerm{Op: "len", Args: []Val{record}, T: types.Typ[types.Int]}, constInt(0)) == 2 {
		if g, ok := asStr(got); ok && g == "" {
			return
		}
	}
	if got.key() == record.key() {
		return
	}
	if t, ok := got.(VTerm); ok && len(t.Args) > 0 && t.Args[0].key() == record.key() {
		cut := "\t\n\v\f\r "
		if len(t.Args) > 1 {
			cut, _ = asStr(t.Args[1])
		}
		if strings.Trim(cut, "\t\n\v\f\r ") == "" && (t.Op != "Trim" || cut != "") {
			return
		}
	}
	r.bad(rule, construct, fn, "the log record kept is %s, not %s without its line end", valName(got), valName(record))
}

func warningManager(p *Program, rep *Report) {
	rep.Rule = "every path of the exported methods of warning.Manager, called in sequence from a new manager on unknown warnings, texts and records: what is recorded, what HasWarning answers, what GetWarnings returns"
	r := newWman(p, rep, "warning.Manager")
	strT := types.Typ[types.String]
	mgr, st0 := r.fresh()
	if mgr == nil {
		rep.Violate("W02-missing", "NewWarningManager", "-", "no outcome of warning.NewWarningManager was found")
		return
	}
	if len(r.admin) < 3 {
		rep.Violate("W02-missing", "admin", "-", "the administrative warnings are not known")
		return
	}
	unusedName := r.field(st0, r.admin[0], "Name")

	// 1. recording
	type adder struct {
		name             string
		args             func(w Val, i string) []Val
		fn, text, record func(w Val, i string) Val
		warn             func(w Val) Val
	}
	caller := func(Val, string) Val {
		return VTerm{Op: "caller", Args: []Val{in("fnPrefix", strT)}, T: strT}
	}
	inp := func(n string) func(Val, string) Val { return func(_ Val, i string) Val { return in(n+i, strT) } }
	same := func(w Val) Val { return w }
	adders := []adder{
		{"AddWarningFnText", func(w Val, i string) []Val {
			return []Val{w, in("fn"+i, strT), in("text"+i, strT), in("rec"+i, strT)}
		}, inp("fn"), inp("text"), inp("rec"), same},
		{"AddWarningFn", func(w Val, i string) []Val { return []Val{w, in("fn"+i, strT), in("rec"+i, strT)} },
			inp("fn"), func(Val, string) Val { return constStr("") }, inp("rec"), same},
		{"AddWarning", func(w Val, i string) []Val { return []Val{w, in("text"+i, strT), in("rec"+i, strT)} },
			caller, inp("text"), inp("rec"), same},
		{"AddUnused", func(w Val, i string) []Val { return []Val{w, in("rec"+i, strT)} },
			caller, func(w Val, _ string) Val { return nil }, inp("rec"), func(Val) Val { return r.admin[0] }},
	}
	for _, ad := range adders {
		fn := r.method(ad.name)
		if fn == nil {
			rep.Violate("W02-missing", ad.name, "-", "the method %s is missing", ad.name)
			continue
		}
		st := st0.clone()
		w := r.warn(st, "w1")
		wname := r.field(st, w, "Name")
		r.ne(st, wname, unusedName)
		text1 := ad.text(w, "1")
		if text1 == nil {
			text1 = wname
		}
		for _, x := range r.call(ad.name, st, append([]Val{mgr}, ad.args(w, "1")...)...) {
			// what GetWarnings says now
			for _, g := range r.call("GetWarnings", x.St, mgr) {
				l, ok := r.list(g.St, g.Rets[0])
				if !ok || len(l) != 1 {
					r.bad("W02-record", ad.name, fn, "after one %s GetWarnings returns %s, not one entry", ad.name, valName(g.Rets[0]))
					continue
				}
				rep.Count("outcomes analysed", 1)
				r.entry(ad.name, fn, g.St, l[0], ad.warn(w))
				if n, ok := asInt(r.field(g.St, l[0], "Count")); !ok || n != 1 {
					r.bad("W02-count", ad.name, fn, "after one %s the count is %s", ad.name, valName(r.field(g.St, l[0], "Count")))
				}
				d, ok := r.elemsOf(g.St, r.field(g.St, l[0], "Data")).(VTuple)
				if !ok || len(d.E) != 1 {
					r.bad("W02-record", ad.name, fn, "after one %s the instances are %s", ad.name, valName(r.field(g.St, l[0], "Data")))
					continue
				}
				r.instance("W02-instance", ad.name, fn, g.St, d.E[0], ad.fn(w, "1"), text1, ad.record(w, "1"))
			}
			if ad.name == "AddUnused" {
				continue
			}
			// a second one, after an unknown history of the first
			s2 := x.St.clone()
			n := 0
			for id, o := range s2.H {
				if o.T != nil && types.Identical(o.T, r.insT) {
					m := o.clone()
					m.F[".Count"] = in("count", fieldType(r.insT, "Count"))
					m.F[".Data"] = in("data", fieldType(r.insT, "Data"))
					s2.H[id] = m
					n++
				}
			}
			if n != 1 {
				continue
			}
			w2 := r.warn(s2, "w2")
			r.ne(s2, r.field(s2, w2, "Name"), unusedName)
			for _, y := range r.call(ad.name, s2, append([]Val{mgr}, ad.args(w2, "2")...)...) {
				r.second(ad.name, fn, y.St, mgr, w, w2, ad.fn(w2, "2"), ad.text(w2, "2"), ad.record(w2, "2"))
			}
		}
	}

	r.flags(mgr, st0)
	r.order(mgr, st0, unusedName)

	rep.Floor("method calls analysed", 20)
	rep.Floor("outcomes analysed", 20)
	r.done()
}

// entry checks that a record describes its warning.
func (r *wmanRun) entry(construct string, fn *ssa.Function, st *State, e, w Val) {
	for _, f := range []string{"Level", "Name", "Summary"} {
		if got, want := r.field(st, e, f), r.field(st, w, f); got.key() != want.key() {
			r.bad("W02-entry", construct, fn, "the %s recorded is %s, not %s", f, valName(got), valName(want))
		}
	}
}

// second checks the state after a second warning was added to one with an unknown history.
func (r *wmanRun) second(construct string, fn *ssa.Function, st *State, mgr, w1, w2, fnName, text, record Val) {
	count, data := in("count", fieldType(r.insT, "Count")), in("data", fieldType(r.insT, "Data"))
	n1, n2 := r.field(st, w1, "Name"), r.field(st, w2, "Name")
	for _, g := range r.call("GetWarnings", st, mgr) {
		eq := r.cmpBits(g.St, n1, n2)
		l, ok := r.list(g.St, g.Rets[0])
		if !ok {
			r.bad("W02-record", construct, fn, "after two calls GetWarnings returns %s", valName(g.Rets[0]))
			continue
		}
		r.rep.Count("outcomes analysed", 1)
		if eq == 2 {
			if len(l) != 1 {
				r.bad("W02-record", construct, fn, "two warnings of one name give %d entries", len(l))
				continue
			}
			r.entry(construct, fn, g.St, l[0], w1)
			got := r.field(g.St, l[0], "Count")
			if t, ok := got.(VTerm); !ok || t.Op != "+" || len(t.Args) != 2 || t.Args[0].key() != count.key() || t.Args[1].key() != "c:1" {
				r.bad("W02-count", construct, fn, "a further warning makes the count %s, not one more", valName(got))
			}
			d := r.field(g.St, l[0], "Data")
			s, isS := d.(VSlice)
			var added Val
			if isS {
				l, _ := g.St.Mon["appends"].(VTuple)
				for _, x := range l.E {
					if t := x.(VTuple); t.E[0].key() == (VPtr{Obj: s.Arr}).key() && t.E[1].key() == data.key() {
						added = t.E[2]
					}
				}
				if added != nil {
				} else if isNil, known := isNilVal(g.St.resolve(data)); (known && isNil) || r.cmpBits(g.St, data, VNil{}) == 2 {
					added = r.elemsOf(g.St, d)
				}
			}
			t, ok := added.(VTuple)
			if !ok || len(t.E) != 1 {
				r.bad("W02-record", construct, fn, "a further warning is not added to the instances: %s", valName(d))
				continue
			}
			r.instance("W02-instance", construct, fn, g.St, t.E[0], fnName, text, record)
			continue
		}
		if eq&2 != 0 {
			r.bad("W02-record", construct, fn, "two warnings are recorded alike whether their names are equal or not")
			continue
		}
		if len(l) != 2 {
			r.bad("W02-record", construct, fn, "two warnings of different names give %d entries", len(l))
			continue
		}
		for _, e := range l {
			if r.field(g.St, e, "Name").key() == n1.key() {
				r.entry(construct, fn, g.St, e, w1)
				if r.field(g.St, e, "Count").key() != count.key() || r.field(g.St, e, "Data").key() != data.key() {
					r.bad("W02-record", construct, fn, "adding a warning changes the record of another one")
				}
				continue
			}
			r.entry(construct, fn, g.St, e, w2)
			if n, ok := asInt(r.field(g.St, e, "Count")); !ok || n != 1 {
				r.bad("W02-count", construct, fn, "the first warning of a name makes the count %s", valName(r.field(g.St, e, "Count")))
			}
			t, ok := r.elemsOf(g.St, r.field(g.St, e, "Data")).(VTuple)
			if !ok || len(t.E) != 1 {
				r.bad("W02-record", construct, fn, "the first warning of a name is not the only instance")
				continue
			}
			r.instance("W02-instance", construct, fn, g.St, t.E[0], fnName, text, record)
		}
	}
}

// agree checks a boolean result against what is expected for each case of the facts it may depend on.
func (r *wmanRun) agree(rule, construct string, fn *ssa.Function, st *State, got Val, atoms []Val, want func(b []bool) bool, what string) {
	for m := 0; m < 1<<len(atoms); m++ {
		s := st.clone()
		b := make([]bool, len(atoms))
		ok := true
		for i, a := range atoms {
			b[i] = m>>i&1 != 0
			ok = ok && r.assumeTruth(s, a, b[i])
		}
		if !ok || !r.consistent(s, atoms, b) {
			continue
		}
		w := 1
		if want(b) {
			w = 2
		}
		if t := r.truth(s, s.resolve(got)); t != w {
			r.bad(rule, construct, fn, "%s: the answer is not %v (%s)", what, w == 2, describe(atoms, b))
		}
	}
}

func (r *wmanRun) consistent(*State, []Val, []bool) bool { return true }

func describe(atoms []Val, b []bool) string {
	var p []string
	for i, a := range atoms {
		n := strings.TrimPrefix(valName(a), "s:")
		if t, ok := a.(VTerm); ok && t.Op == "cmp" {
			n = valName(t.Args[0]) + " = " + valName(t.Args[1])
		}
		p = append(p, fmt.Sprintf("%s: %v", strings.ReplaceAll(n, "/", ""), b[i]))
	}
	return strings.Join(p, ", ")
}

func eqAtom(a, b Val) Val {
	return VTerm{Op: "cmp", Args: []Val{a, b, constInt(2)}, T: types.Typ[types.Bool]}
}

// flags checks WarnOnly, HasWarning, HasWarnings and SkipTestIf.
func (r *wmanRun) flags(mgr Val, st0 *State) {
	for _, n := range []string{"Predefine", "WarnOnly", "HasWarning", "HasWarnings", "SkipTestIf", "SkipTest"} {
		if r.method(n) == nil {
			r.rep.Violate("W02-missing", n, "-", "the method %s is missing", n)
			return
		}
	}
	ptrs := types.NewSlice(types.NewPointer(r.warnT))
	for _, x := range r.admin {
		for _, s := range r.call("WarnOnly", st0, mgr, x) {
			for _, g := range r.call("GetWarnings", s.St, mgr) {
				if l, ok := r.list(g.St, g.Rets[0]); !ok || len(l) != 0 {
					r.bad("W02-flag", "NewWarningManager", r.method("WarnOnly"), "a new manager does not know the administrative warnings")
				}
			}
		}
	}
	st := st0.clone()
	a, b := r.warn(st, "a"), r.warn(st, "b")
	an, bn := r.field(st, a, "Name"), r.field(st, b, "Name")
	r.ne(st, an, bn)
	w, v := r.warn(st, "w"), r.warn(st, "v")
	wn, vn := r.field(st, w, "Name"), r.field(st, v, "Name")
	admins := map[string]bool{}
	for _, x := range r.admin {
		n := r.field(st, x, "Name")
		admins[n.key()] = true
		for _, y := range []Val{an, bn, wn, vn} {
			r.ne(st, y, n)
		}
	}
	defs := sliceOf(st, "defs", ptrs, []Val{a, b})
	for _, d := range r.call("Predefine", st, mgr, defs) {
		for _, s1 := range r.call("WarnOnly", d.St, mgr, a) {
			// nothing may have been recorded
			for _, g := range r.call("GetWarnings", s1.St, mgr) {
				if l, ok := r.list(g.St, g.Rets[0]); !ok || len(l) != 0 {
					r.bad("W02-flag", "WarnOnly", r.method("WarnOnly"), "WarnOnly of a predefined warning records something")
				}
			}
			for _, s2 := range r.call("WarnOnly", s1.St, mgr, b) {
				is := []Val{r.flag, eqAtom(wn, an), eqAtom(wn, bn)}
				for _, h := range r.call("HasWarning", s2.St, mgr, w) {
					r.rep.Count("outcomes analysed", 1)
					r.agree("W02-flag", "HasWarning", r.method("HasWarning"), h.St, h.Rets[0], is,
						func(x []bool) bool { return x[0] && (x[1] || x[2]) }, "HasWarning after WarnOnly of a and b")
				}
				two := sliceOf(s2.St, "two", ptrs, []Val{w, v})
				atoms := []Val{r.flag, eqAtom(wn, an), eqAtom(wn, bn), eqAtom(vn, an), eqAtom(vn, bn)}
				for _, h := range r.call("HasWarnings", s2.St, mgr, two) {
					l, ok := r.list(h.St, h.Rets[0])
					if !ok {
						r.bad("W02-flag", "HasWarnings", r.method("HasWarnings"), "the result of HasWarnings is not known")
						continue
					}
					r.rep.Count("outcomes analysed", 1)
					hasW, hasV := false, false
					for i, x := range l {
						hasW = hasW || x.key() == w.key()
						hasV = hasV || x.key() == v.key()
						if i > 0 && x.key() != v.key() || x.key() != w.key() && x.key() != v.key() {
							r.bad("W02-flag", "HasWarnings", r.method("HasWarnings"), "HasWarnings does not keep the order of its arguments")
						}
					}
					r.agree("W02-flag", "HasWarnings", r.method("HasWarnings"), h.St, constBool(hasW), atoms, func(x []bool) bool { return x[0] && (x[1] || x[2]) }, "the first warning in the result of HasWarnings")
					r.agree("W02-flag", "HasWarnings", r.method("HasWarnings"), h.St, constBool(hasV), atoms, func(x []bool) bool { return x[0] && (x[3] || x[4]) }, "the second warning in the result of HasWarnings")
				}
				for _, h := range r.call("SkipTestIf", s2.St, mgr, two) {
					r.rep.Count("outcomes analysed", 1)
					fn := r.method("SkipTestIf")
					r.agree("W02-skip", "SkipTestIf", fn, h.St, h.Rets[0], atoms, func(x []bool) bool { return x[0] && (x[1] || x[2] || x[3] || x[4]) }, "SkipTestIf")
					for _, g := range r.call("GetWarnings", h.St, mgr) {
						l, ok := r.list(g.St, g.Rets[0])
						skipped := r.truth(g.St, g.St.resolve(h.Rets[0])) == 2
						if !ok || !skipped && len(l) != 0 || skipped && len(l) != 2 {
							r.bad("W02-skip", "SkipTestIf", fn, "SkipTestIf answers %v and records %d warnings", skipped, len(l))
							continue
						}
						if skipped {
							first := r.firstOf(g.St, wn, vn, an, bn)
							if first == nil {
								continue
							}
							who := w
							if first.key() == vn.key() {
								who = v
							}
							r.skipRecords("SkipTestIf", fn, g.St, l, who)
						}
					}
				}
				for _, h := range r.call("SkipTest", s2.St, mgr, w) {
					for _, g := range r.call("GetWarnings", h.St, mgr) {
						if l, ok := r.list(g.St, g.Rets[0]); ok && len(l) == 2 {
							r.rep.Count("outcomes analysed", 1)
							r.skipRecords("SkipTest", r.method("SkipTest"), g.St, l, w)
						} else {
							r.bad("W02-skip", "SkipTest", r.method("SkipTest"), "SkipTest does not record two warnings")
						}
					}
				}
			}
		}
		// a warning that is not predefined
		u := r.warn(d.St, "undef")
		un := r.field(d.St, u, "Name")
		for _, y := range []Val{an, bn} {
			r.ne(d.St, un, y)
		}
		for k := range admins {
			for _, x := range r.admin {
				if n := r.field(d.St, x, "Name"); n.key() == k {
					r.ne(d.St, un, n)
				}
			}
		}
		fn := r.method("WarnOnly")
		for _, s1 := range r.call("WarnOnly", d.St, mgr, u) {
			for _, g := range r.call("GetWarnings", s1.St, mgr) {
				l, ok := r.list(g.St, g.Rets[0])
				if !ok || len(l) != 1 {
					r.bad("W02-flag", "WarnOnly", fn, "WarnOnly of a warning not predefined is not recorded as undefined")
					continue
				}
				r.entry("WarnOnly", fn, g.St, l[0], r.admin[2])
			}
			for _, h := range r.call("HasWarning", s1.St, mgr, u) {
				r.agree("W02-flag", "WarnOnly", fn, h.St, h.Rets[0], []Val{r.flag}, func(x []bool) bool { return x[0] }, "HasWarning after WarnOnly of a warning not predefined")
			}
		}
	}
}

// firstOf tells which of two warnings is the first one set, as far as it is known.
func (r *wmanRun) firstOf(st *State, w, v, a, b Val) Val {
	if r.cmpBits(st, w, a) == 2 || r.cmpBits(st, w, b) == 2 {
		return w
	}
	if r.cmpBits(st, w, a)&2 == 0 && r.cmpBits(st, w, b)&2 == 0 {
		return v
	}
	return nil
}

// skipRecords checks the two warnings recorded for a skipped test.
func (r *wmanRun) skipRecords(construct string, fn *ssa.Function, st *State, l []Val, w Val) {
	skip := r.admin[1]
	seen := 0
	for _, e := range l {
		t, ok := r.elemsOf(st, r.field(st, e, "Data")).(VTuple)
		if !ok || len(t.E) != 1 {
			r.bad("W02-skip", construct, fn, "a skipped test is not recorded once")
			continue
		}
		text := r.field(st, t.E[0], "Text")
		who, other := w, skip
		if r.field(st, e, "Name").key() == r.field(st, skip, "Name").key() {
			who, other = skip, w
			seen++
		}
		r.entry(construct, fn, st, e, who)
		if text.key() != r.field(st, other, "Summary").key() {
			r.bad("W02-skip", construct, fn, "the text recorded for a skipped test is %s", valName(text))
		}
	}
	if seen != 1 {
		r.bad("W02-skip", construct, fn, "a skipped test is not recorded under its own warning")
	}
}

// order checks GetWarnings: unused warnings are listed only if they really are, and the entries are sorted.
func (r *wmanRun) order(mgr Val, st0 *State, unusedName Val) {
	fn := r.method("GetWarnings")
	st := st0.clone()
	a, b, k, l := r.warn(st, "a"), r.warn(st, "b"), r.warn(st, "k"), r.warn(st, "l")
	an, bn, kn, ln := r.field(st, a, "Name"), r.field(st, b, "Name"), r.field(st, k, "Name"), r.field(st, l, "Name")
	for _, n := range []Val{an, bn, kn, ln} {
		r.ne(st, n, unusedName)
	}
	r.ne(st, an, bn)
	strT := types.Typ[types.String]
	// one, possibly unused, and two used ones; the unused call comes before, between or after
	for pos := 0; pos < 3; pos++ {
		states := []*State{st.clone()}
		step := func(name string, args ...Val) {
			var next []*State
			for _, s := range states {
				for _, x := range r.call(name, s, append([]Val{mgr}, args...)...) {
					next = append(next, x.St)
				}
			}
			states = next
		}
		for i := 0; i <= 2; i++ {
			if i == pos {
				step("AddUnused", k, in("rec", strT))
				if pos == 1 {
					step("AddUnused", l, in("rec", strT))
				}
			}
			if i < 2 {
				step("AddWarningFnText", []Val{a, b}[i], in("fn", strT), in("text", strT), constStr(""))
			}
		}
		for _, s := range states {
			for _, g := range r.call("GetWarnings", s, mgr) {
				ks := []Val{kn}
				if pos == 1 {
					ks = append(ks, ln)
				}
				r.judgeOrder(fn, g, an, bn, ks, unusedName)
				// asking again changes nothing
				for _, h := range r.call("GetWarnings", g.St, mgr) {
					r.judgeOrder(fn, h, an, bn, ks, unusedName)
				}
			}
		}
	}
}

// relate compares two values, also through a third one both were compared with.
func (r *smallRun) relate(st *State, a, b Val) int {
	res := r.cmpBits(st, a, b)
	for _, f := range st.F {
		if f.B == nil {
			continue
		}
		for _, c := range []Val{f.A, f.B} {
			ac, cb := r.cmpBits(st, a, c), r.cmpBits(st, c, b)
			if c.key() == a.key() || c.key() == b.key() || ac == 7 || cb == 7 {
				continue
			}
			through := 0
			for _, x := range []int{1, 2, 4} {
				for _, y := range []int{1, 2, 4} {
					if ac&x == 0 || cb&y == 0 {
						continue
					}
					switch {
					case x == 2:
						through |= y
					case y == 2 || x == y:
						through |= x
					default:
						through = 7
					}
				}
			}
			res &= through
		}
	}
	return res
}

func (r *wmanRun) judgeOrder(fn *ssa.Function, g Result, an, bn Val, ks []Val, unusedName Val) {
	l, ok := r.list(g.St, g.Rets[0])
	if !ok {
		r.bad("W02-order", "GetWarnings", fn, "the result of GetWarnings is not known: %s", valName(g.Rets[0]))
		return
	}
	r.rep.Count("outcomes analysed", 1)
	var names []Val
	unused := false
	listed := map[string]int{}
	for _, e := range l {
		n := r.field(g.St, e, "Name")
		names = append(names, n)
		if n.key() == unusedName.key() {
			unused = true
			d, ok := r.elemsOf(g.St, r.field(g.St, e, "Data")).(VTuple)
			c, okc := asInt(r.field(g.St, e, "Count"))
			for _, x := range d.E {
				listed[r.field(g.St, x, "Text").key()]++
			}
			if !ok || !okc || int(c) != len(d.E) || c < 1 {
				r.bad("W02-unused", "GetWarnings", fn, "the count of unused warnings is %s, their instances %s", valName(r.field(g.St, e, "Count")), valName(r.field(g.St, e, "Data")))
			}
		}
	}
	for _, want := range []Val{an, bn} {
		found := 0
		for _, n := range names {
			if n.key() == want.key() {
				found++
			}
		}
		if found != 1 {
			r.bad("W02-order", "GetWarnings", fn, "a recorded warning appears %d times in the result", found)
		}
	}
	for _, kn := range ks {
		used := r.cmpBits(g.St, kn, an) == 2 || r.cmpBits(g.St, kn, bn) == 2
		notUsed := r.cmpBits(g.St, kn, an)&2 == 0 && r.cmpBits(g.St, kn, bn)&2 == 0
		n := listed[kn.key()]
		if n > 0 && !notUsed {
			r.bad("W02-unused", "GetWarnings", fn, "a warning that was recorded is still listed as unused")
		}
		if n != 1 && !used {
			r.bad("W02-unused", "GetWarnings", fn, "a warning that was not recorded is listed %d times as unused", n)
		}
	}
	if len(names) != 2 && !unused || len(names) != 3 && unused {
		r.bad("W02-order", "GetWarnings", fn, "GetWarnings returns %d entries", len(names))
	}
	for i := 1; i < len(l); i++ {
		la, lb := r.field(g.St, l[i-1], "Level"), r.field(g.St, l[i], "Level")
		bits := r.relate(g.St, la, lb)
		if bits&1 != 0 {
			r.bad("W02-order", "GetWarnings", fn, "the entries are not sorted by falling level")
		} else if bits&2 != 0 && r.relate(g.St, names[i-1], names[i])&4 != 0 {
			r.bad("W02-order", "GetWarnings", fn, "entries of one level are not sorted by name")
		}
	}
}
