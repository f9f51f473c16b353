package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// K01: score keepers and their filters. Filters are built of every shape of names and groups and asked about each
// name; keepers are added and listed in every order; keeper.Setup is analysed as a whole.

const spkg = "internal/scoring/score"

func init() {
	register("K01", scoreKeepers)
}

type keepRun struct {
	*objRun
	noHandlers bool // the data has no handlers
}

func newKeepRun(p *Program, rep *Report) *keepRun {
	r := &keepRun{objRun: newObjRun(p, rep, spkg, "K01")}
	r.KeepWritten, r.Ages = true, 40
	errT := types.Universe.Lookup("error").Type()
	r.OnCall = func(c *Call) ([]Outcome, bool) {
		st := c.St
		if c.Method != nil && c.Callee == nil {
			switch c.Method.Name() {
			case "Setup":
				// an axis
				n := "0"
				if v := st.Mon["axes"]; v != nil {
					n, _ = asStr(v)
				}
				n += "," + c.Recv.key()
				for _, a := range c.Args {
					n += "/" + st.resolve(a).key()
				}
				ok, bad := st.clone(), st.clone()
				ok.Mon["axes"], bad.Mon["axes"] = constStr(n), constStr(n+"!")
				return []Outcome{{St: ok, V: VNil{}}, {St: bad, V: VSym{ID: "g:in/axisErr", Cls: "nonnil", T: errT}}}, true
			case "Keep":
				t := VTerm{Op: "kept", Args: []Val{st.resolve(c.Args[0])}, T: types.Typ[types.Bool]}
				yes, no := st.clone(), st
				var outs []Outcome
				if r.assumeTruth(yes, t, true) {
					outs = append(outs, Outcome{St: yes, V: constBool(true)})
				}
				if r.assumeTruth(no, t, false) {
					outs = append(outs, Outcome{St: no, V: constBool(false)})
				}
				return outs, true
			}
			return nil, false
		}
		if c.Callee == nil {
			return nil, false
		}
		k := libName(c.Callee)
		if outs, ok := r.library(c, k); ok {
			return outs, true
		}
		switch k {
		case "log/slog.Warn", "log/slog.Info", "log/slog.Error", "log/slog.Debug":
			return one(st, VTuple{}), true
		}
		if !p.IsRepoFunc(c.Callee) {
			return nil, false
		}
		name := p.FuncName(c.Callee)
		if name == "(creator/veqryndedup.Mode).String" {
			// the modes have distinct names
			if n, ok := asInt(st.resolve(c.Args[0])); ok {
				return one(st, constStr(fmt.Sprintf("mode%d", n))), true
			}
		}
		tagT := func(n string) types.Type { return p.Pkg("internal/data").Types.Scope().Lookup(n).Type() }
		tags := func(n string, l ...string) []Outcome {
			var e []Val
			if r.noHandlers {
				l = nil
			}
			for _, x := range l {
				e = append(e, in(x, tagT(n)))
			}
			return one(st, sliceOf(st, "tags"+n, types.NewSlice(tagT(n)), e))
		}
		switch {
		case name == "(*internal/data.Benchmarks).HandlerTags":
			if strings.Contains(st.resolve(c.Args[0]).key(), "bench2") {
				return tags("HandlerTag", "h2", "h3"), true
			}
			return tags("HandlerTag", "h1", "h2"), true
		case name == "(*internal/data.Warnings).HandlerTags":
			return tags("HandlerTag", "h1", "h2", "h3"), true
		case strings.HasSuffix(name, ").TestTags") && strings.HasPrefix(name, "(*internal/data."):
			return tags("TestTag", "t1"), true
		case name == "(*internal/data.Benchmarks).HasTest", name == "(*internal/data.Benchmarks).HasHandler":
			return one(st, constBool(true)), true
		case strings.HasSuffix(name, ".HandlerName") || strings.HasSuffix(name, ".TestName") && strings.HasPrefix(name, "(*internal/data."):
			return one(st, VTerm{Op: name, Args: resolveAll(st, c.Args), T: types.Typ[types.String]}), true
		case strings.HasPrefix(name, "internal/scoring/axis.New"):
			r.nCall++
			return one(st, VSym{ID: fmt.Sprintf("g:axis/%d", r.nCall), Cls: "nonnil", T: c.Sig.Results().At(0).Type()}), true
		case name == "internal/markdown.TemplateHTML":
			return one(st, VTerm{Op: "html", Args: resolveAll(st, c.Args[:1]), T: c.Sig.Results().At(0).Type()}), true
		}
		return nil, false
	}
	for _, pkg := range []string{spkg, "internal/scoring/filter", "internal/scoring/group", "internal/scoring/keeper", "creator/veqryndedup"} {
		r.ensureGlobals(p.relSSA(pkg))
	}
	return r
}

// library models what the standard library does with known values.
func (r *keepRun) library(c *Call, k string) ([]Outcome, bool) {
	st, e := c.St, c.E
	str := func(i int) (string, bool) {
		if i >= len(c.Args) {
			return "", false
		}
		return r.text(st, c.Args[i])
	}
	switch k {
	case "maps.Copy":
		src := st.resolve(c.Args[1])
		if isNil, known := isNilVal(src); known && isNil {
			return one(st, VTuple{}), true
		}
		m, ok := src.(VMap)
		if !ok {
			return nil, false
		}
		ents, ok := e.mapEntries(st, m)
		if !ok {
			return nil, false
		}
		for _, en := range ents {
			e.mapUpdateT(c.Fr, st, c.Site, st.resolve(c.Args[0]), en[0], en[1])
		}
		return one(st, VTuple{}), true
	case "maps.Clone":
		m, ok := st.resolve(c.Args[0]).(VMap)
		if !ok {
			return nil, false
		}
		ents, ok := e.mapEntries(st, m)
		if !ok {
			return nil, false
		}
		n := VMap{Obj: e.freshObj(st, c.Fr, c.Site, ".clone", &Object{Kind: "map", F: map[string]Val{}})}
		for _, en := range ents {
			e.mapUpdateT(c.Fr, st, c.Site, n, en[0], en[1])
		}
		return one(st, n), true
	case "(*sync.Once).Do":
		key := "once:" + st.resolve(c.Args[0]).key()
		if st.Mon[key] != nil {
			return one(st, VTuple{}), true
		}
		f, ok := st.resolve(c.Args[1]).(VFunc)
		if !ok {
			return nil, false
		}
		st.Mon[key] = constBool(true)
		var outs []Outcome
		for _, x := range e.callFn(f.Fn, nil, f.Bind, st, c.Fr, c.Site) {
			outs = append(outs, Outcome{St: x.St, V: VTuple{}})
		}
		return outs, true
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold":
		a, ok := str(0)
		b, ok2 := str(1)
		if !ok || !ok2 {
			return nil, false
		}
		f := map[string]func(a, b string) bool{"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains, "strings.EqualFold": strings.EqualFold}[k]
		return one(st, constBool(f(a, b))), true
	case "strings.TrimPrefix":
		a, ok := str(0)
		b, ok2 := str(1)
		if !ok || !ok2 {
			return nil, false
		}
		return one(st, constStr(strings.TrimPrefix(a, b))), true
	case "strings.Compare", "cmp.Compare":
		a, ok := str(0)
		b, ok2 := str(1)
		if !ok || !ok2 {
			return nil, false
		}
		return one(st, constInt(int64(strings.Compare(a, b)))), true
	}
	return nil, false
}

func scoreKeepers(p *Program, rep *Report) {
	rep.Rule = "every path of the filter constructors and Keep over names and groups of every shape; AddKeeper, GetKeeper and Keepers in every order of adding; Keeper.Setup over every outcome of its axes and filter; keeper.Setup with the filters it gives its keepers"
	newKeepRun(p, rep).filters()
	newKeepRun(p, rep).registry()
	newKeepRun(p, rep).setup()
	newKeepRun(p, rep).keepers()
	rep.Floor("filters analysed", 15)
	rep.Floor("questions to filters", 100)
	rep.Floor("keeper histories", 8)
	rep.Floor("keepers analysed", 5)
}

// item is a name, or a group of items.
type item struct {
	name  string
	group []item
}

func (it item) has(n string) bool {
	for _, g := range it.group {
		if g.has(n) {
			return true
		}
	}
	return it.group == nil && it.name == n
}

func (it item) String() string {
	if it.group == nil {
		return it.name
	}
	var l []string
	for _, g := range it.group {
		l = append(l, g.String())
	}
	return "(" + strings.Join(l, " ") + ")"
}

func nm(s string) item               { return item{name: s} }
func grp(l ...item) item             { return item{group: append([]item{}, l...)} }
func (r *keepRun) name(s string) Val { return in("name."+s, types.Typ[types.String]) }

type built struct {
	st *State
	v  Val
}

func (r *keepRun) items(st *State, l []item, made map[string]Val) []built {
	// the groups are made first
	var vals []Val
	for _, it := range l {
		if it.group == nil {
			vals = append(vals, VIface{Dyn: types.Typ[types.String], V: r.name(it.name)})
			continue
		}
		g, ok := made[it.String()]
		if !ok {
			mk := r.p.fnByName(spkg + ".NewFilterGroup")
			if mk == nil {
				r.bad("K01-missing", "NewFilterGroup", nil, "NewFilterGroup is missing")
				return nil
			}
			b := r.items(st, it.group, made)
			if len(b) != 1 {
				return nil
			}
			x := r.callFn("NewFilterGroup", mk, b[0].st, b[0].v)
			if len(x) != 1 {
				return nil
			}
			st, g = x[0].St, x[0].Rets[0]
			made[it.String()] = g
		}
		mk := r.p.fnByName(spkg + ".NewFilterGroup")
		vals = append(vals, VIface{Dyn: mk.Signature.Results().At(0).Type(), V: g})
	}
	r.nCall++
	anyT := types.NewSlice(types.Universe.Lookup("any").Type())
	return []built{{st, sliceOf(st, fmt.Sprintf("items%d", r.nCall), anyT, vals)}}
}

func (r *keepRun) keep(st *State, what string, flt Val, n string, want bool) (out []*State) {
	return r.keepName(st, what, flt, r.name(n), n, want)
}

func (r *keepRun) keepName(st *State, what string, flt, name Val, n string, want bool) (out []*State) {
	flt = st.resolve(flt)
	i, ok := flt.(VIface)
	if !ok {
		r.bad("K01-construct", what, nil, "what is made for %s is not a known filter: %s", what, valName(flt))
		return nil
	}
	fn := r.p.SSA.LookupMethod(i.Dyn, nil, "Keep")
	if fn == nil {
		r.bad("K01-missing", what, nil, "the filter has no method Keep")
		return nil
	}
	r.rep.Count("questions to filters", 1)
	for _, x := range r.callFn("Keep", fn, st, i.V, name) {
		got := x.St.resolve(x.Rets[0])
		if t := r.truth(x.St, got); t == 1 && want || t == 2 && !want || t != 1 && t != 2 {
			r.bad("K01-filter", strings.Fields(what)[0], fn, "%s: Keep(%s) gives %s, not %v", what, n, valName(got), want)
		}
		out = append(out, x.St)
	}
	return
}

func (r *keepRun) filters() {
	defer r.done()
	a, b, c := nm("a"), nm("b"), nm("c")
	shapes := [][]item{
		{}, {a}, {a, b}, {b, a}, {a, a}, {grp(a)}, {grp(a), b}, {b, grp(a)}, {grp(a), grp(b)}, {grp(a, b), grp(b, c)},
		{grp(a), grp(a)}, {grp(grp(a), b)}, {grp(grp(a), b), c}, {a, grp()}, {grp(), a}, {a, grp(a), b},
	}
	for _, kind := range []string{"NewIncludeFilter", "NewExcludeFilter"} {
		mk := r.p.fnByName(spkg + "." + kind)
		if mk == nil {
			r.bad("K01-missing", kind, nil, "%s is missing", kind)
			continue
		}
		for _, l := range shapes {
			st := newState()
			all := []string{"a", "b", "c", "x"}
			for i, m := range all {
				for _, n := range all[i+1:] {
					r.ne(st, r.name(m), r.name(n))
				}
			}
			r.rep.Count("filters analysed", 1)
			what := kind + " " + grp(l...).String()
			made := map[string]Val{}
			in := r.items(st, l, made)
			if len(in) != 1 {
				r.bad("K01-construct", kind, mk, "the groups of %s cannot be followed", what)
				continue
			}
			for _, x := range r.callFn(kind, mk, in[0].st, in[0].v) {
				states := []*State{x.St}
				for round := 0; round < 2; round++ {
					for _, n := range all {
						var next []*State
						for _, s := range states {
							next = append(next, r.keep(s, what, x.Rets[0], n, grp(l...).has(n) == (kind == "NewIncludeFilter"))...)
						}
						states = next
					}
				}
				// the groups are as they were
				for _, g := range l {
					if g.group == nil {
						continue
					}
					inc := r.p.fnByName(spkg + ".NewIncludeFilter")
					for _, s := range states {
						again := r.items(s, []item{g}, made)
						if len(again) != 1 || inc == nil {
							continue
						}
						for _, y := range r.callFn("NewIncludeFilter", inc, again[0].st, again[0].v) {
							ss := []*State{y.St}
							for _, n := range all {
								var next []*State
								for _, s := range ss {
									next = append(next, r.keep(s, what+", then a filter of its group "+g.String(), y.Rets[0], n, g.has(n))...)
								}
								ss = next
							}
						}
					}
				}
			}
		}
	}
}

func (r *keepRun) tagT() types.Type { return r.p.Pkg(spkg).Types.Scope().Lookup("KeeperTag").Type() }

// newKeeper makes a keeper.
func (r *keepRun) newKeeper(st *State, tag string, id string, filter Val) *Result {
	mk := r.p.fnByName(spkg + ".NewKeeper")
	if mk == nil {
		r.bad("K01-missing", "NewKeeper", nil, "NewKeeper is missing")
		return nil
	}
	ps := mk.Signature.Params()
	args := []Val{strConst(tag, r.tagT()), inCls("x."+id, "nonnil", ps.At(1).Type()), inCls("y."+id, "nonnil", ps.At(2).Type()), in("doc."+id, ps.At(3).Type()), VNil{}, filter}
	x := r.callFn("NewKeeper", mk, st, args...)
	if len(x) != 1 {
		r.bad("K01-construct", "NewKeeper", mk, "NewKeeper has %d outcomes", len(x))
		return nil
	}
	return &x[0]
}

// registry adds keepers and lists them.
func (r *keepRun) registry() {
	defer r.done()
	add, get, list := r.p.fnByName(spkg+".AddKeeper"), r.p.fnByName(spkg+".GetKeeper"), r.p.fnByName(spkg+".Keepers")
	if add == nil || get == nil || list == nil {
		r.bad("K01-missing", "AddKeeper", nil, "AddKeeper, GetKeeper or Keepers is missing")
		return
	}
	tags := map[byte]string{'a': "Alpha", 'b': "Beta", 'c': "alpha", 'm': "A+z", 'p': "+Alpha", 'q': "+Zeta"}
	order := "mabcpq" // the order they are listed in
	for _, h := range []string{"?", "a?", "a?b?", "ba?", "pa?", "ap?", "bqpa?", "q?p?b?a?", "aa?", "a?a?b?", "pp?a?p?", "ca?", "ac?a?", "pmb?", "mcpa?"} {
		r.rep.Count("keeper histories", 1)
		st := newState()
		have := map[byte]Val{}
		for i := 0; i < len(h) && st != nil; i++ {
			op := h[i]
			if op != '?' {
				k := r.newKeeper(st, tags[op], fmt.Sprintf("%s%d", h, i), VNil{})
				if k == nil {
					return
				}
				x := r.callFn("AddKeeper", add, k.St, k.Rets[0])
				if len(x) != 1 {
					r.bad("K01-construct", "AddKeeper", add, "AddKeeper has %d outcomes", len(x))
					return
				}
				isNil, known := isNilVal(x[0].St.resolve(x[0].Rets[0]))
				if _, dup := have[op]; dup {
					if !known || isNil {
						r.bad("K01-duplicate", "AddKeeper", add, "after %q a second keeper with the same tag is not refused", h[:i])
					}
				} else {
					if !known || !isNil {
						r.bad("K01-add", "AddKeeper", add, "after %q a keeper with a new tag is refused", h[:i])
					}
					have[op] = k.Rets[0]
				}
				st = x[0].St
				continue
			}
			for _, o := range []byte(order) {
				x := r.callFn("GetKeeper", get, st, strConst(tags[o], r.tagT()))
				if len(x) != 1 {
					r.bad("K01-construct", "GetKeeper", get, "GetKeeper has %d outcomes", len(x))
					return
				}
				got := x[0].St.resolve(x[0].Rets[0])
				if want, ok := have[o]; ok {
					if got.key() != want.key() {
						r.bad("K01-get", "GetKeeper", get, "after %q the keeper %q is %s, not the one that was added first", h[:i], tags[o], valName(got))
					}
				} else if isNil, known := isNilVal(got); !known || !isNil {
					r.bad("K01-get", "GetKeeper", get, "after %q there is a keeper %q: %s", h[:i], tags[o], valName(got))
				}
				st = x[0].St
			}
			var want []string
			for _, o := range []byte(order) {
				if have[o] != nil {
					want = append(want, tags[o])
				}
			}
			outs := r.callFn("Keepers", list, st)
			for _, x := range outs {
				l, ok := r.list(x.St, x.Rets[0])
				var got []string
				for _, v := range l {
					s, isS := asStr(v)
					ok = ok && isS
					got = append(got, s)
				}
				if !ok || strings.Join(got, "|") != strings.Join(want, "|") {
					r.bad("K01-list", "Keepers", list, "after %q the keepers are %q (%s), not %q", h[:i], got, valName(x.St.resolve(x.Rets[0])), want)
				}
				st = x.St
			}
			if len(outs) == 0 {
				st = nil
			}
		}
	}
}

// setup analyses Keeper.Setup.
func (r *keepRun) setup() {
	defer r.done()
	fn, list := r.p.fnByName("(*"+spkg+".Keeper).Setup"), r.p.fnByName("(*"+spkg+".Keeper).HandlerTags")
	mk := r.p.fnByName(spkg + ".NewKeeper")
	if fn == nil || list == nil || mk == nil {
		r.bad("K01-missing", "Keeper.Setup", nil, "Keeper.Setup or HandlerTags is missing")
		return
	}
	bench, warns := inCls("bench", "nonnil", fn.Signature.Params().At(0).Type()), inCls("warns", "nonnil", fn.Signature.Params().At(1).Type())
	filters := []Val{VNil{}, inCls("filter", "nonnil", mk.Signature.Params().At(5).Type())}
	for _, f := range filters {
		k := r.newKeeper(newState(), "Tag", "k", f)
		if k == nil {
			return
		}
		hT := r.p.Pkg("internal/data").Types.Scope().Lookup("HandlerTag").Type()
		r.ne(k.St, in("h1", hT), in("h2", hT))
		r.ne(k.St, in("h1", hT), in("h3", hT))
		r.ne(k.St, in("h2", hT), in("h3", hT))
		for round := 0; round < 2; round++ {
			var again *State
			bench, shown := bench, []string{"h1", "h2"}
			if round == 1 {
				// other data
				bench, shown = inCls("bench2", "nonnil", bench.(VSym).T), []string{"h2", "h3"}
			}
			args := "/" + bench.key() + "/" + warns.key()
			x, y := "0,"+inCls("x.k", "nonnil", mk.Signature.Params().At(1).Type()).key()+args, ","+inCls("y.k", "nonnil", mk.Signature.Params().At(2).Type()).key()+args
			for _, o := range r.callFn("Keeper.Setup", fn, k.St, k.Rets[0], bench, warns) {
				r.rep.Count("outcomes of Keeper.Setup", 1)
				axes := ""
				if v := o.St.Mon["axes"]; v != nil {
					axes, _ = asStr(v)
				}
				isNil, known := isNilVal(o.St.resolve(o.Rets[0]))
				if strings.Contains(axes, "!") {
					if !known || isNil {
						r.bad("K01-axis", "Keeper.Setup", fn, "an axis fails to be set up, and no error is returned")
					}
					continue
				}
				if !known || !isNil {
					r.bad("K01-axis", "Keeper.Setup", fn, "an error is returned although both axes are set up")
					continue
				}
				if !strings.Contains(axes, x[1:]) || !strings.Contains(axes, y) {
					r.bad("K01-axis", "Keeper.Setup", fn, "both axes must be set up with the data: %s", axes)
				}
				for _, g := range r.callFn("Keeper.HandlerTags", list, o.St, k.Rets[0]) {
					l, ok := r.list(g.St, g.Rets[0])
					var got, want []string
					for _, v := range l {
						got = append(got, valName(v))
					}
					for _, h := range shown {
						hv := in(h, hT)
						keep := f.key() == (VNil{}).key()
						if !keep {
							name := VTerm{Op: "(*internal/data.Warnings).HandlerName", Args: []Val{warns, hv}, T: types.Typ[types.String]}
							t := r.truth(g.St, VTerm{Op: "kept", Args: []Val{name}, T: types.Typ[types.Bool]})
							if t != 1 && t != 2 {
								name.Op = "(*internal/data.Benchmarks).HandlerName"
								name.Args[0] = bench
								t = r.truth(g.St, VTerm{Op: "kept", Args: []Val{name}, T: types.Typ[types.Bool]})
							}
							if t != 1 && t != 2 {
								r.bad("K01-handlers", "Keeper.Setup", fn, "the filter is not asked about the name of a handler")
								continue
							}
							keep = t == 2
						}
						if keep {
							want = append(want, valName(hv))
						}
					}
					if !ok || strings.Join(got, "|") != strings.Join(want, "|") {
						r.bad("K01-handlers", "Keeper.Setup", fn, "the handlers shown are %q, not %q", got, want)
					}
					again = g.St
				}
			}
			if again == nil {
				r.bad("K01-construct", "Keeper.Setup", fn, "no path sets a keeper up")
				return
			}
			// a second time
			k.St = again.clone()
			delete(k.St.Mon, "axes")
		}
	}
}

// keepers analyses what the keepers of the module show.
func (r *keepRun) keepers() {
	defer r.done()
	p := r.p
	r.noHandlers = true
	fn, get, list := p.fnByName("internal/scoring/keeper.Setup"), p.fnByName(spkg+".GetKeeper"), p.fnByName(spkg+".Keepers")
	if fn == nil || get == nil || list == nil {
		r.bad("K01-missing", "keeper.Setup", nil, "keeper.Setup is missing")
		return
	}
	konst := func(pkg, name string) string {
		if pk := p.Pkg(pkg); pk != nil {
			if c, ok := pk.Types.Scope().Lookup(name).(*types.Const); ok {
				return constant.StringVal(c.Val())
			}
		}
		r.bad("K01-missing", pkg+"."+name, nil, "the name %s.%s is missing", pkg, name)
		return ""
	}
	// the names
	var dedup []string
	dedup = append(dedup, konst("creator/snqkmeld", "Name"))
	nameOf := p.fnByName("creator/veqryndedup.Name")
	if nameOf == nil {
		r.bad("K01-missing", "veqryndedup.Name", nil, "veqryndedup.Name is missing")
		return
	}
	sc := p.Pkg("creator/veqryndedup").Types.Scope()
	none := ""
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok || c.Type() != nameOf.Signature.Params().At(0).Type() {
			continue
		}
		for _, x := range r.callFn("veqryndedup.Name", nameOf, newState(), VConst{c.Val(), c.Type()}) {
			s, ok := r.text(x.St, x.Rets[0])
			if !ok {
				r.bad("K01-construct", "veqryndedup.Name", nameOf, "the name for %s is not a fixed text: %s", n, valName(x.Rets[0]))
				return
			}
			if n == "None" {
				none = s
			} else {
				dedup = append(dedup, s)
			}
		}
	}
	repl := []string{konst("creator/madkinsreplattr", "Name")}
	flash, json := konst("creator/madkinsflash", "Name"), konst("creator/slogjson", "Name")
	others := []string{flash, json, "madkins/sloggy", none, "some/other"}
	is := func(n string, l ...string) bool {
		for _, x := range l {
			if x == n {
				return true
			}
		}
		return false
	}
	kinds := map[string]func(n string) bool{
		"+Dedup":    func(n string) bool { return is(n, dedup...) || n == json },
		"+ReplAttr": func(n string) bool { return is(n, repl...) || n == flash },
	}
	basic := func(n string) bool { return !is(n, dedup...) && !is(n, repl...) }
	bench, warns := inCls("bench", "nonnil", fn.Signature.Params().At(0).Type()), inCls("warns", "nonnil", fn.Signature.Params().At(1).Type())
	done := false
	for _, x := range r.callFn("keeper.Setup", fn, newState(), bench, warns) {
		isNil, known := isNilVal(x.St.resolve(x.Rets[0]))
		axes := ""
		if v := x.St.Mon["axes"]; v != nil {
			axes, _ = asStr(v)
		}
		if strings.Contains(axes, "!") {
			if !known || isNil {
				r.bad("K01-axis", "keeper.Setup", fn, "a keeper fails to be set up, and no error is returned")
			}
			continue
		}
		if !known || !isNil {
			r.bad("K01-axis", "keeper.Setup", fn, "keeper.Setup fails although nothing it calls does")
			continue
		}
		if done {
			continue
		}
		done = true
		for _, l := range r.callFn("Keepers", list, x.St) {
			tags, _ := r.list(l.St, l.Rets[0])
			if len(tags) < 5 {
				r.bad("K01-keepers", "keeper.Setup", fn, "keeper.Setup adds %d keepers", len(tags))
			}
			if n := strings.Count(axes, ","); n != 2*len(tags) {
				r.bad("K01-axis", "keeper.Setup", fn, "%d axes are set up for %d keepers", n, len(tags))
			}
			for _, tv := range tags {
				tag, _ := asStr(tv)
				r.rep.Count("keepers analysed", 1)
				want := kinds[tag]
				if want == nil {
					want = basic
					if strings.HasPrefix(tag, "+") {
						continue
					}
				}
				for _, g := range r.callFn("GetKeeper", get, l.St, tv) {
					flt := r.field(g.St, g.St.resolve(g.Rets[0]), r.filterField())
					for _, n := range append(append(append([]string{}, dedup...), repl...), others...) {
						r.keepName(g.St, "keeper "+tag, flt, constStr(n), n, want(n))
					}
				}
			}
		}
	}
	if !done {
		r.bad("K01-construct", "keeper.Setup", fn, "no path of keeper.Setup succeeds")
	}
}

// filterField is the name of the field a keeper has its filter in.
func (r *keepRun) filterField() string {
	sc := r.p.Pkg(spkg).Types.Scope()
	if k, f := sc.Lookup("Keeper"), sc.Lookup("Filter"); k != nil && f != nil {
		if s, ok := k.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if types.Identical(s.Field(i).Type(), f.Type()) {
					return s.Field(i).Name()
				}
			}
		}
	}
	return "filter"
}

// text is the fixed text of a value.
func (r *keepRun) text(st *State, v Val) (string, bool) {
	v = st.resolve(v)
	if s, ok := asStr(v); ok {
		return s, true
	}
	if q, ok := v.(VSeq); ok {
		s := ""
		for _, c := range q.C.Chunks {
			if !c.Lit {
				return "", false
			}
			s += c.S
		}
		return s, true
	}
	return "", false
}
