package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// R01 and R02: the attribute replacement functions of package replace.

func init() {
	register("R01", func(p *Program, rep *Report) { replaceCheck(p, rep, true) })
	register("R02", func(p *Program, rep *Report) { replaceCheck(p, rep, false); optionsCheck(p, rep) })
}

// keyCase relates the attribute's key to the configured key.
type keyCase struct {
	name     string
	eq, fold bool
}

var keyCases = []keyCase{{"equal keys", true, true}, {"keys equal but for case", false, true}, {"different keys", false, false}}

type grpCase struct {
	name    string
	absent  bool
	accepts bool
}

var grpCases = []grpCase{{"no group check", true, true}, {"group check accepts", false, true}, {"group check refuses", false, false}}

type replRun struct {
	*smallRun
	p       *Program
	rep     *Report
	sem     bool // report semantics (R01); otherwise effects (R02)
	attrT   types.Type
	valT    types.Type
	groupsT types.Type
	kc      keyCase
	gc      grpCase
	from    Val
	attr    VStruct
	groups  Val
	onFn    func(c *Call, name string) ([]Outcome, bool)
	inside  bool // analysing the returned function
}

func newRepl(p *Program, rep *Report, sem bool, what string) *replRun {
	r := &replRun{smallRun: newSmall(p, rep, what), p: p, rep: rep, sem: sem}
	r.attrT = r.slogType("Attr")
	r.valT = r.slogType("Value")
	r.groupsT = types.NewSlice(types.Typ[types.String])
	r.from = in("from", types.Typ[types.String])
	r.attr = VStruct{T: r.attrT, F: []Val{in("attr.Key", types.Typ[types.String]), in("attr.Value", r.valT)}}
	r.groups = in("groups", r.groupsT)
	r.OnCall = r.call
	r.OnEvent = func(e *Engine, kind string, st *State, fr *Frame, at ssa.Instruction, data ...any) {
		if !r.sem && isWriteEvent(kind) {
			rep.Count("writes analysed", 1)
		}
		if id, bad := foreignWrite(e, kind, st, data); bad && !r.sem {
			fn := "?"
			if fr != nil {
				fn = p.FuncName(fr.Fn)
			}
			rep.Violate("R02-effect", what+": "+fn, p.Pos(at.Pos()), "%s writes memory that existed before the call or is shared between calls (%s)", fn, valName(VPtr{Obj: id}))
		}
		if r.sem && (kind == "bad-assert" || kind == "may-panic-assert") {
			rep.Violate("R01-panic", what, p.Pos(at.Pos()), "an unchecked type assertion can panic")
		}
	}
	return r
}

func (r *replRun) call(c *Call) ([]Outcome, bool) {
	st := c.St
	if s, ok := c.FnVal.(VSym); ok && r.onFn != nil && c.Callee == nil {
		return r.onFn(c, s.ID)
	}
	if c.Callee == nil {
		return nil, false
	}
	if fnKey(c.Callee) == "strings.EqualFold" {
		a, b := st.resolve(c.Args[0]).key(), st.resolve(c.Args[1]).key()
		k, f := r.attr.F[0].key(), r.from.key()
		if a == k && b == f || a == f && b == k {
			return one(st, constBool(r.kc.fold)), true
		}
	}
	return nil, false
}

// groupCheck models the caller's group check.
func (r *replRun) groupCheck(c *Call, construct string) []Outcome {
	r.rep.Count("group check calls analysed", 1)
	if len(c.Args) != 1 || c.Args[0].key() != r.groups.key() {
		if r.sem {
			r.rep.Violate("R01-groups", construct, r.p.Pos(c.Site.Pos()), "the group check is not asked about the groups passed to the function")
		}
	}
	return one(c.St, constBool(r.gc.accepts))
}

func (r *replRun) keyState(st *State) {
	bits := 5
	if r.kc.eq {
		bits = 2
	}
	r.assume(st, r.attr.F[0], r.from, bits)
}

// runBuilt analyses a constructor and then the function it returns, and hands each result to judge.
func (r *replRun) runBuilt(fn *ssa.Function, args []Val, construct string, judge func(res Val, st *State) string) {
	st := newState()
	r.keyState(st)
	n := 0
	for _, c := range r.Run(fn, args, st) {
		if c.Panic || len(c.Rets) != 1 {
			if r.sem {
				r.rep.Violate("R01-construct", construct, r.p.Pos(fn.Pos()), "the constructor may panic (%s)", r.caseName())
			}
			continue
		}
		s2 := preState(c.St)
		r.keyState(s2)
		res, ok := r.RunValue(c.Rets[0], []Val{r.groups, r.attr}, s2)
		if !ok {
			if r.sem {
				r.rep.Violate("R01-construct", construct, r.p.Pos(fn.Pos()), "the constructor does not return a known function (%s): %s", r.caseName(), valName(c.Rets[0]))
			}
			continue
		}
		for _, x := range res {
			n++
			r.rep.Count("outcomes analysed", 1)
			if x.Panic || len(x.Rets) != 1 {
				if r.sem {
					r.rep.Violate("R01-panic", construct, r.p.Pos(fn.Pos()), "the function may panic (%s)", r.caseName())
				}
				continue
			}
			if why := judge(x.Rets[0], x.St); why != "" && r.sem {
				r.rep.Violate("R01-result", construct, r.p.Pos(fn.Pos()), "%s: %s; it returns %s", r.caseName(), why, valName(x.Rets[0]))
			}
		}
	}
	if n == 0 && r.sem {
		r.rep.Violate("R01-construct", construct, r.p.Pos(fn.Pos()), "no outcome of the returned function could be analysed (%s)", r.caseName())
	}
}

func (r *replRun) caseName() string { return r.kc.name + ", " + r.gc.name }

func sameAttr(st *State, v Val, key, val Val) bool {
	s, ok := v.(VStruct)
	if !ok || len(s.F) != 2 {
		return false
	}
	return st.resolve(s.F[0]).key() == st.resolve(key).key() && st.resolve(s.F[1]).key() == st.resolve(val).key()
}

func replaceCheck(p *Program, rep *Report, sem bool) {
	if sem {
		rep.Rule = "each replacement function is analysed from an unknown attribute, key, group list and callbacks, once per abstract case (keys equal, equal but for case, or different; case-insensitive or not; group check absent, accepting or refusing); the attribute returned on every path must be the specified one"
	} else {
		rep.Rule = "effect analysis of the replacement functions, the functions they return, and the option constructors: nothing that existed before the call is written, and option constructors return memory of their own"
	}
	strT := types.Typ[types.String]
	boolT := types.Typ[types.Bool]
	need := func(name string) *ssa.Function {
		fn := p.fnByName(name)
		if fn == nil && sem {
			rep.Violate("R01-missing", name, "-", "%s does not exist", name)
		}
		return fn
	}
	grpType := func(fn *ssa.Function) types.Type { return fn.Params[len(fn.Params)-1].Type() }
	each := func(name string, f func(r *replRun, fn *ssa.Function, ci Val, grp Val)) {
		fn := need(name)
		if fn == nil {
			return
		}
		for _, kc := range keyCases {
			for _, gc := range grpCases {
				for _, ci := range []bool{false, true} {
					r := newRepl(p, rep, sem, name)
					r.kc, r.gc = kc, gc
					var grp Val = VNil{}
					if !gc.absent {
						grp = inCls("grpChk", "nonnil", grpType(fn))
					}
					r.onFn = func(c *Call, id string) ([]Outcome, bool) {
						if id == "g:in/grpChk" {
							return r.groupCheck(c, name), true
						}
						if id == "g:in/chgFn" && len(c.Args) == 1 {
							rep.Count("change calls analysed", 1)
							return one(c.St, VTerm{Op: "change", Args: c.Args, T: r.valT}), true
						}
						return nil, false
					}
					rep.Count("cases analysed", 1)
					f(r, fn, constBool(ci), grp)
					r.done()
				}
			}
		}
	}
	matched := func(r *replRun, ci Val) bool {
		c, _ := asBool(ci)
		k := r.kc.eq
		if c {
			k = r.kc.fold
		}
		return k && (r.gc.absent || r.gc.accepts)
	}
	expect := func(r *replRun, name string, fn *ssa.Function, args []Val, ci Val, key, val Val) {
		m := matched(r, ci)
		r.runBuilt(fn, args, name, func(res Val, st *State) string {
			if m && !sameAttr(st, res, key, val) {
				return "an attribute that matches is not changed as specified"
			}
			if !m && !sameAttr(st, res, r.attr.F[0], r.attr.F[1]) {
				return "an attribute that does not match is changed"
			}
			return ""
		})
	}
	each("replace.ChangeKey", func(r *replRun, fn *ssa.Function, ci, grp Val) {
		to := in("to", strT)
		expect(r, "replace.ChangeKey", fn, []Val{r.from, to, ci, grp}, ci, to, r.attr.F[1])
	})
	each("replace.ChangeValue", func(r *replRun, fn *ssa.Function, ci, grp Val) {
		f := inCls("chgFn", "nonnil", fn.Params[1].Type())
		expect(r, "replace.ChangeValue", fn, []Val{r.from, f, ci, grp}, ci, r.attr.F[0], VTerm{Op: "change", Args: []Val{r.attr.F[1]}, T: r.valT})
	})
	each("replace.RemoveKey", func(r *replRun, fn *ssa.Function, ci, grp Val) {
		expect(r, "replace.RemoveKey", fn, []Val{r.from, ci, grp}, ci, constStr(""), zeroVal(r.valT))
	})
	each("replace.ChangeCase", func(r *replRun, fn *ssa.Function, ci, grp Val) {
		ct := fn.Params[1].Type()
		sc := p.Pkg("replace").Types.Scope()
		conv := func(op string) Val {
			s := VTerm{Op: "call:(log/slog.Value).String", Args: []Val{r.attr.F[1]}, T: strT}
			return r.valueOf("String", VTerm{Op: "call:" + op, Args: []Val{s}, T: strT})
		}
		want := map[string]Val{"CaseNone": r.attr.F[1], "CaseLower": conv("strings.ToLower"), "CaseUpper": conv("strings.ToUpper")}
		for name, v := range want {
			c, ok := sc.Lookup(name).(*types.Const)
			if !ok {
				if sem {
					rep.Violate("R01-missing", "replace."+name, "-", "the constant %s does not exist", name)
				}
				continue
			}
			expect(r, "replace.ChangeCase "+name, fn, []Val{r.from, VConst{c.Val(), ct}, ci, grp}, ci, r.attr.F[0], v)
		}
		// any other value changes nothing
		expect(r, "replace.ChangeCase unknown case", fn, []Val{r.from, VConst{constant.MakeInt64(77), ct}, ci, grp}, ci, r.attr.F[0], r.attr.F[1])
	})
	_ = boolT
	setValue(p, rep, sem)
	topCheck(p, rep, sem)
	multiple(p, rep, sem)
	rep.Floor("outcomes analysed", 60)
	rep.Floor("cases analysed", 70)
}

func setValue(p *Program, rep *Report, sem bool) {
	fn := p.fnByName("replace.SetValueTo")
	if fn == nil {
		return
	}
	r := newRepl(p, rep, sem, "replace.SetValueTo")
	v, old := in("value", r.valT), in("old", r.valT)
	for _, c := range r.Run(fn, []Val{v}, newState()) {
		if c.Panic || len(c.Rets) != 1 {
			continue
		}
		res, ok := r.RunValue(c.Rets[0], []Val{old}, preState(c.St))
		if !ok && sem {
			rep.Violate("R01-construct", "replace.SetValueTo", p.Pos(fn.Pos()), "it does not return a known function")
		}
		for _, x := range res {
			rep.Count("outcomes analysed", 1)
			if sem && (x.Panic || len(x.Rets) != 1 || x.Rets[0].key() != v.key()) {
				rep.Violate("R01-result", "replace.SetValueTo", p.Pos(fn.Pos()), "the function does not return the configured value")
			}
		}
	}
	r.done()
}

// topCheck decides TopCheck and Current for group lists of every length up to 4 with unknown names.
func topCheck(p *Program, rep *Report, sem bool) {
	strT := types.Typ[types.String]
	top, cur := p.fnByName("replace.TopCheck"), p.fnByName("replace.Current")
	for n := 0; n <= 4; n++ {
		for _, last := range []bool{true, false} {
			for _, first := range []bool{true, false} {
				if n < 2 && first != last {
					continue
				}
				build := func(r *replRun) (*State, Val, Val) {
					st := newState()
					name := in("name", strT)
					var el []Val
					for i := 0; i < n; i++ {
						el = append(el, in(fmt.Sprintf("group%d", i), strT))
					}
					g := Val(VNil{})
					if n > 0 {
						g = sliceOf(st, "groups", r.groupsT, el)
						bits := func(b bool) int {
							if b {
								return 2
							}
							return 5
						}
						r.assume(st, el[n-1], name, bits(last))
						for i := 0; i < n-1; i++ {
							r.assume(st, el[i], name, bits(first))
						}
					}
					return st, g, name
				}
				judge := func(what string, fn *ssa.Function, res []Result, want bool) {
					for _, x := range res {
						rep.Count("outcomes analysed", 1)
						if !sem {
							continue
						}
						if x.Panic || len(x.Rets) != 1 {
							rep.Violate("R01-panic", what, p.Pos(fn.Pos()), "may panic with %d groups", n)
							continue
						}
						if b, ok := asBool(x.St.resolve(x.Rets[0])); !ok || b != want {
							rep.Violate("R01-result", what, p.Pos(fn.Pos()), "with %d groups, the last %s the name: it must answer %v, not %s", n, map[bool]string{true: "being", false: "not being"}[last], want, valName(x.Rets[0]))
						}
					}
					if len(res) == 0 && sem {
						rep.Violate("R01-panic", what, p.Pos(fn.Pos()), "no outcome with %d groups", n)
					}
				}
				if top != nil {
					r := newRepl(p, rep, sem, "replace.TopCheck")
					st, g, _ := build(r)
					judge("replace.TopCheck", top, r.Run(top, []Val{g}, st), n == 0)
					r.done()
				} else if sem {
					rep.Violate("R01-missing", "replace.TopCheck", "-", "missing")
				}
				if cur != nil {
					r := newRepl(p, rep, sem, "replace.Current")
					st, g, name := build(r)
					for _, c := range r.Run(cur, []Val{name}, st) {
						if c.Panic || len(c.Rets) != 1 {
							continue
						}
						s2 := preState(c.St)
						for k, f := range st.F {
							s2.F[k] = f
						}
						for k, o := range st.H {
							s2.H[k] = o
						}
						res, ok := r.RunValue(c.Rets[0], []Val{g}, s2)
						if !ok && sem {
							rep.Violate("R01-construct", "replace.Current", p.Pos(cur.Pos()), "it does not return a known function")
							continue
						}
						judge("replace.Current", cur, res, n > 0 && last)
					}
					r.done()
				} else if sem {
					rep.Violate("R01-missing", "replace.Current", "-", "missing")
				}
			}
		}
	}
}

// multiple decides Multiple for lists of up to 4 unknown functions; each may or may not return the empty attribute.
func multiple(p *Program, rep *Report, sem bool) {
	fn := p.fnByName("replace.Multiple")
	if fn == nil {
		if sem {
			rep.Violate("R01-missing", "replace.Multiple", "-", "missing")
		}
		return
	}
	at := func(c *Call) string { return p.Pos(c.Site.Pos()) }
	for n := 0; n <= 4; n++ {
		r := newRepl(p, rep, sem, "replace.Multiple")
		isEmpty := func(st *State, v VStruct) bool {
			return sameAttr(st, v, zeroVal(types.Typ[types.String]), zeroVal(r.valT))
		}
		current := func(st *State) (VStruct, int) {
			t, ok := st.Mon["cur"].(VTuple)
			if !ok {
				return r.attr, 0
			}
			i, _ := asInt(t.E[0])
			return t.E[1].(VStruct), int(i)
		}
		r.onFn = func(c *Call, id string) ([]Outcome, bool) {
			var k int
			if _, err := fmt.Sscanf(id, "g:in/fn%d", &k); err != nil || len(c.Args) != 2 {
				return nil, false
			}
			rep.Count("applications analysed", 1)
			cur, done := current(c.St)
			if sem {
				if k != done {
					rep.Violate("R01-order", "replace.Multiple", at(c), "function %d is applied where function %d is due", k, done)
				}
				if c.Args[0].key() != r.groups.key() {
					rep.Violate("R01-groups", "replace.Multiple", at(c), "a function is given other groups than the combined function was")
				}
				if a, ok := c.Args[1].(VStruct); !ok || !sameAttr(c.St, a, cur.F[0], cur.F[1]) {
					rep.Violate("R01-chain", "replace.Multiple", at(c), "function %d is not given what the function before it returned", k)
				}
				if done > 0 && isEmpty(c.St, cur) {
					rep.Violate("R01-removed", "replace.Multiple", at(c), "a function is applied to an attribute that was removed")
				}
			}
			res := VStruct{T: r.attrT, F: []Val{in(fmt.Sprintf("r%d.Key", k), types.Typ[types.String]), in(fmt.Sprintf("r%d.Value", k), r.valT)}}
			// the function removes the attribute, or returns one that is not the empty one
			z := VStruct{T: r.attrT, F: []Val{zeroVal(types.Typ[types.String]), zeroVal(r.valT)}}
			gone, st := c.St.clone(), c.St.clone()
			gone.Mon["cur"] = VTuple{E: []Val{constInt(int64(k + 1)), z}}
			st.Mon["cur"] = VTuple{E: []Val{constInt(int64(k + 1)), res}}
			r.assumeTruth(st, r.attrEqual(&Call{E: r.Engine, St: st, Args: []Val{res, z}}), false)
			return []Outcome{{St: gone, V: z}, {St: st, V: res}}, true
		}
		st := newState()
		var el []Val
		ft := fn.Params[0].Type().Underlying().(*types.Slice).Elem()
		for i := 0; i < n; i++ {
			el = append(el, inCls(fmt.Sprintf("fn%d", i), "nonnil", ft))
		}
		arg := sliceOf(st, "fns", fn.Params[0].Type(), el)
		seen := 0
		for _, c := range r.Run(fn, []Val{arg}, st) {
			if c.Panic || len(c.Rets) != 1 {
				if sem {
					rep.Violate("R01-construct", "replace.Multiple", p.Pos(fn.Pos()), "it may panic")
				}
				continue
			}
			s2 := preState(c.St)
			for k, o := range st.H {
				if s2.H[k] == nil {
					s2.H[k] = o
				}
			}
			res, ok := r.RunValue(c.Rets[0], []Val{r.groups, r.attr}, s2)
			if !ok {
				if sem {
					rep.Violate("R01-construct", "replace.Multiple", p.Pos(fn.Pos()), "it does not return a known function for %d functions", n)
				}
				continue
			}
			for _, x := range res {
				seen++
				rep.Count("outcomes analysed", 1)
				if !sem {
					continue
				}
				if x.Panic || len(x.Rets) != 1 {
					rep.Violate("R01-panic", "replace.Multiple", p.Pos(fn.Pos()), "it may panic with %d functions", n)
					continue
				}
				cur, done := current(x.St)
				if done < n && (done == 0 || !isEmpty(x.St, cur)) {
					rep.Violate("R01-skip", "replace.Multiple", p.Pos(fn.Pos()), "only %d of %d functions are applied although the attribute was not removed", done, n)
				}
				same := sameAttr(x.St, x.Rets[0], cur.F[0], cur.F[1])
				if !same {
					rep.Violate("R01-result", "replace.Multiple", p.Pos(fn.Pos()), "it returns %s, not the result of the last function applied", valName(x.Rets[0]))
				}
			}
		}
		if seen == 0 && sem {
			rep.Violate("R01-construct", "replace.Multiple", p.Pos(fn.Pos()), "no outcome for %d functions", n)
		}
		r.done()
	}
	rep.Floor("applications analysed", 4)
}

// optionsCheck: every function of package infra returning options returns new memory; EmptyAttr is empty.
func optionsCheck(p *Program, rep *Report) {
	pkg := p.Pkg("infra")
	if pkg == nil {
		return
	}
	for _, fn := range p.InPkg("infra") {
		if fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Results().Len() != 1 {
			continue
		}
		rt := fn.Signature.Results().At(0).Type()
		isOpt := typeKey(rt) == "*log/slog.HandlerOptions"
		isAttr := typeKey(rt) == "log/slog.Attr"
		if !isOpt && !isAttr {
			continue
		}
		name := p.FuncName(fn)
		r := newRepl(p, rep, false, name)
		var args []Val
		for _, pr := range fn.Params {
			args = append(args, in(pr.Name(), pr.Type()))
		}
		for _, x := range r.Run(fn, args, newState()) {
			rep.Count("option constructors analysed", 1)
			if x.Panic || len(x.Rets) != 1 {
				rep.Violate("R02-panic", name, p.Pos(fn.Pos()), "it may panic")
				continue
			}
			if isAttr {
				if !sameAttr(x.St, x.Rets[0], constStr(""), zeroVal(r.valT)) {
					rep.Violate("R02-empty", name, p.Pos(fn.Pos()), "it returns %s, which is not the empty attribute", valName(x.Rets[0]))
				}
				continue
			}
			ptr, ok := x.Rets[0].(VPtr)
			var o *Object
			if ok {
				o = r.obj(x.St, ptr.Obj)
			}
			if o == nil || o.Pre || global(ptr.Obj) {
				rep.Violate("R02-shared", name, p.Pos(fn.Pos()), "it returns options shared with other callers (%s)", valName(x.Rets[0]))
				continue
			}
			// each field is a parameter of its type, or the documented default
			for i := 0; i < len(fn.Params); i++ {
				found := false
				for _, v := range o.F {
					if v.key() == args[i].key() {
						found = true
					}
				}
				if !found {
					rep.Violate("R02-ignored", name, p.Pos(fn.Pos()), "the argument %s does not reach the options", fn.Params[i].Name())
				}
			}
		}
		r.done()
	}
	rep.Floor("option constructors analysed", 5)
}
