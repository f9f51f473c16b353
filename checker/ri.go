package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// I01 and I02: the creators of handlers, and infra.Creator.

func init() {
	register("I01", creators)
	register("I02", creatorMethods)
}

// contains reports whether a value, or what it points to, contains another.
func contains(st *State, v, want Val, depth int) bool {
	if v == nil || depth > 8 {
		return false
	}
	v = st.resolve(v)
	if v.key() == want.key() {
		return true
	}
	obj := func(id string) bool {
		if o := st.H[id]; o != nil {
			for _, f := range o.F {
				if contains(st, f, want, depth+1) {
					return true
				}
			}
		}
		return false
	}
	list := func(l []Val) bool {
		for _, x := range l {
			if contains(st, x, want, depth+1) {
				return true
			}
		}
		return false
	}
	switch v := v.(type) {
	case VTerm:
		return list(v.Args)
	case VStruct:
		return list(v.F)
	case VTuple:
		return list(v.E)
	case VIface:
		return contains(st, v.V, want, depth+1)
	case VFunc:
		return list(v.Bind)
	case VPtr:
		return obj(v.Obj)
	case VSlice:
		return obj(v.Arr)
	case VMap:
		return obj(v.Obj)
	}
	return false
}

func isWriterIface(t types.Type) bool { return typeKey(t) == "io.Writer" }

// levelScale gives the constants of a foreign package for the four standard levels.
func levelScale(t types.Type) (map[int64]string, bool) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Name() != "Level" {
		return nil, false
	}
	if n.Obj().Pkg().Path() == "log/slog" {
		return nil, false
	}
	sc := n.Obj().Pkg().Scope()
	m := map[int64]string{}
	for lv, name := range map[int64]string{-4: "DebugLevel", 0: "InfoLevel", 4: "WarnLevel", 8: "ErrorLevel"} {
		c, ok := sc.Lookup(name).(*types.Const)
		if !ok {
			return nil, false
		}
		m[lv] = c.Val().ExactString()
	}
	return m, true
}

// badLevel finds a level for which the foreign level passed on is not the greatest standard level at or below it.
func (r *smallRun) badLevel(st *State, lvl, got Val, scale map[int64]string) (string, bool) {
	c, ok := got.(VConst)
	if !ok {
		return "", true
	}
	for _, n := range []int64{-100, -8, -5, -4, -3, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 100} {
		if k, isC := lvl.(VConst); isC {
			if i, _ := constant.Int64Val(k.C); i != n {
				continue
			}
		} else {
			s := st.clone()
			if !r.assume(s, lvl, VConst{constant.MakeInt64(n), r.slogType("Level")}, 2) || r.contradicts(s, lvl, n) {
				continue
			}
		}
		std := int64(-4)
		for _, s := range []int64{0, 4, 8} {
			if n >= s {
				std = s
			}
		}
		if c.C.ExactString() != scale[std] {
			return fmt.Sprintf("level %d is passed on as %s, not as %s", n, c.C.ExactString(), scale[std]), true
		}
	}
	return "", false
}

// contradicts: the facts known on the path about the level exclude the number n.
func (r *smallRun) contradicts(st *State, lvl Val, n int64) bool {
	lt := r.slogType("Level")
	for k := int64(-12); k <= 12; k++ {
		bits := r.cmpBits(st, lvl, VConst{constant.MakeInt64(k), lt})
		want := 1
		if n == k {
			want = 2
		} else if n > k {
			want = 4
		}
		if bits&want == 0 {
			return true
		}
	}
	return false
}

func creators(p *Program, rep *Report) {
	rep.Rule = "every path of every function given to infra.NewCreator, for level absent or any, source on or off, replacement absent or any: writer and options as they reach the wrapped constructors; effects"
	expandMore = func(n *types.Named) bool {
		s, ok := n.Underlying().(*types.Struct)
		for i := 0; ok && i < s.NumFields(); i++ {
			if f := s.Field(i).Name(); s.Field(i).Exported() && (f == "AddSource" || f == "ReplaceAttr" || f == "Level") {
				return true
			}
		}
		return false
	}
	defer func() { expandMore = nil }()
	newCreator := p.fnByName("infra.NewCreator")
	if newCreator == nil {
		rep.Violate("I01-missing", "infra.NewCreator", "-", "infra.NewCreator is missing")
		return
	}
	handlerT := types.Type(nil)
	names := map[string]string{}
	calls := map[*ssa.Function]map[string]map[string]bool{}
	for _, fn := range p.Funcs {
		if p.PkgOf(fn) == "infra" || !strings.HasPrefix(p.PkgOf(fn), "creator/") || fn.Parent() != nil || fn.Signature.Recv() != nil {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() != 1 || !strings.HasSuffix(typeKey(res.At(0).Type()), "infra.Creator") {
			continue
		}
		// what the function passes to NewCreator, for each mode if it takes one
		var argSets [][]Val
		if len(fn.Params) == 0 {
			argSets = [][]Val{nil}
		} else if len(fn.Params) == 1 {
			if nt, ok := fn.Params[0].Type().(*types.Named); ok {
				sc := nt.Obj().Pkg().Scope()
				for _, n := range sc.Names() {
					if c, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), nt) {
						argSets = append(argSets, []Val{VConst{c.Val(), nt}})
					}
				}
			}
		}
		if len(argSets) == 0 {
			rep.Violate("I01-construct", p.FuncName(fn), p.Pos(fn.Pos()), "the parameters of this creator are not understood")
		}
		for _, args := range argSets {
			r := newSmall(p, rep, p.FuncName(fn))
			made := 0
			r.OnCall = func(c *Call) ([]Outcome, bool) {
				if c.Callee == newCreator {
					made++
					rep.Count("creators analysed", 1)
					at := p.Pos(c.Site.Pos())
					if n, ok := asStr(c.St.resolve(c.Args[0])); ok {
						if n == "" {
							rep.Violate("I01-name", r.what, at, "the creator has no name")
						}
						if old := names[n]; old != "" && len(args) == 0 {
							rep.Violate("I01-name", r.what, at, "the name %q is used by two creators: %s", n, old)
						}
						names[n] = r.what
					}
					nf := 0
					for i, kind := range []string{"handler", "logger"} {
						f, ok := c.St.resolve(c.Args[1+i]).(VFunc)
						if !ok {
							if isNil, known := isNilVal(c.St.resolve(c.Args[1+i])); known && isNil {
								continue
							}
							rep.Violate("I01-construct", r.what, at, "the %s function is not known", kind)
							continue
						}
						nf++
						if calls[f.Fn] == nil {
							calls[f.Fn] = creatorFn(p, rep, f)
						}
						if len(args) == 1 {
							if n := constName(args[0]); n != "" {
								for k, exported := range calls[f.Fn] {
									if want := "New" + n + "Handler"; exported[want] && !calls[f.Fn][k][" "+want] {
										rep.Violate("I01-mode", r.what+" "+n, at, "the mode %s gives a handler that %s does not make", n, want)
									}
								}
							}
						}
					}
					if nf == 0 {
						rep.Violate("I01-construct", r.what, at, "the creator has neither a handler nor a logger function")
					}
					return one(c.St, VSym{ID: "g:in/creator", T: c.Sig.Results().At(0).Type()}), true
				}
				if c.Callee != nil && !p.IsRepoFunc(c.Callee) && c.Sig.Results().Len() <= 1 {
					if c.Sig.Results().Len() == 0 {
						return one(c.St, VTuple{}), true
					}
					return one(c.St, e1(r, c)), true
				}
				return nil, false
			}
			r.Run(fn, args, newState())
			if made == 0 {
				rep.Violate("I01-construct", r.what, p.Pos(fn.Pos()), "no creator is made")
			}
			r.done()
		}
	}
	_ = handlerT
	rep.Floor("creators analysed", 10)
	rep.Floor("constructor calls analysed", 100)
}

// sharedSource: the receiver is what a function without arguments returned that does not make anything new.
func sharedSource(st *State, args []Val) (string, bool) {
	if len(args) == 0 {
		return "", false
	}
	t, ok := st.resolve(args[0]).(VTerm)
	if !ok || !strings.HasPrefix(t.Op, "ext:") || len(t.Args) > 0 {
		return "", false
	}
	name := strings.ToLower(t.Op[strings.LastIndex(t.Op, ".")+1:])
	for _, p := range []string{"new", "make", "create", "build", "must", "open", "with"} {
		if strings.HasPrefix(name, p) {
			return "", false
		}
	}
	return t.Op, true
}

func e1(r *smallRun, c *Call) Val {
	return r.freshSym(c.St, c.Fr, c.Site, c.Sig.Results().At(0).Type(), "")
}

// creatorFn analyses one handler or logger function.
// It returns, per foreign package, the names it exports and, after a space, the functions called.
func creatorFn(p *Program, rep *Report, f VFunc) map[string]map[string]bool {
	called := map[string]map[string]bool{}
	fn := f.Fn
	what := p.FuncName(fn)
	rep.Site("function %s", what)
	if len(fn.Params) != 2 {
		return called
	}
	optT := derefType(fn.Params[1].Type())
	var sourceCalled, sourceMissed string
	for mask := 0; mask < 8; mask++ {
		lvlSet, src, rplSet := mask&1 != 0, mask&2 != 0, mask&4 != 0
		cfg := fmt.Sprintf("level set %v, source %v, replacement set %v", lvlSet, src, rplSet)
		r := newSmall(p, rep, what)
		bad := func(rule string, at ssa.Instruction, f string, a ...any) {
			pos := p.Pos(fn.Pos())
			if at != nil {
				pos = p.Pos(at.Pos())
			}
			rep.Violate(rule, what, pos, "%s (%s)", fmt.Sprintf(f, a...), cfg)
		}
		lt := r.slogType("Level")
		st := newState()
		o := &Object{Kind: "struct", Pre: true, T: optT, F: map[string]Val{".AddSource": constBool(src)}}
		var level, replace Val = VNil{}, VNil{}
		lvl := Val(VConst{constant.MakeInt64(0), lt})
		if lvlSet {
			level = inCls("Level", "nonnil", p.ByPath["log/slog"].Types.Scope().Lookup("Leveler").Type())
			lvl = VTerm{Op: "level", Args: []Val{level}, T: lt}
		}
		if rplSet {
			replace = inCls("ReplaceAttr", "nonnil", fieldType(optT, "ReplaceAttr"))
		}
		o.F[".Level"], o.F[".ReplaceAttr"] = level, replace
		optPtr := VPtr{Obj: "g:in/options"}
		st.H[optPtr.Obj] = o
		w := inCls("w", "nonnil", fn.Params[0].Type())
		field := func(st *State, at ssa.Instruction, v Val, name string, got Val) {
			got = st.resolve(got)
			switch name {
			case "Level":
				if i, ok := got.(VIface); ok {
					got = st.resolve(i.V)
				}
				if lvlSet && got.key() != level.key() && got.key() != lvl.key() {
					bad("I01-level", at, "the configured level does not reach %s: %s", valName(v), valName(got))
				}
				if isNil, known := isNilVal(got); !lvlSet && !(known && isNil) && got.key() != lvl.key() {
					bad("I01-level", at, "without a configured level %s is passed on, not Info", valName(got))
				}
			case "AddSource":
				if b, ok := asBool(got); !ok || b != src {
					bad("I01-source", at, "AddSource is passed on as %s", valName(got))
				}
			case "ReplaceAttr":
				if rplSet && !contains(st, got, replace, 0) {
					bad("I01-replace", at, "the configured replacement function is not passed on")
				}
				if !rplSet {
					if isNil, known := isNilVal(got); !(known && isNil) {
						if _, ok := got.(VFunc); !ok {
							bad("I01-replace", at, "a replacement function is passed on although none was configured")
						}
					}
				}
			}
		}
		optionsOf := func(st *State, at ssa.Instruction, v Val, t types.Type) {
			t0 := t
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t0 = pt.Elem()
			}
			s, ok := t0.Underlying().(*types.Struct)
			if !ok {
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				n := s.Field(i).Name()
				if n != "Level" && n != "AddSource" && n != "ReplaceAttr" {
					continue
				}
				switch x := v.(type) {
				case VStruct:
					if i < len(x.F) {
						field(st, at, v, n, x.F[i])
					}
				case VPtr:
					if x.Obj == optPtr.Obj {
						continue // effects are checked separately
					}
					if ob := r.obj(st, x.Obj); ob != nil {
						g, ok := ob.F[x.Path+"."+n]
						if !ok {
							g = zeroVal(s.Field(i).Type())
						}
						field(st, at, v, n, g)
					}
				case VNil:
					if n == "Level" && lvlSet || n == "AddSource" && src || n == "ReplaceAttr" && rplSet {
						bad("I01-options", at, "the options are not passed on")
					}
				}
			}
		}
		r.OnCall = func(c *Call) ([]Outcome, bool) {
			st := c.St
			if c.Method != nil && c.Callee == nil && c.Method.Name() == "Level" && len(c.Args) == 0 {
				if x, ok := c.Recv.(VIface); ok && typeKey(x.Dyn) == "log/slog.Level" {
					return one(st, x.V), true
				}
				return one(st, VTerm{Op: "level", Args: []Val{c.Recv}, T: lt}), true
			}
			if c.Callee == nil {
				return nil, false
			}
			k := fnKey(c.Callee)
			switch k {
			case "(log/slog.Level).Level":
				return one(st, c.Args[0]), true
			case "log/slog.Error", "log/slog.Warn", "log/slog.Info", "log/slog.Debug":
				return one(st, VTuple{}), true
			}
			leaf := !p.IsRepoFunc(c.Callee) || (strings.HasPrefix(p.PkgOf(c.Callee), "handlers/") && c.Callee.Name() == "NewHandler")
			if !leaf {
				return nil, false
			}
			rep.Count("constructor calls analysed", 1)
			st = st.clone()
			if pk := c.Callee.Pkg; pk != nil && !p.IsRepoFunc(c.Callee) {
				m := called[pk.Pkg.Path()]
				if m == nil {
					m = map[string]bool{}
					for _, n := range pk.Pkg.Scope().Names() {
						m[n] = true
					}
					called[pk.Pkg.Path()] = m
				}
				m[" "+c.Callee.Name()] = true
			}
			if strings.HasPrefix(c.Callee.Name(), "Set") && !p.IsRepoFunc(c.Callee) {
				if c.Callee.Signature.Recv() == nil && c.Sig.Results().Len() == 0 {
					bad("I01-effect", c.Site, "%s changes what all handlers share", k)
				} else if t, ok := sharedSource(st, c.Args); ok {
					bad("I01-effect", c.Site, "%s changes the result of %s, which is not made for this handler", k, strings.TrimPrefix(t, "ext:"))
				}
			}
			params := c.Callee.Params
			pt := func(i int) types.Type {
				if i < len(params) {
					return params[i].Type()
				}
				sig := c.Callee.Signature
				j := i
				if sig.Recv() != nil {
					if i == 0 {
						return sig.Recv().Type()
					}
					j--
				}
				if j < sig.Params().Len() {
					return sig.Params().At(j).Type()
				}
				return types.Typ[types.Invalid]
			}
			for i, a := range c.Args {
				a = st.resolve(a)
				t := pt(i)
				if isWriterIface(t) {
					rep.Count("writers analysed", 1)
					n, _ := asInt2(st.Mon["writers"])
					if st.Mon["writers"] == nil {
						n = 0
					}
					st.Mon["writers"] = constInt(n + 1)
					if a.key() != w.key() {
						bad("I01-writer", c.Site, "%s is given the writer %s, not the one passed by the caller", k, valName(a))
					}
				}
				if scale, ok := levelScale(t); ok {
					rep.Count("level conversions analysed", 1)
					if s, wrong := r.badLevel(st, lvl, a, scale); wrong {
						if s == "" {
							s = "the level passed on is not determined"
						}
						bad("I01-level", c.Site, "%s", s)
					}
				} else if typeKey(t) == "log/slog.Level" && a.key() != lvl.key() {
					bad("I01-level", c.Site, "%s is given the level %s", k, valName(a))
				}
				optionsOf(st, c.Site, a, t)
			}
			if c.Callee.Name() == "AddSource" || c.Callee.Name() == "WithCaller" || c.Callee.Name() == "AddCaller" {
				sourceCalled = k
				st.Mon["source"] = constBool(true)
				if !src {
					bad("I01-source", c.Site, "the source is added although it was not asked for")
				}
			}
			if pk := c.Callee.Pkg; pk != nil && pk.Pkg.Scope().Lookup("AddSource") != nil {
				if _, ok := pk.Pkg.Scope().Lookup("AddSource").(*types.Func); ok && k != pk.Pkg.Path()+".AddSource" && st.Mon["source"] == nil && src {
					sourceMissed = k
				}
			}
			switch res := c.Sig.Results(); res.Len() {
			case 0:
				return one(st, VTuple{}), true
			case 1:
				return one(st, VTerm{Op: "ext:" + k, Args: c.Args, T: res.At(0).Type()}), true
			}
			var e []Val
			for i := 0; i < c.Sig.Results().Len(); i++ {
				e = append(e, VTerm{Op: fmt.Sprintf("ext:%s:%d", k, i), Args: c.Args, T: c.Sig.Results().At(i).Type()})
			}
			return one(st, VTuple{E: e}), true
		}
		r.OnEvent = func(e *Engine, kind string, st *State, fr *Frame, at ssa.Instruction, data ...any) {
			if id, wr := foreignWrite(e, kind, st, data); wr {
				if strings.HasPrefix(id, "g:in/options") {
					bad("I01-effect", at, "the caller's options are modified")
				} else {
					bad("I01-effect", at, "memory shared between calls is modified: %s", valName(VPtr{Obj: id}))
				}
			}
			if kind == "go" {
				bad("I01-effect", at, "a goroutine is started")
			}
		}
		n := 0
		args := []Val{w, optPtr}
		res, ok := r.RunValue(f, args, st)
		if !ok {
			bad("I01-construct", nil, "the function could not be analysed")
		}
		for _, x := range res {
			n++
			rep.Count("outcomes analysed", 1)
			if x.Panic || len(x.Rets) != 1 {
				bad("I01-panic", nil, "it may panic")
				continue
			}
			v := x.St.resolve(x.Rets[0])
			if isNil, known := isNilVal(v); known && isNil {
				bad("I01-result", nil, "no handler is returned")
				continue
			}
			t := v
			if i, ok := v.(VIface); ok {
				t = x.St.resolve(i.V)
			}
			if tt, ok := t.(VTerm); !ok || !strings.HasPrefix(tt.Op, "ext:") {
				bad("I01-result", nil, "what is returned is not a new handler but %s", valName(t))
			}
			if k, _ := asInt2(x.St.Mon["writers"]); x.St.Mon["writers"] == nil || k < 1 {
				bad("I01-writer", nil, "the writer of the caller is not passed to any constructor")
			}
		}
		if n == 0 {
			bad("I01-construct", nil, "no outcome")
		}
		r.done()
	}
	if sourceMissed != "" {
		rep.Violate("I01-source", what, p.Pos(fn.Pos()), "%s is called without AddSource although the source was asked for", sourceMissed)
	}
	_ = sourceCalled
	return called
}

// constName is the name of the package-level constant with the value and type of v.
func constName(v Val) string {
	c, ok := v.(VConst)
	if !ok {
		return ""
	}
	n, ok := c.T.(*types.Named)
	if !ok {
		return ""
	}
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if k, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(k.Type(), n) && constant.Compare(k.Val(), token.EQL, c.C) {
			return name
		}
	}
	return ""
}

func fieldType(t types.Type, name string) types.Type {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return types.Typ[types.Invalid]
}

// creatorMethods decides I02: what the methods of a Creator made by NewCreator do.
func creatorMethods(p *Program, rep *Report) {
	rep.Rule = "NewCreator and every method of Creator, for each combination of name, handler function and logger function being absent or any: results against the specification"
	nc := p.fnByName("infra.NewCreator")
	if nc == nil {
		rep.Violate("I02-missing", "infra.NewCreator", "-", "infra.NewCreator is missing")
		return
	}
	ct := nc.Signature.Results().At(0).Type()
	strT := types.Typ[types.String]
	for mask := 0; mask < 8; mask++ {
		hasName, hasH, hasL := mask&1 != 0, mask&2 != 0, mask&4 != 0
		cfg := fmt.Sprintf("name %v, handler function %v, logger function %v", hasName, hasH, hasL)
		r := newSmall(p, rep, "infra.NewCreator")
		st := newState()
		pick := func(on bool, i int, name string) Val {
			if on {
				return inCls(name, "nonnil", nc.Params[i].Type())
			}
			return VNil{}
		}
		name := Val(constStr(""))
		if hasName {
			name = in("name", strT)
			r.assume(st, VTerm{Op: "len", Args: []Val{name}, T: types.Typ[types.Int]}, constInt(0), 5)
			r.assume(st, name, constStr(""), 5)
		}
		hf, lf := pick(hasH, 1, "handlerFn"), pick(hasL, 2, "loggerFn")
		summary, links := in("summary", strT), in("links", nc.Params[4].Type())
		r.OnCall = func(c *Call) ([]Outcome, bool) {
			if c.Callee == nil {
				if s, ok := c.FnVal.(VSym); ok && len(c.Args) == 2 {
					rep.Count("calls of the functions analysed", 1)
					return one(c.St, VTerm{Op: "made:" + strings.TrimPrefix(s.ID, "g:in/"), Args: c.Args, T: c.Sig.Results().At(0).Type()}), true
				}
				return nil, false
			}
			switch k := fnKey(c.Callee); {
			case k == "os.Exit":
				return []Outcome{}, true
			case k == "log/slog.New":
				return one(c.St, VTerm{Op: "slog.New", Args: c.Args, T: c.Sig.Results().At(0).Type()}), true
			case strings.HasPrefix(k, "log/slog.") && c.Sig.Results().Len() == 0:
				return one(c.St, VTuple{}), true
			}
			return nil, false
		}
		r.OnEvent = func(e *Engine, kind string, st *State, fr *Frame, at ssa.Instruction, data ...any) {
			if id, wr := foreignWrite(e, kind, st, data); wr {
				rep.Violate("I02-effect", p.FuncName(fr.Fn), p.Pos(at.Pos()), "shared memory is modified: %s", valName(VPtr{Obj: id}))
			}
		}
		want := hasName && (hasH || hasL)
		made := 0
		for _, m := range r.Run(nc, []Val{name, hf, lf, summary, links}, st) {
			if m.Panic || len(m.Rets) != 1 {
				if want {
					rep.Violate("I02-panic", "infra.NewCreator", p.Pos(nc.Pos()), "it may panic (%s)", cfg)
				}
				continue
			}
			made++
			rep.Count("outcomes analysed", 1)
			if !want {
				rep.Violate("I02-refuse", "infra.NewCreator", p.Pos(nc.Pos()), "a creator without a name, or without any function, is made (%s)", cfg)
				continue
			}
			base := preState(m.St)
			for k, f := range st.F {
				base.F[k] = f
			}
			oid := "g:in/creator"
			co := &Object{Kind: "struct", Pre: true, T: ct, F: map[string]Val{}}
			if sv, ok := m.Rets[0].(VStruct); ok {
				s := ct.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					co.F["."+s.Field(i).Name()] = sv.F[i]
				}
			}
			base.H[oid] = co
			w, opt := in("w", p.ByPath["io"].Types.Scope().Lookup("Writer").Type()), in("options", types.NewPointer(types.Typ[types.Int]))
			call := func(method string, args []Val, check func(st *State, v Val) string) {
				fn := p.SSA.LookupMethod(types.NewPointer(ct), p.Pkg("infra").Types, method)
				if fn == nil {
					rep.Violate("I02-missing", "infra.Creator."+method, "-", "the method %s is missing", method)
					return
				}
				n := 0
				for _, x := range r.Run(fn, append([]Val{VPtr{Obj: oid}}, args...), base.clone()) {
					n++
					rep.Count("outcomes analysed", 1)
					if x.Panic || len(x.Rets) != 1 {
						rep.Violate("I02-panic", p.FuncName(fn), p.Pos(fn.Pos()), "it may panic (%s)", cfg)
						continue
					}
					if s := check(x.St, x.St.resolve(x.Rets[0])); s != "" {
						rep.Violate("I02-result", p.FuncName(fn), p.Pos(fn.Pos()), "%s (%s)", s, cfg)
					}
				}
				if n == 0 {
					rep.Violate("I02-panic", p.FuncName(fn), p.Pos(fn.Pos()), "no outcome (%s)", cfg)
				}
			}
			hTerm := VTerm{Op: "made:handlerFn", Args: []Val{w, opt}}
			lTerm := VTerm{Op: "made:loggerFn", Args: []Val{w, opt}}
			is := func(wantV Val) func(*State, Val) string {
				return func(st *State, v Val) string {
					if v.key() == wantV.key() {
						return ""
					}
					return "it returns " + valName(v) + ", not " + valName(wantV)
				}
			}
			isBool := func(want bool) func(*State, Val) string {
				return func(st *State, v Val) string {
					if b, ok := asBool(v); ok && b == want {
						return ""
					}
					return fmt.Sprintf("it returns %s, not %v", valName(v), want)
				}
			}
			switch {
			case hasL:
				call("NewLogger", []Val{w, opt}, is(lTerm))
			default:
				call("NewLogger", []Val{w, opt}, is(VTerm{Op: "slog.New", Args: []Val{hTerm}}))
			}
			if hasH {
				call("NewHandler", []Val{w, opt}, is(hTerm))
			} else {
				call("NewHandler", []Val{w, opt}, func(st *State, v Val) string {
					if n, k := isNilVal(v); k && n {
						return ""
					}
					return "without a handler function it returns " + valName(v)
				})
			}
			call("CanMakeHandler", nil, isBool(hasH))
			call("Name", nil, is(name))
			call("Summary", nil, is(summary))
			call("Links", nil, is(links))
		}
		if want && made == 0 {
			rep.Violate("I02-refuse", "infra.NewCreator", p.Pos(nc.Pos()), "no creator is made (%s)", cfg)
		}
		r.done()
	}
	rep.Floor("outcomes analysed", 18)
	rep.Floor("calls of the functions analysed", 4)
}
