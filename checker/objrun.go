package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// objRun drives an object through its methods: each call starts from the state an earlier one left.
type objRun struct {
	*smallRun
	p     *Program
	prop  string
	nCall int
}

func newObjRun(p *Program, rep *Report, what, prop string) *objRun {
	r := &objRun{smallRun: newSmall(p, rep, what), p: p, prop: prop}
	r.MapTerms, r.Variants, r.MaxSteps = true, 64, 200_000
	return r
}

// callFn runs one function from a state; what the arguments reach stays alive.
func (r *objRun) callFn(name string, fn *ssa.Function, st *State, args ...Val) []Result {
	if fn == nil {
		r.bad(r.prop+"-missing", name, nil, "the function %s is missing", name)
		return nil
	}
	st = st.clone()
	r.rep.Count("method calls analysed", 1)
	var out []Result
	keep := st.Mon["keep"]
	if keep == nil {
		keep = VTuple{}
	}
	st.Mon["keep"] = VTuple{E: append(append([]Val(nil), keep.(VTuple).E...), args...)}
	for _, x := range r.Run(fn, args, st) {
		if x.Panic {
			r.bad(r.prop+"-panic", name, fn, "%s can panic", name)
			continue
		}
		r.nCall++
		out = append(out, settle(x, fmt.Sprintf("g:call%d/", r.nCall)))
	}
	if len(out) == 0 {
		r.bad(r.prop+"-construct", name, fn, "no outcome of %s was found", name)
	}
	return out
}

func resolveAll(st *State, l []Val) (out []Val) {
	for _, v := range l {
		out = append(out, st.resolve(v))
	}
	return out
}

// elemsOf lists the elements of a slice of known length, each as a tuple of its fields if it is a struct.
func (r *objRun) elemsOf(st *State, v Val) Val {
	v = st.resolve(v)
	if _, isNil := v.(VNil); isNil {
		return VTuple{}
	}
	s, ok := v.(VSlice)
	if !ok || s.N < 0 {
		return VTop{}
	}
	et := s.T.Underlying().(*types.Slice).Elem()
	t := VTuple{}
	for i := 0; i < s.N; i++ {
		p := VPtr{Obj: s.Arr, Path: fmt.Sprintf("[%d]", i)}
		t.E = append(t.E, st.resolve(r.load(st, nil, nil, p, et)))
	}
	return t
}

// fields reads a struct through a pointer, or out of a struct value.
func (r *objRun) field(st *State, v Val, name string) Val {
	v = st.resolve(v)
	switch v := v.(type) {
	case VPtr:
		o := r.obj(st, v.Obj)
		if o == nil {
			return VTop{}
		}
		if f, ok := o.F[v.Path+"."+name]; ok {
			return st.resolve(f)
		}
		if o.T != nil {
			if ft := fieldType(o.T, name); ft != nil && o.F["unk"] == nil {
				return zeroVal(ft)
			}
		}
	case VStruct:
		s := v.T.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return st.resolve(v.F[i])
			}
		}
	}
	return VTop{}
}

func (r *objRun) ne(st *State, a, b Val) bool { return r.assume(st, a, b, 5) }

// fresh gives the states after making a manager.
func (r *objRun) fresh() (mgr Val, st *State) {
	st = newState()
	fn := r.p.fnByName(wpkg + ".NewWarningManager")
	if fn == nil {
		return nil, nil
	}
	strT := types.Typ[types.String]
	for _, x := range r.Run(fn, []Val{in("name", strT), in("fnPrefix", strT), in("showPrefix", strT)}, st) {
		if x.Panic || len(x.Rets) != 1 {
			continue
		}
		x = settle(x, "g:call0/")
		x.St.Mon["live"] = constBool(true)
		return x.Rets[0], x.St
	}
	return nil, nil
}

func (r *objRun) bad(rule, construct string, fn *ssa.Function, f string, a ...any) {
	pos := "-"
	if fn != nil {
		pos = r.p.Pos(fn.Pos())
	}
	r.rep.Violate(rule, construct, pos, f, a...)
}

// settle gives everything a call created a lasting name, so that the next call's objects are distinct.
func settle(x Result, prefix string) Result {
	name := func(s string) string {
		if global(s) {
			return s
		}
		return prefix + s
	}
	ren := &renamer{sym: name, obj: name}
	st := x.St.clone()
	ren.state(st)
	return Result{St: st, Rets: ren.vs(x.Rets)}
}

// list reads the result of GetWarnings.
func (r *objRun) list(st *State, v Val) ([]Val, bool) {
	t, ok := r.elemsOf(st, v).(VTuple)
	return t.E, ok
}
