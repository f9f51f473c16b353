package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shared pieces of the checks that analyse one function (or a constructor and what it returns) from a fully
// described abstract input. Inputs are unknowns with fixed names; each obligation is decided per abstract case
// (which of two keys are equal, whether a callback is absent, ...), never per concrete value.

// in makes a named unknown input; the "g:" prefix keeps its name inside callees.
func in(name string, t types.Type) Val { return mkSym("g:in/"+name, t) }

func inCls(name, cls string, t types.Type) Val { return VSym{ID: "g:in/" + name, Cls: cls, T: t} }

// fnByName finds a source function by its repository-relative name, e.g. "replace.ChangeKey".
func (p *Program) fnByName(name string) *ssa.Function {
	for _, fn := range p.Funcs {
		if p.FuncName(fn) == name && fn.Synthetic == "" {
			return fn
		}
	}
	return nil
}

// smallEngine is an engine that reports writes to memory the analysed code does not own.
type smallRun struct {
	*Engine
	rep    *Report
	what   string
	writes bool

	onTrim func(c *Call, prov, fn, cut string)
}

func newSmall(p *Program, rep *Report, what string) *smallRun {
	r := &smallRun{Engine: NewEngine(p), rep: rep, what: what}
	r.MaxSteps = 300_000
	r.Views = true
	return r
}

// done reports functions analysed and gives up loudly when the analysis did not finish.
func (r *smallRun) done() {
	for f := range r.NFuncs {
		r.rep.Site("function %s", f)
	}
	r.rep.Count("abstract steps", r.Steps)
	r.rep.Count("call sites analysed", len(r.NCalls))
	for u, at := range r.Undecided {
		r.rep.Violate("undecided", r.what, at, "the analysis did not finish: %s", u)
	}
}

// preState marks everything reachable now as memory that existed before the next call.
func preState(st *State) *State {
	n := st.clone()
	for id, o := range n.H {
		c := o.clone()
		c.Pre = true
		c.Own = false
		n.H[id] = c
	}
	return n
}

// sliceOf builds a slice of known length in the state.
func sliceOf(st *State, name string, t types.Type, elems []Val) Val {
	id := "g:in/" + name
	o := &Object{Kind: "array", Pre: true, T: t, F: map[string]Val{}}
	for i, v := range elems {
		p := fmt.Sprintf("[%d]", i)
		if vs, ok := v.(VStruct); ok {
			s := vs.T.Underlying().(*types.Struct)
			for j := 0; j < s.NumFields(); j++ {
				o.F[p+"."+s.Field(j).Name()] = vs.F[j]
			}
			continue
		}
		o.F[p] = v
	}
	st.H[id] = o
	return VSlice{Arr: id, N: len(elems), T: t}
}

func isWriteEvent(kind string) bool {
	switch kind {
	case "store", "append-write", "array-write":
		return true
	}
	return false
}

// foreignWrite reports whether an event writes memory that existed before (or is shared).
func foreignWrite(e *Engine, kind string, st *State, data []any) (string, bool) {
	if !isWriteEvent(kind) || len(data) == 0 {
		return "", false
	}
	id := ""
	switch d := data[0].(type) {
	case VPtr:
		id = d.Obj
	case string:
		id = d
	}
	var o *Object
	if len(data) > 1 {
		o, _ = data[1].(*Object)
	}
	if o == nil {
		o = e.obj(st, id)
	}
	if o != nil && !o.Pre && !global(id) {
		return "", false
	}
	if o != nil && o.Own {
		return "", false
	}
	return id, true
}

func boolVal(v Val) (bool, bool) { return asBool(v) }

func strConst(s string, t types.Type) Val { return VConst{constant.MakeString(s), t} }

func valName(v Val) string {
	s := v.key()
	s = strings.ReplaceAll(s, "s:g:in/", "")
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}
