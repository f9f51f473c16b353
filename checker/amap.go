package main

import (
	"fmt"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Maps with unknown keys, for the small models (Engine.MapTerms). A map is a chain of updates over a base that
// is either empty or unknown. A lookup walks the chain from the newest update, splitting on whether the keys
// are equal; below the chain an unknown base gives the term mapget(base, key), so that reading the same key
// twice gives the same value.

const chainMax = 12

// chain lists the updates of a map object, oldest first; an entry of one element is a deletion.
func chain(o *Object) (ks []string) {
	for k := range o.F {
		if strings.HasPrefix(k, "u") && k != "unk" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

// baseMap makes a map object of unknown contents.
func baseMap(st *State, name string, t types.Type) Val {
	id := "g:in/" + name
	st.H[id] = &Object{Kind: "map", Pre: true, T: t, F: map[string]Val{"base": VSym{ID: id + "#base", T: t}}}
	return VMap{Obj: id}
}

// chainMap makes a map object holding exactly the given entries.
func chainMap(st *State, name string, t types.Type, kv ...[2]Val) Val {
	id := "g:in/" + name
	o := &Object{Kind: "map", Pre: true, T: t, F: map[string]Val{}}
	for i, e := range kv {
		o.F[fmt.Sprintf("u%03d", i)] = VTuple{E: []Val{e[0], e[1]}}
	}
	st.H[id] = o
	return VMap{Obj: id}
}

// entries lists what a map of wholly known contents holds, provided that the keys are known to differ.
func (e *Engine) mapEntries(st *State, m VMap) ([][2]Val, bool) {
	o := e.obj(st, m.Obj)
	if o == nil || o.F["base"] != nil || o.F["unk"] != nil || o.Weak {
		return nil, false
	}
	ks := chain(o)
	var out [][2]Val
	for i := len(ks) - 1; i >= 0; i-- {
		t := o.F[ks[i]].(VTuple)
		k := st.resolve(t.E[0])
		hidden := false
		for j := i + 1; j < len(ks); j++ {
			bits := e.cmpBits(st, k, st.resolve(o.F[ks[j]].(VTuple).E[0]))
			if bits == 2 {
				hidden = true
			} else if bits&2 != 0 {
				return nil, false
			}
		}
		if !hidden && len(t.E) == 2 {
			out = append([][2]Val{{k, t.E[1]}}, out...)
		}
	}
	return out, true
}

func (e *Engine) mapLookupT(fr *Frame, st *State, ins ssa.Instruction, x, k Val, mt *types.Map, commaOk bool) []Outcome {
	wrap := func(st *State, v Val, ok bool) Outcome {
		if commaOk {
			return Outcome{St: st, V: VTuple{E: []Val{v, constBool(ok)}}}
		}
		return Outcome{St: st, V: v}
	}
	var outs []Outcome
	rest := st.clone()
	var base Val = x
	if m, ok := x.(VMap); ok {
		o := e.obj(st, m.Obj)
		if o == nil || o.Weak || o.F["unk"] != nil {
			v := e.freshSym(st, fr, ins, mt.Elem(), ".v")
			no := st.clone()
			return []Outcome{wrap(st, v, true), wrap(no, zeroVal(mt.Elem()), false)}
		}
		ks := chain(o)
		for i := len(ks) - 1; i >= 0; i-- {
			t := o.F[ks[i]].(VTuple)
			ek := rest.resolve(t.E[0])
			ns := rest.clone()
			if e.assumeKeyEq(ns, mt.Key(), k, ek, true) {
				if len(t.E) == 2 {
					outs = append(outs, wrap(ns, t.E[1], true))
				} else {
					outs = append(outs, wrap(ns, zeroVal(mt.Elem()), false))
				}
			}
			if !e.assumeKeyEq(rest, mt.Key(), k, ek, false) {
				return outs
			}
		}
		base = o.F["base"]
		if base == nil {
			return append(outs, wrap(rest, zeroVal(mt.Elem()), false))
		}
	}
	okT := VTerm{Op: "mapok", Args: []Val{base, k}, T: types.Typ[types.Bool]}
	var v Val = VTerm{Op: "mapget", Args: []Val{base, k}, T: mt.Elem()}
	if isBool(mt.Elem()) {
		// an absent key reads as false
		v = VTerm{Op: "mapget", Args: []Val{base, k}, T: mt.Elem()}
	}
	if expandStruct(mt.Elem()) {
		v = e.freshSym(rest, fr, ins, mt.Elem(), ".v")
	}
	no := rest.clone()
	if e.assumeTruth(rest, okT, true) {
		outs = append(outs, wrap(rest, v, true))
	}
	if e.assumeTruth(no, okT, false) {
		outs = append(outs, wrap(no, zeroVal(mt.Elem()), false))
	}
	return outs
}

func (e *Engine) mapUpdateT(fr *Frame, st *State, ins ssa.Instruction, m, k Val, v Val) {
	e.emit("map-set", st, fr, ins, m, k, v)
	mm, ok := m.(VMap)
	if !ok {
		if _, isNil := m.(VNil); isNil {
			e.emit("nil-deref", st, fr, ins, m)
		}
		id := e.backing(st, m)
		e.emit("store", st, fr, ins, VPtr{Obj: id, Path: "[key]"}, e.obj(st, id))
		return
	}
	o := e.obj(st, mm.Obj)
	if o != nil && (o.Pre && !o.Own || o.Pooled || global(mm.Obj)) {
		e.emit("store", st, fr, ins, VPtr{Obj: mm.Obj, Path: "[key]"}, o)
	}
	n := e.mutObj(st, mm.Obj)
	if n.Weak {
		n.F["unk"] = constBool(true)
		return
	}
	var list []Val
	for _, x := range chain(n) {
		t := n.F[x].(VTuple)
		delete(n.F, x)
		if st.resolve(t.E[0]).key() != k.key() {
			list = append(list, t)
		}
	}
	ent := VTuple{E: []Val{k}}
	if v != nil {
		ent.E = append(ent.E, v)
	}
	list = append(list, ent)
	if len(list) > chainMax {
		delete(n.F, "base")
		n.F["unk"] = constBool(true)
		return
	}
	for i, t := range list {
		n.F[fmt.Sprintf("u%03d", i)] = t
	}
}

// mapRange starts an iteration over a map of known contents.
func (e *Engine) mapRange(fr *Frame, st *State, ins *ssa.Range, x Val) (Val, bool) {
	m, ok := x.(VMap)
	_, isNil := x.(VNil)
	if !ok && !isNil {
		return nil, false
	}
	var ents [][2]Val
	if ok {
		if ents, ok = e.mapEntries(st, m); !ok {
			return nil, false
		}
	}
	if e.MapRev {
		slices.Reverse(ents)
	}
	o := &Object{Kind: "iter", Own: true, F: map[string]Val{"pos": constInt(0), "n": constInt(int64(len(ents)))}}
	for i, en := range ents {
		o.F[fmt.Sprintf("e%03d", i)] = VTuple{E: []Val{en[0], en[1]}}
	}
	id := e.freshObj(st, fr, ins, ".it", o)
	return VTerm{Op: "mapiter", Args: []Val{VPtr{Obj: id}}}, true
}

func (e *Engine) mapNext(fr *Frame, st *State, ins *ssa.Next, it Val) bool {
	t, ok := it.(VTerm)
	if !ok || t.Op != "mapiter" {
		return false
	}
	id := t.Args[0].(VPtr).Obj
	o := e.obj(st, id)
	if o == nil {
		return false
	}
	pos, _ := asInt(o.F["pos"])
	n, _ := asInt(o.F["n"])
	if pos >= n {
		tt := ins.Type().(*types.Tuple)
		z := func(i int) Val {
			if tt.At(i).Type() == types.Typ[types.Invalid] {
				return VTop{}
			}
			return zeroVal(tt.At(i).Type())
		}
		fr.R[ins] = VTuple{E: []Val{constBool(false), z(1), z(2)}}
		return true
	}
	en := o.F[fmt.Sprintf("e%03d", pos)].(VTuple)
	e.mutObj(st, id).F["pos"] = constInt(pos + 1)
	fr.R[ins] = VTuple{E: []Val{constBool(true), en.E[0], en.E[1]}}
	return true
}

// sortModel gives the effect of sorting a slice of known length: an insertion sort that splits on every comparison.
func (e *Engine) sortModel(c *Call) ([]Outcome, bool) {
	if c.Callee == nil || len(c.Args) == 0 {
		return nil, false
	}
	kind := ""
	switch libName(c.Callee) {
	case "sort.Slice", "sort.SliceStable":
		kind = "less-index"
	case "slices.SortFunc", "slices.SortStableFunc":
		kind = "cmp"
	case "sort.Strings", "slices.Sort", "sort.Ints":
		kind = "natural"
	default:
		return nil, false
	}
	x := c.St.resolve(c.Args[0])
	if i, ok := x.(VIface); ok {
		x = c.St.resolve(i.V)
	}
	if _, isNil := x.(VNil); isNil {
		return one(c.St, VTuple{}), true
	}
	s, ok := x.(VSlice)
	if !ok || s.N < 0 || s.N > 6 {
		return nil, false
	}
	var less Val
	if len(c.Args) > 1 {
		less = c.St.resolve(c.Args[1])
	}
	states, ok := e.sortStates(c, s, kind, less)
	if !ok {
		return nil, false
	}
	var outs []Outcome
	for _, st := range states {
		outs = append(outs, Outcome{St: st, V: VTuple{}})
	}
	return outs, true
}

// libName is the full name of a library function, without type arguments.
func libName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return fnKey(o)
	}
	return fnKey(fn)
}

// collModel gives the effect of the functions of the packages slices, maps and cmp on collections of known length.
func (e *Engine) collModel(c *Call) ([]Outcome, bool) {
	if c.Callee == nil || e.P.IsRepoFunc(c.Callee) {
		return nil, false
	}
	st := c.St
	name := libName(c.Callee)
	switch name {
	case "cmp.Compare", "strings.Compare":
		a, b := st.resolve(c.Args[0]), st.resolve(c.Args[1])
		var outs []Outcome
		for i, bits := range []int{1, 2, 4} {
			if n := st.clone(); e.assume(n, a, b, bits) {
				outs = append(outs, Outcome{St: n, V: constInt(int64(i - 1))})
			}
		}
		return outs, true
	case "maps.Keys", "maps.Values":
		return one(st, VTerm{Op: name, Args: []Val{st.resolve(c.Args[0])}, T: c.Sig.Results().At(0).Type()}), true
	case "slices.Collect", "slices.Sorted", "slices.SortedFunc", "slices.SortedStableFunc":
		t, ok := st.resolve(c.Args[0]).(VTerm)
		if !ok || len(t.Args) != 1 {
			return nil, false
		}
		m, ok := t.Args[0].(VMap)
		if _, isNil := t.Args[0].(VNil); isNil {
			return one(st, VNil{}), true
		}
		if !ok {
			return nil, false
		}
		ents, ok := e.mapEntries(st, m)
		if !ok || len(ents) > 6 {
			return nil, false
		}
		if e.MapRev {
			slices.Reverse(ents)
		}
		rt := c.Sig.Results().At(0).Type()
		o := &Object{Kind: "array", T: rt, F: map[string]Val{}}
		for i, en := range ents {
			v := en[0]
			if t.Op == "maps.Values" {
				v = en[1]
			}
			o.F[fmt.Sprintf("[%d]", i)] = v
		}
		s := VSlice{Arr: e.freshObj(st, c.Fr, c.Site, ".col", o), N: len(ents), T: rt}
		if name == "slices.Collect" {
			return one(st, s), true
		}
		kind, less := "natural", Val(nil)
		if len(c.Args) > 1 {
			kind, less = "cmp", st.resolve(c.Args[1])
		}
		states, ok := e.sortStates(c, s, kind, less)
		if !ok {
			return nil, false
		}
		var outs []Outcome
		for _, n := range states {
			outs = append(outs, Outcome{St: n, V: s})
		}
		return outs, true
	case "slices.DeleteFunc", "slices.ContainsFunc", "slices.IndexFunc", "slices.Contains", "slices.Index":
		s, ok := st.resolve(c.Args[0]).(VSlice)
		if _, isNil := st.resolve(c.Args[0]).(VNil); isNil {
			switch strings.TrimPrefix(name, "slices.") {
			case "DeleteFunc":
				return one(st, VNil{}), true
			case "ContainsFunc", "Contains":
				return one(st, constBool(false)), true
			}
			return one(st, constInt(-1)), true
		}
		if !ok || s.N < 0 || s.N > 6 {
			return nil, false
		}
		et := s.T.Underlying().(*types.Slice).Elem()
		f, isF := st.resolve(c.Args[1]).(VFunc)
		if strings.HasSuffix(name, "Func") != isF {
			return nil, false
		}
		type item struct {
			st   *State
			keep []Val
			hit  int
		}
		items := []item{{st, nil, -1}}
		for i := 0; i < s.N; i++ {
			var next []item
			for _, it := range items {
				if it.hit >= 0 && name != "slices.DeleteFunc" {
					next = append(next, it)
					continue
				}
				v := e.load(it.st, c.Fr, c.Site, VPtr{Obj: s.Arr, Path: fmt.Sprintf("[%d]", i)}, et)
				split := func(n *State, cond Val) {
					y := n.clone()
					if e.assumeTruth(y, cond, true) {
						next = append(next, item{y, it.keep, i})
					}
					if e.assumeTruth(n, cond, false) {
						next = append(next, item{n, append(append([]Val(nil), it.keep...), v), it.hit})
					}
				}
				if !isF {
					split(it.st, VTerm{Op: "cmp", Args: []Val{it.st.resolve(v), it.st.resolve(c.Args[1]), constInt(2)}, T: types.Typ[types.Bool]})
					continue
				}
				for _, r := range e.callFn(f.Fn, []Val{v}, f.Bind, it.st, c.Fr, c.Site) {
					if !r.Panic && len(r.Rets) == 1 {
						split(r.St, r.St.resolve(r.Rets[0]))
					}
				}
			}
			items = next
		}
		var outs []Outcome
		for _, it := range items {
			var v Val
			switch strings.TrimPrefix(name, "slices.") {
			case "ContainsFunc", "Contains":
				v = constBool(it.hit >= 0)
			case "IndexFunc", "Index":
				v = constInt(int64(it.hit))
			default:
				e.emit("array-write", it.st, c.Fr, c.Site, s.Arr, e.obj(it.st, s.Arr))
				n := e.mutObj(it.st, s.Arr)
				n.F = map[string]Val{}
				for i, x := range it.keep {
					p := fmt.Sprintf("[%d]", i)
					if vs, ok := x.(VStruct); ok {
						e.storeStruct(n, p, vs)
						continue
					}
					n.F[p] = x
				}
				v = VSlice{Arr: s.Arr, N: len(it.keep), T: s.T}
			}
			outs = append(outs, Outcome{St: it.st, V: v})
		}
		return outs, true
	}
	return nil, false
}

// sortStates sorts a slice of known length in place, splitting on every comparison.
func (e *Engine) sortStates(c *Call, s VSlice, kind string, lessFn Val) ([]*State, bool) {
	elemT := s.T.Underlying().(*types.Slice).Elem()
	if expandStruct(elemT) {
		return nil, false
	}
	get := func(st *State, i int) Val {
		return e.load(st, c.Fr, c.Site, VPtr{Obj: s.Arr, Path: fmt.Sprintf("[%d]", i)}, elemT)
	}
	swap := func(st *State, i, j int) {
		a, b := get(st, i), get(st, j)
		n := e.mutObj(st, s.Arr)
		n.F[fmt.Sprintf("[%d]", i)], n.F[fmt.Sprintf("[%d]", j)] = b, a
	}
	// less splits into the states where element i is before element j, and the others
	less := func(st *State, i, j int) (yes, no []*State, ok bool) {
		split := func(st *State, cond Val) {
			a, b := st, st.clone()
			if e.assumeTruth(a, cond, true) {
				yes = append(yes, a)
			}
			if e.assumeTruth(b, cond, false) {
				no = append(no, b)
			}
		}
		cmpT := func(a, b Val, bits int64) Val {
			return VTerm{Op: "cmp", Args: []Val{a, b, constInt(bits)}, T: types.Typ[types.Bool]}
		}
		switch kind {
		case "natural":
			split(st, cmpT(st.resolve(get(st, i)), st.resolve(get(st, j)), 1))
			return yes, no, true
		}
		f, isF := lessFn.(VFunc)
		if !isF {
			return nil, nil, false
		}
		args := []Val{get(st, i), get(st, j)}
		if kind == "less-index" {
			args = []Val{constInt(int64(i)), constInt(int64(j))}
		}
		for _, r := range e.callFn(f.Fn, args, f.Bind, st, c.Fr, c.Site) {
			if r.Panic || len(r.Rets) == 0 {
				continue
			}
			v := r.St.resolve(r.Rets[0])
			if kind == "cmp" {
				v = cmpT(v, constInt(0), 1)
			}
			split(r.St, v)
		}
		return yes, no, true
	}
	states := []*State{c.St}
	for i := 1; i < s.N; i++ {
		// insert element i among the sorted ones before it
		var next []*State
		type item struct {
			st *State
			j  int
		}
		work := []item{}
		for _, st := range states {
			work = append(work, item{st, i})
		}
		for len(work) > 0 {
			w := work[0]
			work = work[1:]
			if w.j == 0 {
				next = append(next, w.st)
				continue
			}
			yes, no, ok := less(w.st.clone(), w.j, w.j-1)
			if !ok {
				return nil, false
			}
			next = append(next, no...)
			for _, y := range yes {
				swap(y, w.j, w.j-1)
				work = append(work, item{y, w.j - 1})
			}
			if len(next)+len(work) > 400 {
				return nil, false
			}
		}
		states = next
	}
	return states, true
}
