package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var debugSteps = os.Getenv("VSTAT_DEBUG") != ""

type workItem struct {
	b  *ssa.BasicBlock
	fr *Frame
	st *State
}

// exec analyses one activation and returns its possible results.
func (e *Engine) exec(fn *ssa.Function, args, bind []Val, st *State) []Result {
	fr := &Frame{Fn: fn, R: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.R[p] = args[i]
		} else {
			fr.R[p] = mkSym("param:"+p.Name(), p.Type())
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			fr.R[f] = bind[i]
		} else {
			fr.R[f] = mkSym("free:"+f.Name(), f.Type())
		}
	}
	if fn.Blocks == nil {
		return nil
	}
	roots := map[string]bool{}
	for k := range st.H {
		roots[k] = true
	}
	seen := newJoinTable(e.atLeast(6))
	entryKey := st.key()
	var results []Result
	pureRes, otherRes := newJoinTable(e.atLeast(8)), newJoinTable(e.variants(fn))
	resIdx := map[string]int{}
	work := []workItem{{fn.Blocks[0], fr, st}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if e.OnState != nil {
			e.OnState(it.st)
		}
		e.gc(it.fr, it.st, it.b, roots)
		k := e.itemKey(it)
		j, _, fresh := seen.put(k, it.st.F)
		if !fresh {
			continue
		}
		it.st.F = j
		e.Steps++
		if dumpName != "" && e.Steps == dumpAt {
			e.dumpSums(dumpName)
			panic("dumped")
		}
		if debugSteps && e.Steps%2000 == 0 {
			fmt.Printf("... step %d in %s block %d depth %d seen %d work %d\n", e.Steps, e.P.FuncName(fn), it.b.Index, len(e.stack), len(seen.m), len(work))
		}
		if e.Steps > e.MaxSteps {
			e.undecided("step limit in "+e.P.FuncName(fn), nil)
			return results
		}
		if len(seen.m) > 60000 {
			e.undecided("state limit in "+e.P.FuncName(fn), nil)
			return results
		}
		succs, res := e.block(it)
		for _, r := range res {
			if e.OnExit != nil && !r.Panic {
				e.OnExit(fn, r.Rets, r.St)
			}
			e.simplifyErrs(&r)
			e.gcResult(&r, roots)
			rk := r.key()
			tab := otherRes
			if r.St.key() == entryKey {
				tab = pureRes
			}
			f, slot, fresh := tab.put(rk, r.St.F)
			if !fresh {
				continue
			}
			r.St.F = f
			id := rk + "#" + strconv.Itoa(slot)
			if i, ok := resIdx[id]; ok {
				results[i] = r
				continue
			}
			resIdx[id] = len(results)
			results = append(results, r)
		}
		work = append(work, succs...)
	}
	return results
}

// joinTable keeps, per state without its facts, a few variants of the facts; beyond the limit they are joined.
type joinTable struct {
	m     map[string][]map[string]Fact
	limit int
}

// variants is how many sets of facts are kept per result of a function that changed the state.
func (e *Engine) variants(fn *ssa.Function) int {
	if e.Variants > 0 {
		return e.Variants
	}
	if e.Precise != nil && e.Precise(fn) {
		return 4
	}
	return 1
}

func (e *Engine) atLeast(n int) int {
	if e.Variants > n {
		return e.Variants
	}
	return n
}

func newJoinTable(limit int) *joinTable { return &joinTable{map[string][]map[string]Fact{}, limit} }

// put returns the facts to continue with (a copy), the slot they occupy, and whether they bring anything new.
func (t *joinTable) put(k string, f map[string]Fact) (map[string]Fact, int, bool) {
	vs := t.m[k]
	for _, old := range vs {
		if _, lost := joinFacts(old, f); !lost {
			return nil, 0, false // everything known there holds here too
		}
	}
	if len(vs) < t.limit {
		t.m[k] = append(vs, copyFacts(f))
		return copyFacts(f), len(vs), true
	}
	j := f
	for _, old := range vs {
		j, _ = joinFacts(old, j)
	}
	// the joined variant covers all the others
	t.m[k] = append(vs[:t.limit-1:t.limit-1], j)
	return copyFacts(j), t.limit - 1, true
}

func copyFacts(f map[string]Fact) map[string]Fact {
	c := make(map[string]Fact, len(f))
	for k, v := range f {
		c[k] = v
	}
	return c
}

// simplifyErrs keeps of a returned error only that it is one.
func (e *Engine) simplifyErrs(r *Result) {
	for i, v := range r.Rets {
		if t := valType(v); t == nil || typeKey(t) != "error" {
			continue
		}
		if n, known := isNilVal(v); known && !n || !known && e.cmpBits(r.St, v, VNil{})&2 == 0 {
			r.Rets[i] = VSym{ID: "g:err", Cls: "nonnil", T: types.Universe.Lookup("error").Type()}
		}
	}
}

func (e *Engine) itemKey(it workItem) string {
	var parts []string
	for v, x := range it.fr.R {
		parts = append(parts, v.Name()+"="+x.key())
	}
	sort.Strings(parts)
	var b strings.Builder
	fmt.Fprintf(&b, "%d\n", it.b.Index)
	for _, d := range it.fr.Defers {
		b.WriteString("d:" + e.siteBase(d.site))
		for _, a := range d.args {
			b.WriteString(a.key() + ",")
		}
	}
	b.WriteString(strings.Join(parts, "\n"))
	b.WriteByte('\n')
	b.WriteString(it.st.key())
	return b.String()
}

// gc forgets dead registers, unreachable objects and facts about vanished unknowns.
func (e *Engine) gc(fr *Frame, st *State, b *ssa.BasicBlock, roots map[string]bool) {
	li := e.info(fr.Fn).in[b.Index]
	for v := range fr.R {
		if !li[v] {
			delete(fr.R, v)
		}
	}
	var vals []Val
	for _, v := range fr.R {
		vals = append(vals, v)
	}
	for _, d := range fr.Defers {
		vals = append(vals, d.args...)
		if d.fn != nil {
			vals = append(vals, d.fn)
		}
	}
	e.collect(st, vals, roots)
}

func (e *Engine) gcResult(r *Result, roots map[string]bool) {
	e.collect(r.St, r.Rets, roots)
}

func (e *Engine) collect(st *State, vals []Val, roots map[string]bool) {
	syms, objs := map[string]bool{}, map[string]bool{}
	var queue []string
	addObj := func(s string) {
		if !objs[s] {
			objs[s] = true
			queue = append(queue, s)
		}
	}
	addSym := func(s string) {
		if !syms[s] {
			syms[s] = true
			if o, ok := st.D[s]; ok {
				addObj(o)
			}
		}
	}
	for _, v := range vals {
		walkVal(v, addSym, addObj)
	}
	for k := range roots {
		addObj(k)
	}
	for _, v := range st.Mon {
		walkVal(v, addSym, addObj)
	}
	for k := range st.H {
		if global(k) {
			addObj(k)
		}
	}
	for len(queue) > 0 {
		id := queue[0]
		queue = queue[1:]
		if o := st.H[id]; o != nil {
			for _, v := range o.F {
				walkVal(v, addSym, addObj)
			}
		}
	}
	for k := range st.H {
		if !objs[k] {
			delete(st.H, k)
		}
	}
	for k := range st.D {
		if !syms[k] && !strings.HasPrefix(k, "$") {
			delete(st.D, k)
		}
	}
	for k, f := range st.F {
		ok := true
		chk := func(s string) {
			if !syms[s] && !strings.HasPrefix(s, "$") && !global(s) {
				ok = false
			}
		}
		chkO := func(s string) {
			if !objs[s] && !strings.HasPrefix(s, "@") && !global(s) {
				ok = false
			}
		}
		walkVal(f.A, chk, chkO)
		if f.B != nil {
			walkVal(f.B, chk, chkO)
		}
		if !ok {
			delete(st.F, k)
		}
	}
}

// block runs one basic block; a call with several outcomes forks it.
func (e *Engine) block(it workItem) ([]workItem, []Result) {
	var succs []workItem
	var results []Result
	type cont struct {
		fr  *Frame
		st  *State
		idx int
	}
	start := 0
	for start < len(it.b.Instrs) {
		if _, ok := it.b.Instrs[start].(*ssa.Phi); !ok {
			break
		}
		start++
	}
	work := []cont{{it.fr, it.st, start}}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		fr, st := c.fr, c.st
	instrs:
		for i := c.idx; i < len(it.b.Instrs); i++ {
			ins := it.b.Instrs[i]
			e.setEpoch(st)
			switch ins := ins.(type) {
			case *ssa.If:
				cond := e.val(fr, st, ins.Cond)
				t := e.truth(st, cond)
				for bi, want := range []bool{true, false} {
					bit := 2
					if !want {
						bit = 1
					}
					if t&bit == 0 {
						continue
					}
					nst, nfr := st.clone(), fr.clone()
					if !e.assumeTruth(nst, cond, want) {
						continue
					}
					e.widenIndex(nfr, nst, ins.Cond, want)
					if w, ok := e.edge(nfr, nst, it.b, it.b.Succs[bi]); ok {
						succs = append(succs, w)
					}
				}
				break instrs
			case *ssa.Jump:
				if w, ok := e.edge(fr, st, it.b, it.b.Succs[0]); ok {
					succs = append(succs, w)
				}
				break instrs
			case *ssa.Return:
				var rets []Val
				for _, r := range ins.Results {
					rets = append(rets, e.snapshot(st, st.resolve(e.val(fr, st, r))))
				}
				results = append(results, Result{St: st, Rets: rets})
				break instrs
			case *ssa.Panic:
				e.emit("panic", st, fr, ins)
				results = append(results, Result{St: st, Panic: true})
				break instrs
			case *ssa.RunDefers:
				outs := e.runDefers(fr, st, ins)
				for _, o := range outs {
					work = append(work, cont{o.fr, o.st, i + 1})
				}
				break instrs
			case *ssa.Defer:
				d := deferred{call: &ins.Call, site: ins}
				for _, a := range ins.Call.Args {
					d.args = append(d.args, e.val(fr, st, a))
				}
				if ins.Call.IsInvoke() || ins.Call.StaticCallee() == nil {
					d.fn = e.val(fr, st, ins.Call.Value)
				} else if mc, ok := ins.Call.Value.(*ssa.MakeClosure); ok {
					d.fn = e.val(fr, st, mc)
				}
				fr.Defers = append(fr.Defers, d)
			case *ssa.Call:
				outs := e.call(fr, st, ins, &ins.Call, nil, nil)
				if len(outs) == 1 && !outs[0].Bad {
					st = outs[0].St
					e.setReg(fr, ins, outs[0].V)
					continue
				}
				for _, o := range outs {
					if o.Bad {
						results = append(results, Result{St: o.St, Panic: true})
						continue
					}
					nfr := fr.clone()
					e.setReg(nfr, ins, o.V)
					work = append(work, cont{nfr, o.St, i + 1})
				}
				break instrs
			case *ssa.TypeAssert:
				outs := e.typeAssert(fr, st, ins)
				for _, o := range outs {
					if o.Bad {
						results = append(results, Result{St: o.St, Panic: true})
						continue
					}
					nfr := fr.clone()
					nfr.R[ins] = o.V
					work = append(work, cont{nfr, o.St, i + 1})
				}
				break instrs
			case *ssa.Lookup:
				outs := e.lookup(fr, st, ins)
				for _, o := range outs {
					nfr := fr.clone()
					nfr.R[ins] = o.V
					work = append(work, cont{nfr, o.St, i + 1})
				}
				break instrs
			default:
				e.step(fr, st, ins)
			}
		}
	}
	return succs, results
}

func (e *Engine) setReg(fr *Frame, ins ssa.Value, v Val) {
	if t, ok := v.(VTuple); ok && len(t.E) > 0 {
		if m, ok := t.E[len(t.E)-1].(renameMark); ok {
			m.r.frame(fr)
			rest := t.E[:len(t.E)-1]
			if _, isTuple := ins.Type().(*types.Tuple); isTuple {
				v = VTuple{E: rest}
			} else if len(rest) == 1 {
				v = rest[0]
			} else {
				v = VTuple{}
			}
		}
	}
	fr.R[ins] = v
}

// widenIndex: once a loop counter is compared with an unknown bound, its exact value stops mattering.
func (e *Engine) widenIndex(fr *Frame, st *State, cond ssa.Value, taken bool) {
	if !taken {
		return
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok || !isInt(b.X.Type()) || !e.inLoop(fr.Fn, b.Block()) {
		return
	}
	for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		x, isC := fr.R[pr[0]]
		if !isC {
			continue
		}
		if _, ok := x.(VConst); !ok {
			continue
		}
		y := st.resolve(e.val(fr, st, pr[1]))
		if _, ok := y.(VConst); ok {
			continue
		}
		fr.R[pr[0]] = VSym{ID: "idx:" + pr[0].Name(), Cls: "index", T: pr[0].Type()}
	}
}

// edge evaluates the phis of the successor.
func (e *Engine) edge(fr *Frame, st *State, from, to *ssa.BasicBlock) (workItem, bool) {
	nfr := fr.clone()
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	vals := map[*ssa.Phi]Val{}
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v := e.val(fr, st, phi.Edges[pi])
		if isInt(phi.Type()) && e.inLoop(fr.Fn, to) {
			if _, isTerm := v.(VTerm); !isTerm || st.Mon["epoch"] == nil {
				v = e.widenPhi(phi, v)
			}
		}
		v = e.limitTerm(st, nfr, phi, v)
		vals[phi] = v
	}
	for p, v := range vals {
		nfr.R[p] = v
	}
	return workItem{to, nfr, st.clone()}, true
}

func (e *Engine) widenPhi(phi *ssa.Phi, v Val) Val {
	switch x := v.(type) {
	case VConst:
		if i, ok := asInt(x); ok && i > 12 {
			return VSym{ID: "idx:" + phi.Name(), Cls: "index", T: phi.Type()}
		}
		return v
	case VTerm:
		return VSym{ID: "idx:" + phi.Name(), Cls: "index", T: phi.Type()}
	}
	return v
}

// limitTerm keeps loop-carried terms finite.
func (e *Engine) limitTerm(st *State, fr *Frame, phi *ssa.Phi, v Val) Val {
	if t, ok := v.(VTerm); ok && termDepth(v) > 3 {
		return VSym{ID: "phi:" + phi.Name(), T: t.T}
	}
	return v
}

type frst struct {
	fr *Frame
	st *State
}

func (e *Engine) runDefers(fr *Frame, st *State, at ssa.Instruction) []frst {
	if len(fr.Defers) == 0 {
		return []frst{{fr, st}}
	}
	d := fr.Defers[len(fr.Defers)-1]
	nfr := fr.clone()
	nfr.Defers = nfr.Defers[:len(nfr.Defers)-1]
	var out []frst
	for _, o := range e.call(nfr, st, d.site, d.call, d.args, d.fn) {
		if o.Bad {
			continue
		}
		f := nfr.clone()
		if t, ok := o.V.(VTuple); ok && len(t.E) > 0 {
			if m, ok := t.E[len(t.E)-1].(renameMark); ok {
				m.r.frame(f)
			}
		}
		out = append(out, e.runDefers(f, o.St, at)...)
	}
	return out
}

// snapshot turns a buffer loaded by value into its content.
func (e *Engine) snapshot(st *State, v Val) Val { return v }

// val is the abstract value of an SSA operand.
func (e *Engine) val(fr *Frame, st *State, v ssa.Value) Val {
	if x, ok := fr.R[v]; ok {
		return x
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if v.IsNil() {
				if isByteSlice(v.Type()) {
					return VSeq{Clip: true}
				}
				return VNil{}
			}
			return zeroVal(v.Type())
		}
		return VConst{v.Value, v.Type()}
	case *ssa.Global:
		e.ensureGlobals(v.Pkg)
		id := "g:" + v.RelString(nil)
		if e.obj(st, id) == nil {
			e.Base[id] = &Object{Kind: "pre", Pre: true, T: derefType(v.Type()), F: map[string]Val{}}
		}
		return VPtr{Obj: id}
	case *ssa.Function:
		return VFunc{Fn: v}
	case *ssa.Builtin:
		return VTerm{Op: "builtin:" + v.Name()}
	}
	return VSym{ID: "undef:" + v.Name(), T: v.Type()}
}

// asPtr resolves a pointer value to a location, materialising what an unknown pointer points to.
func (e *Engine) asPtr(fr *Frame, st *State, at ssa.Instruction, v Val, elem types.Type) (VPtr, bool) {
	switch v := v.(type) {
	case VPtr:
		return v, true
	case VSym:
		e.emit("deref", st, fr, at, v)
		if id, ok := st.D[v.ID]; ok {
			return VPtr{Obj: id}, true
		}
		id := "*" + v.ID
		if global(v.ID) {
			id = "g:*" + v.ID
		}
		if e.obj(st, id) == nil {
			st.H[id] = &Object{Kind: "pre", Pre: true, Own: v.Cls == "fresh", T: elem, F: map[string]Val{}}
		}
		st.D[v.ID] = id
		return VPtr{Obj: id}, true
	case VTerm:
		id := "*" + v.key()
		if e.obj(st, id) == nil {
			st.H[id] = &Object{Kind: "pre", Pre: true, T: elem, F: map[string]Val{}}
		}
		return VPtr{Obj: id}, true
	case VNil:
		e.emit("nil-deref", st, fr, at, v)
	}
	return VPtr{}, false
}

func isBufferType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "bytes.Buffer", "strings.Builder":
		return true
	}
	return false
}

func (e *Engine) step(fr *Frame, st *State, ins ssa.Instruction) {
	e.curFn = fr.Fn
	switch ins := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		kind := "cell"
		t := derefType(ins.Type())
		switch t.Underlying().(type) {
		case *types.Struct:
			kind = "struct"
		case *types.Array:
			kind = "array"
		}
		o := &Object{Kind: kind, T: t, F: map[string]Val{}}
		id := e.freshObj(st, fr, ins, "", o)
		fr.R[ins] = VPtr{Obj: id}
	case *ssa.BinOp:
		fr.R[ins] = e.binop(st, ins.Op, e.val(fr, st, ins.X), e.val(fr, st, ins.Y), ins.Type(), ins.X.Type())
	case *ssa.UnOp:
		e.unop(fr, st, ins)
	case *ssa.ChangeType:
		fr.R[ins] = e.val(fr, st, ins.X)
	case *ssa.ChangeInterface:
		fr.R[ins] = e.val(fr, st, ins.X)
	case *ssa.MakeInterface:
		v := e.val(fr, st, ins.X)
		fr.R[ins] = VIface{Dyn: ins.X.Type(), V: v}
	case *ssa.Convert:
		fr.R[ins] = e.convert(fr, st, ins, e.val(fr, st, ins.X), ins.X.Type(), ins.Type())
	case *ssa.MultiConvert:
		fr.R[ins] = e.freshSym(st, fr, ins, ins.Type(), "")
	case *ssa.Extract:
		t := e.val(fr, st, ins.Tuple)
		if tv, ok := t.(VTuple); ok && ins.Index < len(tv.E) {
			fr.R[ins] = tv.E[ins.Index]
		} else {
			fr.R[ins] = e.freshSym(st, fr, ins, ins.Type(), "")
		}
	case *ssa.Field:
		x := e.val(fr, st, ins.X)
		if s, ok := x.(VStruct); ok && ins.Field < len(s.F) {
			fr.R[ins] = s.F[ins.Field]
		} else {
			name := ins.X.Type().Underlying().(*types.Struct).Field(ins.Field).Name()
			fr.R[ins] = VTerm{Op: "field:" + name, Args: []Val{x}, T: ins.Type()}
		}
	case *ssa.FieldAddr:
		x := e.val(fr, st, ins.X)
		el := derefType(ins.X.Type())
		name := el.Underlying().(*types.Struct).Field(ins.Field).Name()
		if p, ok := e.asPtr(fr, st, ins, x, el); ok {
			fr.R[ins] = VPtr{Obj: p.Obj, Path: p.Path + "." + name}
		} else {
			fr.R[ins] = VTop{T: ins.Type()}
		}
	case *ssa.IndexAddr:
		x := e.val(fr, st, ins.X)
		idx := st.resolve(e.val(fr, st, ins.Index))
		if q, ok := st.resolve(x).(VSeq); ok && e.isLast(st, q, idx) && onlyLoaded(ins) {
			fr.R[ins] = VTerm{Op: "lastaddr", Args: []Val{q}}
			return
		}
		fr.R[ins] = e.indexAddr(fr, st, ins, x, idx, ins.X.Type())
	case *ssa.Index:
		x := e.val(fr, st, ins.X)
		fr.R[ins] = e.indexVal(fr, st, ins, x, st.resolve(e.val(fr, st, ins.Index)), ins.X.Type(), ins.Type())
	case *ssa.MakeClosure:
		var b []Val
		for _, x := range ins.Bindings {
			b = append(b, e.val(fr, st, x))
		}
		fr.R[ins] = VFunc{Fn: ins.Fn.(*ssa.Function), Bind: b}
	case *ssa.MakeMap:
		id := e.freshObj(st, fr, ins, "", &Object{Kind: "map", T: ins.Type(), F: map[string]Val{}})
		fr.R[ins] = VMap{Obj: id}
	case *ssa.MakeSlice:
		ln := st.resolve(e.val(fr, st, ins.Len))
		cp := st.resolve(e.val(fr, st, ins.Cap))
		id := e.freshObj(st, fr, ins, "", &Object{Kind: "array", T: ins.Type(), F: map[string]Val{}})
		if isByteSlice(ins.Type()) {
			if n, ok := asInt(ln); ok && n == 0 {
				fr.R[ins] = VSeq{C: emptyBuffer(), Arr: id}
			} else {
				fr.R[ins] = VSeq{C: Content{Chunks: []Chunk{{Cls: "raw", S: "zeros"}}}, Arr: id}
			}
			return
		}
		n := -1
		if x, ok := asInt(ln); ok && x < 16 {
			n = int(x)
		}
		if n < 0 {
			st.H[id].F["unk"] = constBool(true)
		}
		fr.R[ins] = VSlice{Arr: id, Clip: ln.key() == cp.key() && n != 0, N: n, T: ins.Type()}
	case *ssa.MakeChan:
		fr.R[ins] = e.freshSym(st, fr, ins, ins.Type(), "")
	case *ssa.MapUpdate:
		m := e.val(fr, st, ins.Map)
		k := st.resolve(e.val(fr, st, ins.Key))
		v := e.val(fr, st, ins.Value)
		e.mapUpdate(fr, st, ins, m, k, v)
	case *ssa.Slice:
		e.slice(fr, st, ins)
	case *ssa.SliceToArrayPointer:
		fr.R[ins] = e.freshSym(st, fr, ins, ins.Type(), "")
	case *ssa.Store:
		a := e.val(fr, st, ins.Addr)
		v := e.val(fr, st, ins.Val)
		p, ok := e.asPtr(fr, st, ins, a, ins.Val.Type())
		if !ok {
			e.emit("store", st, fr, ins, VPtr{Obj: "?"}, (*Object)(nil))
			return
		}
		e.store(st, fr, ins, p, v, ins.Val.Type())
	case *ssa.Range:
		if e.MapTerms {
			if it, ok := e.mapRange(fr, st, ins, st.resolve(e.val(fr, st, ins.X))); ok {
				fr.R[ins] = it
				return
			}
		}
		fr.R[ins] = VTerm{Op: "range", Args: []Val{e.val(fr, st, ins.X)}}
	case *ssa.Next:
		if e.MapTerms && e.mapNext(fr, st, ins, e.val(fr, st, ins.Iter)) {
			return
		}
		tt := ins.Type().(*types.Tuple)
		okv := e.freshSymCls(st, fr, ins, types.Typ[types.Bool], ".ok", "")
		var ks, vs Val = VTop{}, VTop{}
		if tt.At(1).Type() != types.Typ[types.Invalid] {
			ks = e.freshSym(st, fr, ins, tt.At(1).Type(), ".k")
		}
		if tt.At(2).Type() != types.Typ[types.Invalid] {
			vs = e.freshSym(st, fr, ins, tt.At(2).Type(), ".v")
		}
		fr.R[ins] = VTuple{E: []Val{okv, ks, vs}}
	case *ssa.Go:
		e.emit("go", st, fr, ins)
	case *ssa.Send:
		e.emit("send", st, fr, ins)
	case *ssa.Select:
		fr.R[ins] = e.freshSym(st, fr, ins, ins.Type(), "")
	default:
		e.undecided(fmt.Sprintf("instruction %T in %s", ins, e.P.FuncName(fr.Fn)), ins)
		if v, ok := ins.(ssa.Value); ok {
			fr.R[v] = VTop{T: v.Type()}
		}
	}
}

// onlyLoaded tells that an address is used for nothing but loads.
func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (e *Engine) unop(fr *Frame, st *State, ins *ssa.UnOp) {
	x := e.val(fr, st, ins.X)
	switch ins.Op {
	case token.MUL:
		if t, ok := x.(VTerm); ok && t.Op == "lastaddr" {
			fr.R[ins] = lastOf(t.Args[0].(VSeq), ins.Type())
			return
		}
		if p, ok := e.asPtr(fr, st, ins, x, ins.Type()); ok {
			fr.R[ins] = e.load(st, fr, ins, p, ins.Type())
		} else {
			fr.R[ins] = VTop{T: ins.Type()}
		}
	case token.NOT:
		x = st.resolve(x)
		if b, ok := asBool(x); ok {
			fr.R[ins] = constBool(!b)
			return
		}
		if t, ok := x.(VTerm); ok && t.Op == "!" {
			fr.R[ins] = t.Args[0]
			return
		}
		fr.R[ins] = VTerm{Op: "!", Args: []Val{x}, T: ins.Type()}
	case token.SUB, token.XOR:
		x = st.resolve(x)
		if c, ok := x.(VConst); ok {
			if b, ok2 := ins.Type().Underlying().(*types.Basic); ok2 && b.Info()&types.IsUnsigned == 0 {
				fr.R[ins] = VConst{constant.UnaryOp(ins.Op, c.C, 0), ins.Type()}
				return
			}
		}
		fr.R[ins] = VTerm{Op: ins.Op.String(), Args: []Val{x}, T: ins.Type()}
	default:
		fr.R[ins] = e.freshSym(st, fr, ins, ins.Type(), "")
	}
}

func isNilVal(v Val) (isNil, known bool) {
	switch v := v.(type) {
	case VNil:
		return true, true
	case VPtr, VFunc, VIface, VMap:
		return false, true
	case VSym:
		if v.Cls == "nonnil" {
			return false, true
		}
	case VTerm:
		if v.Op == "errorf" {
			return false, true
		}
	case VSlice:
		return false, true
	case VSeq:
		if v.Arr != "" {
			return false, true
		}
		if !v.Str && !v.C.Map && len(v.C.Chunks) == 0 {
			return true, true
		}
		return false, true
	}
	return false, false
}

func (e *Engine) binop(st *State, op token.Token, x, y Val, t, xt types.Type) Val {
	x, y = st.resolve(x), st.resolve(y)
	if bits := opBits(op); bits != 0 {
		if _, ok := y.(VNil); ok {
			if n, known := isNilVal(x); known {
				return constBool(n == (op == token.EQL))
			}
		}
		if _, ok := x.(VNil); ok {
			if n, known := isNilVal(y); known {
				return constBool(n == (op == token.EQL))
			}
		}
		// a nil []byte compared with nil
		if sx, ok := x.(VSeq); ok && !sx.Str {
			if sy, ok := y.(VSeq); ok && !sy.Str && sy.Arr == "" {
				n, _ := isNilVal(sx)
				return constBool(n == (op == token.EQL))
			}
		}
		if isStringType(xt) {
			if r, ok := e.cmpString(st, op, x, y); ok {
				return r
			}
		}
		got := e.cmpBits(st, x, y)
		if got&^bits == 0 {
			return constBool(true)
		}
		if got&bits == 0 {
			return constBool(false)
		}
		// len(x) < 1 is len(x) == 0
		if a, b, bb, ok := normLen(x, y, bits); ok {
			x, y, bits = a, b, bb
		}
		f := orientFact(x, y, bits)
		return VTerm{Op: "cmp", Args: []Val{f.A, f.B, constInt(int64(f.Bits))}, T: t}
	}
	cx, ok1 := x.(VConst)
	cy, ok2 := y.(VConst)
	if ok1 && ok2 {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if cx.C.Kind() == cy.C.Kind() {
				return VConst{constant.BinaryOp(cx.C, op, cy.C), t}
			}
		case token.SHL, token.SHR:
			if s, ok := asInt(y); ok && cx.C.Kind() == constant.Int && s >= 0 && s < 64 {
				return VConst{constant.Shift(cx.C, op, uint(s)), t}
			}
		}
	}
	if op == token.ADD && isStringType(t) {
		a, aok := e.toSeq(st, x)
		b, bok := e.toSeq(st, y)
		if aok && bok {
			return VSeq{Str: true, C: a.C.concat(b.C)}
		}
	}
	if op == token.AND || op == token.OR {
		if isBool(t) {
			return VTop{T: t}
		}
	}
	return VTerm{Op: op.String(), Args: []Val{x, y}, T: t}
}

func normLen(x, y Val, bits int) (Val, Val, int, bool) {
	if t, ok := x.(VTerm); ok && t.Op == "len" {
		if i, ok := asInt(y); ok {
			if i == 1 && bits == 1 {
				return x, constInt(0), 2, true
			}
			if i == 1 && bits == 6 {
				return x, constInt(0), 5, true
			}
			if i == 0 && bits == 4 {
				return x, constInt(0), 5, true
			}
			if i == 0 && bits == 3 {
				return x, constInt(0), 2, true
			}
		}
	}
	if t, ok := y.(VTerm); ok && t.Op == "len" {
		if _, isC := x.(VConst); isC {
			return normLen(y, x, swapBits(bits))
		}
	}
	return nil, nil, 0, false
}

func swapBits(b int) int {
	n := b & 2
	if b&1 != 0 {
		n |= 4
	}
	if b&4 != 0 {
		n |= 1
	}
	return n
}

// cmpString decides string (in)equality where contents are known enough.
func (e *Engine) cmpString(st *State, op token.Token, x, y Val) (Val, bool) {
	if op != token.EQL && op != token.NEQ {
		return nil, false
	}
	if sx, ok := x.(VSeq); ok {
		if s, ok := asStr(y); ok && s == "" {
			switch sx.C.isEmpty() {
			case 'y':
				return constBool(op == token.EQL), true
			case 'n':
				return constBool(op == token.NEQ), true
			}
		}
	}
	// len(x)==0 facts speak about x == ""
	if s, ok := asStr(y); ok && s == "" {
		if _, isC := x.(VConst); !isC {
			l := VTerm{Op: "len", Args: []Val{x}, T: types.Typ[types.Int]}
			b := 2
			if op == token.NEQ {
				b = 5
			}
			tv := VTerm{Op: "cmp", Args: []Val{l, constInt(0), constInt(int64(b))}, T: types.Typ[types.Bool]}
			switch e.truth(st, tv) {
			case 1:
				return constBool(false), true
			case 2:
				return constBool(true), true
			}
			return tv, true
		}
	}
	return nil, false
}

// toSeq describes a value as a byte sequence.
func (e *Engine) toSeq(st *State, v Val) (VSeq, bool) {
	v = st.resolve(v)
	switch v := v.(type) {
	case VSeq:
		return v, true
	case VConst:
		if s, ok := asStr(v); ok {
			return VSeq{Str: true, C: litContent(s)}, true
		}
	case VSym:
		cls := v.Cls
		if cls == "" {
			cls = "raw"
		}
		return VSeq{Str: v.T != nil && isStringType(v.T), C: Content{Chunks: []Chunk{{Cls: cls, S: v.ID}}}, Arr: "*" + v.ID}, true
	case VTerm:
		return VSeq{Str: v.T != nil && isStringType(v.T), C: Content{Chunks: []Chunk{{Cls: "raw", S: v.key()}}}, Arr: "*" + v.key()}, true
	case VTop:
		return VSeq{Str: v.T != nil && isStringType(v.T), C: Content{Chunks: []Chunk{{Cls: "raw", S: "?"}}}, Arr: "?"}, true
	case VNil:
		return VSeq{Clip: true}, true
	}
	return VSeq{}, false
}

func (e *Engine) convert(fr *Frame, st *State, ins ssa.Instruction, v Val, from, to types.Type) Val {
	switch {
	case isStringType(from) && isByteSlice(to):
		s, ok := e.toSeq(st, v)
		if !ok {
			return e.freshSym(st, fr, ins, to, "")
		}
		id := e.freshObj(st, fr, ins, "", &Object{Kind: "array", T: to, F: map[string]Val{"unk": constBool(true)}})
		return VSeq{C: s.C, Arr: id}
	case isByteSlice(from) && isStringType(to):
		if x, ok := v.(VSym); ok && e.Views {
			return VSym{ID: x.ID, Cls: x.Cls, T: to}
		}
		s, ok := e.toSeq(st, v)
		if !ok {
			return e.freshSym(st, fr, ins, to, "")
		}
		return VSeq{Str: true, C: s.C}
	case isStringType(from) && isStringType(to):
		return v
	case isInt(from) && isStringType(to):
		return VSym{ID: e.siteID(ins), Cls: "raw", T: to}
	}
	v = st.resolve(v)
	if c, ok := v.(VConst); ok {
		if b, ok := to.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0 && constant.ToInt(c.C).Kind() == constant.Int:
				return VConst{constant.ToInt(c.C), to}
			case b.Info()&types.IsFloat != 0:
				return VConst{constant.ToFloat(c.C), to}
			}
		}
	}
	if bf, ok := from.Underlying().(*types.Basic); ok {
		if bt, ok := to.Underlying().(*types.Basic); ok {
			if bf.Kind() == bt.Kind() || bf.Info()&types.IsInteger != 0 && bt.Info()&types.IsInteger != 0 && sizeOf(bt) >= sizeOf(bf) && (bf.Info()&types.IsUnsigned != 0 || bt.Info()&types.IsUnsigned == 0) {
				return v // value preserving
			}
		}
	}
	return VTerm{Op: "conv:" + typeKey(to), Args: []Val{v}, T: to}
}

func sizeOf(b *types.Basic) int64 { return types.SizesFor("gc", "amd64").Sizeof(b) }

func (e *Engine) indexAddr(fr *Frame, st *State, ins ssa.Instruction, x, idx Val, xt types.Type) Val {
	path := "[*]"
	if e.Views {
		e.emit("index", st, fr, ins, st.resolve(x), idx)
	}
	if i, ok := asInt(idx); ok {
		path = fmt.Sprintf("[%d]", i)
	}
	x = st.resolve(x)
	switch x := x.(type) {
	case VPtr: // pointer to array
		return VPtr{Obj: x.Obj, Path: x.Path + path}
	case VSlice:
		return VPtr{Obj: x.Arr, Path: path}
	case VSeq:
		return VPtr{Obj: x.Arr, Path: path}
	case VSym, VTerm:
		if _, isPtr := xt.Underlying().(*types.Pointer); isPtr {
			if p, ok := e.asPtr(fr, st, ins, x, derefType(xt)); ok {
				return VPtr{Obj: p.Obj, Path: path}
			}
		}
		id := e.backing(st, x)
		return VPtr{Obj: id, Path: "[*]"}
	}
	return VTop{}
}

// backing is the array an unknown slice points into.
func (e *Engine) backing(st *State, v Val) string {
	var k string
	if s, ok := v.(VSym); ok {
		if id, ok := st.D[s.ID]; ok {
			return id
		}
		k = "*" + s.ID
		if global(s.ID) {
			k = "g:*" + s.ID
		}
		if e.obj(st, k) == nil {
			st.H[k] = &Object{Kind: "array", Pre: true, Own: s.Cls == "fresh", F: map[string]Val{}}
		}
		st.D[s.ID] = k
		return k
	}
	k = "*" + v.key()
	if e.obj(st, k) == nil {
		st.H[k] = &Object{Kind: "array", Pre: true, F: map[string]Val{}}
	}
	return k
}

func (e *Engine) indexVal(fr *Frame, st *State, ins ssa.Instruction, x, idx Val, xt, t types.Type) Val {
	if isStringType(xt) {
		if q, ok := st.resolve(x).(VSeq); ok && e.isLast(st, q, idx) {
			return lastOf(q, t)
		}
		if s, ok := asStr(st.resolve(x)); ok {
			if i, ok := asInt(idx); ok && int(i) < len(s) && i >= 0 {
				return VConst{constant.MakeInt64(int64(s[i])), t}
			}
			cls := "byte"
			if strings.Trim(s, "0123456789abcdefABCDEF") == "" {
				cls = "hex1"
			}
			return e.freshSymCls(st, fr, ins, t, "", cls)
		}
		return e.freshSymCls(st, fr, ins, t, "", "rawbyte")
	}
	return e.freshSym(st, fr, ins, t, "")
}

func (e *Engine) lookup(fr *Frame, st *State, ins *ssa.Lookup) []Outcome {
	x := st.resolve(e.val(fr, st, ins.X))
	k := st.resolve(e.val(fr, st, ins.Index))
	if isStringType(ins.X.Type()) {
		return []Outcome{{St: st, V: e.indexVal(fr, st, ins, x, k, ins.X.Type(), ins.Type())}}
	}
	mt := ins.X.Type().Underlying().(*types.Map)
	if _, isNil := x.(VNil); e.MapTerms && !isNil {
		return e.mapLookupT(fr, st, ins, x, k, mt, ins.CommaOk)
	}
	wrap := func(st *State, v Val, ok Val) Outcome {
		if ins.CommaOk {
			return Outcome{St: st, V: VTuple{E: []Val{v, ok}}}
		}
		return Outcome{St: st, V: v}
	}
	if _, ok := x.(VNil); ok {
		return []Outcome{wrap(st, zeroVal(mt.Elem()), constBool(false))}
	}
	if m, ok := x.(VMap); ok {
		o := e.obj(st, m.Obj)
		if o != nil && !o.Weak && o.F["unk"] == nil && !o.Pre {
			if kc, ok := k.(VConst); ok {
				if v, ok := o.F["k:"+kc.key()]; ok {
					return []Outcome{wrap(st, v, constBool(true))}
				}
				return []Outcome{wrap(st, zeroVal(mt.Elem()), constBool(false))}
			}
			var ks []string
			for key := range o.F {
				ks = append(ks, key)
			}
			sort.Strings(ks)
			if len(ks) <= 4 || e.Views && len(ks) <= 40 {
				var outs []Outcome
				rest := st.clone()
				feasible := true
				for _, key := range ks {
					kv := e.parseKey(o.T, key[2:])
					if kv == nil {
						outs = nil
						feasible = false
						break
					}
					ns := rest.clone()
					if e.assumeKeyEq(ns, mt.Key(), k, kv, true) {
						outs = append(outs, wrap(ns, o.F[key], constBool(true)))
					}
					if feasible && !e.assumeKeyEq(rest, mt.Key(), k, kv, false) {
						feasible = false
						break
					}
				}
				if outs != nil {
					if feasible {
						outs = append(outs, wrap(rest, zeroVal(mt.Elem()), constBool(false)))
					}
					return outs
				}
			}
		}
	}
	v := e.freshSym(st, fr, ins, mt.Elem(), ".v")
	if e.OnEvent != nil {
		e.emit("lookup", st, fr, ins, x, k, v)
	}
	okv := e.freshSym(st, fr, ins, types.Typ[types.Bool], ".ok")
	return []Outcome{wrap(st, v, okv)}
}

func (e *Engine) parseKey(mt types.Type, key string) Val {
	t := mt.Underlying().(*types.Map).Key()
	key = strings.TrimPrefix(key, "c:")
	switch {
	case isBool(t):
		return constBool(key == "true")
	case isStringType(t):
		c := constant.MakeFromLiteral(key, token.STRING, 0)
		if c.Kind() != constant.String {
			return nil
		}
		return VConst{c, t}
	case isInt(t):
		c := constant.MakeFromLiteral(strings.TrimPrefix(key, "-"), token.INT, 0)
		if c.Kind() != constant.Int {
			return nil
		}
		if strings.HasPrefix(key, "-") {
			c = constant.UnaryOp(token.SUB, c, 0)
		}
		return VConst{c, t}
	}
	return nil
}

func (e *Engine) assumeKeyEq(st *State, t types.Type, k, c Val, eq bool) bool {
	if isBool(t) {
		b, _ := asBool(c)
		return e.assumeTruth(st, k, b == eq)
	}
	if ks, ok := k.(VStruct); ok && e.MapTerms {
		if cs, ok := c.(VStruct); ok && len(cs.F) == len(ks.F) {
			// keys of several parts, when it is known which parts are the same
			same, differ := 0, false
			for i := range ks.F {
				switch b := e.cmpBits(st, st.resolve(ks.F[i]), st.resolve(cs.F[i])); {
				case b == 2:
					same++
				case b&2 == 0:
					differ = true
				}
			}
			if differ {
				return !eq
			}
			if same == len(ks.F) {
				return eq
			}
		}
	}
	bits := 2
	if !eq {
		bits = 5
	}
	return e.assume(st, k, c, bits)
}

func (e *Engine) mapUpdate(fr *Frame, st *State, ins ssa.Instruction, m, k, v Val) {
	if e.MapTerms {
		e.mapUpdateT(fr, st, ins, st.resolve(m), k, v)
		return
	}
	switch m := m.(type) {
	case VMap:
		o := e.obj(st, m.Obj)
		if o != nil && (o.Pre && !o.Own || o.Pooled || global(m.Obj)) {
			e.emit("store", st, fr, ins, VPtr{Obj: m.Obj, Path: "[key]"}, o)
		}
		n := e.mutObj(st, m.Obj)
		if kc, ok := k.(VConst); ok && !n.Weak {
			n.F["k:"+kc.key()] = v
		} else {
			n.F["unk"] = constBool(true)
		}
	default:
		id := e.backing(st, m)
		e.emit("store", st, fr, ins, VPtr{Obj: id, Path: "[key]"}, e.obj(st, id))
	}
}

func (e *Engine) slice(fr *Frame, st *State, ins *ssa.Slice) {
	x := st.resolve(e.val(fr, st, ins.X))
	get := func(v ssa.Value) Val {
		if v == nil {
			return nil
		}
		return st.resolve(e.val(fr, st, v))
	}
	lo, hi, mx := get(ins.Low), get(ins.High), get(ins.Max)
	clip := mx != nil && hi != nil && mx.key() == hi.key()
	loZero := lo == nil
	if i, ok := asInt2(lo); ok && i == 0 {
		loZero = true
	}
	hiZero := false
	if i, ok := asInt2(hi); ok && i == 0 {
		hiZero = true
	}
	hiLen := hi == nil
	if t, ok := hi.(VTerm); ok && t.Op == "len" && t.Args[0].key() == x.key() {
		hiLen = true
	}
	t := ins.Type()
	if isStringType(t) {
		if loZero && hiLen && !e.SafeSub[ins] {
			fr.R[ins] = x
			return
		}
		if s, ok := asStr(x); ok {
			l, lok := int64(0), true
			if lo != nil {
				l, lok = asInt2(lo)
			}
			h, hok := int64(len(s)), true
			if hi != nil {
				h, hok = asInt2(hi)
			}
			if lok && hok && 0 <= l && l <= h && h <= int64(len(s)) {
				fr.R[ins] = constStr(s[l:h])
				return
			}
		}
		if e.Views {
			e.emit("substr", st, fr, ins, x, lo, hi)
			fr.R[ins] = e.derived(st, fr, ins, x, "")
			return
		}
		fr.R[ins] = e.subSeq(fr, st, ins, x, lo, hi, true)
		return
	}
	if isByteSlice(t) {
		s, ok := e.toSeq(st, x)
		if p, isPtr := x.(VPtr); isPtr { // slicing an array variable
			s, ok = e.arrayContent(st, p, ins.X.Type())
		}
		if !ok {
			fr.R[ins] = e.freshSym(st, fr, ins, t, "")
			return
		}
		switch {
		case hiZero:
			if s.Arr == "" {
				fr.R[ins] = VSeq{Clip: true}
				return
			}
			zc := mx != nil
			if i, ok := asInt2(mx); ok && i == 0 {
				zc = true
			} else {
				zc = false
			}
			fr.R[ins] = VSeq{C: emptyBuffer(), Arr: s.Arr, Clip: zc}
		case loZero && hiLen && !e.SafeSub[ins]:
			s.Clip = s.Clip || clip || (mx != nil && hi == nil)
			fr.R[ins] = s
		default:
			r := e.subSeq(fr, st, ins, x, lo, hi, false).(VSeq)
			r.Arr, r.Clip = s.Arr, clip
			fr.R[ins] = r
		}
		return
	}
	switch x := x.(type) {
	case VPtr:
		n := -1
		if at, ok := derefType(ins.X.Type()).Underlying().(*types.Array); ok && lo == nil && hi == nil {
			n = int(at.Len())
		} else if h, ok := asInt2(hi); hi != nil && ok && lo == nil && h <= 12 {
			n = int(h)
		}
		fr.R[ins] = VSlice{Arr: x.Obj, Clip: lo == nil && hi == nil, N: n, T: t}
	case VSlice:
		if e.Views && x.N >= 0 && !(loZero && hiLen) && mx == nil {
			if v, ok := e.viewOf(fr, st, ins, x, lo, hi, t); ok {
				fr.R[ins] = v
				return
			}
		}
		n := -1
		if loZero && hiLen {
			n = x.N
		}
		if hiZero {
			n = 0
		}
		fr.R[ins] = VSlice{Arr: x.Arr, Clip: clip || x.Clip && hiLen, N: n, T: t}
	case VNil:
		fr.R[ins] = VNil{}
	default:
		n := -1
		if hiZero {
			n = 0
		}
		fr.R[ins] = VSlice{Arr: e.backing(st, x), Clip: clip, N: n, T: t}
	}
}

// provenance is where a text comes from: the class of the single unknown it consists of.
func provenance(v Val) string {
	switch v := v.(type) {
	case VSym:
		return v.Cls
	case VSeq:
		if !v.C.Map && len(v.C.Chunks) == 1 && !v.C.Chunks[0].Lit {
			return v.C.Chunks[0].Cls
		}
	}
	return ""
}

// derived is an unknown part of a text: "in:x" and what was cut out of it become "sub:x".
func (e *Engine) derived(st *State, fr *Frame, at ssa.Instruction, x Val, suffix string) Val {
	pv := provenance(st.resolve(x))
	pv = strings.TrimPrefix(strings.TrimPrefix(pv, "in:"), "sub:")
	if pv != "" {
		pv = "sub:" + pv
	}
	return e.freshSymCls(st, fr, at, types.Typ[types.String], suffix, pv)
}

// viewOf is part of a slice of known length: an object of its own, with the same elements.
func (e *Engine) viewOf(fr *Frame, st *State, ins *ssa.Slice, x VSlice, lo, hi Val, t types.Type) (Val, bool) {
	l, h := int64(0), int64(x.N)
	ok := true
	if lo != nil {
		l, ok = asInt2(lo)
	}
	if ok && hi != nil {
		h, ok = asInt2(hi)
	}
	o := e.obj(st, x.Arr)
	if !ok || l < 0 || h < l || h > int64(x.N) || o == nil || o.F["unk"] != nil {
		return nil, false
	}
	n := &Object{Kind: "array", Pre: o.Pre, Own: o.Own, T: o.T, F: map[string]Val{}}
	for i := l; i < h; i++ {
		p := fmt.Sprintf("[%d]", i)
		for k, v := range o.F {
			if k == p || strings.HasPrefix(k, p+".") {
				n.F[fmt.Sprintf("[%d]%s", i-l, k[len(p):])] = v
			}
		}
	}
	return VSlice{Arr: e.freshObj(st, fr, ins, "", n), N: int(h - l), T: t}, true
}

func asInt2(v Val) (int64, bool) {
	if v == nil {
		return 0, false
	}
	return asInt(v)
}

func (e *Engine) subSeq(fr *Frame, st *State, ins ssa.Instruction, x, lo, hi Val, str bool) Val {
	cls := "raw"
	src := "sub:" + e.siteID(ins)
	if s, ok := e.toSeq(st, x); ok && !s.C.Map {
		all := len(s.C.Chunks) > 0
		for _, k := range s.C.Chunks {
			if k.Lit || k.Cls != "safe" && k.Cls != "esc" && k.Cls != "digits" {
				all = false
			}
		}
		if all {
			cls = "safe"
		}
		if len(s.C.Chunks) == 1 && !s.C.Chunks[0].Lit {
			src = s.C.Chunks[0].S
		}
	}
	if e.SafeSub[ins] {
		cls = "esc"
	}
	return VSeq{Str: str, C: Content{Chunks: []Chunk{{Cls: cls, S: src}}}}
}

// arrayContent reads a byte array variable as a sequence (variadic byte arguments).
func (e *Engine) arrayContent(st *State, p VPtr, xt types.Type) (VSeq, bool) {
	at, ok := derefType(xt).Underlying().(*types.Array)
	if !ok {
		return VSeq{}, false
	}
	o := e.obj(st, p.Obj)
	if o == nil || at.Len() > 64 {
		return VSeq{C: Content{Chunks: []Chunk{{Cls: "raw", S: "array"}}}, Arr: p.Obj}, true
	}
	c := Content{}
	for i := int64(0); i < at.Len(); i++ {
		v, ok := o.F[fmt.Sprintf("%s[%d]", p.Path, i)]
		if !ok {
			c = c.add(Chunk{Cls: "raw", S: "array"})
			continue
		}
		c = c.add(e.byteChunk(st, st.resolve(v)))
	}
	return VSeq{C: c, Arr: p.Obj}, true
}

func (e *Engine) byteChunk(st *State, v Val) Chunk {
	if i, ok := asInt(v); ok && i >= 0 && i < 256 {
		return Chunk{Lit: true, S: string([]byte{byte(i)})}
	}
	if s, ok := v.(VSym); ok && s.Cls == "hex1" {
		return Chunk{Cls: "hex1", S: s.ID}
	}
	if e.curFn != nil && e.SafeFns[e.curFn] {
		return Chunk{Cls: "vbyte", S: e.P.FuncName(e.curFn)}
	}
	if e.cmpBits(st, v, constInt('"'))&2 == 0 && e.cmpBits(st, v, constInt('\\'))&2 == 0 && e.cmpBits(st, v, constInt(0x1f))&3 == 0 {
		return Chunk{Cls: "esc", S: v.key()}
	}
	return Chunk{Cls: "rawbyte", S: v.key()}
}

func (e *Engine) typeAssert(fr *Frame, st *State, ins *ssa.TypeAssert) []Outcome {
	x := st.resolve(e.val(fr, st, ins.X))
	good := func(st *State, v Val) Outcome {
		if ins.CommaOk {
			return Outcome{St: st, V: VTuple{E: []Val{v, constBool(true)}}}
		}
		return Outcome{St: st, V: v}
	}
	bad := func(st *State) Outcome {
		if ins.CommaOk {
			return Outcome{St: st, V: VTuple{E: []Val{zeroVal(ins.AssertedType), constBool(false)}}}
		}
		return Outcome{St: st, Bad: true}
	}
	_, toIface := ins.AssertedType.Underlying().(*types.Interface)
	switch v := x.(type) {
	case VIface:
		var ok bool
		if toIface {
			ok = types.Implements(v.Dyn, ins.AssertedType.Underlying().(*types.Interface))
		} else {
			ok = types.Identical(v.Dyn, ins.AssertedType)
		}
		if ok {
			if toIface {
				return []Outcome{good(st, v)}
			}
			return []Outcome{good(st, v.V)}
		}
		if !ins.CommaOk {
			e.emit("bad-assert", st, fr, ins, x)
		}
		return []Outcome{bad(st)}
	case VNil:
		if !ins.CommaOk {
			e.emit("bad-assert", st, fr, ins, x)
		}
		return []Outcome{bad(st)}
	}
	if s, ok := x.(VSym); ok && s.Cls == "pooled" {
		return []Outcome{good(st, e.pooledValue(fr, st, ins, s, ins.AssertedType))}
	}
	if !ins.CommaOk {
		e.emit("may-panic-assert", st, fr, ins, x)
	}
	// An unknown dynamic type: both outcomes, remembered.
	tt := VTerm{Op: "is:" + typeKey(ins.AssertedType), Args: []Val{x}, T: types.Typ[types.Bool]}
	var outs []Outcome
	yes := st.clone()
	if e.assumeTruth(yes, tt, true) {
		// an interface of a concrete type cannot also be of another concrete type
		feasible := true
		if !toIface {
			for _, f := range st.F {
				if g, ok := f.A.(VTerm); ok && f.B == nil && strings.HasPrefix(g.Op, "isc:") && g.Args[0].key() == x.key() && g.Op != "isc:"+typeKey(ins.AssertedType) && f.Bits == 2 {
					feasible = false
				}
			}
		}
		if feasible {
			e.assume(yes, x, VNil{}, 5)
			v := VTerm{Op: "as:" + typeKey(ins.AssertedType), Args: []Val{x}, T: ins.AssertedType}
			var res Val = v
			if toIface {
				res = x
			}
			outs = append(outs, good(yes, res))
		}
	}
	no := st.clone()
	if e.assumeTruth(no, tt, false) {
		outs = append(outs, bad(no))
	}
	return outs
}

// pooledValue is what a pool hands out: contents left over from an earlier use.
func (e *Engine) pooledValue(fr *Frame, st *State, ins ssa.Instruction, s VSym, t types.Type) Val {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		id := e.freshObj(st, fr, ins, ".pooled", &Object{Kind: "struct", T: p.Elem(), Pooled: true, F: map[string]Val{}})
		return VPtr{Obj: id}
	}
	if isByteSlice(t) {
		id := e.freshObj(st, fr, ins, ".pooled", &Object{Kind: "array", T: t, Pooled: true, F: map[string]Val{}})
		return VSeq{C: Content{Chunks: []Chunk{{Cls: "stale", S: "pool"}}}, Arr: id}
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		id := e.freshObj(st, fr, ins, ".pooled", &Object{Kind: "array", T: t, Pooled: true, F: map[string]Val{"unk": constBool(true)}})
		return VSlice{Arr: id, N: -1, T: t}
	}
	return e.freshSym(st, fr, ins, t, ".pooled")
}

// ensureGlobals analyses the package initialiser once, so that constant tables are known.
func (e *Engine) ensureGlobals(pkg *ssa.Package) {
	if pkg == nil || e.globalsOK[pkg] {
		return
	}
	e.globalsOK[pkg] = true
	if !isRepoPath(pkg.Pkg.Path()) {
		return
	}
	init := pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	// Globals written outside init are unknown.
	written := map[*ssa.Global]bool{}
	addrTaken := map[*ssa.Global]bool{}
	for _, fn := range e.P.Funcs {
		if fn == init {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						written[g] = true
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch i := ins.(type) {
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr:
						case *ssa.Store:
							if i.Val == *op {
								addrTaken[g] = true
							}
						default:
							addrTaken[g] = true
						}
					}
				}
			}
		}
	}
	sub := NewEngine(e.P)
	sub.globalsOK = e.globalsOK
	sub.Base = e.Base
	sub.MaxSteps = 400000
	sub.MapTerms = e.MapTerms
	sub.MapRev = e.MapRev
	sub.OnCall = func(c *Call) ([]Outcome, bool) {
		if c.Callee != nil && c.Callee.Name() == "init" && c.Callee.Pkg != pkg {
			return []Outcome{{St: c.St, V: VTuple{}}}, true
		}
		if e.InitCall != nil {
			return e.InitCall(c)
		}
		return nil, false
	}
	st := newState()
	guard := "g:" + pkg.Pkg.Path() + ".init$guard"
	st.H[guard] = &Object{Kind: "cell", F: map[string]Val{"": constBool(false)}}
	res := sub.Run(init, nil, st)
	if len(res) == 0 {
		return
	}
	// Keep what every path of the initialiser agrees on: in practice there is one.
	final := res[len(res)-1].St
	if len(res) > 1 {
		return
	}
	ids := make([]string, 0, len(final.H))
	for id := range final.H {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	ren := &renamer{sym: func(s string) string {
		if global(s) {
			return s
		}
		return "g:" + pkg.Pkg.Path() + "/" + s
	}, obj: func(s string) string {
		if global(s) {
			return s
		}
		return "g:" + pkg.Pkg.Path() + "/" + s
	}}
	for _, id := range ids {
		o := ren.object(final.H[id])
		nid := ren.obj(id)
		for _, m := range pkg.Members {
			if g, ok := m.(*ssa.Global); ok && "g:"+g.RelString(nil) == id {
				if written[g] && !e.KeepWritten {
					o.F = map[string]Val{}
					o.Pre = true
				}
			}
		}
		if strings.HasPrefix(id, "g:") && o.Kind == "pre" {
			o.Pre = true
		}
		o.Pre = o.Pre || o.Kind != "map" && !e.KeepWritten // maps keep exact lookups; writes to them are still reported below
		e.Base[nid] = o
	}
	// A variable nobody assigns keeps its zero value.
	for _, m := range pkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok || written[g] && !e.KeepWritten || addrTaken[g] {
			continue
		}
		id := "g:" + g.RelString(nil)
		t := derefType(g.Type())
		if _, ok := e.Base[id]; ok {
			continue
		}
		switch t.Underlying().(type) {
		case *types.Basic, *types.Slice, *types.Pointer, *types.Map, *types.Interface, *types.Signature:
			e.Base[id] = &Object{Kind: "pre", Pre: true, T: t, F: map[string]Val{"": zeroVal(t)}}
		}
	}
}
