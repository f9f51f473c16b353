package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file gives the abstract effect of calls: builtins, the standard library functions the analysed code
// uses, and the entry into repository functions.

func one(st *State, v Val) []Outcome { return []Outcome{{St: st, V: v}} }

func fnKey(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.String()
}

// call analyses one call instruction (or a deferred call with captured arguments).
func (e *Engine) call(fr *Frame, st *State, site ssa.Instruction, cc *ssa.CallCommon, dargs []Val, dfn Val) []Outcome {
	e.NCalls[site] = true
	args := dargs
	if args == nil {
		for _, a := range cc.Args {
			args = append(args, st.resolve(e.val(fr, st, a)))
		}
	}
	c := &Call{E: e, St: st, Fr: fr, Site: site, Args: args, Sig: cc.Signature()}
	if cc.IsInvoke() {
		recv := dfn
		if recv == nil {
			recv = e.val(fr, st, cc.Value)
		}
		recv = st.resolve(recv)
		c.Recv, c.Method = recv, cc.Method
		if i, ok := recv.(VIface); ok {
			fn := e.P.SSA.LookupMethod(i.Dyn, cc.Method.Pkg(), cc.Method.Name())
			if fn != nil {
				c.Callee = fn
				c.Args = append([]Val{i.V}, args...)
				return e.dispatch(c, nil)
			}
		}
		return e.dispatch(c, nil)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(c, b.Name(), cc)
	}
	if fn := cc.StaticCallee(); fn != nil {
		c.Callee = fn
		var bind []Val
		if dfn != nil {
			if f, ok := dfn.(VFunc); ok {
				bind = f.Bind
			}
		} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			if f, ok := e.val(fr, st, mc).(VFunc); ok {
				bind = f.Bind
			}
		}
		return e.dispatch(c, bind)
	}
	fv := dfn
	if fv == nil {
		fv = e.val(fr, st, cc.Value)
	}
	fv = st.resolve(fv)
	c.FnVal = fv
	if f, ok := fv.(VFunc); ok {
		c.Callee = f.Fn
		return e.dispatch(c, f.Bind)
	}
	return e.dispatch(c, nil)
}

// dispatch decides how a resolved call is analysed.
func (e *Engine) dispatch(c *Call, bind []Val) []Outcome {
	if e.OnCall != nil {
		if outs, ok := e.OnCall(c); ok {
			return outs
		}
	}
	if c.Callee != nil {
		if e.MapTerms {
			if outs, ok := e.sortModel(c); ok {
				return outs
			}
			if outs, ok := e.collModel(c); ok {
				return outs
			}
		}
		if outs, ok := e.model(c); ok {
			return outs
		}
		if c.Callee.Blocks != nil && e.enter(c.Callee) {
			return e.inline(c, bind)
		}
	} else if c.Method != nil {
		if outs, ok := e.modelInvoke(c); ok {
			return outs
		}
	}
	return e.opaque(c)
}

// enter reports whether a function's body is analysed rather than treated as unknown.
func (e *Engine) enter(fn *ssa.Function) bool {
	if e.P.IsRepoFunc(fn) {
		return e.Opaque == nil || !e.Opaque(fn)
	}
	if fn.Synthetic != "" && fn.Signature.Recv() != nil {
		return true // promotion and value/pointer wrappers
	}
	if strings.HasSuffix(fn.Name(), "$bound") || strings.HasSuffix(fn.Name(), "$thunk") {
		return true
	}
	switch fnKey(fn) {
	case "(log/slog.Level).Level":
		return true
	}
	return false
}

func (e *Engine) inline(c *Call, bind []Val) []Outcome {
	var outs []Outcome
	for _, r := range e.callFn(c.Callee, c.Args, bind, c.St, c.Fr, c.Site) {
		if r.Panic {
			outs = append(outs, Outcome{St: r.St, Bad: true})
			continue
		}
		rets := r.Rets
		var mark []Val
		if n := len(rets); n > 0 {
			if t, ok := rets[n-1].(VTuple); ok && len(t.E) == 1 {
				if _, ok := t.E[0].(renameMark); ok {
					mark = t.E
					rets = rets[:n-1]
				}
			}
		}
		nres := c.Callee.Signature.Results().Len()
		if mark != nil {
			outs = append(outs, Outcome{St: r.St, V: VTuple{E: append(append([]Val(nil), rets...), mark...)}})
			continue
		}
		switch {
		case nres == 1 && len(rets) == 1:
			outs = append(outs, Outcome{St: r.St, V: rets[0]})
		default:
			outs = append(outs, Outcome{St: r.St, V: VTuple{E: rets}})
		}
	}
	return outs
}

// opaque gives unknown results; memory handed over may have been written.
func (e *Engine) opaque(c *Call) []Outcome {
	e.emit("opaque", c.St, c.Fr, c.Site, c)
	st := c.St
	for _, a := range c.Args {
		e.escape(st, a, 0)
	}
	res := c.Sig.Results()
	switch res.Len() {
	case 0:
		return one(st, VTuple{})
	case 1:
		return one(st, e.freshSymCls(st, c.Fr, c.Site, res.At(0).Type(), "", ownCls(c, res.At(0).Type())))
	}
	t := VTuple{}
	for i := 0; i < res.Len(); i++ {
		t.E = append(t.E, e.freshSymCls(st, c.Fr, c.Site, res.At(i).Type(), fmt.Sprintf(".%d", i), ownCls(c, res.At(i).Type())))
	}
	return one(st, t)
}

// ownCls tags the memory a library function returns: it belongs to the caller. Accessors that hand out memory
// the caller does not own (slog values, buffers) are modelled explicitly and do not come here.
func ownCls(c *Call, t types.Type) string {
	if c.Callee == nil || c.E.P.IsRepoFunc(c.Callee) {
		return ""
	}
	if _, isSlice := t.Underlying().(*types.Slice); isSlice {
		return "fresh"
	}
	if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
		return "fresh"
	}
	return ""
}

// escape forgets the contents of buffers reachable from a value passed to unknown code.
func (e *Engine) escape(st *State, v Val, depth int) {
	if depth > 2 {
		return
	}
	walkVal(v, nil, func(id string) {
		o := st.H[id]
		if o == nil {
			return
		}
		for k := range o.F {
			if strings.HasSuffix(k, "#buf") {
				n := e.mutObj(st, id)
				n.F[k] = VSeq{C: Content{Map: true, M: map[string]Out{}, Empty: '?', Last: "?"}}
			}
		}
	})
}

// ---------------------------------------------------------------------------
// Builtins.

func (e *Engine) builtin(c *Call, name string, cc *ssa.CallCommon) []Outcome {
	st := c.St
	switch name {
	case "len", "cap":
		v := c.Args[0]
		if m, ok := st.resolve(v).(VMap); ok && e.MapTerms && name == "len" {
			if ents, ok := e.mapEntries(st, m); ok {
				return one(st, constInt(int64(len(ents))))
			}
			// a map that is changed meanwhile must not keep its old length
			return one(st, e.freshSym(st, c.Fr, c.Site, types.Typ[types.Int], ""))
		}
		if name == "cap" {
			return one(st, VTerm{Op: "cap", Args: []Val{v}, T: types.Typ[types.Int]})
		}
		return one(st, e.length(st, v))
	case "append":
		if e.MapTerms {
			base, add := st.resolve(c.Args[0]), st.resolve(c.Args[1])
			v := e.appendTo(c)
			e.emit("append", st, c.Fr, c.Site, base, add, v)
			return one(st, v)
		}
		return one(st, e.appendTo(c))
	case "copy":
		if isByteSlice(cc.Args[0].Type()) {
			if s, ok := e.toSeq(st, c.Args[0]); ok {
				e.emit("array-write", st, c.Fr, c.Site, s.Arr, e.obj(st, s.Arr))
			}
		} else if s, ok := c.Args[0].(VSlice); ok {
			e.emit("array-write", st, c.Fr, c.Site, s.Arr, e.obj(st, s.Arr))
			n := e.mutObj(st, s.Arr)
			n.F = map[string]Val{"unk": constBool(true)}
		} else {
			id := e.backing(st, c.Args[0])
			e.emit("array-write", st, c.Fr, c.Site, id, e.obj(st, id))
		}
		return one(st, VTerm{Op: "copied", T: types.Typ[types.Int]})
	case "delete", "clear":
		if m, ok := st.resolve(c.Args[0]).(VMap); e.MapTerms && ok && name == "delete" {
			e.mapUpdateT(c.Fr, st, c.Site, m, st.resolve(c.Args[1]), nil)
			return one(st, VTuple{})
		}
		if m, ok := st.resolve(c.Args[0]).(VMap); e.MapTerms && ok && name == "clear" {
			if o := e.obj(st, m.Obj); o != nil && !o.Weak {
				if o.Pre || global(m.Obj) {
					e.emit("store", st, c.Fr, c.Site, VPtr{Obj: m.Obj, Path: "[key]"}, o)
				}
				e.mutObj(st, m.Obj).F = map[string]Val{}
				return one(st, VTuple{})
			}
		}
		if m, ok := c.Args[0].(VMap); ok {
			o := e.obj(st, m.Obj)
			if o != nil && (o.Pre || global(m.Obj)) {
				e.emit("store", st, c.Fr, c.Site, VPtr{Obj: m.Obj, Path: "[key]"}, o)
			}
			n := e.mutObj(st, m.Obj)
			n.F["unk"] = constBool(true)
		} else if _, isNil := c.Args[0].(VNil); !isNil {
			id := e.backing(st, c.Args[0])
			e.emit("store", st, c.Fr, c.Site, VPtr{Obj: id, Path: "[key]"}, e.obj(st, id))
		}
		return one(st, VTuple{})
	case "recover":
		e.emit("recover", st, c.Fr, c.Site)
		return one(st, VNil{})
	case "print", "println":
		return one(st, VTuple{})
	case "min", "max":
		return one(st, VTerm{Op: name, Args: c.Args, T: c.Sig.Results().At(0).Type()})
	case "ssa:wrapnilchk":
		return one(st, c.Args[0])
	}
	res := c.Sig.Results()
	if res.Len() == 1 {
		return one(st, e.freshSym(st, c.Fr, c.Site, res.At(0).Type(), ""))
	}
	return one(st, VTuple{})
}

func (e *Engine) length(st *State, v Val) Val {
	switch v := v.(type) {
	case VConst:
		if s, ok := asStr(v); ok {
			return constInt(int64(len(s)))
		}
	case VNil:
		return constInt(0)
	case VSlice:
		if v.N >= 0 {
			return constInt(int64(v.N))
		}
		return VTerm{Op: "len", Args: []Val{VPtr{Obj: v.Arr}}, T: types.Typ[types.Int]}
	case VSeq:
		switch v.C.isEmpty() {
		case 'y':
			return constInt(0)
		case 'n':
			n := 0
			lit := !v.C.Map
			for _, k := range v.C.Chunks {
				if !k.Lit {
					lit = false
				}
				n += len(k.S)
			}
			if lit {
				return constInt(int64(n))
			}
			return VTerm{Op: "len", Args: []Val{v}, T: types.Typ[types.Int]}
		}
		// a single unknown text: speak about that text
		if !v.C.Map && len(v.C.Chunks) == 1 {
			return VTerm{Op: "len", Args: []Val{VSym{ID: v.C.Chunks[0].S, T: types.Typ[types.String]}}, T: types.Typ[types.Int]}
		}
		return VTerm{Op: "len", Args: []Val{v}, T: types.Typ[types.Int]}
	}
	return VTerm{Op: "len", Args: []Val{v}, T: types.Typ[types.Int]}
}

// appendTo models append; writing past the end of shared capacity is reported as an event.
func (e *Engine) appendTo(c *Call) Val {
	st, fr, site := c.St, c.Fr, c.Site
	t := c.Sig.Results().At(0).Type()
	if isByteSlice(t) {
		base, _ := e.toSeq(st, c.Args[0])
		add, ok := e.toSeq(st, c.Args[1])
		if s, isSl := c.Args[1].(VSlice); isSl { // variadic byte array
			add, ok = e.bytesOf(st, s)
		}
		if !ok {
			add = VSeq{C: Content{Chunks: []Chunk{{Cls: "raw", S: "?"}}}}
		}
		return e.seqAppend(st, fr, site, base, add.C)
	}
	base := c.Args[0]
	// Lists of attributes are followed element by element, of others only whether they are empty matters.
	lim := 1
	if e.Views {
		lim = 12
	}
	if sl, ok := t.Underlying().(*types.Slice); ok && typeKey(sl.Elem()) == "log/slog.Attr" {
		lim = 12
	}
	var addN = -1
	var addArr string
	switch a := c.Args[1].(type) {
	case VSlice:
		addN, addArr = a.N, a.Arr
	case VNil:
		addN = 0
	}
	var src *Object
	if addArr != "" {
		src = e.obj(st, addArr)
	}
	elems := func(dst *Object, at int) {
		if addN < 0 || at < 0 || src == nil || src.F["unk"] != nil {
			if addN != 0 {
				dst.F["unk"] = constBool(true)
			}
			return
		}
		for i := 0; i < addN; i++ {
			p := fmt.Sprintf("[%d]", i)
			for k, v := range src.F {
				if k == p || strings.HasPrefix(k, p+".") {
					dst.F[fmt.Sprintf("[%d]%s", at+i, k[len(p):])] = v
				}
			}
		}
	}
	switch b := base.(type) {
	case VSlice:
		if !b.Clip {
			o := e.obj(st, b.Arr)
			e.emit("append-write", st, fr, site, b.Arr, o)
			n := -1
			if b.N >= 0 && addN >= 0 && b.N+addN <= lim {
				n = b.N + addN
			}
			if o != nil && !o.Pre {
				m := e.mutObj(st, b.Arr)
				elems(m, b.N)
				if n < 0 {
					m.F["unk"] = constBool(true)
				}
				return VSlice{Arr: b.Arr, N: n, T: t}
			}
			id := e.freshObj(st, fr, site, ".app", &Object{Kind: "array", T: t, F: map[string]Val{"unk": constBool(true)}})
			return VSlice{Arr: id, N: n, T: t}
		}
		old := e.obj(st, b.Arr)
		o := &Object{Kind: "array", T: t, F: map[string]Val{}}
		if old != nil && b.N >= 0 && !old.Pre {
			for k, v := range old.F {
				o.F[k] = v
			}
		} else {
			o.F["unk"] = constBool(true)
		}
		n := -1
		if b.N >= 0 && addN >= 0 && b.N+addN <= lim {
			n = b.N + addN
			elems(o, b.N)
		} else {
			o.F = map[string]Val{"unk": constBool(true)}
		}
		return VSlice{Arr: e.freshObj(st, fr, site, ".app", o), N: n, T: t}
	case VNil:
		o := &Object{Kind: "array", T: t, F: map[string]Val{}}
		elems(o, 0)
		return VSlice{Arr: e.freshObj(st, fr, site, ".app", o), N: addN, T: t}
	}
	id := e.backing(st, base)
	e.emit("append-write", st, fr, site, id, e.obj(st, id))
	nid := e.freshObj(st, fr, site, ".app", &Object{Kind: "array", T: t, F: map[string]Val{"unk": constBool(true)}})
	return VSlice{Arr: nid, N: -1, T: t}
}

func (e *Engine) bytesOf(st *State, s VSlice) (VSeq, bool) {
	o := e.obj(st, s.Arr)
	if o == nil || s.N < 0 {
		return VSeq{C: Content{Chunks: []Chunk{{Cls: "raw", S: "bytes"}}}}, true
	}
	c := Content{}
	for i := 0; i < s.N; i++ {
		v, ok := o.F[fmt.Sprintf("[%d]", i)]
		if !ok {
			c = c.add(Chunk{Cls: "raw", S: "bytes"})
			continue
		}
		c = c.add(e.byteChunk(st, st.resolve(v)))
	}
	return VSeq{C: c}, true
}

// seqAppend extends a byte slice.
func (e *Engine) seqAppend(st *State, fr *Frame, site ssa.Instruction, base VSeq, add Content) VSeq {
	if base.Arr != "" && !base.Clip {
		e.emit("append-write", st, fr, site, base.Arr, e.obj(st, base.Arr))
	}
	res := VSeq{C: e.extend(st, fr, site, base.C, add), Arr: base.Arr}
	if base.Arr == "" || base.Clip {
		res.Arr = e.freshObj(st, fr, site, ".app", &Object{Kind: "array", F: map[string]Val{"unk": constBool(true)}})
	} else if o := e.obj(st, base.Arr); o != nil && o.Pre && !o.Pooled {
		// reported above; carry on with a private array
		res.Arr = e.freshObj(st, fr, site, ".app", &Object{Kind: "array", F: map[string]Val{"unk": constBool(true)}})
	}
	return res
}

// extend concatenates contents, reporting what the added bytes do.
func (e *Engine) extend(st *State, fr *Frame, site ssa.Instruction, base, add Content) Content {
	ko, eo := keyOpens, emptyObjects
	fn := "?"
	if fr != nil {
		fn = e.P.FuncName(fr.Fn)
	}
	rawSite = fn
	res := base.concat(add)
	rawSite = ""
	if res.Map {
		for s, o := range res.M {
			if o.Err != "" && !strings.Contains(o.Err, " [in ") {
				o.Err += " [in " + fn + "]"
				res.M[s] = o
			}
		}
	}
	e.emit("content", st, fr, site, base, add, res)
	if keyOpens > ko {
		e.emit("key-open", st, fr, site, add)
	}
	if emptyObjects > eo {
		e.emit("empty-object", st, fr, site)
	}
	return res
}

// ---------------------------------------------------------------------------
// Buffers.

func (e *Engine) bufContent(st *State, p VPtr) VSeq {
	if o := e.obj(st, p.Obj); o != nil {
		if v, ok := o.F[p.Path+"#buf"].(VSeq); ok {
			return v
		}
		if o.Pre && !global(p.Obj) {
			return VSeq{C: Content{Map: true, M: map[string]Out{}, Empty: '?', Last: "?"}, Arr: p.Obj}
		}
	}
	return VSeq{C: emptyBuffer(), Arr: p.Obj}
}

func (e *Engine) bufSet(st *State, fr *Frame, at ssa.Instruction, p VPtr, s VSeq) {
	o := e.obj(st, p.Obj)
	if o != nil && o.Pre {
		e.emit("store", st, fr, at, p, o)
	}
	n := e.mutObj(st, p.Obj)
	n.F[p.Path+"#buf"] = s
}

func (e *Engine) bufWrite(c *Call, p VPtr, add Content) {
	s := e.bufContent(c.St, p)
	if id, ok := strings.CutPrefix(s.Arr, "copy:"); ok {
		e.emit("append-write", c.St, c.Fr, c.Site, id, e.obj(c.St, id))
		s.Arr = p.Obj
	}
	r := VSeq{C: e.extend(c.St, c.Fr, c.Site, s.C.promote(), add), Arr: s.Arr}
	e.bufSet(c.St, c.Fr, c.Site, p, r)
}

// writeTo models a Write of content to any writer value.
func (e *Engine) writeTo(c *Call, w Val, add Content) []Outcome {
	okres := VTuple{E: []Val{VTerm{Op: "written", T: types.Typ[types.Int]}, VNil{}}}
	if i, ok := w.(VIface); ok {
		if pt, ok := i.Dyn.Underlying().(*types.Pointer); ok && isBufferType(pt.Elem()) {
			if p, ok := e.asPtr(c.Fr, c.St, c.Site, i.V, pt.Elem()); ok {
				e.bufWrite(c, p, add)
				return one(c.St, okres)
			}
		}
	}
	// any other writer: as if its Write method were called
	fn := (*ssa.Function)(nil)
	cc := *c
	cc.Recv = w
	if i, ok := w.(VIface); ok {
		fn = e.P.SSA.LookupMethod(i.Dyn, nil, "Write")
		if fn != nil {
			cc.Callee = fn
			cc.Args = []Val{i.V, VSeq{C: add, Arr: "?"}}
			cc.Sig = fn.Signature
			return e.dispatch(&cc, nil)
		}
	}
	cc.Callee = nil
	cc.Method = writeMethod(e.P)
	cc.Args = []Val{VSeq{C: add, Arr: "?"}}
	if cc.Method != nil {
		cc.Sig = cc.Method.Type().(*types.Signature)
	}
	return e.dispatch(&cc, nil)
}

func writeMethod(p *Program) *types.Func {
	io := p.ByPath["io"]
	if io == nil {
		return nil
	}
	w, _ := io.Types.Scope().Lookup("Writer").Type().Underlying().(*types.Interface)
	if w == nil {
		return nil
	}
	return w.Method(0)
}

// ---------------------------------------------------------------------------
// Standard library.

func (e *Engine) ptrArg(c *Call, i int) (VPtr, bool) {
	if i >= len(c.Args) {
		return VPtr{}, false
	}
	var el types.Type
	if c.Callee != nil && c.Callee.Signature.Recv() != nil && i == 0 {
		el = derefType(c.Callee.Signature.Recv().Type())
	}
	return e.asPtr(c.Fr, c.St, c.Site, c.Args[i], el)
}

func (e *Engine) seqArg(c *Call, i int) Content {
	v := c.Args[i]
	if s, ok := v.(VSlice); ok {
		q, _ := e.bytesOf(c.St, s)
		return q.C
	}
	s, ok := e.toSeq(c.St, v)
	if !ok {
		return Content{Chunks: []Chunk{{Cls: "raw", S: "?"}}}
	}
	return s.C
}

func textSym(c *Call, cls string, str bool) Val {
	id := c.E.siteID(c.Site)
	var t types.Type = types.Typ[types.String]
	return VSeq{Str: str, C: Content{Chunks: []Chunk{{Cls: cls, S: id}}}, Arr: "", Clip: true}.withT(t)
}

func (v VSeq) withT(types.Type) Val { return v }

// errFork returns the two outcomes of a fallible call.
func (e *Engine) errFork(c *Call, okv, badv Val) []Outcome {
	good := c.St.clone()
	bad := c.St.clone()
	er := VSym{ID: e.siteID(c.Site) + ".err", Cls: "nonnil", T: types.Universe.Lookup("error").Type()}
	return []Outcome{
		{St: good, V: VTuple{E: []Val{okv, VNil{}}}},
		{St: bad, V: VTuple{E: []Val{badv, er}}},
	}
}

func pure(c *Call) Val {
	return VTerm{Op: "call:" + fnKey(c.Callee), Args: c.Args, T: c.Sig.Results().At(0).Type()}
}

// safeLayout: formatting a time with this layout yields characters that need no JSON escaping.
func safeLayout(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] == '"' || s[i] == '\\' || s[i] >= 0x7f {
			return false
		}
	}
	return true
}

func (e *Engine) timeChunk(st *State, layout Val, id string) Chunk {
	if s, ok := asStr(st.resolve(layout)); ok && safeLayout(s) {
		return Chunk{Cls: "safe", S: id}
	}
	return Chunk{Cls: "raw", S: "time in a caller-chosen layout"}
}

func (e *Engine) floatClass(st *State, v Val) string {
	v = st.resolve(v)
	if _, ok := v.(VConst); ok {
		return "digits"
	}
	isFalse := func(t Val) bool { return e.truth(st, t) == 1 }
	bt := types.Typ[types.Bool]
	nan := VTerm{Op: "call:math.IsNaN", Args: []Val{v}, T: bt}
	inf := func(s int64) Val { return VTerm{Op: "call:math.IsInf", Args: []Val{v, constInt(s)}, T: bt} }
	selfEq := VTerm{Op: "cmp", Args: []Val{v, v, constInt(2)}, T: bt}
	selfNe := VTerm{Op: "cmp", Args: []Val{v, v, constInt(5)}, T: bt}
	notNaN := isFalse(nan)
	if f, ok := st.F[selfEq.key()]; ok && f.B == nil && f.Bits == 2 {
		notNaN = true
	}
	if f, ok := st.F[selfNe.key()]; ok && f.B == nil && f.Bits == 1 {
		notNaN = true
	}
	notInf := isFalse(inf(0)) || isFalse(inf(1)) && isFalse(inf(-1))
	if notNaN && notInf {
		return "digits"
	}
	return "float"
}

var kindConsts = map[string]int64{"Any": 0, "Bool": 1, "Duration": 2, "Float64": 3, "Int64": 4, "String": 5, "Time": 6, "Uint64": 7, "Group": 8, "LogValuer": 9}

func kindVal(n int64, t types.Type) Val { return VConst{constant.MakeInt64(n), t} }

func attrStruct(c *Call, k, v Val) Val {
	return VStruct{T: c.Sig.Results().At(0).Type(), F: []Val{k, v}}
}

func (e *Engine) slogType(name string) types.Type {
	return e.P.ByPath["log/slog"].Types.Scope().Lookup(name).Type()
}

func (e *Engine) valueOf(kind string, a Val) Val {
	return VTerm{Op: "val:" + kind, Args: []Val{a}, T: e.slogType("Value")}
}

// anyValue is slog.AnyValue.
func (e *Engine) anyValue(c *Call, a Val) Val {
	if i, ok := a.(VIface); ok {
		switch u := i.Dyn.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Struct:
			if n, ok := i.Dyn.(*types.Named); ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "log/slog" || n.Obj().Pkg().Path() == "time") {
				break
			}
			if types.Implements(i.Dyn, e.slogType("LogValuer").Underlying().(*types.Interface)) {
				return e.valueOf("LogValuer", a)
			}
			_ = u
			return e.valueOf("Any", a)
		case *types.Basic:
			if _, named := i.Dyn.(*types.Named); !named && u.Kind() == types.String {
				return e.valueOf("String", i.V)
			}
		}
	}
	return VTerm{Op: "val:?", Args: []Val{a}, T: e.slogType("Value")}
}

func (e *Engine) model(c *Call) ([]Outcome, bool) {
	st := c.St
	fn := c.Callee
	if e.P.IsRepoFunc(fn) {
		return nil, false
	}
	k := fnKey(fn)
	switch k {
	// --- slog
	case "log/slog.String":
		return one(st, attrStruct(c, c.Args[0], e.valueOf("String", c.Args[1]))), true
	case "log/slog.Time":
		return one(st, attrStruct(c, c.Args[0], e.valueOf("Time", c.Args[1]))), true
	case "log/slog.Int", "log/slog.Int64":
		return one(st, attrStruct(c, c.Args[0], e.valueOf("Int64", c.Args[1]))), true
	case "log/slog.Bool":
		return one(st, attrStruct(c, c.Args[0], e.valueOf("Bool", c.Args[1]))), true
	case "log/slog.Uint64":
		return one(st, attrStruct(c, c.Args[0], e.valueOf("Uint64", c.Args[1]))), true
	case "log/slog.Float64":
		return one(st, attrStruct(c, c.Args[0], e.valueOf("Float64", c.Args[1]))), true
	case "log/slog.Duration":
		return one(st, attrStruct(c, c.Args[0], e.valueOf("Duration", c.Args[1]))), true
	case "log/slog.Any":
		return one(st, attrStruct(c, c.Args[0], e.anyValue(c, c.Args[1]))), true
	case "log/slog.StringValue":
		return one(st, e.valueOf("String", c.Args[0])), true
	case "log/slog.TimeValue":
		return one(st, e.valueOf("Time", c.Args[0])), true
	case "log/slog.IntValue", "log/slog.Int64Value":
		return one(st, e.valueOf("Int64", c.Args[0])), true
	case "log/slog.GroupValue":
		return one(st, e.valueOf("Group", c.Args[0])), true
	case "log/slog.AnyValue":
		return one(st, e.anyValue(c, c.Args[0])), true
	case "(log/slog.Value).Kind":
		return one(st, e.kindOf(st, c.Args[0])), true
	case "(log/slog.Value).Resolve":
		return one(st, e.resolved(st, c.Args[0])), true
	case "(log/slog.Value).Bool", "(log/slog.Value).Duration", "(log/slog.Value).Float64", "(log/slog.Value).Int64",
		"(log/slog.Value).String", "(log/slog.Value).Time", "(log/slog.Value).Uint64", "(log/slog.Value).Any", "(log/slog.Value).Group", "(log/slog.Value).LogValuer":
		name := fn.Name()
		e.emit("accessor", st, c.Fr, c.Site, name, c.Args[0], e.kindOf(st, c.Args[0]))
		if t, ok := c.Args[0].(VTerm); ok && t.Op == "val:"+name {
			return one(st, t.Args[0]), true
		}
		return one(st, pure(c)), true
	case "(log/slog.Attr).Equal", "(log/slog.Value).Equal":
		return one(st, e.attrEqual(c)), true
	case "(log/slog.Attr).String", "(log/slog.Record).NumAttrs", "(log/slog.Level).String":
		return one(st, pure(c)), true
	case "(log/slog.Record).Attrs":
		return e.recordAttrs(c), true
	case "log/slog.Error", "log/slog.Warn", "log/slog.Info", "log/slog.Debug":
		e.emit("slog", st, c.Fr, c.Site, fn.Name())
		return one(st, VTuple{}), true

	// --- regexp
	case "regexp.MustCompile", "regexp.Compile":
		v := VTerm{Op: "regexp", Args: c.Args, T: c.Sig.Results().At(0).Type()}
		if fn.Name() == "Compile" {
			return one(st, VTuple{E: []Val{v, VNil{}}}), true
		}
		return one(st, v), true

	// --- errors
	case "fmt.Errorf", "errors.New":
		t := VTerm{Op: "errorf", Args: e.errArgs(c), T: c.Sig.Results().At(0).Type()}
		return one(st, t), true

	// --- time
	case "(time.Time).IsZero", "(time.Duration).Nanoseconds", "math.IsNaN", "math.IsInf", "math.Abs", "(time.Time).Round", "(time.Time).Truncate", "(time.Time).UTC", "math.Signbit",
		"strings.ToLower", "strings.ToUpper", "strings.EqualFold", "strings.Contains", "strings.HasPrefix", "utf8.RuneError", "unicode/utf8.ValidString", "unicode/utf8.Valid", "unicode/utf8.RuneLen", "encoding/json.Valid", "strings.TrimSpace", "strings.ContainsRune", "strings.ContainsAny", "strings.IndexByte", "strings.IndexAny", "strings.Index":
		return one(st, pure(c)), true
	case "(time.Time).AppendFormat":
		base, _ := e.toSeq(st, c.Args[1])
		return one(st, e.seqAppend(st, c.Fr, c.Site, base, Content{Chunks: []Chunk{e.timeChunk(st, c.Args[2], e.siteID(c.Site))}})), true
	case "(time.Time).Format":
		ch := e.timeChunk(st, c.Args[1], e.siteID(c.Site))
		return one(st, VSeq{Str: true, C: Content{Chunks: []Chunk{ch}}}), true

	// --- strconv
	case "strconv.AppendInt", "strconv.AppendUint":
		base, _ := e.toSeq(st, c.Args[0])
		return one(st, e.seqAppend(st, c.Fr, c.Site, base, Content{Chunks: []Chunk{{Cls: "digits", S: e.siteID(c.Site)}}})), true
	case "strconv.AppendFloat":
		base, _ := e.toSeq(st, c.Args[0])
		return one(st, e.seqAppend(st, c.Fr, c.Site, base, Content{Chunks: []Chunk{{Cls: e.floatClass(st, c.Args[1]), S: e.siteID(c.Site)}}})), true
	case "strconv.FormatFloat":
		return one(st, textSym(c, e.floatClass(st, c.Args[0]), true)), true
	case "strconv.AppendBool":
		base, _ := e.toSeq(st, c.Args[0])
		return one(st, e.seqAppend(st, c.Fr, c.Site, base, Content{Chunks: []Chunk{{Cls: "jval", S: e.siteID(c.Site)}}})), true
	case "strconv.FormatBool":
		return one(st, textSym(c, "jval", true)), true
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		return one(st, textSym(c, "digits", true)), true
	case "strconv.Quote", "strconv.QuoteToASCII":
		return one(st, textSym(c, "quote", true)), true
	case "strconv.AppendQuote", "strconv.AppendQuoteToASCII":
		base, _ := e.toSeq(st, c.Args[0])
		return one(st, e.seqAppend(st, c.Fr, c.Site, base, Content{Chunks: []Chunk{{Cls: "quote", S: e.siteID(c.Site)}}})), true

	// --- fmt
	case "fmt.Sprintf":
		return one(st, VSeq{Str: true, C: e.format(c, c.Args[0], c.Args[1])}), true
	case "fmt.Sprint", "fmt.Sprintln":
		return one(st, textSym(c, "raw", true)), true
	case "fmt.Fprintf":
		return e.writeTo(c, c.Args[0], e.format(c, c.Args[1], c.Args[2])), true
	case "fmt.Fprint", "fmt.Fprintln":
		return e.writeTo(c, c.Args[0], Content{Chunks: []Chunk{{Cls: "raw", S: e.siteID(c.Site)}}}), true
	case "fmt.Appendf":
		base, _ := e.toSeq(st, c.Args[0])
		return one(st, e.seqAppend(st, c.Fr, c.Site, base, e.format(c, c.Args[1], c.Args[2]))), true
	case "io.WriteString":
		return e.writeTo(c, c.Args[0], e.seqArg(c, 1)), true

	// --- json
	case "encoding/json.Marshal":
		cls := "jval"
		if i, ok := c.Args[0].(VIface); ok && isStringType(i.Dyn) {
			cls = "jstr"
		}
		id := e.siteID(c.Site)
		if i, ok := c.Args[0].(VIface); ok && cls == "jstr" {
			if t := textKey(st.resolve(i.V)); t != "" {
				id = "js:" + t
			}
		}
		arr := e.freshObj(st, c.Fr, c.Site, "", &Object{Kind: "array", F: map[string]Val{"unk": constBool(true)}})
		good := VSeq{C: Content{Chunks: []Chunk{{Cls: cls, S: id}}}, Arr: arr}
		if i, ok := c.Args[0].(VIface); ok && types.Identical(i.Dyn, types.Typ[types.String]) {
			return one(st, VTuple{E: []Val{good, VNil{}}}), true // marshalling a string never fails
		}
		return e.errFork(c, good, VSeq{Clip: true}), true

	// --- bytes and strings
	case "cmp.Or":
		sl, ok := st.resolve(c.Args[0]).(VSlice)
		et := c.Sig.Results().At(0).Type()
		if o := e.obj(st, sl.Arr); ok && o != nil && sl.N > 0 && o.F["unk"] == nil {
			var out []Outcome
			cur := st
			for i := 0; i < sl.N && cur != nil; i++ {
				v, ok := o.F[fmt.Sprintf("[%d]", i)]
				if !ok {
					v = zeroVal(et)
				}
				v = cur.resolve(v)
				if i == sl.N-1 {
					out = append(out, Outcome{St: cur, V: v})
					break
				}
				a, b := v, zeroVal(et)
				if isStringType(et) {
					a, b = e.length(cur, v), constInt(0)
				}
				set, unset := cur.clone(), cur.clone()
				if e.assume(set, a, b, 5) {
					out = append(out, Outcome{St: set, V: v})
				}
				cur = nil
				if e.assume(unset, a, b, 2) {
					cur = unset
				}
			}
			return out, true
		}
	case "bytes.HasSuffix", "strings.HasSuffix":
		return one(st, e.hasSuffix(c)), true
	case "slices.Clip":
		switch s := c.Args[0].(type) {
		case VSeq:
			s.Clip = true
			return one(st, s), true
		case VSlice:
			s.Clip = true
			return one(st, s), true
		case VSym, VTerm:
			if isByteSlice(c.Sig.Results().At(0).Type()) {
				q, _ := e.toSeq(st, s)
				q.Clip = true
				return one(st, q), true
			}
			return one(st, VSlice{Arr: e.backing(st, s), Clip: true, N: -1, T: c.Sig.Results().At(0).Type()}), true
		}
		return one(st, c.Args[0]), true
	case "slices.Clone", "bytes.Clone":
		return one(st, e.cloneSeq(c, c.Args[0])), true
	case "maps.Clone":
		id := e.freshObj(st, c.Fr, c.Site, "", &Object{Kind: "map", F: map[string]Val{"unk": constBool(true)}})
		return one(st, VMap{Obj: id}), true
	case "bytes.NewBuffer", "bytes.NewBufferString":
		id := e.freshObj(st, c.Fr, c.Site, "", &Object{Kind: "struct", F: map[string]Val{}})
		q, _ := e.toSeq(st, c.Args[0])
		q.C = q.C.promote()
		q.Str = false
		if o := e.obj(st, q.Arr); k == "bytes.NewBuffer" && o != nil && (o.Pre && !o.Pooled && !o.Own || global(q.Arr)) && !q.Clip && q.Arr != "" {
			q.Arr = "copy:" + q.Arr // written in place
		}
		st.H[id].F["#buf"] = q
		return one(st, VPtr{Obj: id}), true

	// --- sync
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		p, _ := e.ptrArg(c, 0)
		e.emit("lock", st, c.Fr, c.Site, p)
		st.Mon["locks"] = lockSet(st).add(p, 1)
		return one(st, VTuple{}), true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		p, _ := e.ptrArg(c, 0)
		e.emit("unlock", st, c.Fr, c.Site, p)
		st.Mon["locks"] = lockSet(st).add(p, -1)
		return one(st, VTuple{}), true
	case "(*sync.Pool).Get":
		p, _ := e.ptrArg(c, 0)
		v := e.freshSymCls(st, c.Fr, c.Site, types.Universe.Lookup("any").Type(), "", "pooled")
		e.emit("pool-get", st, c.Fr, c.Site, p, v)
		return one(st, v), true
	case "(*sync.Pool).Put":
		p, _ := e.ptrArg(c, 0)
		e.emit("pool-put", st, c.Fr, c.Site, p, c.Args[1])
		return one(st, VTuple{}), true
	}
	if strings.HasPrefix(k, "(*bytes.Buffer).") || strings.HasPrefix(k, "(*strings.Builder).") {
		return e.bufMethod(c, fn.Name())
	}
	return nil, false
}

type locks struct{ VTuple }

func lockSet(st *State) locks {
	if v, ok := st.Mon["locks"].(VTuple); ok {
		return locks{v}
	}
	return locks{}
}

func (l locks) add(p VPtr, d int) VTuple {
	var out []Val
	done := false
	for _, x := range l.E {
		if d < 0 && !done && x.key() == p.key() {
			done = true
			continue
		}
		out = append(out, x)
	}
	if d > 0 {
		out = append(out, p)
		if len(out) > 4 {
			out = out[:4]
		}
	}
	return VTuple{E: out}
}

func (l locks) holds(p VPtr) bool {
	for _, x := range l.E {
		if x.key() == p.key() {
			return true
		}
	}
	return false
}

func (e *Engine) modelInvoke(c *Call) ([]Outcome, bool) {
	switch c.Method.FullName() {
	case "(error).Error", "(fmt.Stringer).String":
		return one(c.St, VTerm{Op: "call:" + c.Method.Name(), Args: []Val{c.Recv}, T: types.Typ[types.String]}), true
	case "(encoding/json.Marshaler).MarshalJSON", "(encoding.TextMarshaler).MarshalText":
		arr := e.freshObj(c.St, c.Fr, c.Site, "", &Object{Kind: "array", F: map[string]Val{"unk": constBool(true)}})
		e.emit("fallible", c.St, c.Fr, c.Site, c.Method.Name())
		return e.errFork(c, VSeq{C: Content{Chunks: []Chunk{{Cls: "raw", S: e.siteID(c.Site)}}}, Arr: arr}, VSeq{Clip: true}), true
	}
	return nil, false
}

// resolved is the result of slog.Value.Resolve.
func (e *Engine) resolved(st *State, v Val) Val {
	if t, ok := v.(VTerm); ok && (t.Op == "call:(log/slog.Value).Resolve" || strings.HasPrefix(t.Op, "val:") && t.Op != "val:LogValuer" && t.Op != "val:?") {
		return v
	}
	if e.cmpBits(st, e.kindOf(st, v), kindVal(9, e.slogType("Kind")))&2 == 0 {
		return v
	}
	return VTerm{Op: "call:(log/slog.Value).Resolve", Args: []Val{v}, T: e.slogType("Value")}
}

func (e *Engine) kindOf(st *State, v Val) Val {
	kt := e.slogType("Kind")
	if t, ok := v.(VTerm); ok {
		if strings.HasPrefix(t.Op, "val:") {
			if n, ok := kindConsts[t.Op[4:]]; ok {
				return kindVal(n, kt)
			}
		}
		if strings.HasPrefix(t.Op, "zero:") {
			return kindVal(0, kt)
		}
	}
	k := VTerm{Op: "call:(log/slog.Value).Kind", Args: []Val{v}, T: kt}
	if t, ok := v.(VTerm); ok && t.Op == "call:(log/slog.Value).Resolve" {
		e.assume(st, k, kindVal(9, kt), 5)
	}
	return st.resolve(k)
}

// attrEqual models slog.Attr.Equal and slog.Value.Equal.
func (e *Engine) attrEqual(c *Call) Val {
	a, b := c.Args[0], c.Args[1]
	if x, ok := a.(VStruct); ok {
		if y, ok := b.(VStruct); ok && len(x.F) == 2 && len(y.F) == 2 {
			xs, xok := asStr(x.F[0])
			ys, yok := asStr(y.F[0])
			if xok && yok && xs != ys {
				return constBool(false)
			}
			if t, ok := x.F[1].(VTerm); ok && strings.HasPrefix(t.Op, "val:") && t.Op != "val:Any" && t.Op != "val:?" {
				if z, ok := y.F[1].(VTerm); ok && strings.HasPrefix(z.Op, "zero:") {
					return constBool(false)
				}
			}
		}
	}
	if a.key() == b.key() {
		return constBool(true)
	}
	x, y := a, b
	if x.key() > y.key() {
		x, y = y, x
	}
	return VTerm{Op: "equal", Args: []Val{x, y}, T: types.Typ[types.Bool]}
}

// recordAttrs calls the visitor for any number of unknown attributes until it returns false.
func (e *Engine) recordAttrs(c *Call) []Outcome {
	fv := c.Args[1]
	f, ok := fv.(VFunc)
	if !ok {
		return e.opaque(c)
	}
	at := e.slogType("Attr")
	seen := newJoinTable(2)
	var outs []Outcome
	work := []*State{c.St}
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		k := st.key()
		facts, _, fresh := seen.put(k, st.F)
		if !fresh {
			continue
		}
		st = st.clone()
		st.F = facts
		if len(seen.m) > 3000 {
			e.undecided("record.Attrs iteration limit", c.Site)
			break
		}
		outs = append(outs, Outcome{St: st.clone(), V: VTuple{}})
		nst := st.clone()
		id := e.siteID(c.Site) + ".attr"
		e.age(nst, c.Fr, id)
		attr := mkSym(id, at)
		for _, r := range e.callFn(f.Fn, []Val{attr}, f.Bind, nst, c.Fr, c.Site) {
			if r.Panic {
				outs = append(outs, Outcome{St: r.St, Bad: true})
				continue
			}
			if len(r.Rets) == 0 {
				continue
			}
			t := e.truth(r.St, r.Rets[0])
			var keep []Val
			for _, v := range c.Fr.R {
				keep = append(keep, v)
			}
			roots := map[string]bool{}
			for id := range c.St.H {
				roots[id] = true
			}
			if t&1 != 0 {
				s := r.St.clone()
				e.collect(s, keep, roots)
				outs = append(outs, Outcome{St: s, V: VTuple{}})
			}
			if t&2 != 0 {
				s := r.St.clone()
				e.collect(s, keep, roots)
				work = append(work, s)
			}
		}
	}
	// distinct outcomes only
	dk := newJoinTable(1)
	idx := map[string]int{}
	var res []Outcome
	for _, o := range outs {
		k := o.St.key()
		if o.Bad {
			k = "!" + k
		}
		f, _, fresh := dk.put(k, o.St.F)
		if !fresh {
			continue
		}
		o.St = o.St.clone()
		o.St.F = f
		if i, ok := idx[k]; ok {
			res[i] = o
			continue
		}
		idx[k] = len(res)
		res = append(res, o)
	}
	return res
}

func (e *Engine) errArgs(c *Call) []Val {
	var out []Val
	if len(c.Args) < 2 {
		return nil
	}
	s, ok := c.Args[1].(VSlice)
	if !ok || s.N < 0 {
		return nil
	}
	o := e.obj(c.St, s.Arr)
	for i := 0; i < s.N; i++ {
		v := o.F[fmt.Sprintf("[%d]", i)]
		if v == nil {
			continue
		}
		if x, ok := v.(VSym); ok && x.Cls == "nonnil" {
			out = append(out, v)
		}
		if t, ok := v.(VTerm); ok && t.Op == "errorf" {
			out = append(out, t.Args...)
		}
	}
	if len(out) > 2 {
		out = out[:2]
	}
	return out
}

// format models a constant format string.
func (e *Engine) format(c *Call, f, args Val) Content {
	fs, ok := asStr(c.St.resolve(f))
	raw := Content{Chunks: []Chunk{{Cls: "raw", S: e.siteID(c.Site)}}}
	if !ok {
		return raw
	}
	var vals []Val
	switch s := args.(type) {
	case VNil:
	case VSlice:
		o := e.obj(c.St, s.Arr)
		if o == nil || s.N < 0 {
			return raw
		}
		for i := 0; i < s.N; i++ {
			v := o.F[fmt.Sprintf("[%d]", i)]
			if v == nil {
				v = VTop{}
			}
			vals = append(vals, v)
		}
	default:
		return raw
	}
	out := Content{}
	ai := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			j := strings.IndexByte(fs[i:], '%')
			if j < 0 {
				j = len(fs) - i
			}
			out = out.add(Chunk{Lit: true, S: fs[i : i+j]})
			i += j - 1
			continue
		}
		i++
		st := i
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			i++
		}
		if i >= len(fs) {
			return raw
		}
		flags := fs[st:i]
		if fs[i] == '%' {
			out = out.add(Chunk{Lit: true, S: "%"})
			continue
		}
		var v Val = VTop{}
		if ai < len(vals) {
			v = vals[ai]
		}
		ai++
		id := e.siteID(c.Site) + "." + fmt.Sprint(ai)
		iv, isI := v.(VIface)
		switch fs[i] {
		case 's', 'v':
			if isI && (isStringType(iv.Dyn) || isByteSlice(iv.Dyn) && fs[i] == 's') && flags == "" {
				if q, ok := e.toSeq(c.St, iv.V); ok {
					out = out.concat(q.C)
					continue
				}
			}
			if isI && isInt(iv.Dyn) && fs[i] == 'v' {
				if _, named := iv.Dyn.(*types.Named); !named {
					out = out.add(Chunk{Cls: "digits", S: id})
					continue
				}
			}
			out = out.add(Chunk{Cls: "raw", S: id})
		case 'd':
			out = out.add(Chunk{Cls: "digits", S: id})
		case 'x', 'X':
			if isI && isInt(iv.Dyn) {
				out = out.add(Chunk{Cls: "safe", S: id})
				continue
			}
			out = out.add(Chunk{Cls: "raw", S: id})
		case 'q':
			out = out.add(Chunk{Cls: "quote", S: id})
		case 't':
			out = out.add(Chunk{Cls: "jval", S: id})
		default:
			out = out.add(Chunk{Cls: "raw", S: id})
		}
	}
	return out
}

// lastByte is the last byte of a text: "{", ",", " ", "o" (another one) or "?" (unknown).
func lastByte(a Content) string {
	last := a.Last
	if !a.Map && len(a.Chunks) > 0 {
		l := a.Chunks[len(a.Chunks)-1]
		switch {
		case l.Lit:
			return l.S[len(l.S)-1:]
		case nonEmptyClass(l.Cls) && l.Cls != "byte":
			return "o"
		}
		return "?"
	}
	if last == "" || a.isEmpty() == '?' {
		return "?"
	}
	return last
}

// isLast tells that idx is the index of the last element of x.
func (e *Engine) isLast(st *State, x, idx Val) bool {
	t, ok := idx.(VTerm)
	if !ok || t.Op != "-" || len(t.Args) != 2 {
		return false
	}
	one, ok := asInt(t.Args[1])
	return ok && one == 1 && st.resolve(t.Args[0]).key() == st.resolve(e.length(st, x)).key()
}

// lastOf is the value of the last byte of a text.
func lastOf(x VSeq, t types.Type) Val {
	if l := lastByte(x.C); len(l) == 1 && l != "o" && l != "?" || !x.C.Map && len(x.C.Chunks) > 0 && x.C.Chunks[len(x.C.Chunks)-1].Lit {
		return VConst{constant.MakeInt64(int64(l[0])), t}
	}
	return VTerm{Op: "lastbyte", Args: []Val{x}, T: t}
}

func (e *Engine) hasSuffix(c *Call) Val {
	a := e.seqArg(c, 0)
	bs := e.seqArg(c, 1)
	suf := ""
	for _, k := range bs.Chunks {
		if !k.Lit {
			return VTerm{Op: "hasSuffix", Args: c.Args, T: types.Typ[types.Bool]}
		}
		suf += k.S
	}
	if bs.Map || len(suf) != 1 {
		return VTerm{Op: "hasSuffix", Args: c.Args, T: types.Typ[types.Bool]}
	}
	last := a.Last
	empty := a.isEmpty()
	if !a.Map && len(a.Chunks) > 0 {
		l := a.Chunks[len(a.Chunks)-1]
		if l.Lit {
			last = l.S[len(l.S)-1:]
			if suf != last {
				return constBool(false)
			}
			return constBool(true)
		} else if nonEmptyClass(l.Cls) && l.Cls != "byte" {
			last = "o"
		} else {
			last = "?"
		}
	}
	switch {
	case empty == 'y':
		return constBool(false)
	case last == "?" || last == "" || empty == '?':
		return VTerm{Op: "hasSuffix", Args: c.Args, T: types.Typ[types.Bool]}
	case last == "o":
		if lastClass(suf) != "o" {
			return constBool(false)
		}
		return VTerm{Op: "hasSuffix", Args: c.Args, T: types.Typ[types.Bool]}
	}
	return constBool(last == suf)
}

func (e *Engine) cloneSeq(c *Call, v Val) Val {
	st := c.St
	switch s := v.(type) {
	case VNil:
		return s
	case VSeq:
		id := e.freshObj(st, c.Fr, c.Site, "", &Object{Kind: "array", F: map[string]Val{"unk": constBool(true)}})
		s.Arr, s.Clip = id, false
		return s
	case VSlice:
		o := &Object{Kind: "array", F: map[string]Val{}}
		if old := e.obj(st, s.Arr); old != nil && s.N >= 0 {
			for k, x := range old.F {
				o.F[k] = x
			}
		} else {
			o.F["unk"] = constBool(true)
		}
		return VSlice{Arr: e.freshObj(st, c.Fr, c.Site, "", o), N: s.N, T: s.T}
	}
	t := c.Sig.Results().At(0).Type()
	id := e.freshObj(st, c.Fr, c.Site, "", &Object{Kind: "array", F: map[string]Val{"unk": constBool(true)}})
	if isByteSlice(t) {
		q, _ := e.toSeq(st, v)
		q.Arr, q.Clip = id, false
		return q
	}
	return VSlice{Arr: id, N: -1, T: t}
}

func (e *Engine) bufMethod(c *Call, name string) ([]Outcome, bool) {
	st := c.St
	p, ok := e.ptrArg(c, 0)
	if !ok {
		return nil, false
	}
	n := VTerm{Op: "written", T: types.Typ[types.Int]}
	switch name {
	case "Write", "WriteString":
		e.bufWrite(c, p, e.seqArg(c, 1))
		return one(st, VTuple{E: []Val{n, VNil{}}}), true
	case "WriteByte":
		e.bufWrite(c, p, Content{Chunks: []Chunk{e.byteChunk(st, st.resolve(c.Args[1]))}})
		return one(st, VNil{}), true
	case "WriteRune":
		if i, ok := asInt(st.resolve(c.Args[1])); ok {
			e.bufWrite(c, p, litContent(string(rune(i))))
		} else {
			e.bufWrite(c, p, Content{Chunks: []Chunk{{Cls: "raw", S: "rune"}}})
		}
		return one(st, VTuple{E: []Val{n, VNil{}}}), true
	case "Bytes":
		s := e.bufContent(st, p)
		s.Str = false
		if !strings.HasPrefix(s.Arr, "copy:") {
			s.Arr = p.Obj
		}
		return one(st, s), true
	case "AvailableBuffer":
		s := e.bufContent(st, p)
		return one(st, VSeq{C: emptyBuffer(), Arr: s.Arr}), true
	case "String":
		s := e.bufContent(st, p)
		return one(st, VSeq{Str: true, C: s.C}), true
	case "Len":
		return one(st, e.length(st, e.bufContent(st, p))), true
	case "Reset":
		s := e.bufContent(st, p)
		e.bufSet(st, c.Fr, c.Site, p, VSeq{C: emptyBuffer(), Arr: s.Arr})
		return one(st, VTuple{}), true
	case "Truncate":
		s := e.bufContent(st, p)
		if i, ok := asInt(st.resolve(c.Args[1])); ok && i == 0 {
			e.bufSet(st, c.Fr, c.Site, p, VSeq{C: emptyBuffer(), Arr: s.Arr})
		} else {
			e.bufSet(st, c.Fr, c.Site, p, VSeq{C: Content{Map: true, M: map[string]Out{}, Empty: '?', Last: "?"}, Arr: s.Arr})
		}
		return one(st, VTuple{}), true
	case "Grow":
		return one(st, VTuple{}), true
	case "Cap", "Available":
		return one(st, n), true
	case "WriteTo":
		s := e.bufContent(st, p)
		outs := e.writeTo(c, c.Args[1], s.C)
		for i := range outs {
			if !outs[i].Bad {
				e.bufSet(outs[i].St, c.Fr, c.Site, p, VSeq{C: emptyBuffer(), Arr: s.Arr})
			}
		}
		return outs, true
	}
	return nil, false
}

// slogConst is the value of a string constant of log/slog.
func (e *Engine) slogConst(name string) (string, bool) {
	for _, pkg := range e.P.SSA.AllPackages() {
		if pkg.Pkg.Path() == "log/slog" {
			if c, ok := pkg.Pkg.Scope().Lookup(name).(*types.Const); ok && c.Val().Kind() == constant.String {
				return constant.StringVal(c.Val()), true
			}
		}
	}
	return "", false
}
