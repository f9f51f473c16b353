package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file is a disjunctive (path-sensitive) interprocedural dataflow analysis over SSA.
//
// Facts are finite: constants, unknown values with an identity (one per creating instruction), a heap of
// objects named by allocation site, truth values of comparisons between unknowns, and whatever a property's
// monitor adds. Functions are summarised per canonical abstract input; recursion is solved by iterating the
// summaries to a fixpoint; loops are iterated until no new abstract state appears. Nothing is executed and
// no solver is involved.

// Fact is what is known about one comparison (Bits over <,=,> as 1,2,4) or one boolean term (1 false, 2 true).
type Fact struct {
	A, B Val // B nil for boolean terms
	Bits int
}

func (f Fact) key() string {
	if f.B == nil {
		return fmt.Sprintf("%s#%d", f.A.key(), f.Bits)
	}
	return fmt.Sprintf("%s|%s#%d", f.A.key(), f.B.key(), f.Bits)
}

type State struct {
	H   map[string]*Object
	F   map[string]Fact
	D   map[string]string // unknown pointer -> object it points to
	Mon map[string]Val
}

func newState() *State {
	return &State{H: map[string]*Object{}, F: map[string]Fact{}, D: map[string]string{}, Mon: map[string]Val{}}
}

func (s *State) clone() *State {
	n := &State{H: make(map[string]*Object, len(s.H)+1), F: make(map[string]Fact, len(s.F)+1), D: make(map[string]string, len(s.D)), Mon: make(map[string]Val, len(s.Mon))}
	for k, v := range s.H {
		n.H[k] = v
	}
	for k, v := range s.F {
		n.F[k] = v
	}
	for k, v := range s.D {
		n.D[k] = v
	}
	for k, v := range s.Mon {
		n.Mon[k] = v
	}
	return n
}

func (s *State) key() string {
	var parts []string
	for k, o := range s.H {
		parts = append(parts, "H"+k+":"+o.key())
	}
	for k, v := range s.D {
		parts = append(parts, "D"+k+":"+v)
	}
	for k, v := range s.Mon {
		parts = append(parts, "M"+k+":"+v.key())
	}
	sort.Strings(parts)
	return strings.Join(parts, "\n")
}

// factsKey names the facts of a state.
func (s *State) factsKey() string {
	var parts []string
	for k, f := range s.F {
		parts = append(parts, k+"#"+strconv.Itoa(f.Bits))
	}
	sort.Strings(parts)
	return strings.Join(parts, "\n")
}

// joinFacts keeps the facts that hold in both; it reports whether a lost anything.
func joinFacts(a, b map[string]Fact) (map[string]Fact, bool) {
	lost := false
	out := make(map[string]Fact, len(a))
	for k, f := range a {
		g, ok := b[k]
		if !ok {
			lost = true
			continue
		}
		if strings.HasPrefix(k, "=") {
			if f.B.key() != g.B.key() {
				lost = true
				continue
			}
			out[k] = f
			continue
		}
		bits := f.Bits | g.Bits
		if bits == 7 || f.B == nil && bits == 3 {
			lost = true
			continue
		}
		if bits != f.Bits {
			lost = true
		}
		f.Bits = bits
		out[k] = f
	}
	return out, lost
}

// Frame is one activation's registers.
type Frame struct {
	Fn     *ssa.Function
	R      map[ssa.Value]Val
	Defers []deferred
}

type deferred struct {
	call *ssa.CallCommon
	site ssa.Instruction
	fn   Val
	args []Val
}

func (f *Frame) clone() *Frame {
	n := &Frame{Fn: f.Fn, R: make(map[ssa.Value]Val, len(f.R)+1), Defers: append([]deferred(nil), f.Defers...)}
	for k, v := range f.R {
		n.R[k] = v
	}
	return n
}

type Outcome struct {
	St  *State
	V   Val
	Bad bool // the path ends here (panic)
}

type Result struct {
	St    *State
	Rets  []Val
	Panic bool
}

func (r Result) key() string {
	var b strings.Builder
	if r.Panic {
		b.WriteString("PANIC")
	}
	for _, v := range r.Rets {
		b.WriteString(v.key())
		b.WriteByte(';')
	}
	b.WriteString(r.St.key())
	return b.String()
}

type summary struct {
	fn         *ssa.Function
	results    map[string]Result
	pure       *joinTable
	other      *joinTable
	inProgress bool
	dirty      bool
	ver        int              // grows with every new result
	reads      map[*summary]int // callee results this one was computed from
	callers    map[*summary]bool
	args, bind []Val
	st         *State
	depth      int
}

// Call describes a call being analysed.
type Call struct {
	E      *Engine
	St     *State
	Fr     *Frame
	Site   ssa.Instruction
	Callee *ssa.Function // nil for dynamic calls and unresolved invokes
	Method *types.Func   // for invokes
	Recv   Val           // for invokes
	FnVal  Val           // for dynamic calls
	Args   []Val
	Sig    *types.Signature
}

// Engine runs the analysis for one monitor.
type Engine struct {
	P        *Program
	OnCall   func(c *Call) ([]Outcome, bool)                                                     // before anything else
	OnEvent  func(e *Engine, kind string, st *State, fr *Frame, at ssa.Instruction, data ...any) // see emit
	Base     map[string]*Object                                                                  // globals
	Opaque   func(fn *ssa.Function) bool                                                         // repo functions not to enter
	OnEnter  func(fn *ssa.Function, args []Val, st *State) *State                                // state to analyse the callee in
	OnReturn func(fn *ssa.Function, rets []Val, callee, caller *State)                           // adjusts callee (the state after the call)
	Precise  func(fn *ssa.Function) bool                                                         // functions whose results are kept apart
	OnState  func(st *State)                                                                     // each state at the start of a block
	OnExit   func(fn *ssa.Function, rets []Val, st *State)                                       // each exit, before exits are joined
	curFn    *ssa.Function                                                                       // function being executed
	SafeFns  map[*ssa.Function]bool                                                              // functions proven to write whole escape sequences
	SafeSub  map[ssa.Instruction]bool                                                            // slice expressions proven to hold only characters that need no escaping

	InitCall func(c *Call) ([]Outcome, bool) // models calls made by package initialisers

	Variants    int  // sets of facts kept apart per state, if more than one
	MapTerms    bool // maps with unknown keys are followed (see amap.go)
	Ages        int  // how many older objects of one creating instruction are kept apart, if more than one
	KeepWritten bool // package variables assigned after initialisation still start from their initial value
	MapRev      bool // known maps are iterated oldest entry last instead of first

	Views bool // slices of slices of known length keep their elements (they no longer alias them)

	Frame func(id string) bool // globals a callee sees only through its arguments

	sums      map[string]*summary
	cur       *summary
	queue     []*summary
	stack     []*ssa.Function
	live      map[*ssa.Function]*liveInfo
	siteIDs   map[ssa.Instruction]string
	epoch     string
	globalsOK map[*ssa.Package]bool
	Steps     int
	MaxSteps  int
	Undecided map[string]string
	NFuncs    map[string]bool
	NCalls    map[ssa.Instruction]bool
}

func NewEngine(p *Program) *Engine {
	return &Engine{P: p, Base: map[string]*Object{}, sums: map[string]*summary{}, live: map[*ssa.Function]*liveInfo{},
		siteIDs: map[ssa.Instruction]string{}, globalsOK: map[*ssa.Package]bool{}, MaxSteps: 20_000_000,
		Undecided: map[string]string{}, NFuncs: map[string]bool{}, NCalls: map[ssa.Instruction]bool{}}
}

func (e *Engine) emit(kind string, st *State, fr *Frame, at ssa.Instruction, data ...any) {
	if e.OnEvent != nil {
		e.OnEvent(e, kind, st, fr, at, data...)
	}
}

func (e *Engine) undecided(what string, at ssa.Instruction) {
	pos := "-"
	if at != nil {
		pos = e.P.Pos(at.Pos())
	}
	if _, ok := e.Undecided[what]; !ok {
		e.Undecided[what] = pos
	}
}

// Run analyses fn on the given abstract arguments to a fixpoint.
func (e *Engine) Run(fn *ssa.Function, args []Val, st *State) []Result {
	return e.run(fn, args, nil, st)
}

// RunValue analyses a known function value.
func (e *Engine) RunValue(v Val, args []Val, st *State) ([]Result, bool) {
	f, ok := v.(VFunc)
	if !ok {
		return nil, false
	}
	return e.run(f.Fn, args, f.Bind, st), true
}

func (e *Engine) run(fn *ssa.Function, args, bind []Val, st *State) []Result {
	e.callFn(fn, args, bind, st, nil, nil)
	for len(e.queue) > 0 {
		// deepest first: callees settle before what uses them
		best := 0
		for i, s := range e.queue {
			if s.depth > e.queue[best].depth {
				best = i
			}
		}
		s := e.queue[best]
		e.queue = append(e.queue[:best], e.queue[best+1:]...)
		s.dirty = false
		if e.Steps > e.MaxSteps {
			e.undecided("step limit", nil)
			break
		}
		e.compute(s)
	}
	return e.callFn(fn, args, bind, st, nil, nil)
}

// compute analyses one summary's function; whoever used older results is queued again.
func (e *Engine) compute(s *summary) {
	saved := e.cur
	e.cur = s
	s.inProgress = true
	for c := range s.reads {
		delete(c.callers, s)
	}
	s.reads = map[*summary]int{}
	e.stack = append(e.stack, s.fn)
	res := e.exec(s.fn, s.args, s.bind, s.st.clone())
	e.stack = e.stack[:len(e.stack)-1]
	s.inProgress = false
	e.cur = saved
	grown := false
	ek := s.st.key()
	for _, r := range res {
		rk := r.key()
		tab := s.other
		if r.St.key() == ek {
			tab = s.pure
		}
		f, slot, fresh := tab.put(rk, r.St.F)
		if !fresh {
			continue
		}
		nst := *r.St
		nst.F = f
		r.St = &nst
		s.results[rk+"#"+strconv.Itoa(slot)] = r
		grown = true
	}
	if grown {
		s.ver++
		for c := range s.callers {
			e.stale(c)
		}
	}
	// results read early in this run may have grown meanwhile (recursion)
	for c, v := range s.reads {
		if c.ver != v {
			e.stale(s)
			break
		}
	}
}

func (e *Engine) stale(s *summary) {
	if !s.dirty && !s.inProgress {
		s.dirty = true
		e.queue = append(e.queue, s)
	}
}

func (e *Engine) siteID(at ssa.Instruction) string {
	if at == nil {
		return "root"
	}
	return e.siteBase(at) + e.epoch
}

func (e *Engine) siteBase(at ssa.Instruction) string {
	if at == nil {
		return "root"
	}
	if s, ok := e.siteIDs[at]; ok {
		return s
	}
	s := fmt.Sprintf("i%d", len(e.siteIDs))
	e.siteIDs[at] = s
	return s
}

// setEpoch makes what is created from now on belong to the round of an unrolled loop the state is in.
func (e *Engine) setEpoch(st *State) {
	e.epoch = ""
	if n, ok := st.Mon["epoch"]; ok {
		e.epoch = "@" + n.key()[2:]
	}
}

// ---------------------------------------------------------------------------
// Symbols and memory.

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// expandStruct reports whether unknown values of t are represented field by field.
func expandStruct(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	n, ok := t.(*types.Named)
	if !ok {
		return true
	}
	if n.Obj().Pkg() == nil {
		return true
	}
	if isRepoPath(n.Obj().Pkg().Path()) {
		return true
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "log/slog.Attr", "log/slog.HandlerOptions":
		return true
	}
	return expandMore != nil && expandMore(n)
}

// expandMore names further structs whose fields are followed separately when they are copied.
var expandMore func(*types.Named) bool

func mkSym(id string, t types.Type) Val {
	if expandStruct(t) {
		s := t.Underlying().(*types.Struct)
		vs := VStruct{T: t}
		for i := 0; i < s.NumFields(); i++ {
			vs.F = append(vs.F, mkSym(id+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return vs
	}
	return VSym{ID: id, T: t}
}

func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VConst{constant.MakeBool(false), t}
		case u.Info()&types.IsString != 0:
			return VConst{constant.MakeString(""), t}
		case u.Info()&types.IsInteger != 0:
			return VConst{constant.MakeInt64(0), t}
		case u.Info()&types.IsFloat != 0:
			return VConst{constant.MakeFloat64(0), t}
		}
		return VNil{}
	case *types.Struct:
		if !expandStruct(t) {
			return VTerm{Op: "zero:" + typeKey(t), T: t}
		}
		vs := VStruct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			vs.F = append(vs.F, zeroVal(u.Field(i).Type()))
		}
		return vs
	case *types.Array:
		return VTerm{Op: "zero:" + typeKey(t), T: t}
	case *types.Slice:
		if isByteSlice(t) {
			return VSeq{Arr: "", Clip: true}
		}
		return VNil{}
	}
	return VNil{}
}

func (e *Engine) obj(st *State, id string) *Object {
	if o, ok := st.H[id]; ok {
		return o
	}
	if o, ok := e.Base[id]; ok {
		return o
	}
	return nil
}

func (e *Engine) mutObj(st *State, id string) *Object {
	o := e.obj(st, id)
	if o == nil {
		o = &Object{Kind: "pre", Pre: true, F: map[string]Val{}}
	}
	n := o.clone()
	st.H[id] = n
	return n
}

// load reads the location obj.path of type t.
func (e *Engine) load(st *State, fr *Frame, at ssa.Instruction, p VPtr, t types.Type) Val {
	o := e.obj(st, p.Obj)
	if o == nil {
		return e.freshSym(st, fr, at, t, "")
	}
	if isBufferType(t) {
		b := e.bufContent(st, p)
		if (o.Pre || global(p.Obj)) && b.C.isEmpty() != 'y' && !strings.HasPrefix(b.Arr, "copy:") {
			b.Arr = "copy:" + p.Obj // the copy shares the memory of the buffer
		}
		return VTerm{Op: "bufval", Args: []Val{b}, T: t}
	}
	return e.loadPath(st, fr, at, p.Obj, o, p.Path, t)
}

func (e *Engine) loadPath(st *State, fr *Frame, at ssa.Instruction, id string, o *Object, path string, t types.Type) Val {
	if v, ok := o.F[path]; ok {
		return v
	}
	if expandStruct(t) {
		s := t.Underlying().(*types.Struct)
		vs := VStruct{T: t}
		for i := 0; i < s.NumFields(); i++ {
			vs.F = append(vs.F, e.loadPath(st, fr, at, id, e.obj(st, id), path+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return vs
	}
	for i := len(path) - 1; i >= 0; i-- {
		if path[i] != '.' || strings.ContainsAny(path[i:], "[") {
			continue
		}
		switch w := o.F[path[:i]].(type) {
		case VSym, VTerm:
			var v Val = w
			for _, f := range strings.Split(path[i+1:], ".") {
				v = VTerm{Op: "field:" + f, Args: []Val{v}, T: t}
			}
			return v
		}
	}
	if strings.Contains(path, "[*]") {
		// any known element that could be meant?
		if o.Kind == "array" && !o.Pre && !o.Weak {
			if v, ok := o.F["[?]"+path[strings.Index(path, "[*]")+3:]]; ok {
				return v
			}
		}
		return e.freshSym(st, fr, at, t, path)
	}
	if o.Weak {
		return e.freshSym(st, fr, at, t, path)
	}
	if !o.Pre && !o.Pooled {
		if o.Kind == "array" && o.F["unk"] != nil {
			return e.freshSym(st, fr, at, t, path)
		}
		return zeroVal(t)
	}
	if o.Pooled {
		e.emit("stale-read", st, fr, at, id, path)
	}
	v := mkSymCls(id+path, "", t)
	n := e.mutObj(st, id)
	n.F[path] = v
	return v
}

func mkSymCls(id, cls string, t types.Type) Val {
	if expandStruct(t) {
		return mkSym(id, t)
	}
	return VSym{ID: "m:" + id, Cls: cls, T: t}
}

// store writes the location.
func (e *Engine) store(st *State, fr *Frame, at ssa.Instruction, p VPtr, v Val, t types.Type) {
	o := e.obj(st, p.Obj)
	if o != nil && (o.Pre && !o.Own || o.Pooled) {
		e.emit("store", st, fr, at, p, o)
	}
	if o == nil {
		e.emit("store", st, fr, at, p, (*Object)(nil))
	}
	n := e.mutObj(st, p.Obj)
	if vs, ok := v.(VStruct); ok {
		e.storeStruct(n, p.Path, vs)
		return
	}
	// A whole-location store of an opaque struct forgets its parts.
	for k := range n.F {
		if strings.HasPrefix(k, p.Path+".") || k == p.Path+"#buf" {
			delete(n.F, k)
		}
	}
	if b, ok := v.(VTerm); ok && b.Op == "bufval" && !n.Weak {
		n.F[p.Path+"#buf"] = b.Args[0]
		return
	}
	if n.Weak || strings.Contains(p.Path, "[*]") {
		n.F["unk"] = constBool(true)
		for k := range n.F {
			if k != "unk" && strings.HasPrefix(k, "[") {
				delete(n.F, k)
			}
		}
		if n.Weak {
			delete(n.F, p.Path)
		}
		return
	}
	n.F[p.Path] = v
}

func (e *Engine) storeStruct(n *Object, path string, vs VStruct) {
	s := vs.T.Underlying().(*types.Struct)
	delete(n.F, path)
	for i := 0; i < s.NumFields(); i++ {
		fp := path + "." + s.Field(i).Name()
		delete(n.F, fp+"#buf")
		if b, ok := vs.F[i].(VTerm); ok && b.Op == "bufval" {
			n.F[fp+"#buf"] = b.Args[0]
			continue
		}
		if sub, ok := vs.F[i].(VStruct); ok {
			e.storeStruct(n, fp, sub)
		} else {
			n.F[fp] = vs.F[i]
		}
	}
}

// freshSym makes the unknown created by an instruction; an older one of the same name is aged.
func (e *Engine) freshSym(st *State, fr *Frame, at ssa.Instruction, t types.Type, suffix string) Val {
	return e.freshSymCls(st, fr, at, t, suffix, "")
}

func (e *Engine) freshSymCls(st *State, fr *Frame, at ssa.Instruction, t types.Type, suffix, cls string) Val {
	id := e.siteID(at) + suffix
	if at != nil && fr != nil && e.inLoop(fr.Fn, at.Block()) {
		e.age(st, fr, id)
	}
	if cls != "" && !expandStruct(t) {
		return VSym{ID: id, Cls: cls, T: t}
	}
	return mkSym(id, t)
}

func (e *Engine) freshObj(st *State, fr *Frame, at ssa.Instruction, suffix string, o *Object) string {
	id := "o" + e.siteID(at) + suffix
	if at != nil && fr != nil && e.inLoop(fr.Fn, at.Block()) {
		e.ageObj(st, fr, id)
	}
	st.H[id] = o
	return id
}

// age renames an older unknown of the same creating instruction.
func (e *Engine) age(st *State, fr *Frame, id string) {
	old := id + "~"
	ren := &renamer{sym: func(s string) string {
		if s == id || strings.HasPrefix(s, id+".") {
			return old + s[len(id):]
		}
		return s
	}, obj: func(s string) string { return s }}
	// Facts about the already aged one no longer name a single value.
	for k, f := range st.F {
		if mentions(f.A, old) || f.B != nil && mentions(f.B, old) {
			delete(st.F, k)
		}
	}
	ren.frame(fr)
	ren.state(st)
}

func (e *Engine) ageObj(st *State, fr *Frame, id string) {
	if _, ok := st.H[id]; !ok {
		return
	}
	old := id + "~"
	if _, ok := st.H[old]; ok && len(old)-len(strings.TrimRight(old, "~")) < e.Ages {
		e.ageObj(st, fr, old)
	}
	if prev, ok := st.H[old]; ok {
		// merge into a summary object
		cur := st.H[id]
		m := prev.clone()
		m.Weak = true
		for k, v := range m.F {
			if w, ok := cur.F[k]; !ok || w.key() != v.key() {
				delete(m.F, k)
			}
		}
		st.H[old] = m
		delete(st.H, id)
	}
	ren := &renamer{sym: func(s string) string { return s }, obj: func(s string) string {
		if s == id {
			return old
		}
		return s
	}}
	ren.frame(fr)
	ren.state(st)
}

func mentions(v Val, id string) bool {
	found := false
	walkVal(v, func(s string) {
		if s == id || strings.HasPrefix(s, id+".") {
			found = true
		}
	}, nil)
	return found
}

// walkVal visits the symbols and objects of a value.
func walkVal(v Val, sym func(string), obj func(string)) {
	switch v := v.(type) {
	case VSym:
		if sym != nil {
			sym(v.ID)
		}
	case VTerm:
		for _, a := range v.Args {
			walkVal(a, sym, obj)
		}
	case VPtr:
		if obj != nil {
			obj(v.Obj)
		}
	case VStruct:
		for _, a := range v.F {
			walkVal(a, sym, obj)
		}
	case VTuple:
		for _, a := range v.E {
			walkVal(a, sym, obj)
		}
	case VFunc:
		for _, a := range v.Bind {
			walkVal(a, sym, obj)
		}
	case VIface:
		walkVal(v.V, sym, obj)
	case VSlice:
		if obj != nil && v.Arr != "" {
			obj(v.Arr)
		}
	case VSeq:
		if obj != nil && v.Arr != "" {
			obj(v.Arr)
		}
	case VMap:
		if obj != nil {
			obj(v.Obj)
		}
	}
}

// renamer rebuilds values with symbols, objects and contents renamed.
type renamer struct {
	sym  func(string) string
	obj  func(string) string
	val  func(Val) (Val, bool) // optional override
	cont func(Content) Content
}

func (r *renamer) v(v Val) Val {
	if r.val != nil {
		if n, ok := r.val(v); ok {
			return n
		}
	}
	switch v := v.(type) {
	case VSym:
		v.ID = r.sym(v.ID)
		return v
	case VTerm:
		v.Args = r.vs(v.Args)
		return v
	case VPtr:
		v.Obj = r.obj(v.Obj)
		return v
	case VStruct:
		v.F = r.vs(v.F)
		return v
	case VTuple:
		v.E = r.vs(v.E)
		return v
	case VFunc:
		v.Bind = r.vs(v.Bind)
		return v
	case VIface:
		v.V = r.v(v.V)
		return v
	case VSlice:
		if v.Arr != "" {
			v.Arr = r.obj(v.Arr)
		}
		return v
	case VSeq:
		if v.Arr != "" {
			v.Arr = r.obj(v.Arr)
		}
		if r.cont != nil {
			v.C = r.cont(v.C)
		}
		return v
	case VMap:
		v.Obj = r.obj(v.Obj)
		return v
	}
	return v
}

func (r *renamer) vs(in []Val) []Val {
	if len(in) == 0 {
		return in
	}
	out := make([]Val, len(in))
	for i, v := range in {
		out[i] = r.v(v)
	}
	return out
}

func (r *renamer) object(o *Object) *Object {
	n := *o
	n.F = make(map[string]Val, len(o.F))
	for k, v := range o.F {
		n.F[k] = r.v(v)
	}
	return &n
}

func factKey(f Fact) string {
	if f.B == nil {
		return f.A.key()
	}
	return f.A.key() + "|" + f.B.key()
}

func (r *renamer) fact(f Fact) Fact {
	a := r.v(f.A)
	if f.B == nil {
		return Fact{A: a, Bits: f.Bits}
	}
	return orientFact(a, r.v(f.B), f.Bits)
}

func (r *renamer) state(st *State) {
	nh := make(map[string]*Object, len(st.H))
	for k, o := range st.H {
		nh[r.obj(k)] = r.object(o)
	}
	st.H = nh
	nf := make(map[string]Fact, len(st.F))
	for _, f := range st.F {
		g := r.fact(f)
		nf[factKey(g)] = g
	}
	st.F = nf
	nd := make(map[string]string, len(st.D))
	for k, v := range st.D {
		nd[r.sym(k)] = r.obj(v)
	}
	st.D = nd
	nm := make(map[string]Val, len(st.Mon))
	for k, v := range st.Mon {
		nm[k] = r.v(v)
	}
	st.Mon = nm
}

func (r *renamer) frame(fr *Frame) {
	if fr == nil {
		return
	}
	for k, v := range fr.R {
		fr.R[k] = r.v(v)
	}
	for i := range fr.Defers {
		fr.Defers[i].args = r.vs(fr.Defers[i].args)
		if fr.Defers[i].fn != nil {
			fr.Defers[i].fn = r.v(fr.Defers[i].fn)
		}
	}
}

// ---------------------------------------------------------------------------
// Facts.

// orientFact orders the two sides canonically (constants and nil on the right).
func orientFact(a, b Val, bits int) Fact {
	_, ac := a.(VConst)
	_, bc := b.(VConst)
	_, an := a.(VNil)
	_, bn := b.(VNil)
	swap := false
	switch {
	case (ac || an) && !(bc || bn):
		swap = true
	case (bc || bn) && !(ac || an):
	default:
		swap = a.key() > b.key()
	}
	if swap {
		a, b = b, a
		n := bits & 2
		if bits&1 != 0 {
			n |= 4
		}
		if bits&4 != 0 {
			n |= 1
		}
		bits = n
	}
	return Fact{A: a, B: b, Bits: bits}
}

func opBits(op token.Token) int {
	switch op {
	case token.EQL:
		return 2
	case token.NEQ:
		return 5
	case token.LSS:
		return 1
	case token.LEQ:
		return 3
	case token.GTR:
		return 4
	case token.GEQ:
		return 6
	}
	return 0
}

// resolve replaces an unknown by the constant it is known to equal.
func (st *State) resolve(v Val) Val {
	switch v.(type) {
	case VSym, VTerm:
		if f, ok := st.F["="+v.key()]; ok {
			return f.B
		}
	}
	return v
}

// cmpBits returns which of <,=,> are possible between a and b.
func (e *Engine) cmpBits(st *State, a, b Val) int {
	ca, ok1 := a.(VConst)
	cb, ok2 := b.(VConst)
	if ok1 && ok2 {
		switch {
		case ca.C.Kind() != cb.C.Kind() && (ca.C.Kind() == constant.String || cb.C.Kind() == constant.String || ca.C.Kind() == constant.Bool || cb.C.Kind() == constant.Bool):
			return 7
		case ca.C.Kind() == constant.Bool:
			if constant.BoolVal(ca.C) == constant.BoolVal(cb.C) {
				return 2
			}
			return 5
		case constant.Compare(ca.C, token.LSS, cb.C):
			return 1
		case constant.Compare(ca.C, token.EQL, cb.C):
			return 2
		default:
			return 4
		}
	}
	if a.key() == b.key() {
		switch a.(type) {
		case VTop, VTuple:
			return 7
		}
		if t := valType(a); t != nil {
			if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
				return 7
			}
		}
		return 2
	}
	f := orientFact(a, b, 7)
	res := 7
	if g, ok := st.F[factKey(f)]; ok {
		res = g.Bits
	}
	if s, ok := f.A.(VSym); ok && s.Cls == "pos" {
		if i, ok := asInt(f.B); ok && i <= 0 {
			res &= 4
		}
	}
	// lengths are never negative
	if t, ok := f.A.(VTerm); ok && t.Op == "lastbyte" {
		if i, ok := asInt(f.B); ok && i >= 0 && i < 128 {
			if q, isSeq := t.Args[0].(VSeq); isSeq {
				if l := lastByte(q.C); l == "o" && lastClass(string(rune(i))) != "o" {
					res &= 5
				}
			}
		}
	}
	if t, ok := f.A.(VTerm); ok && t.Op == "len" {
		if i, ok := asInt(f.B); ok && i <= 0 {
			q, isSeq := t.Args[0].(VSeq)
			if i < 0 || isSeq && q.C.isEmpty() == 'n' {
				res &= 4
			} else {
				res &= 6
			}
		}
	}
	// an unknown known to differ from, or be ordered against, other constants
	if cb, ok := f.B.(VConst); ok && cb.C.Kind() == constant.Int {
		for _, g := range st.F {
			if g.B == nil || g.A.key() != f.A.key() {
				continue
			}
			gc, ok := g.B.(VConst)
			if !ok || gc.C.Kind() != constant.Int {
				continue
			}
			switch {
			case constant.Compare(cb.C, token.LSS, gc.C) && g.Bits&1 == 0: // A >= gc > cb
				res &= 4
			case constant.Compare(cb.C, token.GTR, gc.C) && g.Bits&4 == 0: // A <= gc < cb
				res &= 1
			}
		}
	}
	if f.A.key() != a.key() { // swapped
		n := res & 2
		if res&1 != 0 {
			n |= 4
		}
		if res&4 != 0 {
			n |= 1
		}
		return n
	}
	return res
}

func valType(v Val) types.Type {
	switch v := v.(type) {
	case VConst:
		return v.T
	case VSym:
		return v.T
	case VTerm:
		return v.T
	}
	return nil
}

// assume restricts the comparison of a and b; false if impossible.
func (e *Engine) assume(st *State, a, b Val, bits int) bool {
	cur := e.cmpBits(st, a, b) & bits
	if cur == 0 {
		return false
	}
	_, ac := a.(VConst)
	_, bc := b.(VConst)
	if ac && bc || a.key() == b.key() {
		return true
	}
	if e.MapTerms && !ac && !bc && !e.congruent(st, a, b, cur) {
		return false
	}
	f := orientFact(a, b, cur)
	st.F[factKey(f)] = f
	if f.Bits == 2 {
		switch f.B.(type) {
		case VConst, VNil:
			st.F["="+f.A.key()] = Fact{A: f.A, B: f.B, Bits: 2}
		}
	}
	return true
}

// congruent tells whether a and b can compare so, given which other values are known to be equal.
func (e *Engine) congruent(st *State, a, b Val, bits int) bool {
	if bits != 2 && bits&2 != 0 {
		return true
	}
	adj := map[string][]Val{}
	for k, f := range st.F {
		if f.B == nil || f.Bits != 2 || strings.HasPrefix(k, "=") {
			continue
		}
		adj[f.A.key()] = append(adj[f.A.key()], f.B)
		adj[f.B.key()] = append(adj[f.B.key()], f.A)
	}
	class := func(v Val) []Val {
		seen := map[string]bool{v.key(): true}
		l := []Val{v}
		for i := 0; i < len(l); i++ {
			for _, x := range adj[l[i].key()] {
				if !seen[x.key()] {
					seen[x.key()] = true
					l = append(l, x)
				}
			}
		}
		return l
	}
	ca, cb := class(a), class(b)
	for _, x := range ca {
		for _, y := range cb {
			same := x.key() == y.key()
			if same && bits&2 == 0 {
				return false
			}
			if bits == 2 && !same && e.cmpBits(st, x, y)&2 == 0 {
				return false
			}
		}
	}
	return true
}

// truth evaluates a boolean value under the facts: 1 false possible, 2 true possible.
func (e *Engine) truth(st *State, v Val) int {
	if b, ok := asBool(v); ok {
		if b {
			return 2
		}
		return 1
	}
	if t, ok := v.(VTerm); ok {
		switch t.Op {
		case "!":
			x := e.truth(st, t.Args[0])
			return (x&1)<<1 | (x&2)>>1
		case "cmp":
			want, _ := asInt(t.Args[2])
			got := e.cmpBits(st, st.resolve(t.Args[0]), st.resolve(t.Args[1]))
			res := 0
			if got&int(want) != 0 {
				res |= 2
			}
			if got&^int(want) != 0 {
				res |= 1
			}
			return res
		}
	}
	if f, ok := st.F[v.key()]; ok && f.B == nil {
		return f.Bits
	}
	return 3
}

// assumeTruth restricts a boolean; false if impossible.
func (e *Engine) assumeTruth(st *State, v Val, want bool) bool {
	w := 1
	if want {
		w = 2
	}
	if e.truth(st, v)&w == 0 {
		return false
	}
	if _, ok := v.(VConst); ok {
		return true
	}
	if t, ok := v.(VTerm); ok {
		switch t.Op {
		case "!":
			return e.assumeTruth(st, t.Args[0], !want)
		case "cmp":
			bits, _ := asInt(t.Args[2])
			b := int(bits)
			if !want {
				b = 7 &^ b
			}
			return e.assume(st, st.resolve(t.Args[0]), st.resolve(t.Args[1]), b)
		}
	}
	if _, ok := v.(VTop); ok {
		return true
	}
	st.F[v.key()] = Fact{A: v, Bits: w}
	return true
}

// ---------------------------------------------------------------------------
// Liveness and loops.

type liveInfo struct {
	in   []map[ssa.Value]bool
	loop []bool
}

func (e *Engine) info(fn *ssa.Function) *liveInfo {
	if li, ok := e.live[fn]; ok {
		return li
	}
	n := len(fn.Blocks)
	li := &liveInfo{in: make([]map[ssa.Value]bool, n), loop: make([]bool, n)}
	use := make([]map[ssa.Value]bool, n)
	def := make([]map[ssa.Value]bool, n)
	for i, b := range fn.Blocks {
		use[i], def[i], li.in[i] = map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); !ok {
				for _, op := range ins.Operands(nil) {
					if *op != nil && !def[i][*op] {
						use[i][*op] = true
					}
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				def[i][v] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range li.in[s.Index] {
					out[v] = true
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						phi, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						out[phi.Edges[pi]] = true
					}
				}
			}
			for v := range use[i] {
				if !li.in[i][v] {
					li.in[i][v] = true
					changed = true
				}
			}
			for v := range out {
				if !def[i][v] && !li.in[i][v] {
					li.in[i][v] = true
					changed = true
				}
			}
		}
	}
	// phis defined in a block are live at its entry (they are evaluated on the edge)
	for i, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if phi, ok := ins.(*ssa.Phi); ok {
				li.in[i][phi] = true
			}
		}
	}
	// a block is in a loop if it can reach itself
	for i := range fn.Blocks {
		seen := map[int]bool{}
		work := []*ssa.BasicBlock{fn.Blocks[i]}
		for len(work) > 0 && !li.loop[i] {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			for _, s := range b.Succs {
				if s.Index == i {
					li.loop[i] = true
				}
				if !seen[s.Index] {
					seen[s.Index] = true
					work = append(work, s)
				}
			}
		}
	}
	e.live[fn] = li
	return li
}

func (e *Engine) inLoop(fn *ssa.Function, b *ssa.BasicBlock) bool {
	if b == nil || b.Parent() != fn {
		return false
	}
	return e.info(fn).loop[b.Index]
}

// ---------------------------------------------------------------------------
// Calls and summaries.

// callFn analyses a call of a function with a body, through its summary.
func (e *Engine) callFn(fn *ssa.Function, args, bind []Val, st *State, fr *Frame, site ssa.Instruction) []Result {
	e.NFuncs[e.P.FuncName(fn)] = true
	caller := st
	if e.OnEnter != nil {
		st = e.OnEnter(fn, args, st)
	}
	cn := newCanon(e, st)
	cn.caller, cn.fn = caller, fn
	cargs := cn.vals(args)
	cbind := cn.vals(bind)
	cst := cn.finish()
	var kb strings.Builder
	kb.WriteString(fn.String())
	for _, a := range cargs {
		kb.WriteByte('\x01')
		kb.WriteString(a.key())
	}
	for _, a := range cbind {
		kb.WriteByte('\x02')
		kb.WriteString(a.key())
	}
	kb.WriteByte('\x03')
	kb.WriteString(cst.key())
	kb.WriteByte('\x04')
	kb.WriteString(cst.factsKey())
	k := kb.String()
	s := e.sums[k]
	if s == nil {
		if len(e.stack) > 60 {
			e.undecided("call depth", site)
			return nil
		}
		s = &summary{fn: fn, results: map[string]Result{}, pure: newJoinTable(e.atLeast(8)), other: newJoinTable(e.variants(fn)), callers: map[*summary]bool{},
			args: cargs, bind: cbind, st: cst, depth: len(e.stack)}
		e.sums[k] = s
		e.compute(s)
	}
	if e.cur != nil {
		s.callers[e.cur] = true
		if v, ok := e.cur.reads[s]; !ok || v > s.ver {
			e.cur.reads[s] = s.ver
		}
	}
	keys := make([]string, 0, len(s.results))
	for rk := range s.results {
		keys = append(keys, rk)
	}
	sort.Strings(keys)
	var out []Result
	e.setEpoch(st)
	for _, rk := range keys {
		out = append(out, cn.back(s.results[rk], st, fr, site))
	}
	return out
}

// canon renames the part of a state a callee can see into canonical names.
type canon struct {
	e      *Engine
	st     *State
	sym    map[string]string
	obj    map[string]string
	unsym  map[string]string
	unobj  map[string]string
	terms  map[string]Val // canonical sym -> collapsed term
	tkeys  map[string]string
	conts  []Content
	caller *State
	fn     *ssa.Function
	queue  []string
	dq     []string
	gsym   map[string]bool // framed globals the callee can see
	gobj   map[string]bool
	gq     []string
}

func newCanon(e *Engine, st *State) *canon {
	return &canon{e: e, st: st, sym: map[string]string{}, obj: map[string]string{}, unsym: map[string]string{}, unobj: map[string]string{}, terms: map[string]Val{}, tkeys: map[string]string{}, gsym: map[string]bool{}, gobj: map[string]bool{}}
}

func global(id string) bool { return strings.HasPrefix(id, "g:") || strings.HasPrefix(id, "m:g:") }

func (c *canon) framed(id string) bool { return c.e.Frame != nil && c.e.Frame(id) }

func (c *canon) seesSym(id string) bool {
	if global(id) {
		return !c.framed(id) || c.gsym[id]
	}
	_, in := c.sym[id]
	return in
}

func (c *canon) seesObj(id string) bool {
	if global(id) {
		return !c.framed(id) || c.gobj[id]
	}
	_, in := c.obj[id]
	return in
}

func (c *canon) s(id string) string {
	if global(id) {
		c.gsym[id] = true
		return id
	}
	if n, ok := c.sym[id]; ok {
		return n
	}
	n := fmt.Sprintf("$%d", len(c.sym))
	c.sym[id], c.unsym[n] = n, id
	if _, ok := c.st.D[id]; ok {
		c.dq = append(c.dq, id)
	}
	return n
}

func (c *canon) o(id string) string {
	if global(id) {
		if !c.gobj[id] {
			c.gobj[id] = true
			if c.framed(id) {
				c.gq = append(c.gq, id)
			}
		}
		return id
	}
	if n, ok := c.obj[id]; ok {
		return n
	}
	n := fmt.Sprintf("@%d", len(c.obj))
	c.obj[id], c.unobj[n] = n, id
	c.queue = append(c.queue, id)
	return n
}

func termDepth(v Val) int {
	t, ok := v.(VTerm)
	if !ok {
		return 0
	}
	m := 0
	for _, a := range t.Args {
		if d := termDepth(a); d > m {
			m = d
		}
	}
	return m + 1
}

func (c *canon) renamer() *renamer {
	return &renamer{sym: c.s, obj: c.o, cont: c.content, val: func(v Val) (Val, bool) {
		if t, ok := v.(VTerm); ok && (termDepth(v) > 3 || t.Op == "call:(log/slog.Value).Group") {
			k := t.key()
			n, ok := c.tkeys[k]
			if !ok {
				n = fmt.Sprintf("$t%d", len(c.tkeys))
				c.tkeys[k] = n
				c.terms[n] = v
			}
			return VSym{ID: n, T: t.T}, true
		}
		return nil, false
	}}
}

func (c *canon) content(x Content) Content {
	if !x.Map {
		return x
	}
	k := x.key()
	idx := -1
	for i, p := range c.conts {
		if p.key() == k {
			idx = i
		}
	}
	if idx < 0 {
		idx = len(c.conts)
		c.conts = append(c.conts, x)
	}
	id := Content{Map: true, M: map[string]Out{}, Base: fmt.Sprintf("$c%d", idx), Empty: x.Empty, Last: x.Last}
	for _, o := range x.M {
		if o.Err == "" {
			id.M[o.End] = Out{End: o.End}
		}
	}
	return id
}

// vals renames arguments. Texts passed by value may be written elsewhere, so their effect is kept whole;
// only the output a callee extends (content of local objects) is reduced to the state it is in.
func (c *canon) vals(in []Val) []Val {
	r := c.renamer()
	r.cont = keepContent
	return r.vs(in)
}

func keepContent(x Content) Content { return x }

func (c *canon) finish() *State {
	r := c.renamer()
	out := newState()
	mk := make([]string, 0, len(c.st.Mon))
	for k := range c.st.Mon {
		mk = append(mk, k)
	}
	sort.Strings(mk)
	for _, k := range mk {
		out.Mon[k] = r.v(c.st.Mon[k])
	}
	rg := c.renamer()
	rg.cont = keepContent
	drain := func() {
		for len(c.queue) > 0 || len(c.dq) > 0 || len(c.gq) > 0 {
			if len(c.queue) > 0 {
				id := c.queue[0]
				c.queue = c.queue[1:]
				if o := c.st.H[id]; o != nil {
					out.H[c.obj[id]] = c.objectSorted(r, o)
				}
				continue
			}
			if len(c.gq) > 0 {
				id := c.gq[0]
				c.gq = c.gq[1:]
				if o := c.st.H[id]; o != nil {
					out.H[id] = c.objectSorted(rg, o)
				} else if o := c.e.Base[id]; o != nil {
					c.objectSorted(rg, o)
				}
				continue
			}
			id := c.dq[0]
			c.dq = c.dq[1:]
			out.D[c.sym[id]] = c.o(c.st.D[id])
		}
	}
	drain()
	// modified globals travel under their own names
	gs := make([]string, 0, len(c.st.H))
	for id := range c.st.H {
		if global(id) && !c.framed(id) {
			gs = append(gs, id)
		}
	}
	sort.Strings(gs)
	for _, id := range gs {
		out.H[id] = c.objectSorted(r, c.st.H[id])
	}
	drain()
	for k, f := range c.st.F {
		ok := true
		known := func(s string) { ok = ok && c.seesSym(s) }
		knownO := func(s string) { ok = ok && c.seesObj(s) }
		walkVal(f.A, known, knownO)
		if f.B != nil {
			walkVal(f.B, known, knownO)
		}
		if !ok {
			continue
		}
		g := r.fact(f)
		if strings.HasPrefix(k, "=") {
			out.F["="+g.A.key()] = g
		} else {
			out.F[factKey(g)] = g
		}
	}
	return out
}

func (c *canon) objectSorted(r *renamer, o *Object) *Object {
	n := *o
	n.F = make(map[string]Val, len(o.F))
	ks := make([]string, 0, len(o.F))
	for k := range o.F {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		n.F[k] = r.v(o.F[k])
	}
	return &n
}

func lastComp(id string) string {
	if i := strings.LastIndex(id, "·"); i >= 0 {
		return id[i+len("·"):]
	}
	return id
}

// back maps a canonical result into the caller's names.
func (c *canon) back(res Result, st *State, fr *Frame, site ssa.Instruction) Result {
	prefix := c.e.siteID(site)
	newSym, newObj := map[string]string{}, map[string]string{}
	used := map[string]bool{}
	name := func(id string, m map[string]string) string {
		if n, ok := m[id]; ok {
			return n
		}
		base := prefix + "·" + lastComp(id)
		n := base
		for i := 1; used[n]; i++ {
			n = fmt.Sprintf("%s#%d", base, i)
		}
		used[n] = true
		m[id] = n
		return n
	}
	r := &renamer{}
	r.sym = func(id string) string {
		if global(id) {
			return id
		}
		if o, ok := c.unsym[id]; ok {
			return o
		}
		return name(id, newSym)
	}
	r.obj = func(id string) string {
		if global(id) {
			return id
		}
		if o, ok := c.unobj[id]; ok {
			return o
		}
		return name(id, newObj)
	}
	r.val = func(v Val) (Val, bool) {
		if s, ok := v.(VSym); ok {
			if t, ok := c.terms[s.ID]; ok {
				return t, true
			}
		}
		return nil, false
	}
	r.cont = func(x Content) Content {
		if !x.Map || !strings.HasPrefix(x.Base, "$c") {
			return x
		}
		var i int
		fmt.Sscanf(x.Base, "$c%d", &i)
		orig := c.conts[i]
		out := Content{Map: true, M: map[string]Out{}, Base: orig.Base, Empty: x.Empty, Last: x.Last}
		for s, o := range orig.M {
			if o.Err != "" {
				out.M[s] = o
				continue
			}
			n, ok := x.M[o.End]
			if !ok {
				out.M[s] = Out{Err: "lost"}
				continue
			}
			out.M[s] = o.compose(s, n)
		}
		return out
	}
	// Deterministic naming: rename in sorted order of first appearance.
	rs := res.St
	rets := r.vs(res.Rets)
	out := newState()
	hk := make([]string, 0, len(rs.H))
	for k := range rs.H {
		hk = append(hk, k)
	}
	sort.Strings(hk)
	for _, k := range hk {
		out.H[r.obj(k)] = c.objectSorted(r, rs.H[k])
	}
	fk := make([]string, 0, len(rs.F))
	for k := range rs.F {
		fk = append(fk, k)
	}
	sort.Strings(fk)
	for _, k := range fk {
		g := r.fact(rs.F[k])
		if strings.HasPrefix(k, "=") {
			out.F["="+g.A.key()] = g
		} else {
			out.F[factKey(g)] = g
		}
	}
	for k, v := range rs.D {
		out.D[r.sym(k)] = r.obj(v)
	}
	mk := make([]string, 0, len(rs.Mon))
	for k := range rs.Mon {
		mk = append(mk, k)
	}
	sort.Strings(mk)
	for _, k := range mk {
		out.Mon[k] = r.v(rs.Mon[k])
	}
	// The part of the caller's state the callee could not see.
	if c.e.OnReturn != nil && !res.Panic {
		c.e.OnReturn(c.fn, rets, out, c.caller)
	}
	base := st
	frBase := fr
	if site != nil && fr != nil && c.e.inLoop(fr.Fn, site.Block()) {
		base = st.clone()
		_ = frBase
		clash := false
		for _, n := range newSym {
			if stateMentionsSym(base, fr, n) {
				clash = true
			}
		}
		for _, n := range newObj {
			if _, ok := base.H[n]; ok {
				clash = true
			}
		}
		if clash {
			// Older values of the same names are aged in the caller's remaining state.
			res2 := &renamer{sym: func(s string) string {
				for _, n := range newSym {
					if s == n {
						return s + "~"
					}
				}
				return s
			}, obj: func(s string) string {
				for _, n := range newObj {
					if s == n {
						return s + "~"
					}
				}
				return s
			}}
			for k, f := range base.F {
				drop := false
				walkVal(f.A, func(s string) { drop = drop || strings.HasSuffix(s, "~") }, nil)
				if f.B != nil {
					walkVal(f.B, func(s string) { drop = drop || strings.HasSuffix(s, "~") }, nil)
				}
				if drop {
					delete(base.F, k)
				}
			}
			res2.state(base)
			// registers are renamed by the caller through Rename
			return Result{St: c.merge(base, out), Rets: append(rets, VTuple{E: []Val{renameMark{res2}}}), Panic: res.Panic}
		}
	}
	return Result{St: c.merge(base, out), Rets: rets, Panic: res.Panic}
}

// renameMark carries a pending renaming of the caller's registers.
type renameMark struct{ r *renamer }

func (renameMark) key() string { return "rename" }

func stateMentionsSym(st *State, fr *Frame, id string) bool {
	found := false
	chk := func(s string) { found = found || s == id }
	for _, v := range fr.R {
		walkVal(v, chk, nil)
	}
	for _, o := range st.H {
		for _, v := range o.F {
			walkVal(v, chk, nil)
		}
	}
	return found
}

func (c *canon) merge(base, out *State) *State {
	n := out
	for k, o := range base.H {
		if _, seen := c.obj[k]; seen {
			continue
		}
		if _, ok := n.H[k]; ok {
			continue
		}
		if global(k) && c.seesObj(k) {
			continue
		}
		n.H[k] = o
	}
	for k, f := range base.F {
		if _, ok := n.F[k]; ok {
			continue
		}
		visible := true
		known := func(s string) { visible = visible && c.seesSym(s) }
		knownO := func(s string) { visible = visible && c.seesObj(s) }
		walkVal(f.A, known, knownO)
		if f.B != nil {
			walkVal(f.B, known, knownO)
		}
		if visible {
			continue // the callee saw it and has the last word
		}
		n.F[k] = f
	}
	for k, d := range base.D {
		if _, ok := n.D[k]; !ok {
			n.D[k] = d
		}
	}
	return n
}
