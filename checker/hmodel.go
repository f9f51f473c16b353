package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// This file drives the dataflow analysis over a slog handler package: it computes every abstract state a
// handler value can be in (constructor, then any number of WithAttrs/WithGroup), and analyses Enabled and
// Handle from each of them. Rules (H01...) are obligations checked while the analysis runs.

type hState struct {
	Objs  map[string]*Object
	V     Val
	Dyn   types.Type // dynamic type of the handler value
	Label string
	Depth int
}

func (s *hState) key() string {
	var ks []string
	for k := range s.Objs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	b.WriteString(typeKey(s.Dyn) + s.V.key())
	for _, k := range ks {
		b.WriteString("\n" + k + ":" + s.Objs[k].key())
	}
	return b.String()
}

type hModel struct {
	P     *Program
	Path  string
	Ctor  *ssa.Function
	keep  map[string]Val // what a handler under construction should keep
	cfg   []types.Type   // struct types the constructor takes by pointer
	proto *Engine

	States    []*hState
	Viol      map[string][]Violation // per rule
	Counts    map[string]map[string]int
	Sites     map[string]map[string]bool
	Funcs     map[string]bool
	Calls     map[ssa.Instruction]bool
	emits     map[*ssa.Function]bool
	safe      map[ssa.Instruction]bool
	safeFns   map[*ssa.Function]bool
	scans     *scanProver
	unproven  []string // list traversals not understood
	escapers  []*escaper
	Steps     int
	undecided []string
	began     time.Time

	sums  map[string]map[string]*summary // per phase
	phase string
	label string
	eng   *Engine
	dbg   *State // state of the event being judged (debugging aid)
}

func (m *hModel) violate(rule, construct, at, f string, args ...any) {
	key := rule + " :: " + construct
	if dbg := os.Getenv("VSTAT_RULE"); dbg != "" && dbg == rule && m.dbg != nil {
		fmt.Println("DBG", key, m.where(), "\n", m.dbg.key(), "\n FACTS", m.dbg.factsKey())
	}
	prop := rule[:3]
	for _, v := range m.Viol[prop] {
		if v.Key == key {
			return
		}
	}
	m.Viol[prop] = append(m.Viol[prop], Violation{Key: key, Rule: rule, At: at, What: fmt.Sprintf(f, args...) + m.where()})
}

func (m *hModel) where() string { return fmt.Sprintf(" (%s on %s)", m.phase, m.label) }

func (m *hModel) count(prop, name string) {
	if m.Counts[prop] == nil {
		m.Counts[prop] = map[string]int{}
	}
	m.Counts[prop][name]++
}

func (m *hModel) site(prop, s string) {
	if m.Sites[prop] == nil {
		m.Sites[prop] = map[string]bool{}
	}
	m.Sites[prop][s] = true
}

var hModels = map[string]*hModel{}

// handlerModel builds (once) the model of the handler in a repository package.
// hBudget and hTime bound the analysis of one handler; reaching either is reported, never passed over.
const hBudget, hTime = 2_500_000, 330 * time.Second

func handlerModel(p *Program, rel, ctor string) (*hModel, error) {
	if m, ok := hModels[rel]; ok {
		return m, nil
	}
	pkg := p.Pkg(rel)
	if pkg == nil {
		return nil, fmt.Errorf("package %s not found", rel)
	}
	sp := p.SSA.Package(pkg.Types)
	fn := sp.Func(ctor)
	if fn == nil {
		return nil, fmt.Errorf("constructor %s.%s not found", rel, ctor)
	}
	m := &hModel{P: p, Path: pkg.PkgPath, Ctor: fn, Viol: map[string][]Violation{}, Counts: map[string]map[string]int{},
		Sites: map[string]map[string]bool{}, Funcs: map[string]bool{}, Calls: map[ssa.Instruction]bool{}, sums: map[string]map[string]*summary{}}
	m.began = time.Now()
	hModels[rel] = m
	for _, prm := range fn.Params {
		if pt, ok := prm.Type().Underlying().(*types.Pointer); ok {
			if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
				m.cfg = append(m.cfg, pt.Elem())
			}
		}
	}
	m.emits = emitters(p)
	m.safe, m.safeFns = map[ssa.Instruction]bool{}, map[*ssa.Function]bool{}
	mine := map[*ssa.Function]bool{}
	for f := range m.emits {
		if f.Pkg == sp {
			mine[f] = true
		}
	}
	m.escapers = escapers(p, mine)
	m.scans = newScanProver(p)
	m.scans.emits = m.emits
	var cands []*ssa.Function
	for _, f := range p.Funcs {
		if pp := p.FuncPkgPath(f); pp == sp.Pkg.Path() || strings.HasSuffix(pp, "/infra") {
			cands = append(cands, f)
		}
	}
	m.scans.prove(cands)
	m.phase, m.label = "lists", "attributes"
	for _, f := range p.Funcs {
		if !mine[f] || f.Synthetic != "" || f.Blocks == nil {
			continue
		}
		for _, q := range f.Params {
			if !isAttrList(q.Type()) {
				continue
			}
			m.count("H08", "list traversals analysed")
			switch r, why := m.scans.visits(f, q); r {
			case 'n':
				m.violate("H08-list", p.FuncName(f), p.Pos(f.Pos()), "%s does not write every attribute it is given: %s", p.FuncName(f), why)
			case '?':
				m.unproven = append(m.unproven, p.FuncName(f)+": traversal of the attributes not proved ("+why+")")
			}
		}
	}
	for _, es := range m.escapers {
		if !es.ok {
			continue
		}
		for i := range es.slices {
			m.safe[i] = true
		}
		for f := range es.fns {
			m.safeFns[f] = true
		}
	}
	m.proto = NewEngine(p)
	m.proto.ensureGlobals(sp)
	func() {
		defer func() {
			if r := recover(); r != nil {
				m.undecided = append(m.undecided, fmt.Sprint("the analysis failed: ", r))
				m.violate("H04-undecided", "analysis", "-", "the analysis failed: %v\n%s", r, debug.Stack())
			}
		}()
		m.explore()
	}()
	return m, nil
}

// emitters are the functions from which a write of bytes is statically reachable.
func emitters(p *Program) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	callees := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					if mc, ok := ins.(*ssa.MakeClosure); ok {
						callees[fn] = append(callees[fn], mc.Fn.(*ssa.Function))
					}
					continue
				}
				cc := c.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" && isByteSlice(cc.Args[0].Type()) {
					out[fn] = true
				}
				if cc.IsInvoke() && strings.HasPrefix(cc.Method.Name(), "Write") {
					out[fn] = true
				}
				if s := cc.StaticCallee(); s != nil {
					callees[fn] = append(callees[fn], s)
					if s.Pkg == nil || !isRepoPath(s.Pkg.Pkg.Path()) {
						k := fnKey(s)
						if strings.HasPrefix(k, "fmt.Fprint") || strings.HasPrefix(k, "(*bytes.Buffer).Write") || strings.HasPrefix(k, "(*strings.Builder).Write") || strings.Contains(k, ".Append") || k == "io.WriteString" {
							out[fn] = true
						}
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for fn, cs := range callees {
			if out[fn] {
				continue
			}
			for _, c := range cs {
				if out[c] {
					out[fn] = true
					changed = true
				}
			}
		}
	}
	return out
}

// framed: the handler's own memory and the record are visible to a callee only through what it is passed.
func framed(id string) bool {
	for _, p := range []string{"g:R", "g:N", "g:d:", "g:cfg:", "g:opts", "g:record", "g:level", "g:ctx"} {
		if strings.HasPrefix(id, p) && !strings.HasSuffix(id, ".AddSource") && !strings.HasSuffix(id, ".ReplaceAttr") {
			return true
		}
	}
	return false
}

// heap is the initial memory of an analysis that starts in a handler state.
func (s *hState) heap() *State {
	st := newState()
	for k, o := range s.Objs {
		st.H[k] = o
	}
	return st
}

func (m *hModel) newEngine(st *hState) *Engine {
	e := NewEngine(m.P)
	for k, o := range m.proto.Base {
		e.Base[k] = o
	}
	for k, v := range m.proto.globalsOK {
		e.globalsOK[k] = v
	}
	for _, t := range m.cfg {
		e.Base[cfgObj(t)] = m.cfgObject(t)
	}
	e.Frame = framed
	if m.sums[m.phase] == nil {
		m.sums[m.phase] = map[string]*summary{}
	}
	e.sums = m.sums[m.phase]
	e.OnCall = m.onCall
	e.OnEvent = m.onEvent
	e.OnEnter = m.onEnter
	e.OnReturn = m.onReturn
	e.OnExit = m.onExit
	e.OnState = m.onState
	e.Precise = func(fn *ssa.Function) bool { return !m.emits[fn] }
	e.SafeSub, e.SafeFns = m.safe, m.safeFns
	e.MaxSteps = min(400_000, max(hBudget-m.Steps, 1))
	if time.Since(m.began) > hTime {
		e.MaxSteps = 1
	}
	return e
}

func cfgObj(t types.Type) string { return "g:cfg:" + t.(*types.Named).Obj().Name() }

func (m *hModel) isCfg(t types.Type) bool {
	for _, c := range m.cfg {
		if types.Identical(c, t) {
			return true
		}
	}
	return false
}

func (m *hModel) cfgFields(t types.Type, path string, f map[string]Val) {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		fld := s.Field(i)
		f[path+"."+fld.Name()] = VSym{ID: cfgObj(t) + "." + fld.Name(), T: fld.Type()}
	}
}

func (m *hModel) cfgObject(t types.Type) *Object {
	o := &Object{Kind: "struct", T: t, Pre: true, F: map[string]Val{}}
	m.cfgFields(t, "", o.F)
	return o
}

func (m *hModel) finishEngine(e *Engine) {
	if os.Getenv("VSTAT_DEBUG") != "" {
		fmt.Printf("PHASE %s on %s: steps %d, summaries %d rounds %d\n", m.phase, m.label, e.Steps, len(e.sums), 0)
	}
	if debugSteps {
		n, rs := map[string]int{}, map[string]int{}
		for _, s := range e.sums {
			n[m.P.FuncName(s.fn)]++
			rs[m.P.FuncName(s.fn)] += len(s.results)
		}
		for f, c := range n {
			fmt.Printf("   SUMS %5d results %6d %s\n", c, rs[f], f)
		}
	}
	m.Steps += e.Steps
	for f := range e.NFuncs {
		m.Funcs[f] = true
	}
	for c := range e.NCalls {
		m.Calls[c] = true
	}
	for what, pos := range e.Undecided {
		m.undecided = append(m.undecided, what+" at "+pos)
		m.violate("H04-undecided", what, pos, "the analysis could not decide: %s", what)
	}
}

var hProps = []string{"H01", "H02", "H03", "H04", "H05", "H06", "H07", "H08", "H09", "H10", "H11", "H12", "H13", "H14", "H15"}

func writerSym(t types.Type) Val { return VSym{ID: "g:W", Cls: "nonnil", T: t} }

// explore computes the reachable handler states and analyses every entry point from each.
func (m *hModel) explore() {
	seen := map[string]bool{}
	var queue []*hState
	add := func(s *hState) {
		k := s.key()
		if seen[k] {
			return
		}
		seen[k] = true
		m.States = append(m.States, s)
		queue = append(queue, s)
		if len(m.States) > 200 {
			panic("too many handler states")
		}
		if os.Getenv("VSTAT_DEBUG") != "" {
			fmt.Printf("STATE %s\n%s\n\n", s.Label, s.key())
		}
	}
	// constructor
	m.phase, m.label = "construction", m.P.FuncName(m.Ctor)
	e := m.newEngine(nil)
	m.eng = e
	var args []Val
	for _, prm := range m.Ctor.Params {
		if types.IsInterface(prm.Type()) {
			args = append(args, writerSym(prm.Type()))
		} else {
			args = append(args, mkSym("arg:"+prm.Name(), prm.Type()))
		}
	}
	for _, r := range e.Run(m.Ctor, args, newState()) {
		if r.Panic || len(r.Rets) != 1 {
			m.violate("H13-panic", m.P.FuncName(m.Ctor), m.P.Pos(m.Ctor.Pos()), "the constructor can panic")
			continue
		}
		if s := m.normalise(e, r.St, r.Rets[0], m.Ctor.Signature.Results().At(0).Type(), "R", "handler"); s != nil {
			add(s)
		}
	}
	m.finishEngine(e)
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		for _, meth := range []string{"WithAttrs", "WithGroup"} {
			if s.Depth >= 8 {
				panic("handler states do not converge")
			}
			fn := m.method(s, meth)
			if fn == nil {
				m.violate("H13-method", meth, "-", "no method %s on %s", meth, typeKey(s.Dyn))
				continue
			}
			m.phase, m.label = meth, s.Label
			e := m.newEngine(s)
			m.eng = e
			prm := fn.Signature.Params().At(0)
			for _, r := range e.Run(fn, []Val{s.V, mkSym("arg", prm.Type())}, s.heap()) {
				if r.Panic {
					m.violate("H13-panic", m.P.FuncName(fn), m.P.Pos(fn.Pos()), "%s can panic", meth)
					continue
				}
				m.count("H01", "derivations analysed")
				var ret Val
				if len(r.Rets) > 0 {
					ret = r.Rets[0]
				}
				n := m.normalise(e, r.St, ret, nil, "N", s.Label+"."+meth)
				if n != nil {
					n.Depth = s.Depth + 1
					add(n)
				}
			}
			m.finishEngine(e)
		}
	}
	for _, s := range m.States {
		m.runHandle(s)
		m.runEnabled(s, nil)
	}
	m.defaults()
	m.configuration()
}

func (m *hModel) method(s *hState, name string) *ssa.Function {
	return m.P.SSA.LookupMethod(s.Dyn, nil, name)
}

// normalise turns a handler value into a state: everything it reaches existed before the next call.
func (m *hModel) normalise(e *Engine, st *State, v Val, static types.Type, tag, label string) *hState {
	var dyn types.Type
	switch x := v.(type) {
	case VIface:
		dyn, v = x.Dyn, x.V
	default:
		dyn = static
	}
	if dyn == nil {
		m.violate("H03-result", label, "-", "the value returned cannot be identified: %s", v.key())
		return nil
	}
	s := &hState{Objs: map[string]*Object{}, Dyn: dyn, Label: label}
	names := map[string]string{}
	var leaf func(v Val, t types.Type, path string) Val
	var visit func(id string) string
	var walk func(o, n *Object, path string, t types.Type, hint string)
	n := 0
	visit = func(id string) string {
		if nn, ok := names[id]; ok {
			return nn
		}
		o := e.obj(st, id)
		if strings.HasPrefix(id, "g:") && !strings.HasPrefix(id, "g:R") && !strings.HasPrefix(id, "g:N") {
			return id // a package variable or configuration
		}
		nn := id
		if !strings.HasPrefix(id, "g:R") {
			nn = fmt.Sprintf("g:%s%d", tag, n)
			n++
		}
		names[id] = nn
		if o == nil {
			o = &Object{Kind: "pre", F: map[string]Val{}}
		}
		if o.Pooled {
			m.violate("H11-retained", label, "-", "a handler keeps memory that came from a pool")
		}
		c := &Object{Kind: o.Kind, T: o.T, Pre: true, F: map[string]Val{}}
		s.Objs[nn] = c
		if o.Kind == "struct" || o.Kind == "pre" && o.T != nil {
			if o.T != nil && isBufferType(o.T) {
				c.F["#buf"] = leaf(e.bufContent(st, VPtr{Obj: id}), nil, nn)
			} else if o.T != nil {
				walk(o, c, "", o.T, nn)
			}
		}
		return nn
	}
	leaf = func(v Val, t types.Type, hint string) Val {
		switch x := v.(type) {
		case VPtr:
			o := e.obj(st, x.Obj)
			if o != nil && o.T != nil && m.isCfg(o.T) && x.Path == "" {
				m.keptConfig(e, st, x.Obj, o, "", o.T)
				return VPtr{Obj: cfgObj(o.T)}
			}
			return VPtr{Obj: visit(x.Obj), Path: x.Path}
		case VIface:
			return VIface{Dyn: x.Dyn, V: leaf(x.V, x.Dyn, hint)}
		case VSeq:
			x.C = m.widen(x.C.promote())
			if x.Arr != "" {
				x.Arr = visit(x.Arr)
			}
			return x
		case VSlice:
			if x.N > 0 {
				x.N = -1
			}
			x.Arr = visit(x.Arr)
			if o := s.Objs[x.Arr]; o != nil {
				o.F = map[string]Val{"unk": constBool(true)}
			}
			return x
		case VMap:
			id := visit(x.Obj)
			if o := s.Objs[id]; o != nil {
				o.F = map[string]Val{"unk": constBool(true)}
			}
			return VMap{Obj: id}
		case VFunc:
			var b []Val
			for _, y := range x.Bind {
				b = append(b, leaf(y, nil, hint))
			}
			return VFunc{Fn: x.Fn, Bind: b}
		case VConst:
			if i, ok := asInt(x); ok && (i > 2 || i < -2) {
				return VSym{ID: "g:v:" + hint, T: x.T}
			}
			return x
		case VNil:
			return x
		case VSym:
			if strings.HasPrefix(x.ID, "g:") && !strings.HasPrefix(x.ID, "g:v:") {
				return x
			}
			if x.T != nil {
				if pt, ok := x.T.Underlying().(*types.Pointer); ok && m.isCfg(pt.Elem()) {
					return VPtr{Obj: cfgObj(pt.Elem())}
				}
			}
			return VSym{ID: "g:v:" + hint, Cls: x.Cls, T: x.T}
		case VTerm:
			return VSym{ID: "g:v:" + hint, T: x.T}
		}
		return VSym{ID: "g:v:" + hint, T: t}
	}
	walk = func(o, c *Object, path string, t types.Type, hint string) {
		if m.isCfg(t) {
			m.keptConfig(e, st, "", o, path, t)
			m.cfgFields(t, path, c.F)
			return
		}
		su, ok := t.Underlying().(*types.Struct)
		if !ok || !expandStruct(t) {
			return
		}
		for i := 0; i < su.NumFields(); i++ {
			f := su.Field(i)
			fp := path + "." + f.Name()
			if isBufferType(f.Type()) {
				c.F[fp+"#buf"] = leaf(e.bufContentObj(o, fp), nil, hint+fp)
				continue
			}
			if expandStruct(f.Type()) {
				walk(o, c, fp, f.Type(), hint)
				continue
			}
			v, ok := o.F[fp]
			if !ok {
				v = zeroVal(f.Type())
				if o.Pre {
					v = VSym{ID: "g:v:" + hint + fp, T: f.Type()}
				}
			}
			v = st.resolve(v)
			if typeKey(f.Type()) == "log/slog.Handler" {
				if !m.ownHandler(v) {
					m.violate("H03-parent", m.P.FuncName(m.Ctor)+fp, "-", "a handler refers to another handler that is not one of its own kind: %s", v.key())
				}
				c.F[fp] = VSym{ID: "g:parent", Cls: "nonnil", T: f.Type()}
				continue
			}
			c.F[fp] = leaf(v, f.Type(), hint+fp)
		}
	}
	s.V = leaf(v, dyn, "v")
	if sv, ok := v.(VStruct); ok {
		s.V = sv
	}
	if os := s.describe(); os != "" {
		s.Label += os
	}
	return s
}

// keptConfig checks that the configuration a handler keeps is the one it was built with.
func (m *hModel) keptConfig(e *Engine, st *State, id string, o *Object, path string, t types.Type) {
	if id == cfgObj(t) {
		m.count("H15", "configurations kept")
		return
	}
	su := t.Underlying().(*types.Struct)
	for i := 0; i < su.NumFields(); i++ {
		f := su.Field(i)
		v, ok := o.F[path+"."+f.Name()]
		if !ok {
			if o.Pre {
				continue
			}
			v = zeroVal(f.Type())
		}
		v = st.resolve(v)
		name := t.(*types.Named).Obj().Name() + "." + f.Name()
		var want Val
		if m.phase == "construction" {
			if want = m.keep[name]; want == nil {
				continue
			}
		} else {
			want = VSym{ID: cfgObj(t) + "." + f.Name(), T: f.Type()}
		}
		rule := "H15-config"
		switch f.Name() {
		case "Level":
			rule = "H06-config"
		case "ReplaceAttr":
			rule = "H09-config"
		case "AddSource":
			rule = "H14-config"
		}
		m.count(rule[:3], "configuration fields kept")
		same := v.key() == want.key()
		if !same {
			vn, vk := isNilVal(v)
			wn, wk := isNilVal(want)
			switch {
			case vk && vn || wk && wn:
				same = vk && vn && wk && wn
			default:
				_, vs := v.(VStruct)
				_, vi := v.(VIface)
				same = !vs && !vi && e.cmpBits(st, v, st.resolve(want)) == 2
			}
		}
		if !same {
			what := "the one it was given"
			if strings.HasPrefix(m.label, "built ") {
				what = "the one it should have"
			}
			for _, rule := range []string{rule, "H15-config"} { // the same key is reported once
				m.violate(rule, name, m.P.Pos(f.Pos()), "a handler does not keep its configuration: %s is not %s (%s)", name, what, m.phase)
			}
		}
	}
}

// configuration analyses the constructor for every field of the configuration, set or not.
func (m *hModel) configuration() {
	type fld struct {
		t types.Type
		v *types.Var
	}
	var flds []fld
	for _, t := range m.cfg {
		su := t.Underlying().(*types.Struct)
		for i := 0; i < su.NumFields(); i++ {
			flds = append(flds, fld{t, su.Field(i)})
		}
	}
	def := func(f fld) Val {
		switch n := f.v.Name(); {
		case n == "Level":
			return VIface{Dyn: m.proto.slogType("Level"), V: kindVal(0, m.proto.slogType("Level"))}
		case isStringType(f.v.Type()):
			for _, pn := range []struct{ path, name string }{{m.Path, "Default" + n}, {"log/slog", n}} {
				for _, pkg := range m.P.SSA.AllPackages() {
					if pkg.Pkg.Path() != pn.path {
						continue
					}
					if c, ok := pkg.Pkg.Scope().Lookup(pn.name).(*types.Const); ok {
						return VConst{C: c.Val(), T: f.v.Type()}
					}
				}
			}
			return nil
		}
		return zeroVal(f.v.Type())
	}
	run := func(label string, isNil bool, set func(fld) bool) {
		m.phase, m.label = "construction", label
		m.keep = map[string]Val{}
		e := m.newEngine(nil)
		m.eng = e
		st := newState()
		var args []Val
		for _, prm := range m.Ctor.Params {
			if types.IsInterface(prm.Type()) {
				args = append(args, writerSym(prm.Type()))
				continue
			}
			if isNil {
				args = append(args, VNil{})
				continue
			}
			t := derefType(prm.Type())
			o := m.cfgObject(t)
			id := "g:opts:" + typeKey(t)
			st.H[id] = o
			args = append(args, VPtr{Obj: id})
			for _, f := range flds {
				if !types.Identical(f.t, t) {
					continue
				}
				p := "." + f.v.Name()
				if !set(f) {
					o.F[p] = zeroVal(f.v.Type())
					continue
				}
				sym := VSym{ID: cfgObj(t) + p, T: f.v.Type()}
				switch u := f.v.Type().Underlying().(type) {
				case *types.Interface, *types.Signature, *types.Map:
					sym.Cls = "nonnil"
				case *types.Basic:
					if u.Info()&types.IsString != 0 {
						e.assume(st, e.length(st, sym), constInt(0), 5)
					}
				}
				o.F[p] = sym
			}
		}
		for _, f := range flds {
			if _, ok := f.v.Type().Underlying().(*types.Map); ok {
				continue
			}
			want := def(f)
			if !isNil && set(f) {
				want = VSym{ID: cfgObj(f.t) + "." + f.v.Name(), T: f.v.Type()}
				switch f.v.Type().Underlying().(type) {
				case *types.Interface, *types.Signature:
					want = VSym{ID: cfgObj(f.t) + "." + f.v.Name(), T: f.v.Type(), Cls: "nonnil"}
				}
			}
			if want != nil {
				m.keep[f.t.(*types.Named).Obj().Name()+"."+f.v.Name()] = want
			}
		}
		for _, r := range e.Run(m.Ctor, args, st) {
			if r.Panic || len(r.Rets) != 1 {
				continue
			}
			m.normalise(e, r.St, r.Rets[0], m.Ctor.Signature.Results().At(0).Type(), "R", label)
		}
		m.keep = nil
		m.finishEngine(e)
	}
	run("built without configuration", true, nil)
	run("built with an empty configuration", false, func(fld) bool { return false })
	run("built with everything configured", false, func(fld) bool { return true })
	for _, f := range flds {
		run("built with only "+f.v.Name(), false, func(g fld) bool { return g == f })
		run("built with everything but "+f.v.Name(), false, func(g fld) bool { return g != f })
	}
}

func (s *hState) describe() string { return "" }

func (m *hModel) ownHandler(v Val) bool {
	switch x := v.(type) {
	case VIface:
		if n, ok := derefType(x.Dyn).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == m.Path {
			return true
		}
	case VSym:
		return x.ID == "g:parent"
	case VNil:
		return true
	}
	return false
}

func (e *Engine) bufContentObj(o *Object, path string) VSeq {
	if v, ok := o.F[path+"#buf"].(VSeq); ok {
		return v
	}
	return VSeq{C: emptyBuffer()}
}

// widen abstracts any number of open groups to N.
func (m *hModel) widen(c Content) Content {
	if !c.Map {
		return c
	}
	out := Content{Map: true, M: map[string]Out{}, Empty: c.Empty, Last: c.Last}
	for k, o := range c.M {
		if o.Err == "" {
			o.Push = widenRun(o.Push, '{')
			o.Pop = widenRun(o.Pop, '}')
		}
		out.M[k] = o
	}
	return out
}

// widenRun turns a run of braces and Ns into one N, provided there is nothing else in it.
func widenRun(s string, b byte) string {
	if s == "" || strings.Trim(s, "N"+string(b)) != "" {
		return s
	}
	// At most one new group per derivation: anything else stays visible as a mismatch.
	if strings.Count(s, string(b)) > 1 || strings.Count(s, "N") > 1 {
		return s
	}
	return "N"
}

// ---------------------------------------------------------------------------
// Entry points.

func (m *hModel) recordSym() Val {
	return VSym{ID: "g:record", T: m.proto.slogType("Record")}
}

func (m *hModel) runHandle(s *hState) {
	fn := m.method(s, "Handle")
	if fn == nil {
		m.violate("H13-method", "Handle", "-", "no Handle on %s", typeKey(s.Dyn))
		return
	}
	m.phase, m.label = "Handle", s.Label
	e := m.newEngine(s)
	m.eng = e
	ctx := VSym{ID: "g:ctx", Cls: "nonnil", T: fn.Signature.Params().At(0).Type()}
	results := e.Run(fn, []Val{s.V, ctx, m.recordSym()}, s.heap())
	name := m.P.FuncName(fn)
	at := m.P.Pos(fn.Pos())
	ok := 0
	for _, r := range results {
		if r.Panic {
			m.violate("H13-panic", name, at, "Handle can panic")
			continue
		}
		m.count("H03", "Handle outcomes")
		m.count("H10", "Handle outcomes")
		writes, _ := asInt(monOr(r.St, "writes", constInt(0)))
		dels, _ := asInt(monOr(r.St, "delegated", constInt(0)))
		failed := r.St.Mon["failed"] != nil
		var ret Val = VNil{}
		if len(r.Rets) == 1 {
			ret = r.Rets[0]
		}
		nilBits := m.nilness(e, r.St, ret)
		if nilBits&2 != 0 { // may return nil
			if writes+dels == 1 {
				ok++
			}
			if writes+dels == 0 {
				m.violate("H03-lost", name, at, "Handle can report success without having written the record")
			}
			if failed && dels == 0 {
				m.violate("H10-swallowed", name+" "+monStr(r.St, "failed"), at, "Handle can report success although %s failed", monStr(r.St, "failed"))
			}
		}
		if writes+dels > 1 {
			m.violate("H03-twice", name, at, "Handle can write more than once for one record")
		}
		if nilBits == 1 && writes > 0 && !failed {
			m.violate("H03-error-after-write", name, at, "Handle can report an error after the record was written successfully")
		}
		m.unsettled(r.St)
		if l := lockSet(r.St); len(l.E) > 0 {
			m.violate("H03-lock-held", name, at, "Handle can return with a lock held")
		}
	}
	if ok == 0 {
		m.violate("H03-nothing", name, at, "no path of Handle writes exactly one record and reports success")
	}
	m.finishEngine(e)
}

func monOr(st *State, k string, d Val) Val {
	if v, ok := st.Mon[k]; ok {
		return v
	}
	return d
}

func monStr(st *State, k string) string {
	s, _ := asStr(monOr(st, k, constStr("")))
	return s
}

// nilness: 2 may be nil, 1 may be non-nil.
func (m *hModel) nilness(e *Engine, st *State, v Val) int {
	v = st.resolve(v)
	if n, known := isNilVal(v); known {
		if n {
			return 2
		}
		return 1
	}
	res := 0
	b := e.cmpBits(st, v, VNil{})
	if b&2 != 0 {
		res |= 2
	}
	if b&5 != 0 {
		res |= 1
	}
	return res
}

func (m *hModel) runEnabled(s *hState, min Val) {
	fn := m.method(s, "Enabled")
	if fn == nil {
		m.violate("H06-method", "Enabled", "-", "no Enabled on %s", typeKey(s.Dyn))
		return
	}
	m.phase, m.label = "Enabled", s.Label
	e := m.newEngine(s)
	m.eng = e
	ctx := VSym{ID: "g:ctx", T: fn.Signature.Params().At(0).Type()}
	lvl := VSym{ID: "g:level", T: fn.Signature.Params().At(1).Type()}
	name, at := m.P.FuncName(fn), m.P.Pos(fn.Pos())
	want := min
	if want == nil {
		want = VSym{ID: "g:min", T: lvl.T}
	}
	covered := 0
	for _, r := range e.Run(fn, []Val{s.V, ctx, lvl}, s.heap()) {
		if r.Panic {
			m.violate("H06-panic", name, at, "Enabled can panic")
			continue
		}
		m.count("H06", "Enabled outcomes")
		for _, bit := range []int{1, 2, 4} {
			st := r.St.clone()
			if !e.assume(st, lvl, want, bit) {
				continue
			}
			covered |= bit
			t := 3
			if len(r.Rets) == 1 {
				t = e.truth(st, st.resolve(r.Rets[0]))
			}
			should := 2
			if bit == 1 {
				should = 1
			}
			if t != should {
				m.violate("H06-threshold", name, at, "for a level %s the configured minimum, Enabled %s", map[int]string{1: "below", 2: "equal to", 4: "above"}[bit], map[int]string{1: "returns false", 2: "returns true", 3: "is not decided by the comparison with the configured minimum"}[t])
			}
		}
	}
	if covered != 7 {
		m.violate("H06-cover", name, at, "Enabled does not answer for every level")
	}
	m.finishEngine(e)
}

// defaults checks the level of a handler built without options.
func (m *hModel) defaults() {
	lt := m.proto.slogType("Level")
	for _, variant := range []string{"nil options", "options without a level"} {
		m.phase, m.label = "construction", variant
		e := m.newEngine(nil)
		saved := m.cfg
		st := newState()
		var args []Val
		for _, prm := range m.Ctor.Params {
			switch {
			case types.IsInterface(prm.Type()):
				args = append(args, writerSym(prm.Type()))
			case variant != "nil options" && typeKey(derefType(prm.Type())) == "log/slog.HandlerOptions":
				o := m.cfgObject(derefType(prm.Type()))
				o.F[".Level"] = VNil{}
				st.H["g:opts"] = o
				args = append(args, VPtr{Obj: "g:opts"})
			default:
				args = append(args, VNil{})
			}
		}
		res := e.Run(m.Ctor, args, st)
		for _, r := range res {
			if r.Panic || len(r.Rets) != 1 {
				continue
			}
			m.cfg = nil // keep the options as constructed
			s := m.normaliseKeep(e, r.St, r.Rets[0])
			m.cfg = saved
			if s == nil {
				continue
			}
			s.Label = "handler built with " + variant
			m.runEnabled(s, kindVal(0, lt))
		}
		m.cfg = saved
		if len(res) == 0 {
			m.violate("H06-default", variant, "-", "no handler is constructed with %s", variant)
		}
	}
}

func (m *hModel) normaliseKeep(e *Engine, st *State, v Val) *hState {
	dyn := m.Ctor.Signature.Results().At(0).Type()
	if i, ok := v.(VIface); ok {
		dyn, v = i.Dyn, i.V
	}
	s := &hState{Objs: map[string]*Object{}, V: v, Dyn: dyn}
	ren := &renamer{sym: func(x string) string {
		if global(x) {
			return x
		}
		return "g:d:" + x
	}, obj: func(x string) string {
		if global(x) {
			return x
		}
		return "g:d:" + x
	}}
	for id, o := range st.H {
		n := ren.object(o)
		s.Objs[ren.obj(id)] = n
	}
	s.V = ren.v(v)
	return s
}

// ---------------------------------------------------------------------------
// Monitors.

func isAttrType(t types.Type) bool { return typeKey(t) == "log/slog.Attr" }

func (m *hModel) isHandleable(c *Call) bool { return true }

func (m *hModel) onCall(c *Call) ([]Outcome, bool) {
	e, st := c.E, c.St
	at := m.P.Pos(c.Site.Pos())
	where := m.P.FuncName(c.Fr.Fn)
	// --- interface calls on what the handler was given
	if c.Method != nil && c.Callee == nil {
		recv, _ := c.Recv.(VSym)
		name := c.Method.Name()
		switch {
		case recv.ID == "g:W" && name == "Write":
			return m.onWrite(c, where, at), true
		case recv.ID == "g:parent" && name == "Handle":
			n, _ := asInt(monOr(st, "delegated", constInt(0)))
			st.Mon["delegated"] = constInt(min64(n+1, 2))
			m.count("H03", "delegations analysed")
			m.site("H03", where+": delegates to the handler it was derived from")
			if len(c.Args) > 1 && c.Args[1].key() != m.recordSym().key() {
				m.violate("H03-delegate", where, at, "the record handed to the enclosing handler is not the record received")
			}
			if len(lockSet(st).E) > 0 {
				m.violate("H03-delegate-locked", where, at, "the enclosing handler is called with a lock held, which it also takes")
			}
			return one(st, VSym{ID: "g:delegerr", T: c.Sig.Results().At(0).Type()}), true
		case recv.ID == "g:parent" && name == "Enabled":
			return one(st, e.freshSym(st, c.Fr, c.Site, c.Sig.Results().At(0).Type(), "")), true
		case recv.ID == "g:parent" && (name == "WithAttrs" || name == "WithGroup"):
			return one(st, recv), true
		case name == "Level" && strings.HasPrefix(recv.ID, "g:cfg:"):
			m.site("H06", where+": reads the configured minimum level")
			return one(st, VSym{ID: "g:min", T: c.Sig.Results().At(0).Type()}), true
		case recv.ID == "g:ctx":
			m.site("H13", where+": consults the context ("+name+")")
			if !ownKey(c) {
				m.violate("H13-context", where, at, "the context is consulted (%s) with something a caller can set, so that it can change the outcome", name)
			}
			return one(st, e.freshSym(st, c.Fr, c.Site, c.Sig.Results().At(0).Type(), "")), true
		}
	}
	// --- the replacement function
	if c.Callee == nil && c.FnVal != nil && c.Sig.Params().Len() == 2 && c.Sig.Results().Len() == 1 && isAttrType(c.Sig.Results().At(0).Type()) && isAttrType(c.Sig.Params().At(1).Type()) {
		m.count("H09", "replacement calls analysed")
		m.site("H09", where+": calls the replacement function")
		if as, ok := c.Args[1].(VStruct); ok && len(as.F) == 2 {
			v := as.F[1]
			kd := e.kindOf(st, v)
			if e.cmpBits(st, kd, kindVal(9, e.slogType("Kind")))&2 != 0 {
				m.violate("H09-unresolved", where, at, "the replacement function can be given a value that was not resolved")
			}
			st.Mon["oldval"] = v
			st.Mon["oldkey"] = as.F[0]
			if e.cmpBits(st, kd, kindVal(8, e.slogType("Kind")))&2 != 0 {
				m.violate("H09-group", where, at, "the replacement function can be given a group")
			}
			if k := v.key(); strings.HasPrefix(k, "val:Time(") && strings.Contains(k, "field:Time(s:g:record/)") {
				z := VTerm{Op: "call:(time.Time).IsZero", Args: []Val{VTerm{Op: "field:Time", Args: []Val{m.recordSym()}}}, T: types.Typ[types.Bool]}
				if e.truth(st, z)&2 != 0 {
					m.violate("H14-zero-time", where, at, "the time of a record can be written although it is the zero time")
				}
			}
			m.noteUse(st, v)
		}
		at := c.Sig.Results().At(0).Type()
		r := e.freshSym(st, c.Fr, c.Site, at, ".repl")
		if old, ok := st.Mon["attr"].(VStruct); ok && len(c.Args) > 1 && c.Args[1].key() != old.key() {
			m.violate("H09-other", where, m.P.Pos(c.Site.Pos()), "the replacement function is given something other than the attribute about to be written")
		}
		st.Mon["attr"] = r
		st.Mon["replaced"] = constBool(true)
		return one(st, r), true
	}
	if c.Callee != nil {
		for _, a := range c.Args {
			m.noteUse(st, a)
		}
		k := fnKey(c.Callee)
		switch k {
		case "runtime.CallersFrames":
			m.onSource(c, where, at)
		case "(time.Time).Format", "(time.Time).AppendFormat":
			if strings.Contains(c.Args[0].key(), "field:Time(s:g:record/)") {
				z := VTerm{Op: "call:(time.Time).IsZero", Args: []Val{c.Args[0]}, T: types.Typ[types.Bool]}
				if e.truth(st, z)&2 != 0 {
					m.violate("H14-zero-time", where, at, "the time of a record can be written although it is the zero time")
				}
			}
			// A layout chosen by the user is assumed to produce no character that needs escaping.
			i := 1
			if k == "(time.Time).AppendFormat" {
				i = 2
			}
			if key := c.Args[0].key(); strings.Contains(key, "field:Time(s:g:record/)") {
				if last := st.Mon["lastkey"]; last != nil {
					m.onBuiltin(last, key, where, at)
					delete(st.Mon, "lastkey")
				}
			}
			if f := m.cfgVal(e, "TimeFormat"); f != nil && m.phase == "Handle" {
				m.count("H15", "times analysed")
				if c.Args[i].key() != f.key() && e.cmpBits(st, c.Args[i], f) != 2 {
					m.violate("H15-time", where, at, "a time is written in another format than the configured one")
				}
			}
			if _, isConst := st.resolve(c.Args[i]).(VConst); !isConst && strings.Contains(c.Args[i].key(), "g:cfg:") {
				ch := Content{Chunks: []Chunk{{Cls: "safe", S: "time in the configured layout"}}}
				if i == 2 {
					base, _ := e.toSeq(st, c.Args[1])
					return one(st, e.seqAppend(st, c.Fr, c.Site, base, ch)), true
				}
				return one(st, VSeq{Str: true, C: ch}), true
			}
		case "(log/slog.Value).Resolve":
			if a, ok := st.Mon["attr"].(VStruct); ok && len(a.F) == 2 && a.F[1].key() == c.Args[0].key() {
				st.Mon["attr"] = VStruct{T: a.T, F: []Val{a.F[0], e.resolved(st, c.Args[0])}}
			}
		case "(log/slog.Record).Attrs":
			st.Mon["stopped"] = constBool(false)
			m.count("H08", "record traversals analysed")
		}
	}
	return nil, false
}

// ownKey: a context value under a key of an unexported type can only come from the package itself.
func ownKey(c *Call) bool {
	if c.Method.Name() != "Value" || len(c.Args) == 0 {
		return false
	}
	i, ok := c.St.resolve(c.Args[0]).(VIface)
	if !ok {
		return false
	}
	n, ok := i.Dyn.(*types.Named)
	return ok && !n.Obj().Exported() && n.Obj().Pkg() == c.Fr.Fn.Pkg.Pkg
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// noteUse remembers that a built-in part of the record flowed onward.
func (m *hModel) noteUse(st *State, v Val) {
	if m.phase != "Handle" {
		return
	}
	k := v.key()
	for _, f := range []string{"Message", "Level", "Time", "PC"} {
		if st.Mon["use:"+f] == nil && strings.Contains(k, "field:"+f+"(s:g:record/)") {
			st.Mon["use:"+f] = constBool(true)
		}
	}
}

func (m *hModel) cfgVal(e *Engine, field string) Val {
	for _, t := range m.cfg {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == field {
				return VSym{ID: cfgObj(t) + "." + field, T: s.Field(i).Type()}
			}
		}
	}
	return nil
}

func (m *hModel) onSource(c *Call, where, at string) {
	e, st := c.E, c.St
	add := m.cfgVal(e, "AddSource")
	if add != nil && e.truth(st, add)&1 != 0 {
		m.violate("H14-source-unwanted", where, at, "the source location can be computed although it was not asked for")
	}
	pc := VTerm{Op: "field:PC", Args: []Val{m.recordSym()}, T: types.Typ[types.Uintptr]}
	if e.cmpBits(st, st.resolve(pc), constInt(0))&2 != 0 {
		m.violate("H14-source-unknown", where, at, "the source location can be computed from a record that has none")
	}
	m.count("H14", "source computations analysed")
	st.Mon["use:src"] = constBool(true)
}

func (m *hModel) onWrite(c *Call, where, at string) []Outcome {
	e, st := c.E, c.St
	m.count("H03", "writes analysed")
	m.count("H04", "writes analysed")
	m.count("H05", "writes analysed")
	m.site("H03", where+": writes to the configured writer")
	n, _ := asInt(monOr(st, "writes", constInt(0)))
	st.Mon["writes"] = constInt(min64(n+1, 2))
	if m.phase != "Handle" {
		m.violate("H03-early", where, at, "something is written while a handler is derived")
	}
	// lock
	held := false
	for _, l := range lockSet(st).E {
		if p, ok := l.(VPtr); ok && (strings.HasPrefix(p.Obj, "g:R") || strings.HasPrefix(p.Obj, "g:") && !strings.HasPrefix(p.Obj, "g:N")) {
			held = true
		}
	}
	if !held {
		m.violate("H03-unlocked", where, at, "the writer can be used without holding a lock that all handlers derived from the same one share")
	}
	// content
	seq, ok := e.toSeq(st, c.Args[0])
	if ok && m.putObject(st, seq.Arr) {
		m.violate("H11-write-after-put", where, at, "the bytes written belong to memory already returned to a pool")
	}
	if ok {
		o, has := seq.C.promote().M["B"]
		switch {
		case !has:
			m.violate("H04-content", where, at, "what is written is not known")
		case o.Err != "":
			if os.Getenv("VSTAT_H04") != "" {
				fmt.Println("H04 STATE", o.Err, seq.C.key(), "\n", st.key(), st.factsKey(), m.where())
			}
			_, fn, _ := strings.Cut(o.Err, " [in ")
			m.violate("H04-json", strings.TrimSuffix(fn, "]")+": "+strings.Split(o.Err, " [in ")[0], at, "the line written is not valid JSON: %s", o.Err)
		case o.End != "N" || o.Push != "" || o.Pop != "":
			open := ""
			if o.Push != "" || o.Pop != "" {
				open = " with unbalanced braces"
			}
			m.violate("H04-line", where, at, "what is written ends after %s%s, not at the end of a line", stateName(o.End), open)
		}
		if has && o.Err == "" && o.Raw != "" {
			_, fn, _ := strings.Cut(o.Raw, "@")
			m.violate("H05-raw", fn, at, "text of unknown characters reaches a JSON string without passing an escaper, in %s", fn)
		}
	} else {
		m.violate("H04-content", where, at, "what is written is not known")
	}
	// completeness of the built-in fields: what this function cannot know is left to its callers
	if m.phase == "Handle" {
		m.count("H14", "writes analysed")
		for _, n := range hNeeds {
			st.Mon["need:"+n] = constStr(at)
		}
		m.settle(e, st, st)
	}
	nt := VTerm{Op: "written", T: types.Typ[types.Int]}
	bad := st.clone()
	bad.Mon["failed"] = constStr("the write")
	er := VSym{ID: e.siteID(c.Site) + ".err", Cls: "nonnil", T: types.Universe.Lookup("error").Type()}
	return []Outcome{{St: st, V: VTuple{E: []Val{nt, VNil{}}}}, {St: bad, V: VTuple{E: []Val{nt, er}}}}
}

// hNeeds are the obligations of a write that may be fulfilled in the writing function or in a caller before the call.
var hNeeds = []string{"Message", "Level", "Time", "Source", "Attrs"}

// settle removes the obligations in st that are fulfilled according to before, a state before the write.
func (m *hModel) settle(e *Engine, st, before *State) {
	need := func(n string) (string, bool) {
		v, ok := st.Mon["need:"+n]
		s, _ := asStr(v)
		return s, ok
	}
	for _, f := range []string{"Message", "Level"} {
		if before.Mon["use:"+f] != nil {
			delete(st.Mon, "need:"+f)
		}
	}
	if _, ok := need("Time"); ok {
		rt := VTerm{Op: "field:Time", Args: []Val{m.recordSym()}, T: nil}
		z := VTerm{Op: "call:(time.Time).IsZero", Args: []Val{rt}, T: types.Typ[types.Bool]}
		if before.Mon["time"] != nil || before.Mon["use:Time"] != nil || e.truth(before, z)&1 == 0 {
			delete(st.Mon, "need:Time")
		}
	}
	if _, ok := need("Source"); ok {
		add := m.cfgVal(e, "AddSource")
		pc := VTerm{Op: "field:PC", Args: []Val{m.recordSym()}, T: types.Typ[types.Uintptr]}
		switch {
		case before.Mon["use:src"] != nil:
			delete(st.Mon, "need:Source")
		case add == nil || e.truth(before, add)&2 == 0 || e.cmpBits(before, before.resolve(pc), constInt(0)) == 2:
			delete(st.Mon, "need:Source")
		}
	}
	if at, ok := need("Attrs"); ok && before.Mon["stopped"] != nil {
		if b, _ := asBool(before.Mon["stopped"]); b {
			m.violate("H08-stopped", m.where(), at, "a line can be written after the traversal of the record's attributes was cut short")
		}
		delete(st.Mon, "need:Attrs")
	}
}

// onState remembers that no source location is due, before joins forget why.
func (m *hModel) onState(st *State) {
	if m.phase != "Handle" || st.Mon["use:src"] != nil || m.eng == nil {
		return
	}
	if add := m.cfgVal(m.eng, "AddSource"); add == nil || m.eng.truth(st, add)&2 == 0 {
		st.Mon["use:src"] = constBool(true)
	} else if pc := (VTerm{Op: "field:PC", Args: []Val{m.recordSym()}, T: types.Typ[types.Uintptr]}); m.eng.cmpBits(st, st.resolve(pc), constInt(0)) == 2 {
		st.Mon["use:src"] = constBool(true)
	}
}

// unsettled reports the obligations left when Handle returns.
func (m *hModel) unsettled(st *State) {
	for _, n := range hNeeds {
		v, ok := st.Mon["need:"+n]
		if !ok {
			continue
		}
		at, _ := asStr(v)
		switch n {
		case "Attrs":
			m.violate("H08-untraversed", m.label, at, "a line can be written without looking at the record's attributes")
		case "Source":
			m.violate("H14-missing", "Source", at, "a line can be written without the source location although it was asked for")
		default:
			m.violate("H14-missing", n, at, "a line can be written that does not contain the %s of the record", strings.ToLower(n))
		}
	}
}

func (m *hModel) putObject(st *State, id string) bool {
	t, ok := st.Mon["put"].(VTuple)
	if !ok || id == "" {
		return false
	}
	for _, v := range t.E {
		if p, ok := v.(VPtr); ok && p.Obj == id {
			return true
		}
	}
	return false
}

func (m *hModel) onEvent(e *Engine, kind string, st *State, fr *Frame, at ssa.Instruction, data ...any) {
	where, pos := "?", "-"
	if fr != nil {
		where = m.P.FuncName(fr.Fn)
	}
	if at != nil {
		pos = m.P.Pos(at.Pos())
	}
	prop := "H02"
	switch m.phase {
	case "WithAttrs", "WithGroup":
		prop = "H01"
	case "construction":
		prop = "H12"
	}
	switch kind {
	case "store":
		p := data[0].(VPtr)
		o := data[1].(*Object)
		if m.putObject(st, p.Obj) {
			m.violate("H11-store-after-put", where, pos, "memory already returned to a pool is written")
		}
		if o != nil && (o.Own || o.Pooled || !o.Pre) {
			return
		}
		m.preWrite(prop, "store", st, where, pos, p.Obj, p.Path)
	case "append-write", "array-write":
		id := data[0].(string)
		o, _ := data[1].(*Object)
		if m.putObject(st, id) {
			m.violate("H11-store-after-put", where, pos, "memory already returned to a pool is written")
		}
		m.count("H01", "appends and copies analysed")
		m.count("H02", "appends and copies analysed")
		if o != nil && (o.Own || !o.Pre || o.Pooled) {
			return
		}
		if o == nil && id == "" {
			return
		}
		m.preWrite(prop, kind, st, where, pos, id, "")
	case "accessor":
		m.onAccessor(e, st, where, pos, data[0].(string), data[1].(Val), data[2].(Val))
	case "key-open":
		m.onKeyOpen(e, st, where, pos)
		if c, ok := data[0].(Content); ok && !c.Map && len(c.Chunks) == 1 && strings.HasPrefix(c.Chunks[0].S, "js:") {
			delete(st.Mon, "keypend")
			m.onKeyText(st, c.Chunks[0].S[3:], where, pos)
		}
	case "stale-read":
		m.violate("H11-stale", where+" "+data[1].(string), pos, "a field of an object taken from a pool is read before it is set")
	case "pool-get":
		m.count("H11", "pool takes analysed")
		m.site("H11", where+": takes from a pool")
	case "pool-put":
		m.count("H11", "pool returns analysed")
		m.site("H11", where+": returns to a pool")
		v := data[1].(Val)
		if i, ok := v.(VIface); ok {
			v = i.V
		}
		id := ""
		switch x := v.(type) {
		case VPtr:
			id = x.Obj
		case VSeq:
			id = x.Arr
		case VSlice:
			id = x.Arr
		}
		if m.putObject(st, id) {
			m.violate("H11-double-put", where, pos, "the same memory is returned to a pool twice")
		}
		if o := e.obj(st, id); o != nil && o.Pre && !o.Pooled {
			m.violate("H11-foreign", where, pos, "memory that other handlers or the caller can still reach is returned to a pool")
		}
		t, _ := st.Mon["put"].(VTuple)
		st.Mon["put"] = VTuple{E: append(append([]Val(nil), t.E...), VPtr{Obj: id})}
	case "deref":
	case "bad-assert":
		m.violate("H13-assert", where, pos, "a type assertion without check fails on this path and panics")
	case "may-panic-assert":
		m.violate("H13-assert", where, pos, "a type assertion on a value of unknown type is not checked and can panic")
	case "panic":
		m.violate("H13-panic", where, pos, "an explicit panic is reachable")
	case "go", "send":
		m.violate("H03-async", where, pos, "work is handed to another goroutine")
	case "slog":
		if len(lockSet(st).E) > 0 {
			m.violate("H13-global-log", where, pos, "the global logger is called with a lock held: with this handler installed there the call deadlocks")
		}
	}
}

// preWrite reports a write to memory that existed before the analysed call.
func (m *hModel) preWrite(prop, kind string, st *State, where, pos, id, path string) {
	if prop != "H12" {
		for _, l := range lockSet(st).E {
			if p, ok := l.(VPtr); ok && !strings.HasPrefix(p.Obj, "g:N") && prop == "H02" && strings.HasPrefix(p.Obj, "g:") {
				return
			}
		}
	}
	what := "memory shared with other handlers"
	switch {
	case strings.HasPrefix(id, "g:cfg:"):
		what = "the configuration it was built with"
		m.violate("H12-write", where, pos, "%s is modified", what)
	case strings.HasPrefix(id, "g:R"), strings.HasPrefix(id, "g:N"):
		what = "the handler it was called on, which others share"
	case strings.HasPrefix(id, "g:"):
		what = "a package variable"
	case strings.HasPrefix(id, "*"), strings.HasPrefix(id, "m:"):
		what = "memory that belongs to the caller"
	}
	verb := "writes to"
	if kind == "append-write" {
		verb = "appends in place to"
	}
	if prop == "H12" && (strings.HasPrefix(id, "g:R") || strings.HasPrefix(id, "g:N")) {
		return
	}
	m.violate(prop+"-"+kind, where, pos, "%s %s %s", where, verb, what)
}

func (m *hModel) onAccessor(e *Engine, st *State, where, pos, name string, val, kind Val) {
	m.count("H07", "value accessors analysed")
	m.site("H07", where+": Value."+name)
	kt := e.slogType("Kind")
	if old, ok := st.Mon["oldval"]; ok && st.Mon["replaced"] != nil {
		r := VTerm{Op: "call:(log/slog.Value).Resolve", Args: []Val{old}}
		if val.key() == old.key() || val.key() == r.key() {
			if _, isZero := old.(VTerm); !isZero || !strings.HasPrefix(old.key(), "zero:") {
				m.violate("H09-old-value", where, pos, "the value from before the replacement is used after it")
			}
		}
	}
	if n, ok := kindConsts[name]; ok && name != "Any" && name != "String" {
		if e.cmpBits(st, kind, kindVal(n, kt)) != 2 {
			m.violate("H07-kind", where+": "+name, pos, "Value.%s is called although the value may be of another kind, which panics or yields a wrong value", name)
		}
		return
	}
	if name == "Any" || name == "String" {
		if e.cmpBits(st, kind, kindVal(9, kt))&2 != 0 {
			m.violate("H07-unresolved", where+": "+name, pos, "a value that was not resolved can be written")
		}
	}
}

func (m *hModel) onKeyOpen(e *Engine, st *State, where, pos string) {
	if m.phase != "Handle" && m.phase != "WithAttrs" {
		return
	}
	m.count("H08", "member keys analysed")
	m.count("H09", "member keys analysed")
	m.dbg = st
	st.Mon["opened"] = constBool(true)
	st.Mon["keypend"] = constBool(true)
	if rep := m.cfgVal(e, "ReplaceAttr"); rep != nil {
		group := false
		if a, ok := st.Mon["attr"].(VStruct); ok && len(a.F) == 2 {
			group = e.cmpBits(st, e.kindOf(st, st.resolve(a.F[1])), kindVal(8, e.slogType("Kind"))) == 2
		}
		if m.nilness(e, st, rep)&1 != 0 && st.Mon["replaced"] == nil && !group {
			m.violate("H09-skipped", where, pos, "a field can be written without having passed through the configured replacement function")
		}
	}
	a, ok := st.Mon["attr"].(VStruct)
	if !ok || len(a.F) != 2 {
		return
	}
	empty := VStruct{T: a.T, F: []Val{constStr(""), zeroVal(e.slogType("Value"))}}
	key, val := st.resolve(a.F[0]), st.resolve(a.F[1])
	kt := e.slogType("Kind")
	eq := attrEq(a, empty)
	keyNonEmpty := false
	if s, ok := asStr(key); ok {
		keyNonEmpty = s != ""
	} else if l := e.length(st, key); e.cmpBits(st, st.resolve(l), constInt(0))&2 == 0 {
		keyNonEmpty = true
	}
	kb := e.kindOf(st, val)
	notAny := e.cmpBits(st, kb, kindVal(0, kt))&2 == 0
	if !keyNonEmpty && !notAny && (eq == nil || e.truth(st, eq)&2 != 0) {
		m.violate("H08-empty-attr", where, pos, "an empty attribute can be written")
	}
	if !keyNonEmpty && e.cmpBits(st, kb, kindVal(8, kt))&2 != 0 {
		m.violate("H08-unnamed-group", where, pos, "the members of a group without a name can be written under an empty key instead of in place")
	}
	if e.cmpBits(st, kb, kindVal(9, kt))&2 != 0 {
		m.violate("H07-unresolved", where+": key", pos, "an attribute can be written whose value was not resolved")
	}
}

func attrEq(a, b Val) Val {
	x, y := a, b
	if x.key() > y.key() {
		x, y = y, x
	}
	return VTerm{Op: "equal", Args: []Val{x, y}, T: types.Typ[types.Bool]}
}

// attrParam finds the parameter of a writing function that is the attribute (or list of attributes) to write.
func (m *hModel) attrParam(fn *ssa.Function) (idx int, list bool) {
	if !m.emits[fn] {
		return -1, false
	}
	idx = -1
	for i, p := range fn.Params {
		if isAttrType(p.Type()) {
			return i, false
		}
		if s, ok := p.Type().Underlying().(*types.Slice); ok && isAttrType(s.Elem()) {
			idx, list = i, true
		}
	}
	return
}

// textKey identifies the text a value holds, "" if it is composed of several parts.
func textKey(v Val) string {
	switch x := v.(type) {
	case VSym:
		return x.ID
	case VTerm:
		return x.key()
	case VConst:
		if s, ok := asStr(x); ok {
			return "=" + s
		}
	case VSeq:
		if !x.C.Map && len(x.C.Chunks) == 1 {
			if x.C.Chunks[0].Lit {
				return "=" + x.C.Chunks[0].S
			}
			return strings.TrimPrefix(x.C.Chunks[0].S, "js:")
		}
	}
	return ""
}

func isSeq(v Val) bool { _, ok := v.(VSeq); return ok }

// onBuiltin checks that a built-in field is written under the key it is configured to have.
func (m *hModel) onBuiltin(key Val, val, where, pos string) {
	for _, f := range []struct{ field, key string }{{"Message", "MessageKey"}, {"Level", "LevelKey"}, {"Time", "TimeKey"}} {
		if !strings.Contains(val, "field:"+f.field+"(s:g:record/)") {
			continue
		}
		m.count("H15", "built-in fields analysed")
		m.site("H15", where+": "+f.field)
		want := ""
		if c, ok := m.cfgVal(m.eng, f.key).(VSym); ok {
			want = c.ID
		}
		if want == "" {
			if c, ok := m.proto.slogConst(f.key); ok {
				want = "=" + c
			}
		}
		got := textKey(key)
		if s, ok := asStr(key); ok && (strings.HasPrefix(s, "=") || strings.HasPrefix(s, "g:cfg:")) {
			got = s
		}
		if got != "" && got != want {
			m.violate("H15-key", where+": "+f.field, pos, "the %s of the record is written under another key than the one it should have", strings.ToLower(f.field))
		}
		return
	}
}

// onKeyText is told which text the key of a member is made of.
func (m *hModel) onKeyText(st *State, text, where, pos string) {
	delete(st.Mon, "lastkey")
	if m.phase == "Handle" && st.Mon["attr"] == nil && (strings.HasPrefix(text, "g:cfg:") || strings.HasPrefix(text, "=")) {
		st.Mon["lastkey"] = constStr(text)
	}
	a, ok := st.Mon["attr"].(VStruct)
	old := st.Mon["oldkey"]
	if ok && len(a.F) == 2 && old != nil && st.Mon["replaced"] != nil && text == textKey(st.resolve(old)) && text != textKey(st.resolve(a.F[0])) {
		m.violate("H09-old-key", where, pos, "the key from before the replacement is written")
	}
}

var attrKeys = []string{"oldkey", "keypend", "attr", "opened", "replaced", "oldval", "entered", "passed", "scan", "members"}

// scanIdx is the parameter of a function that tells whether attributes are empty.
func (m *hModel) scanIdx(fn *ssa.Function) int {
	if m.emits[fn] || m.scans == nil {
		return -1
	}
	q, _ := scanParam(fn)
	if q == nil {
		return -1
	}
	for i, p := range fn.Params {
		if p == q {
			return i
		}
	}
	return -1
}

// onEnter tracks the attribute being written: the one most recently passed to a function that writes.
func (m *hModel) onEnter(fn *ssa.Function, args []Val, st *State) *State {
	n := st.clone()
	for k := range n.Mon {
		if k == "stopped" || strings.HasPrefix(k, "use:") {
			delete(n.Mon, k) // added back on return
		}
	}
	if last := n.Mon["lastkey"]; last != nil && m.safeFns[fn] && n.Mon["keypend"] == nil {
		for _, a := range args {
			if t := textKey(n.resolve(a)); t != "" && isSeq(n.resolve(a)) {
				delete(n.Mon, "lastkey")
				m.onBuiltin(last, t, m.P.FuncName(fn), m.P.Pos(fn.Pos()))
			}
		}
	}
	if m.safeFns[fn] && n.Mon["keypend"] != nil {
		delete(n.Mon, "keypend")
		for _, a := range args {
			if t := textKey(n.resolve(a)); t != "" && isSeq(n.resolve(a)) {
				m.onKeyText(n, t, m.P.FuncName(fn), m.P.Pos(fn.Pos()))
			}
		}
	}
	delete(n.Mon, "scanarg")
	if i := m.scanIdx(fn); i >= 0 && i < len(args) {
		delete(n.Mon, "scan")
		n.Mon["scanarg"] = args[i]
	}
	idx, list := m.attrParam(fn)
	if idx < 0 || idx >= len(args) {
		return n
	}
	delete(n.Mon, "listarg")
	if list {
		n.Mon["listarg"] = args[idx]
	}
	for _, k := range attrKeys {
		delete(n.Mon, k)
	}
	if !list {
		if a, ok := args[idx].(VStruct); ok {
			if m.phase == "Handle" && len(a.F) == 2 {
				m.onBuiltin(n.resolve(a.F[0]), a.F[1].key(), m.P.FuncName(fn), m.P.Pos(fn.Pos()))
			}
			n.Mon["attr"] = a
			n.Mon["entered"] = a
		}
	}
	return n
}

// onExit judges an attribute for which nothing was written.
func (m *hModel) onExit(fn *ssa.Function, rets []Val, st *State) {
	idx, list := m.attrParam(fn)
	if idx < 0 || list || m.phase != "Handle" && m.phase != "WithAttrs" {
		return
	}
	if a, ok := st.Mon["attr"].(VStruct); ok && st.Mon["opened"] == nil && st.Mon["passed"] == nil {
		m.dropped(fn, a, rets, st)
	}
}

func (m *hModel) onReturn(fn *ssa.Function, rets []Val, callee, caller *State) {
	if m.phase == "Handle" {
		m.settle(m.eng, callee, caller)
	}
	for k, v := range caller.Mon {
		if strings.HasPrefix(k, "use:") {
			callee.Mon[k] = v
		}
		if k == "stopped" {
			if b, _ := asBool(v); b || callee.Mon[k] == nil {
				callee.Mon[k] = v
			}
		}
	}
	if m.scanIdx(fn) >= 0 {
		arg := callee.Mon["scanarg"]
		delete(callee.Mon, "scan")
		for _, b := range []bool{true, false} {
			if c := m.scans.claims[scanKey{fn, b}]; (c == 'y' || c == '?') && arg != nil && len(rets) == 1 && m.eng.truth(callee, rets[0])&map[bool]int{false: 1, true: 2}[b] != 0 {
				callee.Mon["scan"] = VTuple{E: []Val{arg, rets[0], constBool(b)}}
			}
		}
	}
	restore := func(k string) {
		delete(callee.Mon, k)
		if v, ok := caller.Mon[k]; ok {
			callee.Mon[k] = v
		}
	}
	restore("scanarg")
	idx, list := m.attrParam(fn)
	if idx >= 0 && m.phase == "Handle" && len(rets) > 0 && callee.Mon["failed"] == nil {
		if sg := fn.Signature.Results(); sg.Len() == len(rets) && typeKey(sg.At(len(rets)-1).Type()) == "error" && m.nilness(m.eng, callee, rets[len(rets)-1]) == 1 {
			callee.Mon["failed"] = constStr("composing an attribute")
		}
	}
	if idx < 0 {
		return
	}
	members := callee.Mon["listarg"]
	restore("listarg")
	opened, entered := callee.Mon["opened"], callee.Mon["entered"]
	for _, k := range attrKeys {
		delete(callee.Mon, k)
		if v, ok := caller.Mon[k]; ok {
			callee.Mon[k] = v
		}
	}
	if list && members != nil && callee.Mon["attr"] != nil {
		callee.Mon["members"] = members
	}
	if opened != nil && !list && callee.Mon["attr"] != nil {
		callee.Mon["opened"] = opened
	}
	if mine := callee.Mon["attr"]; mine != nil && entered != nil && mine.key() == entered.key() {
		callee.Mon["passed"] = constBool(true) // judged there
	}
	// a visitor that asks to stop
	if !list && len(rets) == 1 && isBool(fn.Signature.Results().At(0).Type()) && m.phase == "Handle" {
		if b, ok := asBool(rets[0]); !ok || !b {
			callee.Mon["stopped"] = constBool(true)
		}
	}
}

// dropped checks an attribute for which nothing was written.
func (m *hModel) dropped(fn *ssa.Function, a VStruct, rets []Val, st *State) {
	e := m.eng
	m.count("H08", "omissions analysed")
	m.dbg = st
	name := m.P.FuncName(fn)
	for _, r := range rets {
		if isErrorVal(r) && m.nilness(e, st, r)&2 == 0 {
			return // an error is reported instead
		}
		if b, ok := asBool(r); ok && !b {
			return // traversal stopped: judged where the line is written
		}
	}
	kt := e.slogType("Kind")
	kb := e.kindOf(st, st.resolve(a.F[1]))
	if e.cmpBits(st, kb, kindVal(8, kt)) == 2 {
		// a group: its members were handed on or found empty
		group := m.groupOf(st.resolve(a.F[1]))
		if v := st.Mon["members"]; v != nil && v.key() == group.key() {
			return
		}
		if t, ok := st.Mon["scan"].(VTuple); ok && (t.E[0].key() == group.key() || t.E[0].key() == a.key()) {
			b, _ := asBool(t.E[2])
			if e.truth(st, t.E[1]) == map[bool]int{false: 1, true: 2}[b] {
				return
			}
		}
		if e.truth(st, attrEq(a, VStruct{T: a.T, F: []Val{constStr(""), zeroVal(e.slogType("Value"))}})) == 2 {
			return
		}
		m.violate("H08-lost-group", name, m.P.Pos(fn.Pos()), "a group can be dropped silently although it was not shown that it has no members to write%s", m.scanWhy())
		return
	}
	empty := VStruct{T: a.T, F: []Val{constStr(""), zeroVal(e.slogType("Value"))}}
	if eq := attrEq(a, empty); e.truth(st, eq) == 2 {
		return
	}
	if s, ok := asStr(st.resolve(a.F[0])); ok && s == "" && e.cmpBits(st, kb, kindVal(0, kt)) == 2 {
		return
	}
	m.violate("H08-lost", name, m.P.Pos(fn.Pos()), "an attribute that is neither empty nor a group can be dropped silently")
}

// groupOf is the list of members of a group value.
func (m *hModel) groupOf(v Val) Val {
	if t, ok := v.(VTerm); ok && t.Op == "val:Group" {
		return t.Args[0]
	}
	return VTerm{Op: "call:(log/slog.Value).Group", Args: []Val{v}, T: nil}
}

func (m *hModel) scanWhy() string {
	var out []string
	for k, c := range m.scans.claims {
		if c == 'n' && !m.emits[k.fn] && m.scans.claims[scanKey{k.fn, !k.b}] == 'n' && k.b {
			out = append(out, m.P.FuncName(k.fn)+": "+m.scans.why[k])
		}
	}
	if len(out) == 0 {
		return ""
	}
	sort.Strings(out)
	return " (" + strings.Join(out, "; ") + ")"
}

func isErrorVal(v Val) bool {
	switch x := v.(type) {
	case VNil:
		return true
	case VTerm:
		return x.Op == "errorf" || x.T != nil && typeKey(x.T) == "error"
	case VSym:
		return x.T != nil && typeKey(x.T) == "error"
	}
	return false
}
