package main

import (
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// S01: pages requested at the same time. An interprocedural effect and lockset analysis of everything a page
// request can run: the request functions of cmd/server and the methods its templates call. Every place of memory
// shared between requests that any of it writes must be guarded, in all of it, by one lock.

func init() {
	register("S01", pageRequests)
}

// root says what an address or value is derived from.
type root struct {
	kind byte // 'p' parameter, 'v' free variable, 'g' global (or other shared memory), 'f' made here
	idx  int
	deep bool // reached through at least one pointer, map, slice or interface stored in it
	at   ssa.Value
}

type rootSet map[root]bool

// place is a named part of memory: a field of a type, or a package variable.
type access struct {
	place string
	write bool
	locks map[string]bool
	pos   token.Pos
	fn    *ssa.Function
	roots rootSet
}

type sumWrite struct {
	place string
	r     root
}

type effects struct {
	p       *Program
	rep     *Report
	roots   map[ssa.Value]rootSet
	rets    map[*ssa.Function]rootSet
	acquire map[*ssa.Function]map[string]bool
	release map[*ssa.Function]map[string]bool
	entry   map[*ssa.Function]map[string]bool // nil: not reached yet
	reached map[*ssa.Function]bool
	shared  map[*ssa.Function]map[root]bool // which roots of the function are shared memory
	bySig   map[string][]*ssa.Function
	acc     []access
	changed bool
	unknown map[string]bool
}

func pageRequests(p *Program, rep *Report) {
	rep.Rule = "every function a page request can run (request functions of cmd/server, methods named in its templates, and what they call): each write to memory shared between requests holds a lock which every other access to the same place in them holds as well"
	e := &effects{p: p, rep: rep, roots: map[ssa.Value]rootSet{}, rets: map[*ssa.Function]rootSet{},
		acquire: map[*ssa.Function]map[string]bool{}, release: map[*ssa.Function]map[string]bool{},
		entry: map[*ssa.Function]map[string]bool{}, reached: map[*ssa.Function]bool{},
		shared: map[*ssa.Function]map[root]bool{}, bySig: map[string][]*ssa.Function{}, unknown: map[string]bool{}}
	srv := p.relSSA("cmd/server")
	if srv == nil {
		rep.Violate("S01-missing", "cmd/server", "-", "the package cmd/server is missing")
		return
	}
	for _, fn := range p.Funcs {
		if len(fn.FreeVars) > 0 || fn.Signature.Recv() == nil {
			e.bySig[fn.Signature.String()] = append(e.bySig[fn.Signature.String()], fn)
		}
	}
	e.summaries()

	names := templateNames(p, rep)
	var queue []*ssa.Function
	start := func(fn *ssa.Function, sh ...root) {
		if e.shared[fn] == nil {
			e.shared[fn] = map[root]bool{}
		}
		for _, r := range sh {
			e.shared[fn][r] = true
		}
		e.entry[fn] = map[string]bool{}
		queue = append(queue, fn)
	}
	// request functions
	for _, fn := range p.InPkg("cmd/server/...") {
		if isRequestFunc(fn) {
			rep.Count("request functions", 1)
			var sh []root
			for i := range fn.FreeVars {
				sh = append(sh, root{kind: 'v', idx: i}, root{kind: 'v', idx: i, deep: true})
			}
			sh = append(sh, root{kind: 'p', idx: 0, deep: true})
			start(fn, sh...)
		}
	}
	// methods the templates call
	for _, m := range e.templateMethods(srv, names) {
		rep.Count("template methods", 1)
		sh := []root{{kind: 'p', idx: 0, deep: true}}
		if !m.own {
			sh = append(sh, root{kind: 'p', idx: 0})
		}
		start(m.fn, sh...)
	}
	e.closure(queue)
	e.judge()
	e.deadlocks()
	rep.Count("functions analysed", len(e.reached))
	for fn := range e.reached {
		rep.Site("function %s", p.FuncName(fn))
	}
	rep.Count("accesses analysed", len(e.acc))
	rep.Floor("request functions", 2)
	rep.Floor("template methods", 30)
	rep.Floor("accesses analysed", 100)
}

func isRequestFunc(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Recv() != nil || s.Params().Len() < 1 || s.Results().Len() != 0 {
		return false
	}
	return strings.HasSuffix(s.Params().At(0).Type().String(), "gin.Context") && s.Params().Len() == 1
}

// templateNames lists the fields and methods the templates mention.
func templateNames(p *Program, rep *Report) map[string]bool {
	names := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(p.Repo, "cmd/server/*/*.gohtml"))
	for _, f := range files {
		text, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		t := parse.New(filepath.Base(f))
		t.Mode = parse.SkipFuncCheck
		trees := map[string]*parse.Tree{}
		if _, err := t.Parse(string(text), "", "", trees); err != nil {
			rep.Violate("S01-template", filepath.Base(f), f, "the template cannot be parsed: %v", err)
			continue
		}
		rep.Count("templates read", 1)
		for _, tr := range trees {
			walkTemplate(tr.Root, func(id string) { names[id] = true })
		}
	}
	rep.Floor("templates read", 8)
	return names
}

func walkTemplate(n parse.Node, f func(string)) {
	if n == nil {
		return
	}
	branch := func(b *parse.BranchNode) {
		walkTemplate(b.Pipe, f)
		walkTemplate(b.List, f)
		if b.ElseList != nil {
			walkTemplate(b.ElseList, f)
		}
	}
	switch n := n.(type) {
	case *parse.ListNode:
		if n != nil {
			for _, x := range n.Nodes {
				walkTemplate(x, f)
			}
		}
	case *parse.ActionNode:
		walkTemplate(n.Pipe, f)
	case *parse.PipeNode:
		if n != nil {
			for _, c := range n.Cmds {
				for _, a := range c.Args {
					walkTemplate(a, f)
				}
			}
		}
	case *parse.IfNode:
		branch(&n.BranchNode)
	case *parse.RangeNode:
		branch(&n.BranchNode)
	case *parse.WithNode:
		branch(&n.BranchNode)
	case *parse.TemplateNode:
		walkTemplate(n.Pipe, f)
	case *parse.FieldNode:
		for _, id := range n.Ident {
			f(id)
		}
	case *parse.VariableNode:
		for _, id := range n.Ident[1:] {
			f(id)
		}
	case *parse.ChainNode:
		walkTemplate(n.Node, f)
		for _, id := range n.Field {
			f(id)
		}
	}
}

type tmplMethod struct {
	fn  *ssa.Function
	own bool // the receiver belongs to the request
}

// templateMethods lists the methods templates can reach from the data they are executed with.
func (e *effects) templateMethods(srv *ssa.Package, names map[string]bool) (out []tmplMethod) {
	seen := map[string]bool{}
	done := map[*ssa.Function]bool{}
	var work []types.Type
	add := func(t types.Type) { work = append(work, t) }
	ownT := map[string]bool{}
	for _, fn := range e.p.InPkg("cmd/server/...") {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil || call.Common().StaticCallee().Pkg == nil {
					continue
				}
				c := call.Common().StaticCallee()
				if c.Name() == "Execute" || c.Name() == "ExecuteTemplate" {
					a := call.Common().Args[len(call.Common().Args)-1]
					if mi, ok := a.(*ssa.MakeInterface); ok {
						add(mi.X.Type())
						if e.freshOnly(mi.X) {
							ownT[derefType(mi.X.Type()).String()] = true
						}
						e.rep.Count("template executions", 1)
					}
				}
			}
		}
	}
	// what the template functions give
	for _, fn := range e.p.InPkg("cmd/server") {
		if fn.Parent() != nil && fn.Parent().Name() == "functions" {
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				add(fn.Signature.Results().At(i).Type())
			}
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				add(fn.Signature.Params().At(i).Type())
			}
		}
	}
	var named []*types.Named
	for _, pkg := range e.p.Pkgs {
		if strings.Contains(pkg.PkgPath, "/verify") || strings.Contains(pkg.PkgPath, "/bench") {
			continue
		}
		for _, n := range pkg.Types.Scope().Names() {
			if tn, ok := pkg.Types.Scope().Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					named = append(named, nt)
				}
			}
		}
	}
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[t.String()] {
			continue
		}
		seen[t.String()] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			add(u.Elem())
		case *types.Slice:
			add(u.Elem())
		case *types.Array:
			add(u.Elem())
		case *types.Map:
			add(u.Key())
			add(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Exported() {
					add(u.Field(i).Type())
				}
			}
		case *types.Interface:
			if u.NumMethods() > 0 {
				for _, nt := range named {
					if types.Implements(types.NewPointer(nt), u) {
						add(nt)
					}
				}
			}
		}
		nt, ok := t.(*types.Named)
		if !ok || nt.Obj().Pkg() == nil || !isRepoPath(nt.Obj().Pkg().Path()) {
			continue
		}
		if _, isI := nt.Underlying().(*types.Interface); isI {
			continue
		}
		for i := 0; i < nt.NumMethods(); i++ {
			m := nt.Method(i)
			// String and Error are called when a value is printed
			if !m.Exported() || !names[m.Name()] && m.Name() != "String" && m.Name() != "Error" {
				continue
			}
			fn := e.p.SSA.FuncValue(m)
			if fn == nil || fn.Blocks == nil || done[fn] {
				continue
			}
			done[fn] = true
			out = append(out, tmplMethod{fn, ownT[nt.String()]})
			for j := 0; j < fn.Signature.Results().Len(); j++ {
				add(fn.Signature.Results().At(j).Type())
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return e.p.FuncName(out[i].fn) < e.p.FuncName(out[j].fn) })
	return out
}

func (e *effects) freshOnly(v ssa.Value) bool {
	for r := range e.of(v) {
		if r.kind != 'f' {
			return false
		}
	}
	return true
}

// ---- what values are derived from

func one1(r root) rootSet { return rootSet{r: true} }

func (s rootSet) add(o rootSet) bool {
	n := len(s)
	for r := range o {
		s[r] = true
	}
	return len(s) != n
}

// of is what the memory v points to (or v itself, for values) is derived from.
func (e *effects) of(v ssa.Value) rootSet {
	if s, ok := e.roots[v]; ok {
		return s
	}
	s := rootSet{}
	e.roots[v] = s
	e.of1(v, s)
	return s
}

func (e *effects) grow(v ssa.Value) {
	s := e.of(v)
	n := rootSet{}
	e.of1(v, n)
	if s.add(n) {
		e.changed = true
	}
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPointers(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (e *effects) of1(v ssa.Value, s rootSet) {
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, q := range v.Parent().Params {
			if q == v {
				s[root{kind: 'p', idx: i}] = true
			}
		}
	case *ssa.FreeVar:
		for i, q := range v.Parent().FreeVars {
			if q == v {
				s[root{kind: 'v', idx: i}] = true
			}
		}
	case *ssa.Global:
		s[root{kind: 'g'}] = true
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		s[root{kind: 'f', at: v}] = true
	case *ssa.FieldAddr:
		s.add(e.of(v.X))
	case *ssa.IndexAddr:
		s.add(e.of(v.X))
	case *ssa.Slice:
		s.add(e.of(v.X))
	case *ssa.Field:
		s.add(e.of(v.X))
	case *ssa.Index:
		s.add(e.of(v.X))
	case *ssa.ChangeType:
		s.add(e.of(v.X))
	case *ssa.ChangeInterface:
		s.add(e.of(v.X))
	case *ssa.MakeInterface:
		s.add(e.of(v.X))
	case *ssa.TypeAssert:
		s.add(e.of(v.X))
	case *ssa.SliceToArrayPointer:
		s.add(e.of(v.X))
	case *ssa.Convert:
		if hasPointers(v.Type()) && hasPointers(v.X.Type()) {
			s.add(e.of(v.X))
		}
	case *ssa.Phi:
		for _, x := range v.Edges {
			s.add(e.of(x))
		}
	case *ssa.Extract:
		s.add(e.of(v.Tuple))
	case *ssa.UnOp:
		if v.Op == token.MUL && hasPointers(v.Type()) {
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				s.add(e.loadField(e.of(fa.X), fa))
			} else {
				s.add(e.load(e.of(v.X)))
			}
		}
	case *ssa.Lookup:
		if hasPointers(v.Type()) {
			s.add(e.load(e.of(v.X)))
		}
	case *ssa.Next:
		s.add(e.of(v.Iter))
	case *ssa.Range:
		s.add(e.load(e.of(v.X)))
	case *ssa.MakeClosure:
		s[root{kind: 'f', at: v}] = true
	case *ssa.Call:
		s.add(e.callRoots(v))
	}
}

// load is what something stored in memory derived from s is derived from.
func (e *effects) load(s rootSet) rootSet {
	out := rootSet{}
	for r := range s {
		if r.kind != 'f' {
			r.deep = r.kind != 'g'
			out[r] = true
			continue
		}
		out[r] = true
		for _, x := range e.storedIn(r.at) {
			out.add(e.of(x))
		}
	}
	return out
}

// loadField is what a field of memory derived from s holds.
func (e *effects) loadField(s rootSet, fa *ssa.FieldAddr) rootSet {
	out := rootSet{}
	for r := range s {
		if r.kind != 'f' {
			r.deep = r.kind != 'g'
			out[r] = true
			continue
		}
		n := 0
		whole := false
		e.storesTo(r.at, func(addr, x ssa.Value) {
			f, ok := addr.(*ssa.FieldAddr)
			if ok && f.Field == fa.Field && types.Identical(f.X.Type(), fa.X.Type()) {
				n++
				out.add(e.of(x))
			}
			if !ok {
				whole = true
			}
		})
		if n == 0 {
			out[r] = true
			if whole {
				out.add(e.load(one1(r)))
			}
		}
	}
	return out
}

// storedIn lists what is stored, anywhere in its function, into memory made at v.
func (e *effects) storedIn(v ssa.Value) (out []ssa.Value) {
	e.storesTo(v, func(_, x ssa.Value) { out = append(out, x) })
	return
}

func (e *effects) storesTo(v ssa.Value, f func(addr, val ssa.Value)) {
	seen := map[ssa.Value]bool{}
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if v == nil || seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ins := range *v.Referrers() {
			switch i := ins.(type) {
			case *ssa.Store:
				if i.Addr == v {
					f(v, i.Val)
				}
			case *ssa.MapUpdate:
				if i.Map == v {
					f(v, i.Value)
					f(v, i.Key)
				}
			case *ssa.FieldAddr:
				follow(i)
			case *ssa.IndexAddr:
				follow(i)
			case *ssa.Slice:
				follow(i)
			case *ssa.Call:
				if b, ok := i.Call.Value.(*ssa.Builtin); ok && (b.Name() == "append" || b.Name() == "copy") && i.Call.Args[0] == v && len(i.Call.Args) > 1 {
					f(v, i.Call.Args[1])
					follow(i)
				}
			case *ssa.UnOp:
				if i.Op == token.MUL {
					if _, isPtr := derefType(v.Type()).Underlying().(*types.Struct); !isPtr {
						follow(i) // the slice or map held in a variable
					}
				}
			}
		}
	}
	follow(v)
}

func (e *effects) callRoots(c *ssa.Call) rootSet {
	out := rootSet{}
	if !hasPointers(c.Type()) {
		return out
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			out.add(e.of(c.Call.Args[0]))
		}
		out[root{kind: 'f', at: c}] = true
		return out
	}
	callees := e.callees(&c.Call)
	if len(callees) == 0 {
		if fn := c.Call.StaticCallee(); fn != nil {
			name := libName(fn)
			if strings.HasPrefix(name, "slices.") && len(c.Call.Args) > 0 && name != "slices.Clone" && !strings.HasPrefix(name, "slices.Sorted") && name != "slices.Collect" && name != "slices.Concat" {
				out.add(e.of(c.Call.Args[0]))
			}
		}
		out[root{kind: 'f', at: c}] = true
		return out
	}
	for _, fn := range callees {
		args := callArgs(&c.Call, fn)
		for r := range e.rets[fn] {
			switch r.kind {
			case 'p':
				if r.idx < len(args) {
					s := e.of(args[r.idx])
					if r.deep {
						s = e.load(s)
					}
					out.add(s)
				}
			case 'v':
				if mc, ok := c.Call.Value.(*ssa.MakeClosure); ok && r.idx < len(mc.Bindings) {
					s := e.of(mc.Bindings[r.idx])
					if r.deep {
						s = e.load(s)
					}
					out.add(s)
				} else {
					out[root{kind: 'g'}] = true
				}
			case 'g':
				out[r] = true
			case 'f':
				out[root{kind: 'f', at: c}] = true
			}
		}
	}
	return out
}

func callArgs(c *ssa.CallCommon, fn *ssa.Function) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

// callees lists the functions of the repository a call can reach.
func (e *effects) callees(c *ssa.CallCommon) (out []*ssa.Function) {
	if fn := c.StaticCallee(); fn != nil {
		if e.p.IsRepoFunc(fn) && fn.Blocks != nil {
			out = append(out, fn)
		}
		return
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return
	}
	if c.IsInvoke() {
		it, ok := c.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return
		}
		for _, pkg := range e.p.Pkgs {
			if !isRepoPath(pkg.PkgPath) {
				continue
			}
			// only what is declared by a package of this module
			if c.Method.Pkg() == nil || !isRepoPath(c.Method.Pkg().Path()) {
				continue
			}
			for _, n := range pkg.Types.Scope().Names() {
				tn, ok := pkg.Types.Scope().Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				nt, ok := tn.Type().(*types.Named)
				if !ok || nt.TypeParams().Len() > 0 || types.IsInterface(nt) || !types.Implements(types.NewPointer(nt), it) {
					continue
				}
				obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(nt), true, c.Method.Pkg(), c.Method.Name())
				if f, ok := obj.(*types.Func); ok {
					if fn := e.p.SSA.FuncValue(f); fn != nil && fn.Blocks != nil && e.p.IsRepoFunc(fn) {
						out = append(out, fn)
					}
				}
			}
		}
		return
	}
	// a function value: the closures made in this function, else every function of that type whose value is taken
	var local []*ssa.Function
	exact := true
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		switch v := v.(type) {
		case *ssa.MakeClosure:
			local = append(local, v.Fn.(*ssa.Function))
		case *ssa.Function:
			local = append(local, v)
		case *ssa.Phi:
			if d < 4 {
				for _, x := range v.Edges {
					walk(x, d+1)
				}
			}
		default:
			exact = false
		}
	}
	walk(c.Value, 0)
	if exact {
		for _, fn := range local {
			if e.p.IsRepoFunc(fn) && fn.Blocks != nil {
				out = append(out, fn)
			}
		}
		return
	}
	for _, fn := range e.bySig[c.Signature().String()] {
		if e.taken(fn) && (isRepoPath(e.p.FuncPkgPath(fn))) {
			out = append(out, fn)
		}
	}
	return
}

// taken reports whether the function is used as a value.
func (e *effects) taken(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return true
	}
	if refs := fn.Referrers(); refs != nil {
		for _, ins := range *refs {
			if c, ok := ins.(ssa.CallInstruction); !ok || c.Common().StaticCallee() != fn {
				return true
			}
		}
	}
	return false
}

// summaries computes what the results of functions are derived from and which locks they take or release.
func (e *effects) summaries() {
	funcs := e.funcs()
	for round := 0; round < 30; round++ {
		e.changed = false
		for _, fn := range funcs {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if v, ok := ins.(ssa.Value); ok {
						e.grow(v)
					}
					if r, ok := ins.(*ssa.Return); ok {
						if e.rets[fn] == nil {
							e.rets[fn] = rootSet{}
						}
						for _, x := range r.Results {
							if e.rets[fn].add(e.of(x)) {
								e.changed = true
							}
						}
					}
				}
			}
		}
		if !e.changed {
			break
		}
	}
	for round := 0; round < 4; round++ {
		for _, fn := range funcs {
			_, exit := e.locksets(fn, map[string]bool{})
			e.acquire[fn] = exit
			e.release[fn] = e.unlocks(fn)
		}
	}
}

// funcs are the functions the analysis may have to look at.
func (e *effects) funcs() (out []*ssa.Function) {
	for _, fn := range e.p.Funcs {
		path := e.p.FuncPkgPath(fn)
		for _, in := range []string{"/cmd/server", "/internal/", "/infra"} {
			if strings.HasPrefix(strings.TrimPrefix(path, modPath), in) && fn.Blocks != nil {
				out = append(out, fn)
				break
			}
		}
	}
	return
}

// ---- locks

// lockName names the lock at an address: a package variable or a field of a type.
func (e *effects) lockName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Global:
		return v.String()
	case *ssa.FieldAddr:
		if e.freshOnly(v.X) {
			return ""
		}
		st := derefType(v.X.Type())
		return st.String() + "." + st.Underlying().(*types.Struct).Field(v.Field).Name()
	case *ssa.UnOp:
		return e.lockName(v.X)
	case *ssa.MakeInterface:
		return e.lockName(v.X)
	case *ssa.ChangeInterface:
		return e.lockName(v.X)
	case *ssa.FreeVar:
		// the lock itself, passed in as a captured variable
		for _, b := range bindingsOf(v) {
			return e.lockName(b)
		}
	}
	return ""
}

func bindingsOf(v *ssa.FreeVar) (out []ssa.Value) {
	fn := v.Parent()
	for i, q := range fn.FreeVars {
		if q != v || fn.Referrers() == nil {
			continue
		}
		for _, ins := range *fn.Referrers() {
			if mc, ok := ins.(*ssa.MakeClosure); ok {
				out = append(out, mc.Bindings[i])
			}
		}
	}
	return
}

// lockOp says what a call does to a lock.
func (e *effects) lockOp(c *ssa.CallCommon) (op, name string) {
	var m string
	var recv ssa.Value
	if fn := c.StaticCallee(); fn != nil {
		k := fnKey(fn)
		if !strings.HasPrefix(k, "(*sync.") || len(c.Args) == 0 {
			return
		}
		m, recv = strings.TrimPrefix(k, "(*sync."), c.Args[0]
	} else if c.IsInvoke() && c.Method.Pkg() != nil && c.Method.Pkg().Path() == "sync" {
		m, recv = "Mutex)."+c.Method.Name(), c.Value
	} else {
		return
	}
	switch m {
	case "Mutex).Lock", "RWMutex).Lock":
		op = "lock"
	case "Mutex).Unlock", "RWMutex).Unlock":
		op = "unlock"
	case "RWMutex).RLock":
		op = "rlock"
	case "RWMutex).RUnlock":
		op = "runlock"
	case "Once).Do":
		op = "once"
	default:
		return
	}
	return op, e.lockName(recv)
}

func apply(op, name string, held map[string]bool) {
	if name == "" {
		return
	}
	switch op {
	case "lock", "once":
		held[name], held[name+"/r"] = true, true
	case "rlock":
		held[name+"/r"] = true
	case "unlock":
		delete(held, name)
		delete(held, name+"/r")
	case "runlock":
		delete(held, name+"/r")
	}
}

func cloneSet(m map[string]bool) map[string]bool {
	n := map[string]bool{}
	for k := range m {
		n[k] = true
	}
	return n
}

func meet(a, b map[string]bool) map[string]bool {
	if a == nil {
		return cloneSet(b)
	}
	n := map[string]bool{}
	for k := range a {
		if b[k] {
			n[k] = true
		}
	}
	return n
}

func sameSet(a, b map[string]bool) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// step gives the locks held after an instruction.
func (e *effects) step(ins ssa.Instruction, held map[string]bool) {
	c, ok := ins.(*ssa.Call)
	if !ok {
		return
	}
	if op, name := e.lockOp(&c.Call); op != "" {
		apply(op, name, held)
		return
	}
	callees := e.callees(&c.Call)
	if len(callees) == 0 || !exactCall(&c.Call) && !c.Call.IsInvoke() {
		return
	}
	var acq map[string]bool
	for _, fn := range callees {
		for l := range e.release[fn] {
			delete(held, l)
		}
		acq = meet(acq, e.acquire[fn])
	}
	for l := range acq {
		held[l] = true
	}
}

func exactCall(c *ssa.CallCommon) bool {
	switch c.Value.(type) {
	case *ssa.MakeClosure, *ssa.Function:
		return true
	}
	return false
}

// locksets gives the locks surely held before each instruction, and on return.
func (e *effects) locksets(fn *ssa.Function, entry map[string]bool) (map[ssa.Instruction]map[string]bool, map[string]bool) {
	in := map[*ssa.BasicBlock]map[string]bool{}
	at := map[ssa.Instruction]map[string]bool{}
	var exit map[string]bool
	if len(fn.Blocks) == 0 {
		return at, nil
	}
	in[fn.Blocks[0]] = cloneSet(entry)
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		held := cloneSet(in[b])
		for _, ins := range b.Instrs {
			at[ins] = cloneSet(held)
			e.step(ins, held)
		}
		for _, s := range b.Succs {
			n := meet(in[s], held)
			if in[s] == nil || !sameSet(n, in[s]) {
				in[s] = n
				work = append(work, s)
			}
		}
	}
	released := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if d, ok := ins.(*ssa.Defer); ok {
				switch op, name := e.lockOp(&d.Call); op {
				case "unlock", "runlock":
					released[name], released[name+"/r"] = true, true
				default:
					for _, c := range e.callees(&d.Call) {
						for l := range e.unlocks(c) {
							released[l] = true
						}
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && in[b] != nil {
			exit = meet(exit, at[b.Instrs[len(b.Instrs)-1]])
		}
	}
	for l := range released {
		delete(exit, l)
	}
	return at, exit
}

// unlocks are the locks a function releases somewhere.
func (e *effects) unlocks(fn *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if op, name := e.lockOp(c.Common()); op == "unlock" || op == "runlock" {
					out[name], out[name+"/r"] = true, true
				}
			}
		}
	}
	return out
}

// ---- what a request runs

func (e *effects) isShared(fn *ssa.Function, s rootSet) bool {
	for r := range s {
		if r.kind == 'g' {
			return true
		}
		if r.kind != 'f' {
			k := root{kind: r.kind, idx: r.idx, deep: r.deep}
			if e.shared[fn][k] {
				return true
			}
		}
	}
	return false
}

// closure follows the calls, carrying which arguments are shared and which locks are held.
func (e *effects) closure(queue []*ssa.Function) {
	for len(queue) > 0 {
		fn := queue[0]
		queue = queue[1:]
		e.reached[fn] = true
		at, _ := e.locksets(fn, e.entry[fn])
		visit := func(callee *ssa.Function, held map[string]bool, sh []root) {
			dirty := !e.reached[callee] && e.entry[callee] == nil
			if e.shared[callee] == nil {
				e.shared[callee] = map[root]bool{}
			}
			for _, r := range sh {
				if !e.shared[callee][r] {
					e.shared[callee][r] = true
					dirty = true
				}
			}
			n := meet(e.entry[callee], held)
			if e.entry[callee] == nil || !sameSet(n, e.entry[callee]) {
				e.entry[callee] = n
				dirty = true
			}
			if dirty {
				queue = append(queue, callee)
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				held := at[ins]
				if held == nil {
					continue // not reachable
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					cl := mc.Fn.(*ssa.Function)
					var sh []root
					for i, x := range mc.Bindings {
						s := e.of(x)
						if e.isShared(fn, s) {
							sh = append(sh, root{kind: 'v', idx: i})
						}
						if e.isShared(fn, e.load(s)) {
							sh = append(sh, root{kind: 'v', idx: i, deep: true})
						}
					}
					for _, r := range sh {
						if e.shared[cl] == nil {
							e.shared[cl] = map[root]bool{}
						}
						if !e.shared[cl][r] {
							e.shared[cl][r] = true
							if e.reached[cl] {
								queue = append(queue, cl)
							}
						}
					}
					// used other than by calls the analysis sees: it runs as part of this function
					for _, use := range *mc.Referrers() {
						c, ok := use.(ssa.CallInstruction)
						if !ok {
							visit(cl, map[string]bool{}, nil)
							continue
						}
						if c.Common().Value == mc {
							continue
						}
						h := at[use]
						if h == nil {
							continue
						}
						h = cloneSet(h)
						if _, isGo := use.(*ssa.Go); isGo {
							h = map[string]bool{}
						}
						if op, name := e.lockOp(c.Common()); op == "once" {
							apply(op, name, h)
						}
						if callee := c.Common().StaticCallee(); callee == nil || !e.p.IsRepoFunc(callee) {
							visit(cl, h, nil)
						}
					}
					continue
				}
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := ins.(*ssa.Go); isGo {
					held = map[string]bool{}
				}
				if op, name := e.lockOp(c.Common()); op == "once" {
					if f, ok := c.Common().Args[1].(*ssa.Function); ok && f.Blocks != nil {
						h := cloneSet(held)
						apply(op, name, h)
						visit(f, h, nil)
					}
				}
				for _, callee := range e.callees(c.Common()) {
					var sh []root
					args := callArgs(c.Common(), callee)
					for i, a := range args {
						s := e.of(a)
						if e.isShared(fn, s) {
							sh = append(sh, root{kind: 'p', idx: i})
						}
						if e.isShared(fn, e.load(s)) {
							sh = append(sh, root{kind: 'p', idx: i, deep: true})
						}
					}
					visit(callee, held, sh)
				}
			}
		}
	}
	// the accesses
	for fn := range e.reached {
		at, _ := e.locksets(fn, e.entry[fn])
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if held := at[ins]; held != nil {
					e.accesses(fn, ins, held)
				}
			}
		}
	}
}

// place names the memory a value was read from, or an address leads to.
func (e *effects) place(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Global:
		return strings.ReplaceAll(v.String(), modPath+"/", "")
	case *ssa.FieldAddr:
		st := derefType(v.X.Type())
		u, ok := st.Underlying().(*types.Struct)
		if !ok {
			return ""
		}
		name := types.TypeString(st, nil)
		if _, isN := st.(*types.Named); !isN {
			// a field of an unnamed struct belongs to what holds it
			if p := e.place(v.X); p != "" {
				name = p
			}
		}
		return strings.ReplaceAll(name, modPath+"/", "") + "." + u.Field(v.Field).Name()
	case *ssa.Field:
		st := v.X.Type()
		if u, ok := st.Underlying().(*types.Struct); ok {
			return strings.ReplaceAll(types.TypeString(st, nil), modPath+"/", "") + "." + u.Field(v.Field).Name()
		}
	case *ssa.IndexAddr:
		return e.place(v.X)
	case *ssa.UnOp:
		return e.place(v.X)
	case *ssa.Slice:
		return e.place(v.X)
	case *ssa.ChangeType:
		return e.place(v.X)
	case *ssa.MakeInterface:
		return e.place(v.X)
	case *ssa.Lookup:
		return e.place(v.X)
	case *ssa.Extract:
		return e.place(v.Tuple)
	case *ssa.Phi:
		for _, x := range v.Edges {
			if p := e.place(x); p != "" {
				return p
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return e.place(v.Call.Args[0])
		}
		if fn := v.Call.StaticCallee(); fn != nil {
			return "what " + e.p.FuncName(fn) + " returns"
		}
	case *ssa.FreeVar:
		for _, b := range bindingsOf(v) {
			return e.place(b)
		}
		return v.Name()
	case *ssa.Parameter:
		return "the argument " + v.Name() + " of " + e.p.FuncName(v.Parent())
	}
	return ""
}

var libWrites = map[string]int{
	"sort.Slice": 0, "sort.SliceStable": 0, "sort.Strings": 0, "sort.Ints": 0, "sort.Float64s": 0, "sort.Sort": 0, "sort.Stable": 0,
	"slices.Sort": 0, "slices.SortFunc": 0, "slices.SortStableFunc": 0, "slices.Reverse": 0, "slices.Delete": 0, "slices.Insert": 0,
	"slices.Compact": 0, "maps.Copy": 0, "maps.DeleteFunc": 0,
	"(*bytes.Buffer).Write": 0, "(*bytes.Buffer).WriteString": 0, "(*bytes.Buffer).WriteByte": 0, "(*bytes.Buffer).Reset": 0,
	"(*bytes.Buffer).Read": 0, "(*strings.Builder).WriteString": 0, "(*strings.Builder).WriteByte": 0, "(*strings.Builder).Reset": 0,
}

func (e *effects) accesses(fn *ssa.Function, ins ssa.Instruction, held map[string]bool) {
	note := func(v ssa.Value, write bool) {
		s := e.of(v)
		if !e.isShared(fn, s) {
			return
		}
		p := e.place(v)
		if p == "" {
			p = "memory reached in " + e.p.FuncName(fn)
		}
		e.acc = append(e.acc, access{p, write, held, ins.Pos(), fn, s})
	}
	switch i := ins.(type) {
	case *ssa.Store:
		note(i.Addr, true)
	case *ssa.MapUpdate:
		note(i.Map, true)
	case *ssa.UnOp:
		if i.Op == token.MUL {
			note(i.X, false)
		}
	case *ssa.Lookup:
		note(i.X, false)
	case *ssa.Range:
		note(i.X, false)
	case *ssa.Call:
		c := &i.Call
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear", "copy":
				note(c.Args[0], true)
			case "append":
				if !zeroCap(c.Args[0]) {
					note(c.Args[0], true)
				}
			}
			return
		}
		if f := c.StaticCallee(); f != nil {
			if n, ok := libWrites[libName(f)]; ok && n < len(c.Args) {
				note(c.Args[n], true)
			}
		}
	}
}

// zeroCap: a slice cut so that appending to it copies.
func zeroCap(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil
}

func (e *effects) judge() {
	byPlace := map[string][]access{}
	for _, a := range e.acc {
		byPlace[a.place] = append(byPlace[a.place], a)
	}
	var places []string
	for p := range byPlace {
		places = append(places, p)
	}
	sort.Strings(places)
	for _, p := range places {
		var common map[string]bool
		written := false
		for _, a := range byPlace[p] {
			written = written || a.write
		}
		if !written {
			continue
		}
		e.rep.Count("places written", 1)
		for _, a := range byPlace[p] {
			l := map[string]bool{}
			for k := range a.locks {
				if base := strings.TrimSuffix(k, "/r"); base != k && (!a.write || a.locks[base]) {
					l[base] = true
				}
			}
			common = meet(common, l)
		}
		if len(common) > 0 {
			continue
		}
		// name the access with the fewest locks, writes first
		best := byPlace[p][0]
		for _, a := range byPlace[p] {
			if len(a.locks) < len(best.locks) || len(a.locks) == len(best.locks) && (a.write && !best.write || a.write == best.write && a.pos < best.pos) {
				best = a
			}
		}
		what := "read"
		if best.write {
			what = "written"
		}
		e.rep.Violate("S01-shared", p, e.p.Pos(best.pos), "%s is written while pages are made, and %s in %s without a lock all requests hold there: two requests at once can break it", p, what, e.p.FuncName(best.fn))
	}
}


// deadlocks checks that no request waits for a lock it holds itself, and that locks taken are given back.
func (e *effects) deadlocks() {
	// which locks a function may take, itself or in what it runs
	may := map[*ssa.Function]map[string]bool{}
	for changed := true; changed; {
		changed = false
		for fn := range e.reached {
			if may[fn] == nil {
				may[fn] = map[string]bool{}
			}
			add := func(l string) {
				if l != "" && !may[fn][l] {
					may[fn][l] = true
					changed = true
				}
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					switch i := ins.(type) {
					case *ssa.MakeClosure:
						for l := range may[i.Fn.(*ssa.Function)] {
							add(l)
						}
					case *ssa.Call:
						switch op, name := e.lockOp(&i.Call); op {
						case "lock", "once":
							add(name)
						}
						for _, c := range e.callees(&i.Call) {
							for l := range may[c] {
								add(l)
							}
						}
					}
				}
			}
		}
	}
	for fn := range e.reached {
		at, _ := e.locksets(fn, map[string]bool{})
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				takes := map[string]bool{}
				if op, name := e.lockOp(&call.Call); op == "lock" {
					takes[name] = true
				}
				for _, c := range e.callees(&call.Call) {
					for l := range may[c] {
						takes[l] = true
					}
				}
				for _, a := range call.Call.Args {
					if mc, ok := a.(*ssa.MakeClosure); ok {
						for l := range may[mc.Fn.(*ssa.Function)] {
							takes[l] = true
						}
					}
				}
				for l := range takes {
					// two objects of one type have two locks, so only the locks of the package are compared
					if at[ins][l] && !strings.Contains(l, ")") && e.globalLock(l) {
						e.rep.Violate("S01-deadlock", l, e.p.Pos(ins.Pos()), "%s waits here for the lock %s, which it already holds", e.p.FuncName(fn), l)
					}
				}
			}
		}
		e.leftHeld(fn)
	}
}

func (e *effects) globalLock(name string) bool {
	for _, pkg := range e.p.Pkgs {
		if strings.HasPrefix(name, pkg.PkgPath+".") {
			rest := name[len(pkg.PkgPath)+1:]
			if !strings.Contains(rest, ".") {
				v, ok := pkg.Types.Scope().Lookup(rest).(*types.Var)
				return ok && v != nil && !strings.Contains(v.Type().String(), "Once")
			}
		}
	}
	return false
}

// leftHeld finds a path through a function that both takes and gives back a lock on which it is not given back.
func (e *effects) leftHeld(fn *ssa.Function) {
	locks, unlocks := map[string]bool{}, map[string]bool{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				switch op, name := e.lockOp(c.Common()); op {
				case "lock", "rlock":
					locks[name] = true
				case "unlock", "runlock":
					unlocks[name] = true
				}
			}
		}
	}
	for l := range locks {
		if l == "" || !unlocks[l] {
			continue
		}
		// states: held or not, given back when the function returns or not
		type state struct {
			b              *ssa.BasicBlock
			held, deferred bool
		}
		seen := map[state]bool{}
		work := []state{{b: fn.Blocks[0]}}
		for len(work) > 0 {
			s := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[s] {
				continue
			}
			seen[s] = true
			for _, ins := range s.b.Instrs {
				switch i := ins.(type) {
				case *ssa.Call:
					switch op, name := e.lockOp(&i.Call); {
					case name != l:
					case op == "lock", op == "rlock":
						s.held = true
					case op == "unlock", op == "runlock":
						s.held = false
					}
				case *ssa.Defer:
					if op, name := e.lockOp(&i.Call); name == l && (op == "unlock" || op == "runlock") {
						s.deferred = true
					}
					for _, c := range e.callees(&i.Call) {
						if e.unlocks(c)[l] {
							s.deferred = true
						}
					}
				case *ssa.Return:
					if s.held && !s.deferred {
						e.rep.Violate("S01-held", l, e.p.Pos(fn.Pos()), "%s can return without giving back the lock %s", e.p.FuncName(fn), l)
					}
				}
			}
			for _, n := range s.b.Succs {
				work = append(work, state{n, s.held, s.deferred})
			}
		}
	}
}
