package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	htmltemplate "html/template"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// S02: the page templates fit the data they are executed with. main is analysed up to where it serves; which
// template texts make up which page, which request function answers which route and which template it executes with
// what follows from the code. Each page is then type checked against the type of its data.

func init() {
	register("S02", pageTemplates)
}

const tmplPkg = "html/template"

type tmplExec struct {
	id   string // set/name of the template executed
	data types.Type
	at   string
}

type tmplRun struct {
	*objRun
	files  map[string]string // text symbol -> file
	text   map[string]string // text symbol -> content
	routes map[string]Val
	execs  map[string]tmplExec
	lost   bool // an execution whose template is not known
	lostD  map[string]types.Type
	served []*State
	funcs  map[string]map[string]Val // set -> functions
	fnSt   *State
}

func tmplID(v Val) (set, name string, ok bool) {
	s, is := v.(VSym)
	if !is || !strings.HasPrefix(s.ID, "g:tmpl/") {
		return "", "", false
	}
	set, name, ok = strings.Cut(strings.TrimPrefix(s.ID, "g:tmpl/"), "/")
	return
}

func newTmplRun(p *Program, rep *Report) *tmplRun {
	r := &tmplRun{objRun: newObjRun(p, rep, "cmd/server", "S02"), files: map[string]string{}, text: map[string]string{},
		routes: map[string]Val{}, execs: map[string]tmplExec{}, lostD: map[string]types.Type{}, funcs: map[string]map[string]Val{}}
	r.KeepWritten, r.Ages = true, 40
	pkg := p.Pkg("cmd/server")
	srv := p.relSSA("cmd/server")
	// what is not of this package is not looked at
	leaf := func(c *Call) []Outcome {
		res := c.Sig.Results()
		var t VTuple
		for i := 0; i < res.Len(); i++ {
			rt := res.At(i).Type()
			switch {
			case isErrorType(rt):
				t.E = append(t.E, VNil{})
			default:
				r.nCall++
				t.E = append(t.E, VSym{ID: fmt.Sprintf("g:leaf/%d", r.nCall), Cls: "nonnil", T: rt})
			}
		}
		if len(t.E) == 1 {
			return one(c.St, t.E[0])
		}
		return one(c.St, t)
	}
	model := func(c *Call) ([]Outcome, bool) {
		if c.Callee == nil {
			if c.Method != nil || c.FnVal == nil {
				return leaf(c), true
			}
			return nil, false
		}
		k := fnKey(c.Callee)
		if out, ok := r.templateCall(k, c); ok {
			return out, true
		}
		if k == "flag.Parse" {
			return one(c.St, VTuple{}), true
		}
		if k == "os.Exit" || strings.HasPrefix(k, "log.Fatal") {
			return nil, true
		}
		if m := c.Callee.Signature.Recv(); m != nil && len(c.Args) >= 2 {
			// routes
			last := c.Args[len(c.Args)-1]
			if ms := ginRoute.FindStringSubmatch(k); ms != nil {
				path, ok := asStr(c.St.resolve(c.Args[1]))
				if g, is := c.St.resolve(c.Args[0]).(VSym); is && ok {
					if pre, in := strings.CutPrefix(g.ID, "g:group/"); in {
						path = joinRoute(pre, path)
					}
				}
				if ok {
					h := c.St.resolve(last)
					if l, isL := r.elemsOf(c.St, h).(VTuple); isL && len(l.E) > 0 {
						h = l.E[len(l.E)-1]
					}
					c.St.Mon["route:"+path] = h
				}
				return leaf(c), true
			}
		}
		if strings.HasSuffix(k, "gin.RouterGroup).Group") {
			path, ok := asStr(c.St.resolve(c.Args[1]))
			if g, is := c.St.resolve(c.Args[0]).(VSym); is && ok {
				if pre, in := strings.CutPrefix(g.ID, "g:group/"); in {
					path = joinRoute(pre, path)
				}
			}
			if ok {
				return one(c.St, VSym{ID: "g:group/" + path, Cls: "nonnil", T: c.Sig.Results().At(0).Type()}), true
			}
		}
		if c.Callee.Name() == "Serve" || c.Callee.Name() == "Run" || c.Callee.Name() == "ListenAndServe" {
			r.served = append(r.served, c.St.clone())
			return leaf(c), true
		}
		if p.IsRepoFunc(c.Callee) && c.Callee.Pkg == srv || c.Callee.Parent() != nil && p.IsRepoFunc(c.Callee) {
			return nil, false
		}
		if strings.HasPrefix(k, "strings.") || strings.HasPrefix(k, "fmt.Errorf") || strings.HasPrefix(k, "slices.") || strings.HasPrefix(k, "maps.") {
			return nil, false
		}
		return leaf(c), true
	}
	r.OnCall = model
	r.InitCall = func(c *Call) ([]Outcome, bool) { return leaf(c), true }
	r.ensureGlobals(srv)
	// embedded texts
	for _, f := range pkg.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok || len(vs.Names) != 1 {
					continue
				}
				for _, doc := range []*ast.CommentGroup{vs.Doc, g.Doc} {
					if doc == nil {
						continue
					}
					for _, c := range doc.List {
						pat, ok := strings.CutPrefix(c.Text, "//go:embed ")
						if !ok {
							continue
						}
						pat = strings.Trim(strings.TrimSpace(pat), "\"`")
						dir := filepath.Dir(p.Fset.Position(f.Pos()).Filename)
						b, err := os.ReadFile(filepath.Join(dir, pat))
						if err != nil {
							continue
						}
						gl, _ := srv.Members[vs.Names[0].Name].(*ssa.Global)
						if gl == nil || derefType(gl.Type()).Underlying() != types.Typ[types.String] {
							continue
						}
						id := "g:embed/" + pat
						r.files[id], r.text[id] = filepath.Join("cmd/server", pat), string(b)
						r.Base["g:"+gl.RelString(nil)] = &Object{Kind: "global", Pre: true, T: derefType(gl.Type()), F: map[string]Val{"": VSym{ID: id, T: types.Typ[types.String]}}}
					}
				}
			}
		}
	}
	return r
}

var ginRoute = regexp.MustCompile(`gin-gonic/gin\.(?:RouterGroup|Engine)\)\.(GET|POST|HEAD|PUT|PATCH|DELETE|OPTIONS|Any)$`)

func joinRoute(a, b string) string {
	if b == "" {
		return a
	}
	return strings.TrimSuffix(a, "/") + "/" + strings.TrimPrefix(b, "/")
}

// templateCall models the template package: which texts are parsed under which names.
func (r *tmplRun) templateCall(k string, c *Call) ([]Outcome, bool) {
	m, ok := strings.CutPrefix(k, "(*"+tmplPkg+".Template).")
	if !ok {
		switch k {
		case tmplPkg + ".New":
			name, ok := asStr(c.St.resolve(c.Args[0]))
			if !ok {
				return nil, false
			}
			n := 0
			if v, ok := asIntVal(c.St.Mon["tmplSets"]); ok {
				n = int(v)
			}
			n++
			c.St.Mon["tmplSets"] = VConst{constant.MakeInt64(int64(n)), types.Typ[types.Int]}
			return one(c.St, r.tmpl(c, fmt.Sprint(n), name)), true
		case tmplPkg + ".Must":
			return one(c.St, c.St.resolve(c.Args[0])), true
		}
		return nil, false
	}
	recv := c.St.resolve(c.Args[0])
	set, name, ok := tmplID(recv)
	if !ok {
		if m == "Execute" || m == "ExecuteTemplate" {
			at := r.p.Pos(c.Site.Pos())
			if _, isNil := recv.(VNil); isNil {
				r.rep.Violate("S02-page", at, at, "the template executed here was never parsed for some route")
				return nil, true
			}
			r.lost = true
			if t := dynType(c.St.resolve(c.Args[len(c.Args)-1])); t != nil {
				r.lostD[at] = t
			}
			return one(c.St, VNil{}), true
		}
		return nil, false
	}
	errT := c.Sig.Results()
	_ = errT
	switch m {
	case "New":
		n, ok := asStr(c.St.resolve(c.Args[1]))
		if !ok {
			return nil, false
		}
		return one(c.St, r.tmpl(c, set, n)), true
	case "Funcs":
		l, _ := c.St.Mon["tmplFuncs:"+set].(VTuple)
		c.St.Mon["tmplFuncs:"+set] = VTuple{E: append(append([]Val(nil), l.E...), c.St.resolve(c.Args[1]))}
		return one(c.St, recv), true
	case "Option", "Delims":
		return one(c.St, recv), true
	case "Parse":
		c.St.Mon["tmplDef:"+set+"/"+name] = c.St.resolve(c.Args[1])
		return one(c.St, VTuple{E: []Val{recv, VNil{}}}), true
	case "Lookup":
		n, ok := asStr(c.St.resolve(c.Args[1]))
		if !ok {
			return nil, false
		}
		return one(c.St, r.tmpl(c, set, n)), true
	case "Clone":
		n := 0
		if v, ok := asIntVal(c.St.Mon["tmplSets"]); ok {
			n = int(v)
		}
		n++
		c.St.Mon["tmplSets"] = VConst{constant.MakeInt64(int64(n)), types.Typ[types.Int]}
		for k, v := range c.St.Mon {
			if rest, ok := strings.CutPrefix(k, "tmplDef:"+set+"/"); ok {
				c.St.Mon[fmt.Sprintf("tmplDef:%d/%s", n, rest)] = v
			}
			if k == "tmplFuncs:"+set {
				c.St.Mon[fmt.Sprintf("tmplFuncs:%d", n)] = v
			}
		}
		return one(c.St, VTuple{E: []Val{r.tmpl(c, fmt.Sprint(n), name), VNil{}}}), true
	case "Name":
		return one(c.St, constStr(name)), true
	case "Execute", "ExecuteTemplate":
		at := r.p.Pos(c.Site.Pos())
		if m == "ExecuteTemplate" {
			n, ok := asStr(c.St.resolve(c.Args[2]))
			if !ok {
				r.lost = true
				return one(c.St, VNil{}), true
			}
			name = n
		}
		t := dynType(c.St.resolve(c.Args[len(c.Args)-1]))
		r.execs[set+"/"+name+"@"+at] = tmplExec{id: set + "/" + name, data: t, at: at}
		fail := c.St.clone()
		r.nCall++
		return []Outcome{{St: c.St, V: VNil{}}, {St: fail, V: VSym{ID: fmt.Sprintf("g:execErr/%d", r.nCall), Cls: "nonnil", T: c.Sig.Results().At(0).Type()}}}, true
	}
	return nil, false
}

func dynType(v Val) types.Type {
	switch v := v.(type) {
	case VIface:
		return v.Dyn
	case VSym:
		if _, isI := v.T.Underlying().(*types.Interface); !isI {
			return v.T
		}
	}
	return nil
}

func (r *tmplRun) tmpl(c *Call, set, name string) Val {
	var t types.Type
	if c.Sig.Results().Len() > 0 {
		t = c.Sig.Results().At(0).Type()
	}
	return VSym{ID: "g:tmpl/" + set + "/" + name, Cls: "nonnil", T: t}
}

func pageTemplates(p *Program, rep *Report) {
	rep.Rule = "every route of main, the request function answering it, the template it executes and the texts that template consists of; every field, method, function, comparison, loop and sub-template used in them against the type of the data; every link of a page against the routes; html/template's own context analysis of every page"
	srv := p.relSSA("cmd/server")
	if srv == nil || srv.Func("main") == nil {
		rep.Violate("S02-missing", "cmd/server", "-", "the package cmd/server or its main function is missing")
		return
	}
	r := newTmplRun(p, rep)
	mainFn := srv.Func("main")
	r.callFn("main", mainFn, newState())
	if len(r.served) == 0 {
		r.bad("S02-construct", "main", mainFn, "no path of main was found on which the server is started")
		return
	}
	st := r.served[0]
	var paths []string
	for k := range st.Mon {
		if path, ok := strings.CutPrefix(k, "route:"); ok {
			paths = append(paths, path)
		}
	}
	sort.Strings(paths)
	rep.Count("routes analysed", len(paths))
	for k, v := range st.Mon {
		set, ok := strings.CutPrefix(k, "tmplFuncs:")
		if !ok {
			continue
		}
		r.funcs[set] = map[string]Val{}
		for _, m := range v.(VTuple).E {
			vm, ok := st.resolve(m).(VMap)
			if !ok {
				continue
			}
			kv, ok := r.mapEntries(st, vm)
			if !ok {
				continue
			}
			for _, e := range kv {
				if n, ok := asStr(st.resolve(e[0])); ok {
					r.funcs[set][n] = st.resolve(e[1])
				}
			}
		}
	}
	r.fnSt = st
	for _, path := range paths {
		h := st.Mon["route:"+path]
		f, ok := unwrapIface(h).(VFunc)
		if !ok || f.Fn.Blocks == nil || !p.IsRepoFunc(f.Fn) {
			continue
		}
		before := len(r.execs)
		s := st.clone()
		var args []Val
		for i, prm := range f.Fn.Params {
			args = append(args, in(fmt.Sprintf("req.%d", i), prm.Type()))
		}
		for _, x := range r.run(f.Fn, args, f.Bind, s) {
			_ = x
		}
		rep.Count("request functions analysed", 1)
		if len(r.execs) > before {
			rep.Site("route %s", path)
		}
	}
	// pages
	defs := map[string]map[string]string{} // set -> name -> text symbol
	for k, v := range st.Mon {
		id, ok := strings.CutPrefix(k, "tmplDef:")
		if !ok {
			continue
		}
		set, name, _ := strings.Cut(id, "/")
		if defs[set] == nil {
			defs[set] = map[string]string{}
		}
		sym, _ := v.(VSym)
		if r.text[sym.ID] == "" {
			if s, ok := asStr(v); ok {
				sym.ID = "g:text/" + id
				r.files[sym.ID], r.text[sym.ID] = "cmd/server template "+name, s
			} else {
				r.bad("S02-construct", name, mainFn, "the text parsed as template %s is not known: %s", name, valName(v))
				continue
			}
		}
		defs[set][name] = sym.ID
	}
	if r.lost {
		// it may be any of them
		for set, d := range defs {
			for name := range d {
				for at, t := range r.lostD {
					if strings.HasPrefix(name, "page") {
						r.execs[set+"/"+name+"@"+at] = tmplExec{id: set + "/" + name, data: t, at: at}
					}
				}
			}
		}
	}
	var ids []string
	for k := range r.execs {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	for _, k := range ids {
		x := r.execs[k]
		set, name, _ := strings.Cut(x.id, "/")
		r.page(set, name, defs[set], x, paths)
	}
	r.done()
	rep.Floor("routes analysed", 5)
	rep.Floor("pages analysed", 4)
	rep.Floor("template actions analysed", 100)
}

// page checks one template with everything it consists of.
func (r *tmplRun) page(set, name string, defs map[string]string, x tmplExec, routes []string) {
	c := &tmplCheck{r: r, set: set, trees: map[string]*parse.Tree{}, file: map[string]string{}, text: map[string]string{}, seen: map[string]bool{}}
	funcs := map[string]any{}
	for n := range r.funcs[set] {
		funcs[n] = func(...any) (string, error) { return "", nil }
	}
	builtins := map[string]any{}
	for _, n := range strings.Fields("and call html index slice js len not or print printf println urlquery eq ge gt le lt ne") {
		builtins[n] = true
	}
	if defs[name] == "" {
		r.rep.Violate("S02-page", name, x.at, "the template %s executed here was never parsed", name)
		return
	}
	r.rep.Count("pages analysed", 1)
	var names []string
	for n := range defs {
		names = append(names, n)
	}
	sort.Strings(names)
	html := htmltemplate.New("").Funcs(funcs)
	good := true
	for _, n := range names {
		id := defs[n]
		t := parse.New(n)
		trees := map[string]*parse.Tree{}
		if _, err := t.Parse(r.text[id], "", "", trees, funcs, builtins); err != nil {
			r.rep.Violate("S02-parse", r.files[id], r.files[id], "the page %s cannot be parsed: %v", name, err)
			good = false
			continue
		}
		for tn, tr := range trees {
			if old := c.trees[tn]; old != nil && parse.IsEmptyTree(tr.Root) {
				continue
			}
			c.trees[tn], c.file[tn], c.text[tn] = tr, r.files[id], r.text[id]
		}
		if _, err := html.New(n).Parse(r.text[id]); err != nil {
			good = false
		}
		r.links(r.files[id], r.text[id], routes)
	}
	if !good {
		return
	}
	c.tree(name, tv{t: x.data, unk: x.data == nil}, nil)
	// the context analysis of html/template, on the texts alone: nothing in them is executed
	if _, err := html.New("$page").Parse(`{{if false}}{{template ` + strconv.Quote(name) + ` .}}{{end}}`); err == nil {
		if err := html.ExecuteTemplate(discard{}, "$page", nil); err != nil {
			r.rep.Violate("S02-escape", r.files[defs[name]], r.files[defs[name]], "html/template refuses the page %s: %v", name, err)
		}
	}
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

var (
	hrefRe   = regexp.MustCompile(`(?:href|src)\s*=\s*(?:"([^"]*)"|'([^']*)')`)
	actionRe = regexp.MustCompile(`\{\{.*?\}\}`)
)

// links compares the links of a template with the routes.
func (r *tmplRun) links(file, text string, routes []string) {
	for _, m := range hrefRe.FindAllStringSubmatch(text, -1) {
		link := m[1] + m[2]
		if !strings.HasPrefix(link, "/") {
			continue
		}
		r.rep.Count("links analysed", 1)
		plain, _, _ := strings.Cut(actionRe.ReplaceAllString(link, "\x00"), "#")
		plain, _, _ = strings.Cut(plain, "?")
		ok := false
		for _, route := range routes {
			ok = ok || routeMatches(route, plain)
		}
		if !ok {
			r.rep.Violate("S02-link", file+" "+link, file, "no route answers the link %s", link)
		}
	}
}

func routeMatches(route, link string) bool {
	a, b := strings.Split(route, "/"), strings.Split(link, "/")
	for i, s := range a {
		if strings.HasPrefix(s, "*") {
			return i < len(b)
		}
		if i >= len(b) {
			return false
		}
		if strings.HasPrefix(s, ":") {
			if b[i] == "" {
				return false
			}
			continue
		}
		if !strings.Contains(b[i], "\x00") {
			if s != b[i] {
				return false
			}
			continue
		}
		re := "^" + strings.ReplaceAll(regexp.QuoteMeta(b[i]), "\x00", ".*") + "$"
		if ok, err := regexp.MatchString(re, s); err != nil || !ok {
			return false
		}
	}
	return len(a) == len(b)
}

// tv is what is known of a value in a template.
type tv struct {
	t    types.Type
	unk  bool
	addr bool
	lit  constant.Value
	keys map[string]tv // a map with just these keys
	num  bool          // a number without a type
}

func (v tv) key() string {
	s := "?"
	if v.t != nil {
		s = v.t.String()
	}
	if v.keys != nil {
		var l []string
		for k, x := range v.keys {
			l = append(l, k+"="+x.key())
		}
		sort.Strings(l)
		s += "{" + strings.Join(l, ",") + "}"
	}
	return fmt.Sprint(s, v.unk, v.addr)
}

var unkV = tv{unk: true}

type tmplCheck struct {
	r     *tmplRun
	set   string
	trees map[string]*parse.Tree
	file  map[string]string
	text  map[string]string
	seen  map[string]bool
	cur   string
	vars  []tmplVar
	depth int
}

type tmplVar struct {
	name string
	v    tv
}

func (c *tmplCheck) bad(rule string, n parse.Node, f string, a ...any) {
	line := 1 + strings.Count(c.text[c.cur][:min(int(n.Position()), len(c.text[c.cur]))], "\n")
	at := fmt.Sprintf("%s:%d", c.file[c.cur], line)
	c.r.rep.Violate(rule, c.file[c.cur]+" "+n.String(), at, "%s: %s", n.String(), fmt.Sprintf(f, a...))
}

// tree checks one template with a given dot.
func (c *tmplCheck) tree(name string, dot tv, at parse.Node) {
	tr := c.trees[name]
	if tr == nil {
		c.bad("S02-template", at, "there is no template %s", name)
		return
	}
	k := name + " " + dot.key()
	if c.seen[k] || c.depth > 20 {
		return
	}
	c.seen[k] = true
	cur, vars := c.cur, c.vars
	c.cur, c.vars = name, []tmplVar{{"$", dot}}
	c.depth++
	c.node(tr.Root, dot)
	c.depth--
	c.cur, c.vars = cur, vars
}

func (c *tmplCheck) node(n parse.Node, dot tv) {
	switch n := n.(type) {
	case *parse.ListNode:
		if n == nil {
			return
		}
		for _, x := range n.Nodes {
			c.node(x, dot)
		}
	case *parse.ActionNode:
		c.r.rep.Count("template actions analysed", 1)
		v := c.pipe(n.Pipe, dot)
		if len(n.Pipe.Decl) == 0 && v.t != nil && !v.unk {
			switch derefType(v.t).Underlying().(type) {
			case *types.Chan, *types.Signature:
				if !c.prints(v.t) {
					c.bad("S02-print", n, "a %s cannot be printed", v.t)
				}
			}
		}
	case *parse.IfNode:
		c.branch(&n.BranchNode, dot, false)
	case *parse.WithNode:
		c.branch(&n.BranchNode, dot, true)
	case *parse.RangeNode:
		c.rangeNode(n, dot)
	case *parse.TemplateNode:
		v := tv{t: types.Typ[types.UntypedNil], unk: true}
		if n.Pipe != nil {
			v = c.pipe(n.Pipe, dot)
		}
		c.tree(n.Name, v, n)
	}
}

func (c *tmplCheck) prints(t types.Type) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "String")
	return o != nil
}

func (c *tmplCheck) branch(b *parse.BranchNode, dot tv, with bool) {
	mark := len(c.vars)
	c.r.rep.Count("template actions analysed", 1)
	v := c.pipe(b.Pipe, dot)
	inner := dot
	if with {
		inner = v
	}
	m2 := len(c.vars)
	c.node(b.List, inner)
	c.vars = c.vars[:m2]
	if b.ElseList != nil {
		c.node(b.ElseList, dot)
	}
	c.vars = c.vars[:mark]
}

func (c *tmplCheck) rangeNode(n *parse.RangeNode, dot tv) {
	c.r.rep.Count("template actions analysed", 1)
	mark := len(c.vars)
	decl, assign := n.Pipe.Decl, n.Pipe.IsAssign
	p := *n.Pipe
	p.Decl = nil
	v := c.pipe(&p, dot)
	key, elem := unkV, unkV
	if v.keys == nil && !v.unk && v.t != nil {
		t := v.t
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		intV := tv{t: types.Typ[types.Int]}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			key, elem = intV, tv{t: u.Elem(), addr: true}
		case *types.Array:
			key, elem = intV, tv{t: u.Elem(), addr: v.addr}
		case *types.Map:
			key, elem = tv{t: u.Key()}, tv{t: u.Elem()}
		case *types.Chan:
			key, elem = intV, tv{t: u.Elem()}
		case *types.Signature:
		case *types.Interface:
		case *types.Basic:
			if u.Info()&types.IsInteger == 0 {
				c.bad("S02-range", n.Pipe, "a %s cannot be iterated", v.t)
			}
			elem, key = tv{t: v.t}, tv{t: v.t}
		default:
			c.bad("S02-range", n.Pipe, "a %s cannot be iterated", v.t)
		}
	}
	set := func(i int, x tv) {
		name := decl[i].Ident[0]
		if assign {
			c.assign(name, x)
			return
		}
		c.vars = append(c.vars, tmplVar{name, x})
	}
	switch len(decl) {
	case 1:
		set(0, elem)
	case 2:
		set(0, key)
		set(1, elem)
	}
	m2 := len(c.vars)
	c.node(n.List, elem)
	c.vars = c.vars[:m2]
	if n.ElseList != nil {
		c.node(n.ElseList, dot)
	}
	c.vars = c.vars[:mark]
}

func (c *tmplCheck) assign(name string, v tv) {
	for i := len(c.vars) - 1; i >= 0; i-- {
		if c.vars[i].name == name {
			if c.vars[i].v.key() != v.key() {
				c.vars = append([]tmplVar(nil), c.vars...)
				c.vars[i].v = unkV
				if v.t != nil && v.t == v.t && types.Identical(orNil(c.vars[i].v.t), orNil(v.t)) {
					c.vars[i].v = tv{t: v.t}
				}
			}
			return
		}
	}
}

func orNil(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.UntypedNil]
	}
	return t
}

func (c *tmplCheck) pipe(p *parse.PipeNode, dot tv) tv {
	if p == nil {
		return unkV
	}
	var v tv
	for i, cmd := range p.Cmds {
		var fin *tv
		if i > 0 {
			fin = &v
		}
		v = c.command(cmd, dot, fin)
	}
	for _, d := range p.Decl {
		if p.IsAssign {
			c.assign(d.Ident[0], v)
		} else {
			c.vars = append(c.vars, tmplVar{d.Ident[0], v})
		}
	}
	return v
}

func (c *tmplCheck) command(cmd *parse.CommandNode, dot tv, fin *tv) tv {
	first := cmd.Args[0]
	args := cmd.Args[1:]
	plain := func() {
		if len(args) > 0 || fin != nil {
			c.bad("S02-args", cmd, "something that is not a function or a method is given arguments")
		}
	}
	switch n := first.(type) {
	case *parse.FieldNode:
		return c.fields(dot, n.Ident, cmd, args, dot, fin)
	case *parse.ChainNode:
		return c.fields(c.arg(n.Node, dot), n.Field, cmd, args, dot, fin)
	case *parse.VariableNode:
		v := c.variable(n.Ident[0])
		if len(n.Ident) == 1 {
			plain()
			return v
		}
		return c.fields(v, n.Ident[1:], cmd, args, dot, fin)
	case *parse.IdentifierNode:
		return c.function(n.Ident, cmd, args, dot, fin)
	}
	plain()
	return c.arg(first, dot)
}

func (c *tmplCheck) variable(name string) tv {
	for i := len(c.vars) - 1; i >= 0; i-- {
		if c.vars[i].name == name {
			return c.vars[i].v
		}
	}
	return unkV
}

// arg gives the value of an operand.
func (c *tmplCheck) arg(n parse.Node, dot tv) tv {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return unkV
	case *parse.FieldNode:
		return c.fields(dot, n.Ident, n, nil, dot, nil)
	case *parse.VariableNode:
		v := c.variable(n.Ident[0])
		if len(n.Ident) == 1 {
			return v
		}
		return c.fields(v, n.Ident[1:], n, nil, dot, nil)
	case *parse.PipeNode:
		return c.pipe(n, dot)
	case *parse.IdentifierNode:
		return c.function(n.Ident, n, nil, dot, nil)
	case *parse.ChainNode:
		return c.fields(c.arg(n.Node, dot), n.Field, n, nil, dot, nil)
	case *parse.StringNode:
		return tv{t: types.Typ[types.String], lit: constant.MakeString(n.Text)}
	case *parse.BoolNode:
		return tv{t: types.Typ[types.Bool], lit: constant.MakeBool(n.True)}
	case *parse.NumberNode:
		v := tv{num: true, t: types.Typ[types.Int]}
		switch {
		case n.IsInt:
			v.lit = constant.MakeInt64(n.Int64)
		case n.IsUint:
			v.lit = constant.MakeUint64(n.Uint64)
		case n.IsFloat:
			v.t, v.lit = types.Typ[types.Float64], constant.MakeFloat64(n.Float64)
		default:
			return unkV
		}
		if n.IsFloat && strings.ContainsAny(n.Text, ".eEpP") && !strings.HasPrefix(n.Text, "0x") {
			v.t = types.Typ[types.Float64]
		}
		return v
	}
	return unkV
}

// fields follows a chain of fields and methods; the last may take arguments.
func (c *tmplCheck) fields(v tv, idents []string, n parse.Node, args []parse.Node, dot tv, fin *tv) tv {
	for i, id := range idents {
		last := i == len(idents)-1
		var a []tv
		hasArgs := false
		if last {
			for _, x := range args {
				a = append(a, c.arg(x, dot))
			}
			if fin != nil {
				a = append(a, *fin)
			}
			hasArgs = len(a) > 0
		}
		v = c.field(v, id, n, a, hasArgs)
	}
	return v
}

func (c *tmplCheck) field(v tv, id string, n parse.Node, args []tv, hasArgs bool) tv {
	c.r.rep.Count("fields and methods analysed", 1)
	if v.keys != nil {
		x, ok := v.keys[id]
		if !ok {
			c.bad("S02-field", n, "nothing called %s is passed to this template", id)
			return unkV
		}
		if hasArgs {
			c.bad("S02-args", n, "%s is not a method", id)
		}
		return x
	}
	if v.unk || v.t == nil {
		return unkV
	}
	t := v.t
	iface, isI := t.Underlying().(*types.Interface)
	obj, index, _ := types.LookupFieldOrMethod(t, v.addr, nil, id)
	if obj == nil {
		// unexported names need their package; they cannot be used anyway
		if isI {
			if iface.NumMethods() == 0 || c.implementersHave(iface, id) {
				return unkV
			}
		} else if m, ok := derefType(t).Underlying().(*types.Map); ok {
			if b, ok := m.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				if hasArgs {
					c.bad("S02-args", n, "%s is not a method", id)
				}
				return tv{t: m.Elem()}
			}
		}
		why := "has no field or method " + id
		if index != nil {
			why = "has more than one field or method " + id + ", or it needs a pointer"
		}
		c.bad("S02-field", n, "%s %s", types.TypeString(t, shortQual), why)
		return unkV
	}
	if !obj.Exported() {
		c.bad("S02-field", n, "%s of %s is not exported", id, types.TypeString(t, shortQual))
		return unkV
	}
	switch o := obj.(type) {
	case *types.Var:
		if hasArgs {
			c.bad("S02-args", n, "%s is a field and takes no arguments", id)
		}
		_, isP := t.Underlying().(*types.Pointer)
		return tv{t: o.Type(), addr: isP || v.addr || throughPointer(derefType(t), index)}
	case *types.Func:
		return c.callSig(o.Type().(*types.Signature), id, n, args)
	}
	return unkV
}

func shortQual(p *types.Package) string { return p.Name() }

func throughPointer(t types.Type, index []int) bool {
	for _, i := range index[:len(index)-1] {
		s, ok := derefType(t).Underlying().(*types.Struct)
		if !ok || i >= s.NumFields() {
			return false
		}
		t = s.Field(i).Type()
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return true
		}
	}
	return false
}

// implementersHave tells whether every type of the module with the interface has the name as well.
func (c *tmplCheck) implementersHave(i *types.Interface, id string) bool {
	n := 0
	for _, pkg := range c.r.p.Pkgs {
		sc := pkg.Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			pt := types.NewPointer(tn.Type())
			if !types.Implements(pt, i) {
				continue
			}
			n++
			if o, _, _ := types.LookupFieldOrMethod(pt, true, nil, id); o == nil {
				return false
			}
		}
	}
	return n > 0
}

// callSig checks the arguments of a method or function.
func (c *tmplCheck) callSig(s *types.Signature, name string, n parse.Node, args []tv) tv {
	np := s.Params().Len()
	if s.Variadic() {
		if len(args) < np-1 {
			c.bad("S02-args", n, "%s is given %d arguments and needs at least %d", name, len(args), np-1)
			return c.result(s, name, n)
		}
	} else if len(args) != np {
		c.bad("S02-args", n, "%s is given %d arguments and takes %d", name, len(args), np)
		return c.result(s, name, n)
	}
	for i, a := range args {
		var pt types.Type
		if s.Variadic() && i >= np-1 {
			pt = s.Params().At(np - 1).Type().(*types.Slice).Elem()
		} else {
			pt = s.Params().At(i).Type()
		}
		if !c.argOK(a, pt) {
			c.bad("S02-args", n, "argument %d of %s is a %s, not a %s", i+1, name, types.TypeString(a.t, shortQual), types.TypeString(pt, shortQual))
		}
	}
	return c.result(s, name, n)
}

func (c *tmplCheck) result(s *types.Signature, name string, n parse.Node) tv {
	res := s.Results()
	if res.Len() == 0 || res.Len() > 2 || res.Len() == 2 && !isErrorType(res.At(1).Type()) {
		c.bad("S02-args", n, "%s returns %d values, not one (and an error)", name, res.Len())
		return unkV
	}
	return tv{t: res.At(0).Type()}
}

func (c *tmplCheck) argOK(v tv, pt types.Type) bool {
	if v.unk || v.t == nil {
		return true
	}
	if i, ok := pt.Underlying().(*types.Interface); ok {
		if v.num || v.lit != nil {
			return i.NumMethods() == 0
		}
	}
	b, isB := pt.Underlying().(*types.Basic)
	if v.lit != nil && isB {
		info := b.Info()
		switch v.lit.Kind() {
		case constant.String:
			return info&types.IsString != 0
		case constant.Bool:
			return info&types.IsBoolean != 0
		}
		if info&(types.IsFloat|types.IsComplex) != 0 {
			return true
		}
		if info&types.IsInteger == 0 {
			return false
		}
		iv := constant.ToInt(v.lit)
		return iv.Kind() == constant.Int && representable(iv, b)
	}
	if v.lit != nil {
		_, isI := pt.Underlying().(*types.Interface)
		return isI
	}
	if types.AssignableTo(v.t, pt) {
		return true
	}
	if _, ok := v.t.Underlying().(*types.Interface); ok {
		return true // depends on what is in it
	}
	if p, ok := v.t.Underlying().(*types.Pointer); ok && types.AssignableTo(p.Elem(), pt) {
		return true
	}
	return v.addr && types.AssignableTo(types.NewPointer(v.t), pt)
}

func representable(v constant.Value, b *types.Basic) bool {
	bits := map[types.BasicKind]uint{types.Int8: 7, types.Int16: 15, types.Int32: 31, types.Uint8: 8, types.Uint16: 16, types.Uint32: 32}
	if b.Info()&types.IsUnsigned != 0 && constant.Sign(v) < 0 {
		return false
	}
	n, ok := bits[b.Kind()]
	return !ok || uint(constant.BitLen(v)) <= n
}

var builtinArgs = map[string][2]int{"and": {1, -1}, "or": {1, -1}, "not": {1, 1}, "len": {1, 1}, "index": {1, -1}, "slice": {1, 4}, "print": {0, -1}, "printf": {1, -1},
	"println": {0, -1}, "html": {0, -1}, "js": {0, -1}, "urlquery": {0, -1}, "call": {1, -1}, "eq": {2, -1}, "ne": {2, 2}, "lt": {2, 2}, "le": {2, 2}, "gt": {2, 2}, "ge": {2, 2}}

func (c *tmplCheck) function(name string, n parse.Node, args []parse.Node, dot tv, fin *tv) tv {
	var a []tv
	for _, x := range args {
		a = append(a, c.arg(x, dot))
	}
	if fin != nil {
		a = append(a, *fin)
	}
	if f, ok := c.r.funcs[c.set][name]; ok {
		return c.userFunc(f, name, n, a)
	}
	lim, ok := builtinArgs[name]
	if !ok {
		return unkV // not found: reported when parsing
	}
	if len(a) < lim[0] || lim[1] >= 0 && len(a) > lim[1] {
		c.bad("S02-args", n, "%s is given %d arguments", name, len(a))
		return unkV
	}
	boolV := tv{t: types.Typ[types.Bool]}
	switch name {
	case "eq", "ne", "lt", "le", "gt", "ge":
		k1 := cmpKind(a[0])
		for _, x := range a[1:] {
			k2 := cmpKind(x)
			if k1 == "" || k2 == "" {
				continue
			}
			switch {
			case k1 != k2 && !(k1+k2 == "intuint" || k1+k2 == "uintint"):
				c.bad("S02-compare", n, "a %s is compared with a %s", types.TypeString(a[0].t, shortQual), types.TypeString(x.t, shortQual))
			case name != "eq" && name != "ne" && (k1 == "bool" || k1 == "other"):
				c.bad("S02-compare", n, "values of type %s have no order", types.TypeString(a[0].t, shortQual))
			case k1 == "other" && !types.Comparable(a[0].t):
				c.bad("S02-compare", n, "values of type %s cannot be compared", types.TypeString(a[0].t, shortQual))
			}
		}
		return boolV
	case "not":
		return boolV
	case "len":
		if !a[0].unk && a[0].t != nil && a[0].keys == nil {
			t := a[0].t
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			switch u := t.Underlying().(type) {
			case *types.Slice, *types.Array, *types.Map, *types.Chan, *types.Interface:
			case *types.Basic:
				if u.Info()&types.IsString == 0 {
					c.bad("S02-args", n, "a %s has no length", types.TypeString(a[0].t, shortQual))
				}
			default:
				c.bad("S02-args", n, "a %s has no length", types.TypeString(a[0].t, shortQual))
			}
		}
		return tv{t: types.Typ[types.Int]}
	case "print", "printf", "println", "html", "js", "urlquery":
		if name == "printf" && !c.argOK(a[0], types.Typ[types.String]) {
			c.bad("S02-args", n, "the format of printf is not a string")
		}
		return tv{t: types.Typ[types.String]}
	case "index":
		return c.index(a, n)
	}
	return unkV
}

func (c *tmplCheck) index(a []tv, n parse.Node) tv {
	v := a[0]
	for _, i := range a[1:] {
		if v.unk || v.t == nil || v.keys != nil {
			return unkV
		}
		t := v.t
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		switch u := t.Underlying().(type) {
		case *types.Map:
			if !c.argOK(i, u.Key()) {
				c.bad("S02-args", n, "a %s is not a key of %s", types.TypeString(i.t, shortQual), types.TypeString(v.t, shortQual))
			}
			v = tv{t: u.Elem()}
		case *types.Slice:
			if k := cmpKind(i); k != "" && k != "int" && k != "uint" {
				c.bad("S02-args", n, "a %s is not an index", types.TypeString(i.t, shortQual))
			}
			v = tv{t: u.Elem(), addr: true}
		case *types.Array:
			v = tv{t: u.Elem(), addr: v.addr}
		case *types.Interface:
			return unkV
		case *types.Basic:
			if u.Info()&types.IsString == 0 {
				c.bad("S02-args", n, "a %s cannot be indexed", types.TypeString(v.t, shortQual))
			}
			v = tv{t: types.Typ[types.Uint8]}
		default:
			c.bad("S02-args", n, "a %s cannot be indexed", types.TypeString(v.t, shortQual))
			return unkV
		}
	}
	return v
}

// cmpKind is the class of values the comparison functions of templates tell apart.
func cmpKind(v tv) string {
	if v.unk || v.t == nil {
		return ""
	}
	switch u := v.t.Underlying().(type) {
	case *types.Interface:
		return ""
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return "bool"
		case i&types.IsString != 0:
			return "string"
		case i&types.IsUnsigned != 0:
			return "uint"
		case i&types.IsInteger != 0:
			return "int"
		case i&types.IsFloat != 0:
			return "float"
		case i&types.IsComplex != 0:
			return "complex"
		}
	}
	return "other"
}

// userFunc is a function given to the template.
func (c *tmplCheck) userFunc(f Val, name string, n parse.Node, args []tv) tv {
	var s *types.Signature
	if i, ok := f.(VIface); ok {
		s, _ = i.Dyn.Underlying().(*types.Signature)
	}
	if s == nil {
		return unkV
	}
	c.r.rep.Count("function calls analysed", 1)
	out := c.callSig(s, name, n, args)
	// maps made of the arguments
	m, ok := orNil(out.t).Underlying().(*types.Map)
	if !ok || !types.Identical(m.Key().Underlying(), types.Typ[types.String]) || !s.Variadic() || s.Params().Len() != 1 {
		return out
	}
	fv, ok := unwrapIface(f).(VFunc)
	if !ok {
		return out
	}
	st := c.r.fnSt.clone()
	anyT := s.Params().At(0).Type()
	var vals []Val
	syms := map[string]tv{}
	for i, a := range args {
		if a.lit != nil && a.lit.Kind() == constant.String {
			vals = append(vals, VIface{Dyn: types.Typ[types.String], V: VConst{a.lit, types.Typ[types.String]}})
			syms[vals[i].key()] = a
			continue
		}
		t := a.t
		if t == nil || a.unk {
			t = types.NewPointer(types.Typ[types.Int])
		}
		id := fmt.Sprintf("g:in/targ%d", i)
		v := VIface{Dyn: t, V: VSym{ID: id, T: t}}
		vals = append(vals, v)
		syms[v.key()] = a
	}
	sl := sliceOf(st, "targs", anyT, vals)
	var keys map[string]tv
	for _, x := range c.r.run(fv.Fn, []Val{sl}, fv.Bind, st) {
		if x.Panic {
			c.bad("S02-args", n, "%s panics with these arguments", name)
			continue
		}
		vm, ok := x.St.resolve(x.Rets[0]).(VMap)
		if !ok {
			return out
		}
		kv, ok := c.r.mapEntries(x.St, vm)
		if !ok || keys != nil {
			return out
		}
		keys = map[string]tv{}
		for _, e := range kv {
			k, ok := asStr(x.St.resolve(e[0]))
			if !ok {
				return out
			}
			v, ok := syms[x.St.resolve(e[1]).key()]
			if !ok {
				v = unkV
			}
			keys[k] = v
		}
	}
	if keys != nil {
		out.keys = keys
	}
	return out
}
