package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"regexp"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// W04: what the warning manager prints. Managers with up to three recorded warnings print into an unknown writer; the
// text is a sequence of constants and unknown texts, cut into lines and compared with the report specified.

func init() {
	register("W04", warningReport)
}

// sinkOf names what a writer value writes to.
func (r *objRun) sinkOf(st *State, v Val) string {
	v = st.resolve(v)
	if i, ok := v.(VIface); ok {
		v = st.resolve(i.V)
	}
	switch v := v.(type) {
	case VSym:
		if s, ok := st.Mon["through:"+v.ID]; ok {
			return strings.Trim(s.key(), `c:"`)
		}
		return v.ID
	case VPtr:
		if !global(v.Obj) && r.obj(st, v.Obj) != nil {
			return "local:" + v.Obj + "|" + v.Path
		}
		return v.key()
	}
	return ""
}

// text is what was written to a sink; the text of a local object stays with the object.
func (r *objRun) text(st *State, sink string) Content {
	var v Val = st.Mon["text:"+sink]
	if l, ok := strings.CutPrefix(sink, "local:"); ok {
		id, path, _ := strings.Cut(l, "|")
		if o := r.obj(st, id); o != nil {
			v = o.F[path+"!text"]
		}
	}
	s, _ := v.(VSeq)
	return s.C
}

func (r *objRun) setText(st *State, sink string, c Content) {
	if l, ok := strings.CutPrefix(sink, "local:"); ok {
		id, path, _ := strings.Cut(l, "|")
		r.mutObj(st, id).F[path+"!text"] = VSeq{Str: true, C: c}
		return
	}
	if len(c.Chunks) == 0 {
		delete(st.Mon, "text:"+sink)
		return
	}
	st.Mon["text:"+sink] = VSeq{Str: true, C: c}
}

func (r *objRun) put(st *State, sink string, c Content) {
	old := r.text(st, sink)
	for _, k := range c.Chunks {
		old = old.add(k)
	}
	r.setText(st, sink, old)
}

func contentOf(s VSeq) (Content, bool) { return s.C, !s.C.Map }

// formatted gives the text of a formatted write; ok is false if it is not known.
func (r *objRun) formatted(c *Call, verb bool, format string, args Val) (Content, bool) {
	var vals []Val
	switch s := c.St.resolve(args).(type) {
	case VNil:
	case VSlice:
		o := r.obj(c.St, s.Arr)
		if o == nil || s.N < 0 {
			return Content{}, false
		}
		for i := 0; i < s.N; i++ {
			vals = append(vals, o.F[fmt.Sprintf("[%d]", i)])
		}
	default:
		return Content{}, false
	}
	one := func(v Val, spec string) (Content, bool) {
		if v == nil {
			return Content{}, false
		}
		v = c.St.resolve(v)
		var dyn types.Type
		if i, ok := v.(VIface); ok {
			v, dyn = c.St.resolve(i.V), i.Dyn
		}
		if dyn != nil && (strings.HasSuffix(spec, "s") || strings.HasSuffix(spec, "v")) {
			if sel := r.P.SSA.MethodSets.MethodSet(dyn).Lookup(nil, "String"); sel != nil {
				fn := r.P.SSA.MethodValue(sel)
				cc := *c
				cc.Callee, cc.Args, cc.Sig = fn, []Val{v}, fn.Signature
				cc.Recv, cc.Method, cc.FnVal = nil, nil, nil
				outs := r.dispatch(&cc, nil)
				if len(outs) != 1 || outs[0].V == nil {
					return Content{}, false
				}
				v = c.St.resolve(outs[0].V)
			}
		}
		if k, ok := v.(VConst); ok {
			switch k.C.Kind() {
			case constant.String:
				return litContent(fmt.Sprintf(spec, constant.StringVal(k.C))), true
			case constant.Int:
				if n, exact := constant.Int64Val(k.C); exact {
					return litContent(fmt.Sprintf(spec, n)), true
				}
			}
			return Content{}, false
		}
		if spec != "%s" && spec != "%v" {
			return Content{}, false
		}
		q, ok := r.toSeq(c.St, v)
		if !ok || q.C.Map {
			return Content{}, false
		}
		return q.C, true
	}
	out := Content{}
	ai := 0
	if !verb {
		for i, v := range vals {
			t, ok := one(v, "%v")
			if !ok {
				return out, false
			}
			if i > 0 && format == "ln" {
				out = out.concat(litContent(" "))
			}
			out = out.concat(t)
		}
		if format == "ln" {
			out = out.concat(litContent("\n"))
		} else if len(vals) > 1 {
			return out, false // whether blanks come between depends on the types
		}
		return out, true
	}
	for _, p := range fmtPart.FindAllString(format, -1) {
		switch {
		case p[0] != '%':
			out = out.concat(litContent(p))
		case p == "%%":
			out = out.concat(litContent("%"))
		default:
			if ai >= len(vals) {
				return out, false
			}
			t, ok := one(vals[ai], p)
			if !ok {
				return out, false
			}
			ai++
			out = out.concat(t)
		}
	}
	return out, ai == len(vals)
}

var fmtPart = regexp.MustCompile(`(?s)[^%]+|%[-+# 0-9.]*[a-zA-Z%]`)

// split cuts a text at a constant separator; unknown parts do not contain it.
func splitContent(c Content, sep string) []Content {
	out := []Content{{}}
	for _, k := range c.Chunks {
		if !k.Lit {
			out[len(out)-1] = out[len(out)-1].add(k)
			continue
		}
		for i, p := range strings.Split(k.S, sep) {
			if i > 0 {
				out = append(out, Content{})
			}
			if p != "" {
				out[len(out)-1] = out[len(out)-1].concat(litContent(p))
			}
		}
	}
	return out
}

// textModel models writing of text and a few functions on texts.
func (r *objRun) textModel(c *Call) ([]Outcome, bool) {
	st := c.St
	written := VTuple{E: []Val{VTerm{Op: "written", T: types.Typ[types.Int]}, VNil{}}}
	if c.Callee == nil {
		if c.Method != nil && (c.Method.Name() == "Write" || c.Method.Name() == "WriteString") && len(c.Args) > 0 {
			if sink := r.sinkOf(st, c.Recv); sink != "" {
				if s, ok := r.toSeq(st, c.Args[len(c.Args)-1]); ok && !s.C.Map {
					r.put(st, sink, s.C)
					return one(st, written), true
				}
				st.Mon["unknownText"] = constBool(true)
				return one(st, written), true
			}
		}
		return nil, false
	}
	k := fnKey(c.Callee)
	arg := func(i int) Val { return st.resolve(c.Args[i]) }
	seq := func(i int) (Content, bool) {
		s, ok := r.toSeq(st, arg(i))
		return s.C, ok && !s.C.Map
	}
	str := func(c Content) Val {
		if len(c.Chunks) == 0 {
			return constStr("")
		}
		return VSeq{Str: true, C: c}
	}
	write := func(sink string, t Content, ok bool) ([]Outcome, bool) {
		if sink == "" {
			return nil, false
		}
		if !ok {
			st.Mon["unknownText"] = constBool(true)
		}
		r.put(st, sink, t)
		return one(st, written), true
	}
	switch k {
	case "fmt.Fprintf", "fmt.Printf", "fmt.Sprintf":
		i := 0
		sink := "stdout"
		if k == "fmt.Fprintf" {
			i, sink = 1, r.sinkOf(st, arg(0))
		}
		f, ok := asStr(arg(i))
		var t Content
		if ok {
			t, ok = r.formatted(c, true, f, c.Args[i+1])
		}
		if k == "fmt.Sprintf" {
			if !ok {
				return nil, false
			}
			return one(st, str(t)), true
		}
		return write(sink, t, ok)
	case "fmt.Fprintln", "fmt.Fprint", "fmt.Println", "fmt.Print", "fmt.Sprint", "fmt.Sprintln":
		i := 0
		sink := "stdout"
		if strings.HasPrefix(k, "fmt.F") {
			i, sink = 1, r.sinkOf(st, arg(0))
		}
		kind := ""
		if strings.HasSuffix(k, "ln") {
			kind = "ln"
		}
		t, ok := r.formatted(c, false, kind, c.Args[i])
		if strings.HasPrefix(k, "fmt.S") {
			if !ok {
				return nil, false
			}
			return one(st, str(t)), true
		}
		return write(sink, t, ok)
	case "io.WriteString", "(*os.File).WriteString", "(*os.File).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write", "(*strings.Builder).WriteString", "(*strings.Builder).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).Write":
		t, ok := seq(1)
		return write(r.sinkOf(st, arg(0)), t, ok)
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "(*bufio.Writer).WriteByte", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune", "(*bufio.Writer).WriteRune":
		n, ok := asInt(arg(1))
		outs, w := write(r.sinkOf(st, arg(0)), litContent(string(rune(n))), ok)
		if w && strings.HasSuffix(k, "WriteByte") {
			outs[0].V = VNil{}
		}
		return outs, w
	case "(*bytes.Buffer).String", "(*strings.Builder).String", "(*bytes.Buffer).Bytes":
		s := VSeq{Str: true, C: r.text(st, r.sinkOf(st, arg(0)))}
		if c.Callee.Name() == "Bytes" {
			s.Str, s.Arr = false, "?"
			return one(st, s), true
		}
		return one(st, str(s.C)), true
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		s := VSeq{Str: true, C: r.text(st, r.sinkOf(st, arg(0)))}
		if len(s.C.Chunks) == 0 {
			return one(st, constInt(0)), true
		}
		n := 0
		for _, k := range s.C.Chunks {
			if !k.Lit {
				n = -1
				break
			}
			n += len(k.S)
		}
		if n >= 0 {
			return one(st, constInt(int64(n))), true
		}
		return one(st, VTerm{Op: "len", Args: []Val{s}, T: types.Typ[types.Int]}), true
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return one(st, VTuple{}), true
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		r.setText(st, r.sinkOf(st, arg(0)), Content{})
		return one(st, VTuple{}), true
	case "(*bytes.Buffer).WriteTo":
		from, to := r.sinkOf(st, arg(0)), r.sinkOf(st, arg(1))
		s := VSeq{Str: true, C: r.text(st, from)}
		r.setText(st, from, Content{})
		return write(to, s.C, true)
	case "bufio.NewWriter", "bufio.NewWriterSize":
		sink := r.sinkOf(st, arg(0))
		if sink == "" {
			return nil, false
		}
		id := fmt.Sprintf("g:in/bufio%d:%s", len(st.Mon), sink)
		st.Mon["buffer:"+id] = constStr(sink)
		return one(st, VSym{ID: id, Cls: "nonnil", T: c.Sig.Results().At(0).Type()}), true
	case "(*bufio.Writer).Flush":
		from := r.sinkOf(st, arg(0))
		to, _ := asStr(st.Mon["buffer:"+from])
		s := VSeq{Str: true, C: r.text(st, from)}
		r.setText(st, from, Content{})
		outs, w := write(to, s.C, true)
		if w {
			outs[0].V = VNil{}
		}
		return outs, w
	case "strings.Split", "strings.SplitN":
		sep, ok := asStr(arg(1))
		t, ok2 := seq(0)
		n, ok3 := int64(-1), true
		if k == "strings.SplitN" {
			n, ok3 = asInt(arg(2))
		}
		if !ok || !ok2 || !ok3 || sep == "" || n == 0 {
			return nil, false
		}
		var l []Val
		for i, p := range splitContent(t, sep) {
			if n > 0 && i >= int(n) {
				last, _ := r.toSeq(st, l[n-1])
				l[n-1] = str(last.C.concat(litContent(sep)).concat(p))
				continue
			}
			l = append(l, str(p))
		}
		return one(st, sliceOf(st, fmt.Sprintf("split%d:%x", len(st.H), len(l)), c.Sig.Results().At(0).Type(), l)), true
	case "strings.Join":
		l, ok := r.elemsOf(st, c.Args[0]).(VTuple)
		sep, ok2 := seq(1)
		if !ok || !ok2 {
			return nil, false
		}
		var out Content
		for i, x := range l.E {
			s, ok := r.toSeq(st, x)
			if !ok || s.C.Map {
				return nil, false
			}
			if i > 0 {
				out = out.concat(sep)
			}
			out = out.concat(s.C)
		}
		return one(st, str(out)), true
	case "strings.ReplaceAll", "strings.Replace":
		old, ok := asStr(arg(1))
		t, ok2 := seq(0)
		n, ok3 := seq(2)
		limit, ok4 := int64(-1), true
		if k == "strings.Replace" {
			limit, ok4 = asInt(arg(3))
		}
		if !ok || !ok2 || !ok3 || !ok4 || old == "" {
			return nil, false
		}
		var out Content
		for i, p := range splitContent(t, old) {
			switch {
			case i > 0 && limit >= 0 && i > int(limit):
				out = out.concat(litContent(old))
			case i > 0:
				out = out.concat(n)
			}
			out = out.concat(p)
		}
		return one(st, str(out)), true
	case "strings.Repeat":
		s, ok := asStr(arg(0))
		n, ok2 := asInt(arg(1))
		if ok && ok2 && n >= 0 && n < 1000 {
			return one(st, constStr(strings.Repeat(s, int(n)))), true
		}
	}
	return nil, false
}

// lines cuts what was written to a sink into lines, each with unknown texts in angle brackets.
func (r *objRun) lines(st *State, sink string) []string {
	var out []string
	for _, l := range splitContent(r.text(st, sink), "\n") {
		t := ""
		for _, k := range l.Chunks {
			if k.Lit {
				t += k.S
			} else {
				t += "<" + strings.TrimPrefix(k.S, "g:in/") + ">"
			}
		}
		out = append(out, t)
	}
	return out
}

// reportWarn is one warning of a history.
type reportWarn struct {
	id    string
	level string
	inst  []reportInst
	undef bool // not predefined
}

type reportInst struct {
	id   string
	text int // 0 none, 1 one line, 2 three lines
	rec  bool
}

func warningReport(p *Program, rep *Report) {
	rep.Rule = "every path of ShowWarnings and ShowHandlersByWarning for managers with up to three recorded warnings of each combination of levels, texts and records, with unknown names and texts: the lines printed against the report specified"
	show, by := p.fnByName("(*"+wpkg+".Manager).ShowWarnings"), p.fnByName(wpkg+".ShowHandlersByWarning")
	if show == nil || by == nil {
		rep.Violate("W04-missing", "ShowWarnings", "-", "ShowWarnings or ShowHandlersByWarning is missing")
		return
	}
	defer func(n int) { maxChunks = n }(maxChunks)
	maxChunks = 300
	i := func(id string, text int, rec bool) reportInst { return reportInst{id, text, rec} }
	hist := map[string][]reportWarn{
		"nothing recorded":               nil,
		"one warning":                    {{"a", "Required", []reportInst{i("1", 1, true)}, false}},
		"one warning without text":       {{"a", "Suggested", []reportInst{i("1", 0, true)}, false}},
		"one warning without record":     {{"a", "Implied", []reportInst{i("1", 1, false)}, false}},
		"one warning with several lines": {{"a", "Admin", []reportInst{i("1", 2, true)}, false}},
		"a repeated warning":             {{"a", "Required", []reportInst{i("1", 1, true), i("2", 0, false), i("3", 1, false)}, false}},
		"two warnings of one level":      {{"a", "Required", []reportInst{i("1", 1, true)}, false}, {"b", "Required", []reportInst{i("2", 1, true)}, false}},
		"two levels":                     {{"a", "Suggested", []reportInst{i("1", 0, false)}, false}, {"b", "Required", []reportInst{i("2", 1, true), i("3", 1, true)}, false}},
		"two levels, sorted":             {{"a", "Implied", []reportInst{i("1", 1, false)}, false}, {"b", "Suggested", []reportInst{i("2", 1, true)}, false}},
		"three warnings of one level":    {{"a", "Required", []reportInst{i("1", 0, false)}, false}, {"b", "Required", []reportInst{i("2", 0, false)}, false}, {"c", "Required", []reportInst{i("3", 0, false)}, false}},
		"a warning not predefined":       {{"a", "Required", []reportInst{i("1", 1, true)}, true}},
	}
	for _, name := range sortedKeys(hist) {
		if f := os.Getenv("VSTAT_SCRIPT"); f != "" && !strings.Contains(name, f) {
			continue
		}
		for _, rev := range []bool{false, true} {
			if rev && len(hist[name]) < 2 && name != "one warning" {
				continue
			}
			for _, out := range []string{"writer", "standard output", "no name"} {
				if out != "writer" && name != "one warning" && name != "nothing recorded" {
					continue
				}
				for _, order := range []bool{false, true} { // of iterations over maps
					if order && len(hist[name]) < 2 && name != "one warning" {
						continue
					}
					rep.Count("histories analysed", 1)
					showHistory(p, rep, show, by, name, hist[name], rev, order, out)
				}
			}
		}
	}
	rep.Floor("histories analysed", 14)
	rep.Floor("reports compared", 14)
	rep.Floor("summaries compared", 10)
}

func showHistory(p *Program, rep *Report, show, by *ssa.Function, what string, hist []reportWarn, rev, order bool, out string) {
	r := newWman(p, rep, "ShowWarnings")
	r.MapRev = order
	r.prop = "W04"
	base := r.OnCall
	r.OnCall = func(c *Call) ([]Outcome, bool) {
		if outs, ok := r.textModel(c); ok {
			return outs, true
		}
		return base(c)
	}
	ev := r.OnEvent
	r.OnEvent = func(e *Engine, kind string, st *State, fr *Frame, at ssa.Instruction, data ...any) {
		if kind == "nil-deref" {
			rep.Violate("W04-panic", p.FuncName(fr.Fn), p.Pos(at.Pos()), "a nil pointer or map is used here (%s): this panics", what)
		}
		ev(e, kind, st, fr, at, data...)
	}
	strT := types.Typ[types.String]
	sc := p.Pkg(wpkg).Types.Scope()
	mk := p.fnByName(wpkg + ".NewWarningManager")
	bad := func(rule, construct string, f string, a ...any) {
		r.bad(rule, construct, show, "%s (%s)", fmt.Sprintf(f, a...), what)
	}
	st := newState()
	named := func(s string) Val {
		v := in(s, strT)
		r.assume(st, v, constStr(""), 5)
		r.assume(st, VTerm{Op: "len", Args: []Val{v}, T: types.Typ[types.Int]}, constInt(0), 5)
		return v
	}
	hname := named("handler")
	if out == "no name" {
		hname = constStr("")
	}
	fresh := r.callFn("NewWarningManager", mk, st, hname, in("fnPrefix", strT), named("prefix"))
	if len(fresh) != 1 {
		bad("W04-construct", "NewWarningManager", "NewWarningManager has %d outcomes", len(fresh))
		return
	}
	mgr, st := fresh[0].Rets[0], fresh[0].St
	st.Mon["live"] = constBool(true)
	warns := map[string]Val{}
	var pre []Val
	for _, w := range hist {
		v := r.warn(st, w.id)
		c, ok := sc.Lookup("Level" + w.level).(*types.Const)
		if !ok {
			bad("W04-missing", "Level"+w.level, "the level %s is missing", w.level)
			return
		}
		st.H["g:in/"+w.id].F[".Level"] = VConst{c.Val(), c.Type()}
		warns[w.id] = v
		named(w.id + ".Name")
		for _, a := range r.admin {
			r.ne(st, in(w.id+".Name", strT), r.field(st, a, "Name"))
		}
		if !w.undef {
			pre = append(pre, v)
		}
	}
	for i, x := range hist { // either order of the names
		for _, y := range hist[i+1:] {
			bits := 1
			if rev {
				bits = 4
			}
			r.assume(st, in(x.id+".Name", strT), in(y.id+".Name", strT), bits)
			r.ne(st, warns[x.id], warns[y.id])
		}
	}
	states := []*State{st}
	run := func(name string, args ...Val) {
		var next []*State
		for _, s := range states {
			for _, x := range r.call(name, s, append([]Val{mgr}, args...)...) {
				next = append(next, x.St)
			}
		}
		states = next
	}
	if len(pre) > 0 {
		pt := r.method("Predefine").Params[1].Type()
		run("Predefine", sliceOf(states[0], "predefined", pt, pre))
	}
	for _, w := range hist {
		for _, in1 := range w.inst {
			var text Val = constStr("")
			fn, rec := in("fn"+in1.id, strT), Val(constStr(""))
			for _, s := range states {
				st = s
				named("fn" + in1.id)
				switch in1.text {
				case 1:
					text = named("text" + in1.id)
				case 2:
					text = VSeq{Str: true, C: Content{Chunks: []Chunk{{Cls: "raw", S: "g:in/text" + in1.id}, {Lit: true, S: "\n"}, {Cls: "raw", S: "g:in/more" + in1.id}, {Lit: true, S: "\n"}, {Cls: "raw", S: "g:in/last" + in1.id}}}}
				}
				if in1.rec {
					rec = named("rec" + in1.id)
					for _, op := range []string{"TrimRight", "TrimSuffix"} { // a record is more than its line end
						t := VTerm{Op: op, Args: []Val{rec, constStr("\n")}, T: strT}
						r.assume(st, t, constStr(""), 5)
						r.assume(st, VTerm{Op: "len", Args: []Val{t}, T: types.Typ[types.Int]}, constInt(0), 5)
					}
				}
			}
			run("AddWarningFnText", warns[w.id], fn, text, rec)
		}
	}
	var w Val = VSym{ID: "g:in/output", Cls: "nonnil", T: show.Params[1].Type()}
	sink := "g:in/output"
	if out == "standard output" {
		w, sink = VNil{}, ""
	}
	want := r.expect(states, hist, rev, out)
	var shown []*State
	for round := 0; round < 2; round++ { // showing changes nothing
		var next []*State
		for _, s := range states {
			s = s.clone()
			for k := range s.Mon {
				if strings.HasPrefix(k, "text:") {
					delete(s.Mon, k)
				}
			}
			for _, x := range r.call("ShowWarnings", s, mgr, w) {
				if x.St.Mon["unknownText"] != nil {
					bad("W04-report", "ShowWarnings", "a text that is printed is not known")
					continue
				}
				at := sink
				for k := range x.St.Mon {
					if !strings.HasPrefix(k, "text:") {
						continue
					}
					if s := strings.TrimPrefix(k, "text:"); at == "" && s != "g:in/output" && strings.Contains(s, "Stdout") {
						at = s
					}
				}
				rep.Count("reports compared", 1)
				got := clean(r.lines(x.St, at), "<prefix>")
				if d := diffLines(got, want); d != "" {
					bad("W04-report", "ShowWarnings", "%s", d)
				}
				next = append(next, x.St)
			}
		}
		states = next
		if round == 0 {
			shown = next
		}
	}
	// the handlers by warning
	if out != "writer" || len(hist) > 2 {
		return
	}
	two := what == "one warning" || what == "two levels"
	if two { // another handler gives the first warning too
		var next []*State
		for _, s := range shown {
			st = s.clone()
			h2 := named("other")
			bits := 1
			if rev {
				bits = 4
			}
			r.assume(st, h2, hname, bits)
			for _, x := range r.callFn("NewWarningManager", mk, st, h2, in("fnPrefix", strT), named("prefix")) {
				m2, sts := x.Rets[0], []*State{x.St}
				call := func(name string, args ...Val) {
					var l []*State
					for _, s := range sts {
						for _, x := range r.call(name, s, append([]Val{m2}, args...)...) {
							l = append(l, x.St)
						}
					}
					sts = l
				}
				if !hist[0].undef {
					call("Predefine", sliceOf(x.St, "predefined2", r.method("Predefine").Params[1].Type(), pre[:1]))
				}
				call("AddWarningFnText", warns[hist[0].id], in("fn1", strT), constStr(""), constStr(""))
				call("ShowWarnings", w)
				next = append(next, sts...)
			}
		}
		shown = next
	}
	for _, s := range shown {
		s = s.clone()
		delete(s.Mon, "text:stdout")
		for _, x := range r.callFn("ShowHandlersByWarning", by, s, in("prefix", strT)) {
			rep.Count("summaries compared", 1)
			var want []string
			var lv []string
			for _, w := range sortHist(hist, rev) {
				if w.undef {
					continue // may be listed or not
				}
				if len(want) == 0 {
					want = append(want, "Handlers by warning:")
				}
				if len(lv) == 0 || lv[len(lv)-1] != w.level {
					lv = append(lv, w.level)
					want = append(want, "level "+w.level)
				}
				want = append(want, fmt.Sprintf("[<%s.Name>] <%s.Summary>", w.id, w.id))
				switch {
				case !two || w.id != hist[0].id:
					want = append(want, "<handler>")
				case rev:
					want = append(want, "<handler>", "<other>")
				default:
					want = append(want, "<other>", "<handler>")
				}
			}
			if len(hist) > 0 && hist[0].undef {
				continue
			}
			var exp []string
			for _, l := range want {
				if n, ok := strings.CutPrefix(l, "level "); ok {
					l = r.levelName(x.St, n)
				}
				exp = append(exp, l)
			}
			if d := diffLines(clean(r.lines(x.St, "stdout"), "<prefix>"), exp); d != "" {
				r.bad("W04-handlers", "ShowHandlersByWarning", by, "%s (%s)", d, what)
			}
		}
	}
	r.done()
}

var levelRank = map[string]int{"Required": 0, "Implied": 1, "Suggested": 2, "Admin": 3}

// sortHist gives the order of a report: by level, then by name; the names are in the order of the history, or reversed.
func sortHist(hist []reportWarn, rev bool) []reportWarn {
	l := append([]reportWarn(nil), hist...)
	if rev {
		slices.Reverse(l)
	}
	sort.SliceStable(l, func(i, j int) bool { return levelRank[l[i].level] < levelRank[l[j].level] })
	return l
}

// levelName is what the String method of a level gives.
func (r *wmanRun) levelName(st *State, level string) string {
	fn := r.p.fnByName("(" + wpkg + ".Level).String")
	c, ok := r.p.Pkg(wpkg).Types.Scope().Lookup("Level" + level).(*types.Const)
	if fn == nil || !ok {
		return "?"
	}
	name := "?"
	for _, x := range r.callFn("Level.String", fn, st, VConst{c.Val(), c.Type()}) {
		if s, ok := asStr(x.St.resolve(x.Rets[0])); ok {
			name = s
		}
	}
	return name
}

func (r *wmanRun) expect(states []*State, hist []reportWarn, rev bool, out string) []string {
	l := []string{"Warnings for <handler>:"}
	if out == "no name" {
		l[0] = "Warnings:"
	}
	if len(hist) == 0 {
		return append(l, "None")
	}
	last := ""
	for _, w := range sortHist(hist, rev) {
		if w.level != last {
			last = w.level
			l = append(l, r.levelName(states[0], w.level))
		}
		l = append(l, fmt.Sprintf("%d [<%s.Name>] <%s.Summary>", len(w.inst), w.id, w.id))
		for _, in := range w.inst {
			switch in.text {
			case 0:
				l = append(l, "<fn"+in.id+">")
			default:
				l = append(l, "<fn"+in.id+">: <text"+in.id+">")
			}
			if in.text == 2 {
				l = append(l, "+<more"+in.id+">", "+<last"+in.id+">")
			}
			if in.rec {
				l = append(l, "*rec"+in.id)
			}
		}
	}
	return l
}

// clean takes the prefix and outer blanks off lines and drops empty ones; lines without the prefix stay as they are.
func clean(l []string, prefix string) []string {
	var out []string
	for _, s := range l {
		t, ok := strings.CutPrefix(s, prefix)
		if !ok && strings.TrimSpace(s) != "" {
			out = append(out, "without prefix: "+s)
			continue
		}
		if t = strings.TrimSpace(t); t != "" {
			out = append(out, t)
		}
	}
	return out
}

func diffLines(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(want):
			return fmt.Sprintf("the line %q is printed at the end", got[i])
		case i >= len(got):
			return fmt.Sprintf("the line %q is not printed", want[i])
		}
		if rec, ok := strings.CutPrefix(want[i], "*"); ok {
			if strings.HasPrefix(got[i], "<") && strings.HasSuffix(got[i], ">") && strings.Contains(got[i], rec) {
				continue
			}
		}
		if got[i] != want[i] {
			return fmt.Sprintf("the line printed is %q, not %q", got[i], want[i])
		}
	}
	return ""
}

// sortedKeys lists the keys of m in order.
func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}
