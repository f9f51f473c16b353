package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// D02: the parser of warning reports. A script names the kind of each line; what the patterns of the code say
// about a line follows from its kind, everything else about the lines is unknown. The tables are read back
// through the exported methods and compared with what the specification makes of the script.

func init() {
	register("D02", warnData)
}

var warnRoles = map[string]string{
	"for":      `^\s*Warnings\s+for\s+(.*):\s*$`,
	"level":    `^\s*(\S+)\s*$`,
	"warning":  `^\s*\d+\s+\[(.*)]\s*(.*?)\s*$`,
	"instance": `^\s*(\S+)(?::\s*(.*?))?\s*$`,
	"extra":    `^\s*\+(.*?)\s*$`,
	"log":      `^\s*\{`,
	"none":     `^\s*None\s*$`,
	"by":       `^\s*Handlers\s+by\s+warning:\s*$`,
	"sstart":   `^:\[\s*(\S.*?)\s*$`,
	"sline":    `^::\s*(\S.*?)\s*$`,
	"slink":    `^:>\s*(\S.*?)\s*-->\s*(\S.*?)\s*$`,
	"send":     `^:]\s*$`,
}

// warnKinds lists the patterns that match a line of each kind, in its most ambiguous form.
var warnKinds = map[byte][]string{
	'H': {"for"},
	'L': {"level", "instance"},
	'W': {"warning"},
	'I': {"instance"},
	'i': {"instance", "level"},
	'X': {"extra", "level", "instance"},
	'x': {"extra"},
	'J': {"log", "level", "instance"},
	'j': {"log"},
	'N': {"none", "level", "instance"},
	'B': {"by"},
	'S': {"sstart"},
	'T': {"sline", "instance"},
	'U': {"slink"},
	'V': {"send", "level", "instance"},
	'E': {},
	'O': {},
}

var warnKindNames = map[byte]string{'H': "handler", 'L': "level", 'W': "warning", 'I': "instance", 'i': "instance without text", 'X': "extra text", 'x': "extra text", 'J': "log record",
	'j': "log record", 'N': "None", 'B': "Handlers by warning", 'S': "summary start", 'T': "summary text", 'U': "summary link", 'V': "summary end", 'E': "empty", 'O': "other", '|': "end of input"}

func scriptName(s string) string {
	var l []string
	for i := range s {
		l = append(l, warnKindNames[s[i]])
	}
	return strings.Join(l, ", ")
}

type warnRun struct {
	*lineRun
	script   string
	source   string
	prefixes bool
	levels   []Val
}

// lineNo tells which line a text comes from.
func lineNo(id string) int {
	var n int
	if _, err := fmt.Sscanf(id, "g:in/line%d", &n); err != nil {
		return 0
	}
	return n
}

// rootText drops what trimming did to the name of a line.
func rootText(id string) string {
	if i := strings.Index(id, "#Trim"); i >= 0 && lineNo(id) > 0 && !strings.Contains(id[:i], ".") {
		return id[:i]
	}
	return id
}

func (r *warnRun) kind(n int) byte {
	if n < 1 || n > len(r.script) {
		return 'O'
	}
	return r.script[n-1]
}

func epochOf(st *State) int {
	if v := st.Mon["epoch"]; v != nil {
		n, _ := asInt(v)
		return int(n)
	}
	return 0
}

func newWarnRun(p *Program, rep *Report) *warnRun {
	r := &warnRun{lineRun: newLineRun(p, rep, "ParseWarningData", "D02", warnRoles)}
	r.MaxSteps = 3_000_000
	init := r.InitCall
	r.InitCall = func(c *Call) ([]Outcome, bool) {
		// the warnings themselves are not looked at
		if c.Callee != nil && p.IsRepoFunc(c.Callee) && c.Sig.Results().Len() == 1 && strings.HasSuffix(c.Sig.Results().At(0).Type().String(), wpkg+".Warning") {
			return one(c.St, VSym{ID: "g:in/warning", Cls: "nonnil", T: c.Sig.Results().At(0).Type()}), true
		}
		return init(c)
	}
	strT := types.Typ[types.String]
	errT := types.Universe.Lookup("error").Type()
	lt := p.Pkg(wpkg).Types.Scope().Lookup("Level").Type()
	r.levels = []Val{VConst{constant.MakeInt64(4), lt}, VConst{constant.MakeInt64(2), lt}}
	base := r.OnCall
	r.say = func(st *State, role, text string) int {
		n := lineNo(text)
		if n == 0 || strings.HasPrefix(role, "rx:") {
			return 0
		}
		for _, x := range warnKinds[r.kind(n)] {
			if x == role {
				return 2
			}
		}
		return 1
	}
	sized := func(st *State, s VSym) {
		want := 5
		if r.kind(lineNo(s.ID)) == 'E' {
			want = 2
		}
		r.assume(st, VTerm{Op: "len", Args: []Val{s}, T: types.Typ[types.Int]}, constInt(0), want)
	}
	r.OnCall = func(c *Call) ([]Outcome, bool) {
		if c.Callee == nil {
			return nil, false
		}
		st := c.St
		if r.P.IsRepoFunc(c.Callee) {
			switch r.P.FuncName(c.Callee) {
			case wpkg + ".ParseLevel":
				t := r.textOf(st, c.Args[0])
				n := lineNo(t)
				if r.kind(n) == 'L' && t == fmt.Sprintf("g:in/line%d#level.1", n) {
					return one(st, VTuple{E: []Val{r.level(n), VNil{}}}), true
				}
				return one(st, VTuple{E: []Val{VConst{constant.MakeInt64(0), lt}, VSym{ID: "g:in/levelErr", Cls: "nonnil", T: errT}}}), true
			case "internal/markdown.TemplateHTML":
				return one(st, VTerm{Op: "html", Args: resolveAll(st, c.Args[:1]), T: c.Sig.Results().At(0).Type()}), true
			}
			return base(c)
		}
		k := fnKey(c.Callee)
		switch k {
		case "(*bufio.Scanner).Scan":
			n := epochOf(st)
			if st.Mon["eof"] != nil || n >= len(r.script) || r.script[n] == '|' {
				st.Mon["eof"] = constBool(true)
				return one(st, constBool(false)), true
			}
			st.Mon["epoch"] = constInt(int64(n + 1))
			return one(st, constBool(true)), true
		case "(*bufio.Scanner).Bytes", "(*bufio.Scanner).Text":
			outs, ok := base(c)
			if ok && r.kind(epochOf(st)) != 'E' {
				sized(st, outs[0].V.(VSym))
			}
			return outs, ok
		case "log/slog.Warn", "log/slog.Info", "log/slog.Error", "log/slog.Debug":
			return one(st, VTuple{}), true
		case "errors.Is":
			err := VSym{ID: "g:in/scanErr", T: errT}
			if st.resolve(c.Args[0]).key() == err.key() {
				var outs []Outcome
				yes, no := st.clone(), st.clone()
				if r.assume(no, err, VNil{}, 2) {
					outs = append(outs, Outcome{St: no, V: constBool(false)})
				}
				for i, eof := range []bool{true, false} {
					s := yes
					if i == 1 {
						s = st.clone()
					}
					if r.assume(s, err, VNil{}, 5) {
						s.Mon["isEOF"] = constBool(eof)
						outs = append(outs, Outcome{St: s, V: constBool(eof)})
					}
				}
				return outs, true
			}
		case "encoding/json.Unmarshal":
			t := rootText(r.textOf(st, c.Args[0]))
			bad := st.clone()
			if pt, ok := unwrapIface(st.resolve(c.Args[1])).(VPtr); ok {
				if o := r.obj(st, pt.Obj); o != nil {
					r.store(st, c.Fr, c.Site, pt, VSym{ID: "g:in/json:" + t, Cls: "nonnil", T: o.T}, o.T)
				}
			}
			st.Mon["json:"+t] = constBool(true)
			return []Outcome{{St: st, V: VNil{}}, {St: bad, V: VSym{ID: "g:in/jsonErr", Cls: "nonnil", T: errT}}}, true
		case "encoding/json.MarshalIndent":
			t := r.textOf(st, unwrapIface(st.resolve(c.Args[0])))
			bt := c.Sig.Results().At(0).Type()
			outs := c.E.errFork(c, VSym{ID: "g:in/indent:" + t, T: bt}, VNil{})
			for _, o := range outs {
				if tu, ok := o.V.(VTuple); ok {
					if isNil, known := isNilVal(tu.E[1]); known && !isNil {
						delete(o.St.Mon, "json:"+strings.TrimPrefix(t, "g:in/json:"))
					}
				}
			}
			return outs, true
		case "strings.HasPrefix", "bytes.HasPrefix":
			if p, ok := asStr(st.resolve(c.Args[1])); ok && (strings.HasPrefix(p, "Test") || strings.HasPrefix(p, "Bench")) {
				t := r.textOf(st, c.Args[0])
				atom := VTerm{Op: "prefix:" + p, Args: []Val{VSym{ID: t, T: strT}}, T: types.Typ[types.Bool]}
				yes, no := st.clone(), st.clone()
				var outs []Outcome
				if r.prefixes && strings.Count(t, "#TrimPrefix") < 2 && r.assumeTruth(yes, atom, true) {
					outs = append(outs, Outcome{St: yes, V: constBool(true)})
				}
				if r.assumeTruth(no, atom, false) {
					outs = append(outs, Outcome{St: no, V: constBool(false)})
				}
				return outs, true
			}
		case "strings.TrimPrefix":
			p, ok := asStr(st.resolve(c.Args[1]))
			t := r.textOf(st, c.Args[0])
			if ok && strings.Contains(t, "#instance.1") {
				atom := VTerm{Op: "prefix:" + p, Args: []Val{VSym{ID: t, T: strT}}, T: types.Typ[types.Bool]}
				if r.truth(st, atom) == 1 {
					return one(st, c.Args[0]), true
				}
			}
		case "strings.CutPrefix":
			p, ok := asStr(st.resolve(c.Args[1]))
			t := r.textOf(st, c.Args[0])
			if ok {
				atom := VTerm{Op: "prefix:" + p, Args: []Val{VSym{ID: t, T: strT}}, T: types.Typ[types.Bool]}
				yes, no := st.clone(), st.clone()
				var outs []Outcome
				if r.prefixes && strings.Count(t, "#TrimPrefix") < 2 && r.assumeTruth(yes, atom, true) {
					outs = append(outs, Outcome{St: yes, V: VTuple{E: []Val{VSym{ID: fmt.Sprintf("%s#TrimPrefix(%q)", t, p), T: strT}, constBool(true)}}})
				}
				if r.assumeTruth(no, atom, false) {
					outs = append(outs, Outcome{St: no, V: VTuple{E: []Val{st.resolve(c.Args[0]), constBool(false)}}})
				}
				return outs, true
			}
		case "strings.Join":
			if l, ok := r.elemsOf(st, c.Args[0]).(VTuple); ok {
				var out Content
				for i, x := range l.E {
					if i > 0 {
						s, _ := r.toSeq(st, c.Args[1])
						out = out.concat(s.C)
					}
					s, ok := r.toSeq(st, x)
					if !ok {
						return nil, false
					}
					out = out.concat(s.C)
				}
				return one(st, VSeq{Str: true, C: out}), true
			}
		}
		if strings.HasPrefix(k, "(*regexp.Regexp).") && len(c.Args) > 1 {
			n := *c
			n.Args = append([]Val(nil), c.Args...)
			if s, ok := st.resolve(c.Args[1]).(VSym); ok {
				s.ID = rootText(s.ID)
				n.Args[1] = s
			}
			return base(&n)
		}
		outs, ok := base(c)
		if ok && strings.Contains(k, ".Trim") && len(outs) == 1 {
			if s, isS := outs[0].V.(VSym); isS && rootText(s.ID) != s.ID {
				sized(outs[0].St, s)
			}
		}
		return outs, ok
	}
	return r
}

func unwrapIface(v Val) Val {
	if i, ok := v.(VIface); ok {
		return i.V
	}
	return v
}

func countName(v Val) string {
	if v == nil {
		return "no"
	}
	return valName(v)
}

// level is what a level line says: two levels take turns.
func (r *warnRun) level(n int) Val {
	c := strings.Count(r.script[:n], "L")
	return r.levels[(c+1)%2]
}

// what the specification makes of a script

type wInst struct {
	line  int
	text  bool
	extra []int
	log   int
	test  Val
	tag   Val
}

type wWarn struct {
	call, handler, level, warning int // lines
	inst                          []*wInst
}

type wSum struct {
	start  int
	lines  []int
	links  []int
	closed bool
}

type wSpec struct {
	warns    []*wWarn
	handlers []int // lines naming handlers that must be known afterwards
	named    []int // lines naming handlers
	sums     []wSum
}

// specify tells what a script means; ok is false for scripts that are no report (only panics matter then).
func specify(script string) (s wSpec, ok bool) {
	ok = true
	handler, level, call := 0, 0, 0
	var warn *wWarn
	var inst *wInst
	stopped := false
	for i := 0; i < len(script); i++ {
		n := i + 1
		k := script[i]
		if k == '|' {
			handler, level, warn, inst, stopped = 0, 0, nil, nil, false
			call++
			continue
		}
		if stopped {
			continue
		}
		switch k {
		case 'H':
			handler, level, warn, inst = n, 0, nil, nil
			s.named = append(s.named, n)
			if i+1 < len(script) && strings.IndexByte("LNEO|", script[i+1]) < 0 {
				ok = false
			}
		case 'N':
			if handler != 0 {
				s.handlers = append(s.handlers, handler)
			}
			if warn != nil || level != 0 {
				ok = false
			}
		case 'L':
			if handler != 0 {
				level, warn, inst = n, nil, nil
			}
		case 'W':
			if handler == 0 {
				break
			}
			if level == 0 {
				ok = false
			}
			warn, inst = &wWarn{call: call, handler: handler, level: level, warning: n}, nil
			s.warns = append(s.warns, warn)
			s.handlers = append(s.handlers, handler)
		case 'I', 'i':
			inst = nil
			if handler == 0 || warn == nil {
				break // belongs to nothing
			}
			inst = &wInst{line: n, text: k == 'I'}
			warn.inst = append(warn.inst, inst)
		case 'X', 'x':
			if inst != nil {
				inst.extra = append(inst.extra, n)
			}
		case 'J', 'j':
			if inst != nil {
				if inst.log != 0 {
					ok = false
				}
				inst.log = n
			}
		case 'B':
			stopped = true
		case 'S':
			sum := wSum{start: n}
			for i++; i < len(script); i++ {
				if script[i] == 'T' {
					sum.lines = append(sum.lines, i+1)
				} else if script[i] == 'U' {
					sum.links = append(sum.links, i+1)
				} else {
					if script[i] != 'V' {
						ok = false
					}
					sum.closed = script[i] == 'V'
					break
				}
			}
			s.sums = append(s.sums, sum)
		case 'T', 'U', 'V':
			ok = false
		}
	}
	return s, ok
}

func warnScripts() []string {
	full := "HLWIXJI"
	l := []string{"", "HLWI", "HLWi", "HLWIXJ", "HLWIxj", "HLWiX", "HLWIXX", "HLWIIJ", "HLWIJI", "HLWW", "HLWWI", "HLWIWI", "HLWILWI", "HLWILW", "HLWIHLWI", "HN", "HNHLWI", "HLWIHN", "HLWIJHLWI",
		"HLWIBHLWI", "BHLWI", "STTUVHLWI", "STTUUVHLWI", "SVHLWI", "HLWISTVHLWI", "HLWISTUVI", "HLWI|HLWI", "HLWI|HN", "HN|HLWI", "HN|HN", "HLWIB|HLWI", "STVHN|STUVHN", "STV|STUUVHLWI"}
	for _, k := range "EO" {
		for i := 0; i <= len(full); i++ {
			if k == 'E' && i%2 == 1 && i != len(full) {
				continue
			}
			l = append(l, full[:i]+string(k)+full[i:])
		}
		l = append(l, "STV"+string(k)+"HLWI")
	}
	// lines that belong to nothing, and lines out of order
	for _, pre := range []string{"", "H", "HL", "HLW", "HLWI", "HN", "ST"} {
		for _, k := range "LWIXJNSTUVB" {
			l = append(l, pre+string(k))
		}
	}
	seen := map[string]bool{}
	var out []string
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func warnData(p *Program, rep *Report) {
	rep.Rule = "every path of ParseWarningData over scripts of line kinds (reports of one and two handlers, levels, warnings and instances, summaries, noise, lines out of order, two inputs), with unknown texts: the tables read back through the exported methods against the specification; patterns compared as regular languages with marked groups"
	parse, mk := p.fnByName("(*"+dpkg+".Warnings).ParseWarningData"), p.fnByName(dpkg+".NewWarnings")
	if parse == nil || mk == nil {
		rep.Violate("D02-missing", "ParseWarningData", "-", "ParseWarningData or NewWarnings is missing")
		return
	}
	scripts := warnScripts()
	if d := os.Getenv("VSTAT_SCRIPT"); d != "" { // for debugging; the floors fail a check that runs less
		scripts = strings.Fields(d)
	}
	type job struct{ script, mode string }
	var jobs []job
	for _, script := range scripts {
		for _, mode := range []string{"Verify", "", "Verify+lookup", "prefix"} {
			if mode == "" && script != "HLWI" && script != "HLWI|HLWI" {
				continue
			}
			if mode == "prefix" && script != "HLWI" {
				continue
			}
			if mode == "Verify+lookup" && strings.Count(script, "H") == 0 {
				continue
			}
			if _, ok := specify(script); !ok && mode != "Verify" {
				continue
			}
			jobs = append(jobs, job{script, mode})
		}
	}
	rep.parallel(len(jobs), func(rep *Report, i int) {
		rep.Count("scripts analysed", 1)
		warnScript(p, rep, parse, mk, jobs[i].script, jobs[i].mode)
	})
	rep.Floor("scripts analysed", 150)
	rep.Floor("tables compared", 400)
}

func warnScript(p *Program, rep *Report, parse, mk *ssa.Function, script, mode string) {
	r := newWarnRun(p, rep)
	r.script, r.source, r.prefixes = script, "Verify", mode == "prefix"
	if mode == "" {
		r.source = ""
	}
	strT := types.Typ[types.String]
	reader := VSym{ID: "g:in/reader", Cls: "nonnil", T: parse.Params[1].Type()}
	tagT := parse.Params[3].Type().Underlying().(*types.Map).Elem()
	spec, wellFormed := specify(script)
	for _, m := range r.callFn("NewWarnings", mk, newState()) {
		w := m.Rets[0]
		st := m.St
		var lookup Val = VNil{}
		if mode == "Verify+lookup" {
			lookup = chainMap(st, "lookup", parse.Params[3].Type(), [2]Val{VSym{ID: "g:in/knownName", T: strT}, VSym{ID: "g:in/knownTag", T: tagT}})
		}
		named := func(v Val) {
			r.assume(st, v, constStr(""), 5)
			r.assume(st, VTerm{Op: "len", Args: []Val{v}, T: types.Typ[types.Int]}, constInt(0), 5)
		}
		named(VSym{ID: "g:in/knownTag", T: tagT})
		for i := range script {
			if script[i] == 'H' { // handlers have a name
				named(VSym{ID: fmt.Sprintf("g:in/line%d#for.1", i+1), T: strT})
			}
		}
		states := []*State{st}
		for part := 0; part <= strings.Count(script, "|"); part++ {
			var next []*State
			for _, s := range states {
				for _, x := range r.callFn("ParseWarningData", parse, s, w, reader, constStr(r.source), lookup) {
					rep.Count("outcomes analysed", 1)
					isNil, known := isNilVal(x.St.resolve(x.Rets[0]))
					bits := r.cmpBits(x.St, VSym{ID: "g:in/scanErr", T: types.Universe.Lookup("error").Type()}, VNil{})
					switch {
					case known && isNil && bits&^2 != 0:
						// io.EOF is no error: a comparison with it keeps the two apart
						if eof, ok := x.St.Mon["isEOF"]; !ok || eof.key() != constBool(true).key() {
							r.bad("D02-error", "ParseWarningData", parse, "no error is returned although reading may have failed")
						}
						continue
					case known && !isNil && bits&2 != 0:
						r.bad("D02-error", "ParseWarningData", parse, "an error is returned although reading did not fail (%s)", scriptName(script))
						continue
					case known && !isNil:
						continue
					}
					if x.St.Mon["reader"] == nil || x.St.Mon["reader"].key() != reader.key() {
						r.bad("D02-reader", "ParseWarningData", parse, "what is read is not the reader passed in")
						continue
					}
					n := x.St.clone()
					delete(n.Mon, "eof")
					if part < strings.Count(script, "|") {
						at := 0
						for i, k := range script {
							if k == '|' {
								if at == part {
									n.Mon["epoch"] = constInt(int64(i + 1))
									break
								}
								at++
							}
						}
					}
					next = append(next, n)
				}
			}
			states = next
		}
		for _, s := range states {
			if wellFormed {
				r.judge(parse, w, s, spec, mode)
			}
		}
	}
	r.done()
}

// handlerTag is the tag of the handler named in a line.
func (r *warnRun) handlerTag(st *State, n int, mode string) Val {
	name := VSym{ID: fmt.Sprintf("g:in/line%d#for.1", n), T: types.Typ[types.String]}
	if mode == "Verify+lookup" && r.cmpBits(st, name, VSym{ID: "g:in/knownName", T: types.Typ[types.String]}) == 2 {
		return VSym{ID: "g:in/knownTag", T: types.Typ[types.String]}
	}
	return name
}

func (r *warnRun) judge(fn *ssa.Function, w Val, st *State, spec wSpec, mode string) {
	strT := types.Typ[types.String]
	// decide the equalities the tables depend on
	sts := []*State{st}
	split := func(a, b Val) {
		var next []*State
		for _, s := range sts {
			bits := r.cmpBits(s, a, b)
			if bits == 2 || bits&2 == 0 {
				next = append(next, s)
				continue
			}
			for _, want := range []int{2, 5} {
				c := s.clone()
				if r.assume(c, a, b, want) {
					next = append(next, c)
				}
			}
		}
		sts = next
	}
	if mode == "Verify+lookup" {
		known := VSym{ID: "g:in/knownName", T: strT}
		for _, n := range spec.named {
			split(VSym{ID: fmt.Sprintf("g:in/line%d#for.1", n), T: strT}, known)
		}
		for _, s := range spec.sums {
			split(VSym{ID: fmt.Sprintf("g:in/line%d#sstart.1", s.start), T: strT}, known)
			for i, a := range s.links {
				for _, b := range s.links[:i] {
					split(VSym{ID: fmt.Sprintf("g:in/line%d#slink.1", a), T: strT}, VSym{ID: fmt.Sprintf("g:in/line%d#slink.1", b), T: strT})
				}
			}
		}
	}
	for _, s := range sts {
		r.judgeState(fn, w, s, spec, mode)
	}
}

func (r *warnRun) judgeState(fn *ssa.Function, w Val, st *State, spec wSpec, mode string) {
	strT := types.Typ[types.String]
	sym := func(role string, n, i int) Val {
		return VSym{ID: fmt.Sprintf("g:in/line%d#%s.%d", n, role, i), T: strT}
	}
	// tags
	for _, ww := range spec.warns {
		for _, in := range ww.inst {
			tag, ok := r.strip(st, sym("instance", in.line, 1))
			if !ok {
				return
			}
			in.tag = tag
			in.test = tag
			if r.source != "" {
				s, _ := r.toSeq(st, tag)
				in.test = VSeq{Str: true, C: litContent(r.source + ".").concat(s.C)}
			}
		}
	}
	type pair struct{ a, b Val }
	var pairs []pair
	var hs, ws, ts []Val
	for _, n := range spec.named {
		hs = append(hs, r.handlerTag(st, n, mode))
	}
	for _, x := range spec.warns {
		ws = append(ws, sym("warning", x.warning, 1))
		for _, in := range x.inst {
			ts = append(ts, in.test)
		}
	}
	for _, l := range [][]Val{hs, ws, ts} {
		for i := range l {
			for j := 0; j < i; j++ {
				pairs = append(pairs, pair{l[i], l[j]})
			}
		}
	}
	for _, pr := range pairs {
		bits := r.cmpBits(st, pr.a, pr.b)
		if bits == 2 || bits&2 == 0 {
			continue
		}
		for _, want := range []int{2, 5} {
			c := st.clone()
			if r.assume(c, pr.a, pr.b, want) {
				r.judgeState(fn, w, c, spec, mode)
			}
		}
		return
	}
	eq := func(a, b Val) bool { return r.cmpBits(st, a, b) == 2 }
	r.rep.Count("tables compared", 1)
	badf := func(rule, f string, a ...any) {
		r.bad(rule, "ParseWarningData", fn, "%s (lines: %s)", fmt.Sprintf(f, a...), scriptName(r.script))
	}
	get := func(st *State, recv, name string, args ...Val) []Result {
		return r.callFn(name, r.p.fnByName("(*"+dpkg+"."+recv+")."+name), st, args...)
	}
	// by handler
	has := map[string]Val{}
	for _, n := range spec.handlers {
		t := r.handlerTag(st, n, mode)
		dup := false
		for _, o := range has {
			dup = dup || eq(o, t)
		}
		if !dup {
			has[t.key()] = t
		}
	}
	for _, g := range get(st, "Warnings", "HandlerTags", w) {
		l, ok := r.list(g.St, g.Rets[0])
		if !ok || len(l) != len(has) {
			badf("D02-handler", "%d handlers are known, not %d", len(l), len(has))
			continue
		}
		for _, t := range has {
			found := 0
			for _, x := range l {
				if r.cmpBits(g.St, x, t) == 2 {
					found++
				}
			}
			if found != 1 {
				badf("D02-handler", "a handler is listed %d times", found)
			}
		}
	}
	for _, n := range spec.named {
		t := r.handlerTag(st, n, mode)
		if t.key() == "s:g:in/knownTag/" {
			last := 0
			for _, m := range spec.named {
				if eq(r.handlerTag(st, m, mode), t) {
					last = m
				}
			}
			if r.cmpBits(st, sym("for", last, 1), VSym{ID: "g:in/knownName", T: strT}) != 2 {
				continue // another handler is called like the tag
			}
			for _, g := range get(st, "Warnings", "HandlerName", w, t) {
				if r.textOf(g.St, g.Rets[0]) != r.textOf(g.St, sym("for", last, 1)) && r.cmpBits(g.St, g.Rets[0], VSym{ID: "g:in/knownName", T: strT}) != 2 {
					badf("D02-handler", "the name of a known handler is %s", valName(g.Rets[0]))
				}
			}
		}
	}
	var keys []string
	for k := range has {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		h := has[k]
		var ww []*wWarn
		for _, x := range spec.warns {
			if eq(r.handlerTag(st, x.handler, mode), h) {
				ww = append(ww, x)
			}
		}
		for _, g := range get(st, "Warnings", "ForHandler", w, h) {
			r.levelsOf(badf, "handler", g, ww, func(x *wWarn) []*wInst { return x.inst }, nil)
		}
	}
	// by test
	var tests []Val
	for _, x := range spec.warns {
		for _, in := range x.inst {
			dup := false
			for _, t := range tests {
				dup = dup || eq(t, in.test)
			}
			if !dup {
				tests = append(tests, in.test)
			}
		}
	}
	for _, g := range get(st, "Warnings", "TestTags", w) {
		if l, ok := r.list(g.St, g.Rets[0]); !ok || len(l) != len(tests) {
			badf("D02-test", "%d tests are known, not %d", len(l), len(tests))
		}
	}
	for _, t := range tests {
		for _, g := range get(st, "Warnings", "ForTest", w, t) {
			var ww []*wWarn
			for _, x := range spec.warns {
				for _, in := range x.inst {
					if eq(in.test, t) {
						ww = append(ww, x)
						break
					}
				}
			}
			r.levelsOf(badf, "test", g, ww, func(x *wWarn) (l []*wInst) {
				for _, in := range x.inst {
					if eq(in.test, t) {
						l = append(l, in)
					}
				}
				return l
			}, func(x *wWarn) Val { return VTerm{Op: "name", Args: []Val{r.handlerTag(st, x.handler, mode)}, T: strT} })
		}
		var tag Val
		for _, x := range spec.warns {
			for _, in := range x.inst {
				if tag == nil && eq(in.test, t) {
					tag = in.tag
				}
			}
		}
		for _, g := range get(st, "Warnings", "TestName", w, t) {
			if !r.sameName(g.St, g.Rets[0], VTerm{Op: "name", Args: []Val{tag}}) {
				badf("D02-test", "the name of a test is %s", valName(g.Rets[0]))
			}
		}
	}
	// by warning
	for i, x := range spec.warns {
		first := true
		for _, y := range spec.warns[:i] {
			first = first && !eq(ws[i], sym("warning", y.warning, 1))
		}
		if !first {
			continue
		}
		count := map[string]int{}
		tags := map[string]Val{}
		var tts []Val
		for _, y := range spec.warns {
			if !eq(sym("warning", y.warning, 1), ws[i]) {
				continue
			}
			h := r.handlerTag(st, y.handler, mode)
			for _, o := range tags {
				if eq(o, h) {
					h = o
				}
			}
			if len(y.inst) > 0 {
				tags[h.key()] = h
				count[h.key()] += len(y.inst)
			}
			for _, in := range y.inst {
				dup := false
				for _, t := range tts {
					dup = dup || eq(t, in.test)
				}
				if !dup {
					tts = append(tts, in.test)
				}
			}
		}
		_ = x
		for _, g := range get(st, "Warnings", "FindWarning", w, ws[i]) {
			for _, h := range tags {
				v, found, ok := r.get(g.St, r.field(g.St, g.Rets[0], "Count"), h)
				if n, isInt := asIntVal(v); !ok || !found || !isInt || int(n) != count[h.key()] {
					badf("D02-warning", "a warning with %d instances for a handler is counted %s times", count[h.key()], countName(v))
				}
			}
			for _, q := range []struct {
				name string
				n    int
			}{{"Handlers", len(tags)}, {"Tests", len(tts)}} {
				for _, l := range get(g.St, "WarningData", q.name, g.Rets[0]) {
					if got, ok := r.list(l.St, l.Rets[0]); !ok || len(got) != q.n {
						badf("D02-warning", "a warning has %d %s, not %d", len(got), q.name, q.n)
					}
				}
			}
		}
	}
	// summaries
	for i, s := range spec.sums {
		name := sym("sstart", s.start, 1)
		if mode != "Verify+lookup" || !s.closed || r.cmpBits(st, name, VSym{ID: "g:in/knownName", T: strT}) != 2 {
			continue
		}
		over := false
		for _, o := range spec.sums[i+1:] {
			over = over || o.closed && r.cmpBits(st, sym("sstart", o.start, 1), VSym{ID: "g:in/knownName", T: strT}) == 2
		}
		if over {
			continue
		}
		var parts []string
		for _, n := range s.lines {
			parts = append(parts, fmt.Sprintf("g:in/line%d#sline.1", n))
		}
		want := strings.Join(parts, `+"\n"+`)
		if len(parts) == 0 {
			want = `""`
		}
		tag := VSym{ID: "g:in/knownTag", T: strT}
		for _, g := range get(st, "Warnings", "HandlerSummaryHTML", w, tag) {
			t, ok := g.St.resolve(g.Rets[0]).(VTerm)
			if !ok || t.Op != "html" || r.textOf(g.St, t.Args[0]) != want {
				badf("D02-summary", "the summary of a handler is %s, not %s", valName(g.Rets[0]), want)
			}
		}
		for _, g := range get(st, "Warnings", "HandlerLinks", w, tag) {
			for j, n := range s.links {
				later := false
				for _, o := range s.links[j+1:] {
					later = later || r.cmpBits(g.St, sym("slink", o, 1), sym("slink", n, 1))&2 != 0
				}
				v, found, ok := r.get(g.St, g.Rets[0], sym("slink", n, 1))
				if later {
					continue
				}
				if !ok || !found || r.textOf(g.St, v) != r.textOf(g.St, sym("slink", n, 2)) {
					badf("D02-summary", "a link of a handler is not recorded: %s", valName(g.Rets[0]))
				}
			}
		}
	}
}

func asIntVal(v Val) (int64, bool) {
	if v == nil {
		return 0, false
	}
	return asInt(v)
}

// strip takes the prefixes of test functions off a tag as far as the path did.
func (r *warnRun) strip(st *State, tag Val) (Val, bool) {
	for range 4 {
		id := r.textOf(st, tag)
		any := false
		for _, p := range []string{"Benchmark_", "Benchmark", "Test_", "Test"} {
			atom := VTerm{Op: "prefix:" + p, Args: []Val{VSym{ID: id, T: types.Typ[types.String]}}, T: types.Typ[types.Bool]}
			if r.truth(st, atom) == 2 {
				tag = VSym{ID: fmt.Sprintf("%s#TrimPrefix(%q)", id, p), T: types.Typ[types.String]}
				any = true
				break
			}
		}
		if !any {
			break
		}
	}
	if r.prefixes {
		for _, p := range []string{"Benchmark", "Test"} {
			atom := VTerm{Op: "prefix:" + p, Args: []Val{VSym{ID: r.textOf(st, tag), T: types.Typ[types.String]}}, T: types.Typ[types.Bool]}
			if r.truth(st, atom) != 1 {
				r.bad("D02-test", "test prefix", nil, "a test may still be called %s... in the tables", p)
				return tag, false
			}
		}
	}
	return tag, true
}

// levelsOf compares the levels of a handler or test with the warnings that belong to it.
func (r *warnRun) levelsOf(badf func(rule, f string, a ...any), what string, g Result, ww []*wWarn, inst func(*wWarn) []*wInst, name func(*wWarn) Val) {
	rule := "D02-" + what
	strT := types.Typ[types.String]
	get := func(st *State, recv, name string, args ...Val) []Result {
		return r.callFn(name, r.p.fnByName("(*"+dpkg+"."+recv+")."+name), st, args...)
	}
	if isNil, known := isNilVal(g.St.resolve(g.Rets[0])); !known || isNil {
		badf(rule, "nothing is recorded for a %s", what)
		return
	}
	levels := map[string]Val{}
	for _, x := range ww {
		l := r.level(x.level)
		levels[l.key()] = l
	}
	for _, x := range get(g.St, "Levels", "Levels", g.Rets[0]) {
		if l, ok := r.list(x.St, x.Rets[0]); !ok || len(l) != len(levels) {
			badf(rule, "a %s has %d levels of warnings, not %d", what, len(l), len(levels))
		}
	}
	var ks []string
	for k := range levels {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for _, x := range get(g.St, "Levels", "Level", g.Rets[0], levels[k]) {
			if isNil, known := isNilVal(x.St.resolve(x.Rets[0])); !known || isNil {
				badf(rule, "the level of a warning of a %s is not recorded", what)
				continue
			}
			for _, y := range get(x.St, "DataLevel", "Warnings", x.Rets[0]) {
				l, ok := r.list(y.St, y.Rets[0])
				if !ok {
					badf(rule, "the warnings of a %s are not known", what)
					continue
				}
				// group the expected ones by name
				type grp struct {
					name Val
					ww   []*wWarn
				}
				var gs []*grp
				for _, w := range ww {
					if r.level(w.level).key() != k {
						continue
					}
					n := VSym{ID: fmt.Sprintf("g:in/line%d#warning.1", w.warning), T: strT}
					var at *grp
					for _, o := range gs {
						if r.cmpBits(y.St, o.name, n) == 2 {
							at = o
						}
					}
					if at == nil {
						at = &grp{name: n}
						gs = append(gs, at)
					}
					at.ww = append(at.ww, w)
				}
				if len(l) != len(gs) {
					badf(rule, "a %s has %d warnings of one level, not %d", what, len(l), len(gs))
					continue
				}
				for _, gr := range gs {
					n := 0
					for _, dw := range l {
						for _, z := range get(y.St, "dataWarning", "Name", dw) {
							if r.cmpBits(z.St, z.Rets[0], gr.name) != 2 {
								continue
							}
							n++
							last := gr.ww[len(gr.ww)-1]
							for _, s := range get(z.St, "dataWarning", "Summary", dw) {
								if got, want := r.textOf(s.St, s.Rets[0]), fmt.Sprintf("g:in/line%d#warning.2", last.warning); got != want {
									badf(rule, "the summary of a warning is %s, not %s", got, want)
								}
							}
							var want []*wInst
							var of []*wWarn
							for _, w := range gr.ww {
								for _, in := range inst(w) {
									want = append(want, in)
									of = append(of, w)
								}
							}
							for _, s := range get(z.St, "dataWarning", "Instances", dw) {
								r.instances(badf, rule, what, s, want, of, name)
							}
						}
					}
					if n != 1 {
						badf(rule, "a warning of a %s is listed %d times", what, n)
					}
				}
			}
		}
	}
}

// instances compares the instances of one warning with those due, in any order.
func (r *warnRun) instances(badf func(rule, f string, a ...any), rule, what string, s Result, want []*wInst, of []*wWarn, name func(*wWarn) Val) {
	l, ok := r.list(s.St, s.Rets[0])
	if !ok || len(l) != len(want) {
		badf(rule, "a warning of a %s has %d instances, not %d", what, len(l), len(want))
		return
	}
	str := func(x Val, m string) string {
		out := ""
		for _, g := range r.callFn("dataInstance."+m, r.p.fnByName("(*"+dpkg+".dataInstance)."+m), s.St, x) {
			out = r.textOf(g.St, g.Rets[0])
		}
		return out
	}
	type desc struct{ name, extra, log, tag, source, line string }
	var got, exp []string
	for i := range l {
		d := desc{name: str(l[i], "Name"), extra: str(l[i], "Extra")}
		// the fields are read directly where the method falls back on another one
		d.log = r.textOf(s.St, r.field(s.St, l[i], "log"))
		if what == "handler" {
			d.tag, d.source = str(l[i], "Tag"), str(l[i], "Source")
			d.line = rootText(str(l[i], "Line"))
		}
		got = append(got, fmt.Sprintf("%+v", d))
		in := want[i]
		e := desc{}
		if what == "handler" {
			e.tag, e.source = r.textOf(s.St, in.tag), fmt.Sprintf("%q", r.source)
			e.name = r.textOf(s.St, VTerm{Op: "name", Args: []Val{in.tag}})
			e.line = `""`
			if in.log != 0 {
				e.line = fmt.Sprintf("g:in/line%d", in.log)
			}
		} else {
			e.name = r.textOf(s.St, name(of[i]))
		}
		parts := []string{fmt.Sprintf("g:in/line%d#instance.2", in.line)}
		for _, x := range in.extra {
			parts = append(parts, `"\n"`, fmt.Sprintf("g:in/line%d#extra.1", x))
		}
		e.extra = strings.Join(parts, "+")
		e.log = `""`
		if in.log != 0 {
			e.log = fmt.Sprintf("LOG%d", in.log)
		}
		exp = append(exp, fmt.Sprintf("%+v", e))
	}
	// names of handlers and tags are compared as the facts allow
	used := make([]bool, len(got))
	for _, e := range exp {
		found := false
		for i, g := range got {
			if used[i] {
				continue
			}
			alt := []string{e}
			if j := strings.Index(e, "LOG"); j >= 0 {
				k := j + 3
				for k < len(e) && e[k] >= '0' && e[k] <= '9' {
					k++
				}
				n := e[j+3 : k]
				if s.St.Mon["json:g:in/line"+n] != nil { // a record that is JSON
					alt = []string{e[:j] + "g:in/indent:g:in/json:g:in/line" + n + e[k:]}
				} else {
					alt = []string{e[:j] + `""` + e[k:]}
				}
			}
			for _, a := range alt {
				if a == g {
					found = true
				}
			}
			if found {
				used[i] = true
				break
			}
		}
		if !found {
			badf(rule, "an instance of a %s is missing: %s where there is %s", what, e, strings.Join(got, " and "))
			return
		}
	}
}
