package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// D01 and D02: the parsers of benchmark and warning data. The input is a number of unknown lines; what a pattern
// says about a line is a case the paths split on, and the groups it finds are unknowns named after line, pattern
// and group. After the last line the tables are read back through the exported methods and compared with what
// the specification makes of the same cases.

func init() {
	register("D01", benchData)
}

const dpkg = "internal/data"

// lineRun analyses code that reads lines.
type lineRun struct {
	*objRun
	roles map[string]string // role -> specified pattern
	known map[string]string // pattern in the code -> role
	lines int
	say   func(st *State, role, text string) int // what is given about a match: 0 nothing, 1 no, 2 yes
	also  func(r *lineRun, st *State, role string, text Val) bool
}

func newLineRun(p *Program, rep *Report, what, prop string, roles map[string]string) *lineRun {
	r := &lineRun{objRun: newObjRun(p, rep, what, prop), roles: roles, known: map[string]string{}, lines: 2}
	r.InitCall = func(c *Call) ([]Outcome, bool) {
		if c.Callee != nil && fnKey(c.Callee) == "flag.String" {
			name, _ := asStr(c.St.resolve(c.Args[0]))
			id := "g:in/flagcell:" + name
			c.St.H[id] = &Object{Kind: "cell", Pre: true, T: types.Typ[types.String], F: map[string]Val{"": VSym{ID: "g:in/flag:" + name, T: types.Typ[types.String]}}}
			return one(c.St, VPtr{Obj: id}), true
		}
		return nil, false
	}
	r.ensureGlobals(p.relSSA(dpkg))
	r.OnCall = r.model
	r.OnEvent = func(e *Engine, kind string, st *State, fr *Frame, at ssa.Instruction, data ...any) {
		r.indexCheck(prop+"-panic", kind, st, fr, at, data)
		if kind == "nil-deref" {
			name := "?"
			if fr != nil {
				name = r.p.FuncName(fr.Fn)
			}
			rep.Violate(prop+"-panic", name, r.p.Pos(at.Pos()), "a nil pointer or map is used here: this panics")
		}
	}
	return r
}

// role names the specified pattern a pattern is equivalent to.
func (r *lineRun) role(pat string) string {
	if k, ok := r.known[pat]; ok {
		return k
	}
	k := "rx:" + pat
	for role, spec := range r.roles {
		if rxSame(pat, spec) {
			k = role
		}
	}
	r.known[pat] = k
	return k
}

func lineSym(n int) VSym {
	return VSym{ID: fmt.Sprintf("g:in/line%d", n), T: types.NewSlice(types.Typ[types.Uint8])}
}

func matchAtom(role string, text Val) Val {
	return VTerm{Op: "match:" + role, Args: []Val{text}, T: types.Typ[types.Bool]}
}

// group is the text a group of a pattern finds in a text.
func groupSym(role, text string, i int, t types.Type) VSym {
	return VSym{ID: fmt.Sprintf("%s#%s.%d", text, role, i), T: t}
}

func (r *lineRun) model(c *Call) ([]Outcome, bool) {
	if c.Callee == nil {
		return nil, false
	}
	st, strT := c.St, types.Typ[types.String]
	if r.P.IsRepoFunc(c.Callee) {
		switch r.P.FuncName(c.Callee) {
		case "(" + dpkg + ".TestTag).Name", "(" + dpkg + ".HandlerTag).Name":
			return one(st, VTerm{Op: "name", Args: resolveAll(st, c.Args), T: strT}), true
		}
		return nil, false
	}
	k := fnKey(c.Callee)
	text := func(i int) (VSym, bool) {
		v := st.resolve(c.Args[i])
		if s, ok := v.(VSeq); ok && !s.C.Map && len(s.C.Chunks) == 1 && !s.C.Chunks[0].Lit {
			return VSym{ID: s.C.Chunks[0].S, T: strT}, true
		}
		s, ok := v.(VSym)
		return s, ok
	}
	switch k {
	case "bufio.NewScanner":
		st.Mon["reader"] = st.resolve(c.Args[0])
		st.H["g:in/scanner"] = &Object{Kind: "struct", Own: true, T: derefType(c.Sig.Results().At(0).Type()), F: map[string]Val{}}
		return one(st, VPtr{Obj: "g:in/scanner"}), true
	case "(*bufio.Scanner).Scan":
		n := int64(0)
		if v, ok := asInt(st.Mon["epoch"]); ok && st.Mon["epoch"] != nil {
			n = v
		}
		if st.Mon["eof"] != nil {
			return one(st, constBool(false)), true
		}
		var outs []Outcome
		end := st.clone()
		end.Mon["eof"] = constBool(true)
		if n < int64(r.lines) {
			st.Mon["epoch"] = constInt(n + 1)
			outs = append(outs, Outcome{St: st, V: constBool(true)})
		}
		return append(outs, Outcome{St: end, V: constBool(false)}), true
	case "(*bufio.Scanner).Bytes", "(*bufio.Scanner).Text":
		n := int64(0)
		if st.Mon["epoch"] != nil {
			n, _ = asInt(st.Mon["epoch"])
		}
		l := lineSym(int(n))
		l.T = c.Sig.Results().At(0).Type()
		return one(st, l), true
	case "(*bufio.Scanner).Err":
		return one(st, VSym{ID: "g:in/scanErr", T: c.Sig.Results().At(0).Type()}), true
	case "os.Open":
		n := r.textOf(st, c.Args[0])
		bad := st.clone()
		bad.Mon["openFailed"] = constBool(true)
		er := VSym{ID: "g:in/openErr", Cls: "nonnil", T: types.Universe.Lookup("error").Type()}
		return []Outcome{{St: st, V: VTuple{E: []Val{VSym{ID: "g:in/file:" + n, Cls: "nonnil", T: c.Sig.Results().At(0).Type()}, VNil{}}}}, {St: bad, V: VTuple{E: []Val{VNil{}, er}}}}, true
	case "(*os.File).Close":
		return []Outcome{{St: st.clone(), V: VNil{}}, {St: st, V: VSym{ID: "g:in/closeErr", Cls: "nonnil", T: types.Universe.Lookup("error").Type()}}}, true
	case "(*bufio.Scanner).Buffer", "(*bufio.Scanner).Split":
		return one(st, VTuple{}), true
	case "strconv.ParseUint", "strconv.ParseInt", "strconv.ParseFloat", "strconv.Atoi":
		op := c.Callee.Name()
		for _, a := range c.Args[1:] {
			op += "/" + strings.TrimPrefix(st.resolve(a).key(), "c:")
		}
		t := c.Sig.Results().At(0).Type()
		arg := st.resolve(c.Args[0])
		if s, ok := text(0); ok {
			arg = VSym{ID: s.ID, T: strT}
		}
		v := VTerm{Op: op, Args: []Val{arg}, T: t}
		bad := st.clone()
		bad.Mon["failed"] = constBool(true)
		er := VSym{ID: "g:in/err:" + v.key(), Cls: "nonnil", T: types.Universe.Lookup("error").Type()}
		return []Outcome{{St: st, V: VTuple{E: []Val{v, VNil{}}}}, {St: bad, V: VTuple{E: []Val{zeroVal(t), er}}}}, true
	case "bytes.Trim", "bytes.TrimSpace", "bytes.TrimPrefix", "bytes.TrimSuffix", "bytes.TrimLeft", "bytes.TrimRight",
		"strings.Trim", "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeft", "strings.TrimRight":
		s, ok := text(0)
		if !ok {
			return nil, false
		}
		id := s.ID + "#" + c.Callee.Name()
		if len(c.Args) > 1 {
			id += "(" + r.textOf(st, c.Args[1]) + ")"
		}
		return one(st, VSym{ID: id, T: c.Sig.Results().At(0).Type()}), true
	}
	if strings.HasPrefix(k, "(*regexp.Regexp).") && len(c.Args) > 1 {
		pat, ok := rxOf(st.resolve(c.Args[0]))
		s, ok2 := text(1)
		if !ok || !ok2 {
			return nil, false
		}
		role := r.role(pat)
		r.rep.Count("pattern matches analysed", 1)
		s.T = strT
		atom := matchAtom(role, s)
		yes, no := st.clone(), st.clone()
		canYes, canNo := r.assumeTruth(yes, atom, true), r.assumeTruth(no, atom, false)
		if r.say != nil {
			switch r.say(st, role, s.ID) {
			case 1:
				canYes = false
			case 2:
				canNo = false
			}
		}
		if canYes && r.also != nil {
			canYes = r.also(r, yes, role, s)
		}
		var outs []Outcome
		add := func(can bool, st *State, v Val) {
			if can {
				outs = append(outs, Outcome{St: st, V: v})
			}
		}
		switch c.Callee.Name() {
		case "Match", "MatchString":
			add(canYes, yes, constBool(true))
			add(canNo, no, constBool(false))
			return outs, true
		case "FindSubmatch", "FindStringSubmatch":
			t := c.Sig.Results().At(0).Type()
			et := t.Underlying().(*types.Slice).Elem()
			o := &Object{Kind: "array", T: t, F: map[string]Val{}}
			n := rxGroups(pat)
			for i := 0; i <= n; i++ {
				o.F[fmt.Sprintf("[%d]", i)] = groupSym(role, s.ID, i, et)
			}
			if canYes {
				arr := r.freshObj(yes, c.Fr, c.Site, ".ms", o)
				add(true, yes, VSlice{Arr: arr, N: n + 1, T: t})
			}
			add(canNo, no, VNil{})
			return outs, true
		}
	}
	return nil, false
}

// textOf names a text in a readable form; equal texts have equal names.
func (r *objRun) textOf(st *State, v Val) string {
	v = st.resolve(v)
	switch v := v.(type) {
	case VConst:
		if s, ok := asStr(v); ok {
			return fmt.Sprintf("%q", s)
		}
	case VSym:
		return v.ID
	case VSeq:
		if v.C.Map {
			return v.key()
		}
		var l []string
		for _, k := range v.C.Chunks {
			if k.Lit {
				l = append(l, fmt.Sprintf("%q", k.S))
			} else {
				l = append(l, k.S)
			}
		}
		if len(l) == 0 {
			return `""`
		}
		return strings.Join(l, "+")
	case VSlice:
		if v.N >= 0 {
			b := make([]byte, 0, v.N)
			for _, x := range r.elemsOf(st, v).(VTuple).E {
				n, ok := asInt(x)
				if !ok {
					return v.key()
				}
				b = append(b, byte(n))
			}
			return fmt.Sprintf("%q", string(b))
		}
	}
	return v.key()
}

var benchRoles = map[string]string{
	"def":    `^#\s*Handler\[(\S+)\]\s*=\s*"(\S+)"\s*$`,
	"warn":   `^# (.*)`,
	"data":   `^Benchmark([^/]+)/Benchmark([^-]+)-(\d+)\s+(\d+)\s+(\d+(?:\.\d+)?)\s+ns/op\b`,
	"allocs": `\s(\d+)\s+allocs/op\b`,
	"bytes":  `\s(\d+)\s+B/op\b`,
	"mbs":    `\s(\d+(?:\.\d+)?)\s+MB/s`,
}

type benchLine struct {
	line         VSym
	kind         string
	handler      Val
	test         Val
	allocs, b, m bool
}

func benchData(p *Program, rep *Report) {
	rep.Rule = "every path of ParseBenchmarkData over one and two lines of each kind, from new Benchmarks: the tables read back through the methods of Benchmarks, the error, and the warning text against the specification; patterns compared as regular languages with marked groups"
	parse, mk := p.fnByName("(*"+dpkg+".Benchmarks).ParseBenchmarkData"), p.fnByName(dpkg+".NewBenchmarks")
	if parse == nil || mk == nil {
		rep.Violate("D01-missing", "ParseBenchmarkData", "-", "ParseBenchmarkData or NewBenchmarks is missing")
		return
	}
	r := newLineRun(p, rep, "ParseBenchmarkData", "D01", benchRoles)
	r.MaxSteps = 2_000_000
	strT := types.Typ[types.String]
	r.also = func(r *lineRun, st *State, role string, text Val) bool {
		// no line is both data and marked by a hash
		no := map[string][]string{"def": {"data"}, "warn": {"data"}, "data": {"def", "warn"}}
		for _, o := range no[role] {
			if !r.assumeTruth(st, matchAtom(o, text), false) {
				return false
			}
		}
		return true
	}
	reader := VSym{ID: "g:in/reader", Cls: "nonnil", T: parse.Params[1].Type()}
	sep := "."
	if c, ok := p.Pkg(dpkg).Types.Scope().Lookup("TagSeparator").(*types.Const); ok {
		sep = constant.StringVal(c.Val())
	}
	for _, m := range r.callFn("NewBenchmarks", mk, newState()) {
		b := m.Rets[0]
		for _, x := range r.callFn("ParseBenchmarkData", parse, m.St, b, reader) {
			if x.St.Mon["reader"] == nil || x.St.Mon["reader"].key() != reader.key() {
				r.bad("D01-reader", "ParseBenchmarkData", parse, "what is read is %s, not the reader passed in", valName(VTuple{E: []Val{x.St.Mon["reader"]}}))
				continue
			}
			n := 0
			if x.St.Mon["epoch"] != nil {
				v, _ := asInt(x.St.Mon["epoch"])
				n = int(v)
			}
			failed := x.St.Mon["failed"] != nil
			isNil, known := isNilVal(x.St.resolve(x.Rets[0]))
			scanErr := r.cmpBits(x.St, VSym{ID: "g:in/scanErr", T: types.Universe.Lookup("error").Type()}, VNil{})
			rep.Count("outcomes analysed", 1)
			switch {
			case failed && !(known && !isNil):
				r.bad("D01-error", "ParseBenchmarkData", parse, "a number that cannot be parsed is not reported: the result is %s", valName(x.Rets[0]))
				continue
			case failed:
				continue
			case x.St.Mon["eof"] == nil:
				r.bad("D01-error", "ParseBenchmarkData", parse, "parsing stops before the end of the input although nothing failed")
				continue
			case known && isNil && scanErr&^2 != 0:
				r.bad("D01-error", "ParseBenchmarkData", parse, "no error is returned although reading may have failed")
				continue
			case known && !isNil && scanErr&2 != 0:
				r.bad("D01-error", "ParseBenchmarkData", parse, "an error is returned although nothing failed")
				continue
			case known && !isNil:
				continue
			}
			// every case the path leaves open
			sts := []*State{x.St}
			split := func(atoms ...Val) {
				for _, a := range atoms {
					var next []*State
					for _, s := range sts {
						for _, want := range []bool{true, false} {
							c := s.clone()
							if r.assumeTruth(c, a, want) {
								next = append(next, c)
							}
						}
					}
					sts = next
				}
			}
			lines := make([]benchLine, n)
			for i := range lines {
				l := lineSym(i + 1)
				l.T = strT
				lines[i].line = l
				split(matchAtom("data", l), matchAtom("def", l), matchAtom("warn", l))
			}
			for _, s := range sts {
				ls := append([]benchLine(nil), lines...)
				ok := true
				for i := range ls {
					l := &ls[i]
					is := func(role string) bool { return r.truth(s, matchAtom(role, l.line)) == 2 }
					if is("data") && (is("def") || is("warn")) {
						ok = false
						break
					}
					switch {
					case is("data"):
						l.kind = "data"
						l.handler = VSym{ID: l.line.ID + "#data.1", T: strT}
						l.test = VSeq{Str: true, C: litContent("Bench" + sep).concat(Content{Chunks: []Chunk{{Cls: "raw", S: l.line.ID + "#data.2"}}})}
					case is("def"):
						l.kind = "def"
						l.handler = VSym{ID: l.line.ID + "#def.1", T: strT}
					case is("warn"):
						l.kind = "warn"
					}
				}
				if !ok {
					continue
				}
				r.judgeBench(parse, b, s, ls, 0)
			}
		}
	}
	rep.Floor("outcomes analysed", 30)
	rep.Floor("tables compared", 30)
	r.benchInput(mk, parse)
	r.done()
}

// benchInput checks what is read when no reader is given.
func (r *lineRun) benchInput(mk, parse *ssa.Function) {
	r.lines = 0
	flagV := VSym{ID: "g:in/flag:bench", T: types.Typ[types.String]}
	for _, m := range r.callFn("NewBenchmarks", mk, newState()) {
		for _, x := range r.callFn("ParseBenchmarkData", parse, m.St, m.Rets[0], VNil{}) {
			r.input(x, parse, "ParseBenchmarkData", flagV, "g:os.Stdin")
		}
	}
}

// input checks that the file named by a flag is read, or else the default; an empty name of the default means
// that nothing is read.
func (r *lineRun) input(x Result, fn *ssa.Function, name string, flagV VSym, def string) {
	given := VTerm{Op: "len", Args: []Val{flagV}, T: types.Typ[types.Int]}
	bits := r.cmpBits(x.St, given, constInt(0))
	isNil, known := isNilVal(x.St.resolve(x.Rets[0]))
	rd := ""
	if v := x.St.Mon["reader"]; v != nil {
		rd = v.key()
		if i, ok := v.(VIface); ok {
			rd = i.V.key()
		}
	}
	r.rep.Count("input cases analysed", 1)
	switch {
	case x.St.Mon["openFailed"] != nil:
		if !known || isNil || rd != "" {
			r.bad(r.prop+"-input", name, fn, "a file that cannot be opened is not reported")
		}
	case bits == 2:
		if def == "" && rd != "" || def != "" && !strings.Contains(rd, def) {
			r.bad(r.prop+"-input", name, fn, "without a file name %q is read", rd)
		}
	case bits&2 == 0:
		if !strings.Contains(rd, "g:in/file:"+flagV.ID) {
			r.bad(r.prop+"-input", name, fn, "%q is read, not the file named by the flag", rd)
		}
	default:
		r.bad(r.prop+"-input", name, fn, "the flag naming the file is not consulted")
	}
}

// get reads a map entry of a result.
func (r *objRun) get(st *State, m, k Val) (v Val, found, ok bool) {
	m = st.resolve(m)
	if _, isNil := m.(VNil); isNil {
		return nil, false, true
	}
	mm, isM := m.(VMap)
	if !isM {
		return nil, false, false
	}
	ents, known := r.mapEntries(st, mm)
	if !known {
		return nil, false, false
	}
	for _, e := range ents {
		if bits := r.cmpBits(st, e[0], k); bits == 2 {
			return st.resolve(e[1]), true, true
		} else if bits&2 != 0 {
			return nil, false, false
		}
	}
	return nil, false, true
}

// judgeBench compares the tables after the lines with what they should be; i is the next line whose keys are
// to be compared with those before it.
func (r *lineRun) judgeBench(fn *ssa.Function, b Val, st *State, ls []benchLine, i int) {
	for ; i < len(ls); i++ {
		for j := 0; j < i; j++ {
			pairs := [][2]Val{}
			if ls[i].handler != nil && ls[j].handler != nil {
				pairs = append(pairs, [2]Val{ls[i].handler, ls[j].handler})
			}
			if ls[i].test != nil && ls[j].test != nil {
				pairs = append(pairs, [2]Val{ls[i].test, ls[j].test})
			}
			for _, pr := range pairs {
				bits := r.cmpBits(st, pr[0], pr[1])
				if bits == 2 || bits&2 == 0 {
					continue
				}
				for _, want := range []int{2, 5} {
					c := st.clone()
					if r.assume(c, pr[0], pr[1], want) {
						r.judgeBench(fn, b, c, ls, i)
					}
				}
				return
			}
		}
	}
	eq := func(x, y Val) bool { return r.cmpBits(st, x, y) == 2 }
	r.rep.Count("tables compared", 1)
	var names []string
	for _, l := range ls {
		names = append(names, map[string]string{"": "other", "data": "data", "def": "handler", "warn": "warning"}[l.kind])
	}
	at := strings.Join(names, " line, then ")
	if at != "" {
		at = " (" + at + " line)"
	}
	getter := func(name string, args ...Val) []Result {
		fn := r.p.fnByName("(*" + dpkg + ".Benchmarks)." + name)
		return r.callFn("Benchmarks."+name, fn, st, append([]Val{b}, args...)...)
	}
	badf := func(rule, f string, a ...any) {
		r.bad(rule, "ParseBenchmarkData", fn, "%s%s", fmt.Sprintf(f, a...), at)
	}
	count := func(keep func(l benchLine) Val) int {
		var seen []Val
		for _, l := range ls {
			v := keep(l)
			if v == nil {
				continue
			}
			dup := false
			for _, s := range seen {
				dup = dup || eq(s, v)
			}
			if !dup {
				seen = append(seen, v)
			}
		}
		return len(seen)
	}
	for i, l := range ls {
		if l.kind == "" || l.kind == "warn" {
			continue
		}
		// the name of the handler
		var want Val
		for _, m := range ls {
			if m.handler == nil || !eq(m.handler, l.handler) {
				continue
			}
			if m.kind == "def" {
				want = VSym{ID: m.line.ID + "#def.2", T: types.Typ[types.String]}
			} else if want == nil {
				want = VTerm{Op: "name", Args: []Val{m.handler}}
			}
		}
		for _, g := range getter("HandlerName", l.handler) {
			if r.textOf(g.St, g.Rets[0]) != r.textOf(g.St, want) && !r.sameName(g.St, g.Rets[0], want) {
				badf("D01-handler", "the name of the handler is %s, not %s", valName(g.Rets[0]), valName(want))
			}
		}
		for _, g := range getter("HandlerLookup") {
			v, found, ok := r.get(g.St, g.Rets[0], want)
			if !ok {
				continue // two handlers whose names may be equal
			}
			if !found {
				badf("D01-handler", "the handler's name does not lead to its tag")
				continue
			}
			good := false
			for _, m := range ls {
				good = good || m.handler != nil && r.cmpBits(g.St, v, m.handler) == 2
			}
			if !good {
				badf("D01-handler", "the handler's name leads to %s", valName(v))
			}
		}
		if l.kind != "data" {
			has := false
			for _, m := range ls {
				has = has || m.kind == "data" && eq(m.handler, l.handler)
			}
			for _, g := range getter("HasHandler", l.handler) {
				if v, ok := asBool(g.St.resolve(g.Rets[0])); !ok || v != has {
					badf("D01-table", "HasHandler answers %s for a handler with results: %v", valName(g.Rets[0]), has)
				}
			}
			continue
		}
		last := i
		for j := i + 1; j < len(ls); j++ {
			if ls[j].kind == "data" && eq(ls[j].handler, l.handler) && eq(ls[j].test, l.test) {
				last = j
			}
		}
		for _, g := range getter("TestName", l.test) {
			if !r.sameName(g.St, g.Rets[0], VTerm{Op: "name", Args: []Val{l.test}}) {
				badf("D01-table", "the name of the test is %s", valName(g.Rets[0]))
			}
		}
		for _, q := range []struct {
			has, rec string
			key, sub Val
			n        int
		}{
			{"HasTest", "HandlerRecordsFor", l.test, l.handler, count(func(m benchLine) Val {
				if m.kind == "data" && eq(m.test, l.test) {
					return m.handler
				}
				return nil
			})},
			{"HasHandler", "TestRecordsFor", l.handler, l.test, count(func(m benchLine) Val {
				if m.kind == "data" && eq(m.handler, l.handler) {
					return m.test
				}
				return nil
			})},
		} {
			for _, g := range getter(q.has, q.key) {
				if v, ok := asBool(g.St.resolve(g.Rets[0])); !ok || !v {
					badf("D01-table", "%s answers %s for a result that was parsed", q.has, valName(g.Rets[0]))
				}
			}
			for _, g := range getter(q.rec, q.key) {
				v, found, ok := r.get(g.St, g.Rets[0], q.sub)
				if !ok || !found {
					badf("D01-table", "%s does not hold the result that was parsed", q.rec)
					continue
				}
				if ents, ok := r.mapEntries(g.St, g.St.resolve(g.Rets[0]).(VMap)); !ok || len(ents) != q.n {
					badf("D01-table", "%s holds %d records where there are %d", q.rec, len(ents), q.n)
				}
				r.record(badf, q.rec, g.St, v, ls[last])
			}
		}
		for _, g := range getter("HandlerTags") {
			r.tagList(badf, "HandlerTags", g, l.handler, count(func(m benchLine) Val {
				if m.kind == "data" {
					return m.handler
				}
				return nil
			}))
		}
		for _, g := range getter("TestTags") {
			r.tagList(badf, "TestTags", g, l.test, count(func(m benchLine) Val { return m.test }))
		}
	}
	r.benchText(badf, getter, st, ls)
}

func (r *objRun) sameName(st *State, got, want Val) bool {
	got, want = st.resolve(got), st.resolve(want)
	if got.key() == want.key() {
		return true
	}
	a, ok1 := got.(VTerm)
	b, ok2 := want.(VTerm)
	return ok1 && ok2 && a.Op == "name" && b.Op == "name" && r.cmpBits(st, a.Args[0], b.Args[0]) == 2
}

// tagList checks that a list of tags holds one and no tag twice.
func (r *lineRun) tagList(badf func(rule, f string, a ...any), name string, g Result, tag Val, n int) {
	l, ok := r.list(g.St, g.Rets[0])
	found := 0
	for _, x := range l {
		if r.cmpBits(g.St, x, tag) == 2 {
			found++
		}
	}
	if !ok || found != 1 || len(l) != n {
		badf("D01-table", "%s holds a tag %d times among %d, where there are %d", name, found, len(l), n)
	}
}

// record compares one record with the line it comes from.
func (r *lineRun) record(badf func(rule, f string, a ...any), where string, st *State, v Val, l benchLine) {
	strT := types.Typ[types.String]
	num := func(op, role string, i int) string {
		return VTerm{Op: op, Args: []Val{VSym{ID: fmt.Sprintf("%s#%s.%d", l.line.ID, role, i), T: strT}}}.key()
	}
	opt := func(op, role string) []string {
		switch r.truth(st, matchAtom(role, l.line)) {
		case 2:
			return []string{num(op, role, 1)}
		case 1:
			return []string{"c:0"}
		}
		return nil
	}
	mb := opt("ParseFloat/64", "mbs")
	scaled := func(got Val, by int64) bool {
		if len(mb) == 1 && mb[0] == "c:0" && got.key() == "c:0" {
			return true
		}
		t, ok := got.(VTerm)
		if !ok || len(t.Args) != 2 || len(mb) != 1 || t.Args[0].key() != mb[0] {
			return false
		}
		c, ok := t.Args[1].(VConst)
		if !ok {
			return false
		}
		f, _ := constant.Float64Val(constant.ToFloat(c.C))
		return t.Op == "/" && f == float64(by) || t.Op == "*" && f == 1/float64(by)
	}
	for _, f := range []struct {
		name string
		want []string
		by   int64
	}{
		{"Runs", []string{num("ParseUint/10/64", "data", 4)}, 0},
		{"NanosPerOp", []string{num("ParseFloat/64", "data", 5)}, 0},
		{"MemBytesPerOp", opt("ParseUint/10/64", "bytes"), 0},
		{"MemAllocsPerOp", opt("ParseUint/10/64", "allocs"), 0},
		{"MbPerSec", mb, 0},
		{"GbPerSec", nil, 1000},
		{"TbPerSec", nil, 1000000},
	} {
		got := r.field(st, v, f.name)
		ok := false
		for _, w := range f.want {
			ok = ok || got.key() == w
		}
		if f.by != 0 {
			ok = scaled(got, f.by)
		}
		if !ok {
			badf("D01-record", "%s of the record in %s is %s, not what the line says", f.name, where, valName(got))
		}
	}
}

// benchText compares the warning text with the warning lines.
func (r *lineRun) benchText(badf func(rule, f string, a ...any), getter func(string, ...Val) []Result, st *State, ls []benchLine) {
	var parts []string
	for _, l := range ls {
		if l.kind == "warn" {
			parts = append(parts, l.line.ID+"#warn.1")
		}
	}
	for _, g := range getter("WarningText") {
		v := g.St.resolve(g.Rets[0])
		if len(parts) == 0 {
			if n, ok := asInt(r.length(g.St, v)); !ok || n != 0 {
				badf("D01-text", "there is a warning text without a warning line: %s", valName(v))
			}
			continue
		}
		s, ok := v.(VSeq)
		if !ok || s.C.Map {
			badf("D01-text", "the warning text is %s: not a copy of the warning lines", valName(v))
			continue
		}
		if strings.HasPrefix(s.Arr, "*g:in/line") {
			badf("D01-text", "the warning text shares memory with the line read")
		}
		var got strings.Builder
		for _, c := range s.C.Chunks {
			if c.Lit {
				got.WriteString(c.S)
			} else {
				got.WriteString("<" + c.S + ">")
			}
		}
		var want strings.Builder
		for i, p := range parts {
			// a first line that is empty needs no line end
			empty := r.cmpBits(g.St, VTerm{Op: "len", Args: []Val{VSym{ID: p, T: types.Typ[types.String]}}, T: types.Typ[types.Int]}, constInt(0)) == 2
			if i > 0 && want.Len() > 0 {
				want.WriteString("\n")
			}
			if i == 0 && empty && len(parts) > 1 {
				continue
			}
			want.WriteString("<" + p + ">")
		}
		if got.String() != want.String() && strings.TrimLeft(strings.ReplaceAll(got.String(), "<"+parts[0]+">", ""), "\n") != want.String() {
			badf("D01-text", "the warning text is %q, not %q", got.String(), want.String())
		}
	}
}
