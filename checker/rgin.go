package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// G01, G02 and G03: the gin writer and the parser of gin traffic lines.

func init() {
	register("G01", func(p *Program, rep *Report) { ginWriter(p, rep, "G01") })
	register("G02", func(p *Program, rep *Report) { ginWriter(p, rep, "G02") })
	register("G03", ginParse)
}

// textModel gives the abstract effect of text functions: results remember which text they were cut from.
func (r *smallRun) textModel(c *Call) ([]Outcome, bool) {
	if c.Callee == nil || r.P.IsRepoFunc(c.Callee) {
		return nil, false
	}
	e, st := r.Engine, c.St
	k := fnKey(c.Callee)
	strT := types.Typ[types.String]
	errT := types.Universe.Lookup("error").Type()
	switch k {
	case "strings.TrimRight", "strings.Trim", "strings.TrimLeft", "strings.TrimSpace", "strings.TrimSuffix", "strings.TrimPrefix", "bytes.TrimRight", "bytes.TrimSpace", "strings.TrimFunc", "strings.TrimRightFunc", "strings.Clone":
		if r.onTrim != nil {
			cut := "\t\n\v\f\r \u0085\u00a0"
			switch {
			case len(c.Args) > 1:
				var ok bool
				if cut, ok = asStr(st.resolve(c.Args[1])); !ok {
					cut = "?"
				}
			case c.Callee.Name() == "Clone":
				cut = ""
			}
			r.onTrim(c, provenance(st.resolve(c.Args[0])), c.Callee.Name(), cut)
		}
		return one(st, e.derived(st, c.Fr, c.Site, c.Args[0], "")), true
	case "strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint":
		t := c.Sig.Results().At(0).Type()
		v := VSym{ID: e.siteID(c.Site) + ".int", Cls: "int:" + strings.TrimPrefix(strings.TrimPrefix(provenance(st.resolve(c.Args[0])), "sub:"), "in:"), T: t}
		return e.errFork(c, v, VConst{constant.MakeInt64(0), t}), true
	}
	if strings.HasPrefix(k, "(*regexp.Regexp).") {
		pat, ok := rxOf(st.resolve(c.Args[0]))
		if !ok {
			return nil, false
		}
		r.rep.Count("pattern matches analysed", 1)
		var in Val
		if len(c.Args) > 1 {
			in = st.resolve(c.Args[1])
		}
		groups := rxGroups(pat)
		id := e.siteID(c.Site)
		switch c.Callee.Name() {
		case "MatchString", "Match":
			return nil, false
		case "FindString":
			m := e.freshSymCls(st, c.Fr, c.Site, strT, ".m0", "match:"+pat).(VSym)
			yes, no := st.clone(), st.clone()
			if !rxMatchesEmpty(pat) {
				e.assume(yes, VTerm{Op: "len", Args: []Val{m}, T: types.Typ[types.Int]}, constInt(0), 5)
			}
			yes.Mon["m:"+pat] = VTuple{E: []Val{m}}
			return []Outcome{{St: yes, V: m}, {St: no, V: constStr("")}}, true
		case "FindStringIndex":
			if !strings.HasPrefix(pat, "^") && !strings.HasPrefix(pat, `\A`) {
				return nil, false
			}
			m := e.freshSymCls(st, c.Fr, c.Site, strT, ".m0", "match:"+pat).(VSym)
			yes, no := st.clone(), st.clone()
			if !rxMatchesEmpty(pat) {
				e.assume(yes, VTerm{Op: "len", Args: []Val{m}, T: types.Typ[types.Int]}, constInt(0), 5)
			}
			yes.Mon["m:"+pat] = VTuple{E: []Val{m}}
			o := &Object{Kind: "array", T: c.Sig.Results().At(0).Type(), F: map[string]Val{
				"[0]": constInt(0), "[1]": VTerm{Op: "len", Args: []Val{m}, T: types.Typ[types.Int]}}}
			arr := e.freshObj(yes, c.Fr, c.Site, ".ms", o)
			return []Outcome{{St: yes, V: VSlice{Arr: arr, N: 2, T: o.T}}, {St: no, V: VNil{}}}, true
		case "FindStringSubmatch":
			if c.Fr != nil && c.Site != nil && e.inLoop(c.Fr.Fn, c.Site.Block()) {
				e.age(st, c.Fr, id+".m")
				in = st.resolve(e.val(c.Fr, st, c.Site.(ssa.CallInstruction).Common().Args[1]))
			}
			yes, no := st.clone(), st.clone()
			pv := strings.TrimPrefix(strings.TrimPrefix(provenance(in), "in:"), "sub:")
			if pv == "" {
				pv = "?"
			}
			el := []Val{VSym{ID: id + ".m.0", Cls: "match:" + pat, T: strT}}
			if !rxMatchesEmpty(pat) {
				e.assume(yes, VTerm{Op: "len", Args: []Val{el[0]}, T: types.Typ[types.Int]}, constInt(0), 5)
			}
			for i := 1; i <= groups; i++ {
				el = append(el, VSym{ID: fmt.Sprintf("%s.m.%d", id, i), Cls: "sub:" + pv, T: strT})
			}
			o := &Object{Kind: "array", T: c.Sig.Results().At(0).Type(), F: map[string]Val{}}
			for i, v := range el {
				o.F[fmt.Sprintf("[%d]", i)] = v
			}
			arr := e.freshObj(yes, c.Fr, c.Site, ".ms", o)
			yes.Mon["m:"+pat] = VTuple{E: el}
			return []Outcome{{St: yes, V: VSlice{Arr: arr, N: groups + 1, T: o.T}}, {St: no, V: VNil{}}}, true
		}
	}
	_ = errT
	return nil, false
}

func rxOf(v Val) (string, bool) {
	t, ok := v.(VTerm)
	if !ok || t.Op != "regexp" || len(t.Args) != 1 {
		return "", false
	}
	return asStr(t.Args[0])
}

func rxMatchesEmpty(pat string) bool {
	p, err := rxProg(pat)
	if err != nil {
		return true
	}
	return rxClosure(p, []int{p.Start}, -1, -1).accept || rxClosure(p, []int{p.Start}, -1, 'x').accept
}

// textEvents reports indexing beyond a known length.
func (r *smallRun) indexCheck(rule, kind string, st *State, fr *Frame, at ssa.Instruction, data []any) {
	if kind != "index" {
		return
	}
	x, _ := data[0].(Val)
	idx, _ := data[1].(Val)
	i, isC := asInt(idx)
	n := -1
	switch s := x.(type) {
	case VSlice:
		n = s.N
	case VNil:
		n = 0
	default:
		return
	}
	if n < 0 || !isC {
		return
	}
	r.rep.Count("index operations analysed", 1)
	if i < 0 || int(i) >= n {
		r.rep.Violate(rule, r.what+": "+r.P.FuncName(fr.Fn), r.P.Pos(at.Pos()), "element %d of a list of %d is read: this panics", i, n)
	}
}

// The prefixes gin puts in front of a line, and what they mean.
var ginSpec = map[string]string{
	"gin":   `^\s*\[GIN]\s*`,
	"debug": `^\s*\[GIN-debug]\s*`,
	"level": `^\s*\[(DEBUG|ERROR|INFO|WARNING|.*)]\s*`,
	"time":  `^\s*\d+/\d+/\d+\s*-\s*\d+:\d+:\d+\s*\|\s*(.+)$`,
}

var ginLevels = map[string]int64{"DEBUG": -4, "INFO": 0, "WARNING": 4, "ERROR": 8}

func ginRole(pat string) string {
	for role, spec := range ginSpec {
		if rxEquivalent(pat, spec) && rxGroups(pat) == rxGroups(spec) {
			return role
		}
	}
	return ""
}

func ginWriter(p *Program, rep *Report, prop string) {
	if prop == "G01" {
		rep.Rule = "every path through Write, from each configuration of the options and an unknown text: one record whose message is the text without its prefixes (or the traffic message) and the return value (len(p), nil), or no record and (0, error); nothing that existed before the call is written"
	} else {
		rep.Rule = "every path through Write, from each configuration of the options: the level of the record is compared with the one due (configured traffic level, last level prefix, configured level); prefix patterns are compared with the specified ones as languages"
	}
	nw := p.fnByName("gin.NewWriter")
	parse := p.fnByName("gin.Parse")
	if nw == nil || parse == nil {
		rep.Violate(prop+"-missing", "gin.NewWriter", "-", "gin.NewWriter or gin.Parse is missing")
		return
	}
	optT := derefType(nw.Params[0].Type())
	sl := p.ByPath["log/slog"].Types.Scope()
	levelerT := sl.Lookup("Leveler").Type()
	levelT := sl.Lookup("Level").Type()
	strT := types.Typ[types.String]
	lvConst := func(n int64) Val { return VConst{constant.MakeInt64(n), levelT} }
	for mask := 0; mask < 64; mask++ {
		on := func(i int) bool { return mask>>i&1 != 0 }
		levelSet, parseOn, embed, tlSet, msgSet, grpSet := on(0), on(1), on(2), on(3), on(4), on(5)
		if !parseOn && (embed || grpSet) && mask>>2 != 15 {
			continue // nothing else matters then; one case is enough
		}
		r := newSmall(p, rep, "gin.Write")
		cfg := fmt.Sprintf("level set %v, parse %v, embed %v, traffic level set %v, message set %v, group set %v", levelSet, parseOn, embed, tlSet, msgSet, grpSet)
		bad := func(rule, at, f string, a ...any) {
			want := "G01"
			if strings.HasPrefix(rule, "G02") {
				want = "G02"
			}
			if want == prop {
				rep.Violate(rule, "gin.Write", at, "%s (%s)", fmt.Sprintf(f, a...), cfg)
			}
		}
		st := newState()
		o := &Object{Kind: "struct", Pre: true, T: optT, F: map[string]Val{}}
		lev := func(set bool, name string) Val {
			if set {
				return VSym{ID: "g:in/" + name, Cls: "nonnil", T: levelerT}
			}
			return VNil{}
		}
		str := func(set bool, name string) Val {
			if set {
				s := VSym{ID: "g:in/" + name, T: strT}
				r.assume(st, VTerm{Op: "len", Args: []Val{s}, T: types.Typ[types.Int]}, constInt(0), 5)
				return s
			}
			return constStr("")
		}
		o.F[".Level"] = lev(levelSet, "Level")
		o.F[".Traffic.Parse"], o.F[".Traffic.Embed"] = constBool(parseOn), constBool(embed)
		o.F[".Traffic.Level"] = lev(tlSet, "TrafficLevel")
		o.F[".Traffic.Message"], o.F[".Traffic.Group"] = str(msgSet, "Message"), str(grpSet, "Group")
		st.H["g:in/options"] = o
		wantBase, wantTraffic := lvConst(0), lvConst(0)
		if levelSet {
			wantBase = VTerm{Op: "level", Args: []Val{o.F[".Level"]}, T: levelT}
		}
		if tlSet {
			wantTraffic = VTerm{Op: "level", Args: []Val{o.F[".Traffic.Level"]}, T: levelT}
		}
		defStr := func(name string) Val {
			if c, ok := p.Pkg("gin").Types.Scope().Lookup(name).(*types.Const); ok {
				return constStr(constant.StringVal(c.Val()))
			}
			return constStr("?")
		}
		wantMsg, wantGroup := o.F[".Traffic.Message"], o.F[".Traffic.Group"]
		if !msgSet {
			wantMsg = defStr("DefaultTrafficMessage")
		}
		if !grpSet {
			wantGroup = defStr("DefaultTrafficGroup")
		}
		pin := VSym{ID: "g:in/p", Cls: "in:p", T: types.NewSlice(types.Typ[types.Uint8])}
		inWrite := false
		record := func(c *Call, lvl, msg Val, args Val) []Outcome {
			st := c.St.clone()
			at := p.Pos(c.Site.Pos())
			lvl, msg = st.resolve(lvl), st.resolve(msg)
			parsed := ""
			if v, ok := st.Mon["parsed"]; ok {
				parsed, _ = asStr(v)
			}
			if s, ok := asStr(msg); ok && parsed == "no" && s != "" && msg.key() != wantMsg.key() {
				if lvl.key() == lvConst(-4).key() {
					return one(st, VTuple{}) // the diagnostic about an unparsable line
				}
			}
			rep.Count("records analysed", 1)
			n, _ := asInt2(st.Mon["records"])
			if st.Mon["records"] == nil {
				n = 0
			}
			st.Mon["records"] = constInt(n + 1)
			if n > 0 {
				bad("G01-twice", at, "a second record is logged for one write")
			}
			want := wantBase
			if parsed == "yes" {
				want = wantTraffic
				if msg.key() != st.resolve(wantMsg).key() {
					bad("G01-message", at, "a parsed traffic line is logged with the message %s", valName(msg))
				}
				if !ginArgs(r, st, args, embed, wantGroup) {
					bad("G01-traffic", at, "the parsed traffic data is not logged as configured: %s", valName(args))
				}
			} else {
				if pv := provenance(msg); pv != "in:p" && pv != "sub:p" {
					bad("G01-message", at, "the message is %s, not the text that was written", valName(msg))
				}
				switch a := args.(type) {
				case VNil:
				case VSlice:
					if a.N != 0 {
						bad("G01-extra", at, "attributes are added to an ordinary line")
					}
				default:
					bad("G01-extra", at, "attributes are added to an ordinary line: %s", valName(args))
				}
				if pf, ok := st.Mon["prefix"]; ok {
					pf = st.resolve(pf)
					if name, ok := asStr(pf); ok {
						if name == "GIN-debug" {
							want = lvConst(-4)
						} else if l, ok := ginLevels[name]; ok {
							want = lvConst(l)
						} else {
							want = nil
						}
					} else {
						want = nil
					}
					if want == nil {
						bad("G02-unknown", at, "a line is logged although its level prefix is not a known level")
					}
				}
			}
			if want != nil && lvl.key() != want.key() {
				bad("G02-level", at, "the record is logged at %s where %s is due (traffic line: %v)", valName(lvl), valName(want), parsed == "yes")
			}
			return one(st, VTuple{})
		}
		r.OnCall = func(c *Call) ([]Outcome, bool) {
			st := c.St
			if c.Method != nil && c.Callee == nil && c.Method.Name() == "Level" {
				return one(st, VTerm{Op: "level", Args: []Val{c.Recv}, T: levelT}), true
			}
			if c.Callee == nil {
				return nil, false
			}
			if c.Callee == parse {
				rep.Count("parse calls analysed", 1)
				if pv := provenance(st.resolve(c.Args[0])); pv != "in:p" && pv != "sub:p" {
					bad("G01-parse", p.Pos(c.Site.Pos()), "the parser is given %s, not the text that was written", valName(c.Args[0]))
				}
				good, fail := st.clone(), st.clone()
				good.Mon["parsed"], fail.Mon["parsed"] = constStr("yes"), constStr("no")
				if !parseOn {
					bad("G01-unasked", p.Pos(c.Site.Pos()), "lines are parsed although parsing is off")
				}
				return []Outcome{
					{St: good, V: VTuple{E: []Val{VSym{ID: "g:in/parsed", Cls: "parsed", T: c.Sig.Results().At(0).Type()}, VNil{}}}},
					{St: fail, V: VTuple{E: []Val{VNil{}, VSym{ID: "g:in/parseErr", Cls: "nonnil", T: types.Universe.Lookup("error").Type()}}}},
				}, true
			}
			k := fnKey(c.Callee)
			switch k {
			case "log/slog.Debug", "log/slog.Info", "log/slog.Warn", "log/slog.Error":
				n := map[string]int64{"Debug": -4, "Info": 0, "Warn": 4, "Error": 8}[c.Callee.Name()]
				return record(c, lvConst(n), c.Args[0], c.Args[1]), true
			case "log/slog.DebugContext", "log/slog.InfoContext", "log/slog.WarnContext", "log/slog.ErrorContext":
				n := map[string]int64{"DebugContext": -4, "InfoContext": 0, "WarnContext": 4, "ErrorContext": 8}[c.Callee.Name()]
				return record(c, lvConst(n), c.Args[1], c.Args[2]), true
			case "log/slog.Log":
				return record(c, c.Args[1], c.Args[2], c.Args[3]), true
			case "(*log/slog.Logger).Log":
				return record(c, c.Args[2], c.Args[3], c.Args[4]), true
			case "(*log/slog.Logger).Debug", "(*log/slog.Logger).Info", "(*log/slog.Logger).Warn", "(*log/slog.Logger).Error":
				n := map[string]int64{"Debug": -4, "Info": 0, "Warn": 4, "Error": 8}[c.Callee.Name()]
				return record(c, lvConst(n), c.Args[1], c.Args[2]), true
			case "log/slog.Group":
				return one(st, attrStruct(c, c.Args[0], VTerm{Op: "group", Args: []Val{c.Args[1]}, T: r.slogType("Value")})), true
			}
			if strings.HasPrefix(k, "(*regexp.Regexp).") && inWrite {
				if pat, ok := rxOf(c.St.resolve(c.Args[0])); !ok || ginRole(pat) == "" {
					bad("G02-pattern", p.Pos(c.Site.Pos()), "the prefix pattern %q accepts other texts than the specified prefixes", pat)
				}
			}
			return r.textModel(c)
		}
		r.onTrim = func(c *Call, prov, fn, cut string) {
			if v, ok := c.Args[0].(VSym); ok && strings.HasPrefix(v.Cls, "match:") || cut == "" {
				return
			}
			if fn == "TrimPrefix" {
				ginTrimPrefix(r, c, bad)
				return
			}
			if strings.Trim(cut, "\r\n") != "" || strings.HasSuffix(fn, "Left") || fn == "Trim" {
				bad("G01-cut", p.Pos(c.Site.Pos()), "more than line ends is trimmed from the text")
			}
		}
		r.OnEvent = func(e *Engine, kind string, st *State, fr *Frame, at ssa.Instruction, data ...any) {
			if inWrite {
				if id, w := foreignWrite(e, kind, st, data); w {
					bad("G01-effect", p.Pos(at.Pos()), "memory that is shared with other writes, or the text written, is modified (%s)", valName(VPtr{Obj: id}))
					if s, ok := at.(*ssa.Store); ok {
						if k := typeKey(derefType(s.Addr.Type())); k == "log/slog.Leveler" || k == "log/slog.Level" {
							bad("G02-sticky", p.Pos(at.Pos()), "a level that later writes use is changed")
						}
					}
				}
			} else if id, w := foreignWrite(e, kind, st, data); w && strings.HasPrefix(id, "g:in/") {
				bad("G01-options", p.Pos(at.Pos()), "the caller's options are modified")
			}
			if prop == "G01" {
				r.indexCheck("G01-panic", kind, st, fr, at, data)
				if kind == "bad-assert" || kind == "may-panic-assert" {
					bad("G01-panic", p.Pos(at.Pos()), "an unchecked type assertion can panic")
				}
			}
			if kind == "substr" {
				ginConsume(r, st, at, data, bad)
			}
		}
		made := r.Run(nw, []Val{VPtr{Obj: "g:in/options"}}, st)
		n := 0
		for _, m := range made {
			if m.Panic || len(m.Rets) != 1 {
				bad("G01-construct", p.Pos(nw.Pos()), "NewWriter may panic")
				continue
			}
			w, ok := m.Rets[0].(VIface)
			if !ok {
				bad("G01-construct", p.Pos(nw.Pos()), "NewWriter returns %s, whose type is not known", valName(m.Rets[0]))
				continue
			}
			fn := p.SSA.LookupMethod(w.Dyn, nil, "Write")
			if fn == nil {
				continue
			}
			inWrite = true
			s2 := preState(m.St)
			for k, f := range st.F {
				s2.F[k] = f
			}
			res := r.Run(fn, []Val{w.V, pin}, s2)
			inWrite = false
			for _, x := range res {
				n++
				rep.Count("outcomes analysed", 1)
				at := p.Pos(fn.Pos())
				if x.Panic || len(x.Rets) != 2 {
					bad("G01-panic", at, "Write may panic")
					continue
				}
				cnt, _ := asInt2(x.St.Mon["records"])
				nv, ev := x.St.resolve(x.Rets[0]), x.St.resolve(x.Rets[1])
				isNil, known := isNilVal(ev)
				switch {
				case !known:
					bad("G01-result", at, "the error returned (%s) is not determined by whether the record was logged", valName(ev))
				case isNil:
					if cnt != 1 {
						bad("G01-lost", at, "success is returned after %d records", cnt)
					}
					if nv.key() != (VTerm{Op: "len", Args: []Val{pin}}).key() && nv.key() != r.length(x.St, pin).key() {
						bad("G01-count", at, "success is returned with the count %s instead of the length of the text: callers see a short write", valName(nv))
					}
				default:
					if cnt != 0 {
						bad("G01-result", at, "an error is returned after the record was logged")
					}
					if i, ok := asInt(nv); !ok || i != 0 {
						bad("G01-count", at, "an error is returned with the count %s", valName(nv))
					}
				}
			}
		}
		if n == 0 {
			bad("G01-construct", p.Pos(nw.Pos()), "no outcome of Write could be analysed")
		}
		rep.Count("configurations analysed", 1)
		r.done()
	}
	rep.Floor("configurations analysed", 32)
	rep.Floor("outcomes analysed", 100)
	rep.Floor("records analysed", 100)
	rep.Floor("prefixes analysed", 3)
}

// ginTrimPrefix: cutting a matched prefix by its text is the same as cutting it by its length.
func ginTrimPrefix(r *smallRun, c *Call, bad func(rule, at, f string, a ...any)) {
	ginConsume(r, c.St, c.Site, []any{c.Args[0], Val(VTerm{Op: "len", Args: []Val{c.St.resolve(c.Args[1])}}), Val(nil)}, bad)
}

// ginConsume notes which prefix was just cut off.
func ginConsume(r *smallRun, st *State, at ssa.Instruction, data []any, bad func(rule, at, f string, a ...any)) {
	lo, _ := data[1].(Val)
	hi, _ := data[2].(Val)
	pos := r.P.Pos(at.Pos())
	t, ok := lo.(VTerm)
	if hi != nil || !ok || t.Op != "len" {
		bad("G01-cut", pos, "part of the text is cut off that is not a recognised prefix")
		return
	}
	s, ok := t.Args[0].(VSym)
	if !ok || !strings.HasPrefix(s.Cls, "match:") {
		bad("G01-cut", pos, "part of the text is cut off that is not a recognised prefix")
		return
	}
	pat := strings.TrimPrefix(s.Cls, "match:")
	r.rep.Count("prefixes analysed", 1)
	m, _ := st.Mon["m:"+pat].(VTuple)
	if len(m.E) == 0 || m.E[0].key() != s.key() {
		bad("G01-cut", pos, "the prefix cut off is not the one matched last")
		return
	}
	switch role := ginRole(pat); role {
	case "gin":
	case "debug":
		st.Mon["prefix"] = constStr("GIN-debug")
	case "level":
		if len(m.E) < 2 {
			bad("G02-pattern", pos, "the level prefix is cut off without reading its name")
			return
		}
		for name := range ginLevels {
			if !rxSettled(pat, "["+name+"]", 1, 1, 1+len(name)) {
				bad("G02-pattern", pos, "the pattern %q does not take %s from a line that begins with [%s]", pat, name, name)
			}
		}
		st.Mon["prefix"] = st.resolve(m.E[1])
	case "time":
	default:
		bad("G02-pattern", pos, "the prefix pattern %q accepts other texts than the specified prefixes", pat)
	}
}

// ginArgs: the parsed attributes themselves when embedded, else one group of that name holding them.
func ginArgs(r *smallRun, st *State, args Val, embed bool, group Val) bool {
	isParsed := func(v Val) bool { s, ok := v.(VSym); return ok && s.Cls == "parsed" }
	if embed {
		return isParsed(args)
	}
	s, ok := args.(VSlice)
	if !ok || s.N != 1 {
		return false
	}
	o := r.obj(st, s.Arr)
	if o == nil {
		return false
	}
	i, ok := o.F["[0]"].(VIface)
	if !ok {
		return false
	}
	a, ok := i.V.(VStruct)
	if !ok || len(a.F) != 2 || st.resolve(a.F[0]).key() != st.resolve(group).key() {
		return false
	}
	g, ok := a.F[1].(VTerm)
	return ok && g.Op == "group" && len(g.Args) == 1 && isParsed(g.Args[0])
}

// ginParse decides G03.
func ginParse(p *Program, rep *Report) {
	rep.Rule = "every path through Parse, from a text of 1 to 6 parts whose last part has 1 to 4 words: nil and an error, or exactly the specified attributes, each cut from its own part; no index beyond a known length"
	fn := p.fnByName("gin.Parse")
	if fn == nil {
		rep.Violate("G03-missing", "gin.Parse", "-", "gin.Parse is missing")
		return
	}
	strT := types.Typ[types.String]
	at := p.Pos(fn.Pos())
	succ := 0
	for parts := 1; parts <= 6; parts++ {
		for words := 1; words <= 4; words++ {
			if parts != 4 && words > 1 {
				continue
			}
			r := newSmall(p, rep, "gin.Parse")
			list := func(c *Call, n int, cls string) []Outcome {
				o := &Object{Kind: "array", T: c.Sig.Results().At(0).Type(), F: map[string]Val{}}
				for i := 0; i < n; i++ {
					o.F[fmt.Sprintf("[%d]", i)] = VSym{ID: fmt.Sprintf("g:in/%s%d", cls, i), Cls: fmt.Sprintf("in:%s%d", cls, i), T: strT}
				}
				arr := r.freshObj(c.St, c.Fr, c.Site, ".parts", o)
				return one(c.St, VSlice{Arr: arr, N: n, T: o.T})
			}
			r.OnCall = func(c *Call) ([]Outcome, bool) {
				if c.Callee == nil {
					return nil, false
				}
				switch fnKey(c.Callee) {
				case "strconv.ParseInt", "strconv.ParseUint":
					base, ok := asInt(c.St.resolve(c.Args[1]))
					bits, ok2 := asInt(c.St.resolve(c.Args[2]))
					if !ok || base != 10 || !ok2 || bits != 0 && bits < 16 {
						rep.Violate("G03-number", "gin.Parse", p.Pos(c.Site.Pos()), "the status code is not read as a decimal number of any usual size")
					}
				case "strings.Split":
					sep, _ := asStr(c.St.resolve(c.Args[1]))
					pv := provenance(c.St.resolve(c.Args[0]))
					if sep == "|" && (pv == "in:message" || pv == "sub:message") {
						rep.Count("splits analysed", 1)
						return list(c, parts, "part"), true
					}
				case "strings.Fields":
					if pv := provenance(c.St.resolve(c.Args[0])); pv == "in:part3" || pv == "sub:part3" {
						rep.Count("splits analysed", 1)
						return list(c, words, "word"), true
					}
				case "(*regexp.Regexp).Split":
					pat, _ := rxOf(c.St.resolve(c.Args[0]))
					lim, _ := asInt(c.St.resolve(c.Args[2]))
					if pv := provenance(c.St.resolve(c.Args[1])); lim == -1 && rxEquivalent(pat, `\s+`) && pv == "sub:part3" {
						rep.Count("splits analysed", 1)
						return list(c, words, "word"), true
					}
				case "(*regexp.Regexp).FindStringSubmatch":
					if pat, ok := rxOf(c.St.resolve(c.Args[0])); ok && !rxEquivalent(pat, `^\s*(\d+)\s*$`) {
						rep.Violate("G03-pattern", "gin.Parse", p.Pos(c.Site.Pos()), "the pattern %q accepts other texts as a status code than a decimal number between white space", pat)
					}
				}
				return r.textModel(c)
			}
			r.onTrim = func(c *Call, prov, fn, cut string) {
				junk := strings.Trim(cut, "\t\n\v\f\r \u0085\u00a0")
				if junk == "" || junk == "\"" && strings.HasSuffix(prov, "word1") {
					return
				}
				rep.Violate("G03-trim", "gin.Parse", p.Pos(c.Site.Pos()), "characters that belong to the field are trimmed: %q", cut)
			}
			r.OnEvent = func(e *Engine, kind string, st *State, fr *Frame, at ssa.Instruction, data ...any) {
				r.indexCheck("G03-panic", kind, st, fr, at, data)
			}
			cfg := fmt.Sprintf("%d parts, %d words in the last", parts, words)
			for _, x := range r.Run(fn, []Val{inCls("message", "in:message", strT)}, newState()) {
				rep.Count("outcomes analysed", 1)
				if x.Panic || len(x.Rets) != 2 {
					rep.Violate("G03-panic", "gin.Parse", at, "Parse may panic (%s)", cfg)
					continue
				}
				ev := x.St.resolve(x.Rets[1])
				isNil, known := isNilVal(ev)
				rv := x.St.resolve(x.Rets[0])
				if !known {
					rep.Violate("G03-result", "gin.Parse", at, "whether an error is returned is not determined (%s)", cfg)
					continue
				}
				if !isNil {
					if n, k := isNilVal(rv); !k || !n {
						if s, ok := rv.(VSlice); !ok || s.N != 0 {
							rep.Violate("G03-result", "gin.Parse", at, "attributes are returned along with an error (%s)", cfg)
						}
					}
					continue
				}
				if parts != 4 {
					rep.Violate("G03-result", "gin.Parse", at, "a text that is not a traffic line is accepted (%s)", cfg)
					continue
				}
				succ++
				want := map[string]string{"code": "Int64 int:part0", "elapsed": "String part1", "client": "String part2"}
				if words == 2 {
					want["method"], want["url"] = "String word0", "String word1"
				}
				got, ok := ginFields(r, x.St, rv)
				if !ok {
					rep.Violate("G03-result", "gin.Parse", at, "the list of attributes is not determined (%s): %s", cfg, valName(rv))
					continue
				}
				seen := map[string]int{}
				for _, g := range got {
					k, v, _ := strings.Cut(g, "=")
					seen[k]++
					if want[k] == "" {
						rep.Violate("G03-field", "gin.Parse: "+k, at, "an attribute %s is returned that is not expected (%s)", k, cfg)
					} else if v != want[k] {
						rep.Violate("G03-field", "gin.Parse: "+k, at, "the attribute %s is %s, not %s (%s)", k, v, want[k], cfg)
					}
				}
				for k := range want {
					if seen[k] != 1 {
						rep.Violate("G03-field", "gin.Parse: "+k, at, "the attribute %s is returned %d times (%s)", k, seen[k], cfg)
					}
				}
			}
			r.done()
		}
	}
	if succ == 0 {
		rep.Violate("G03-result", "gin.Parse", at, "no path accepts a traffic line")
	}
	rep.Floor("outcomes analysed", 8)
	rep.Floor("splits analysed", 5)
	rep.Floor("index operations analysed", 10)
}

// ginFields renders the attributes in a list as key=kind provenance.
func ginFields(r *smallRun, st *State, v Val) ([]string, bool) {
	s, ok := v.(VSlice)
	if !ok || s.N < 0 {
		return nil, false
	}
	o := r.obj(st, s.Arr)
	if o == nil {
		return nil, false
	}
	var out []string
	for i := 0; i < s.N; i++ {
		f, ok := o.F[fmt.Sprintf("[%d]", i)].(VIface)
		if !ok {
			return nil, false
		}
		a, ok := f.V.(VStruct)
		if !ok || len(a.F) != 2 {
			return nil, false
		}
		k, ok := asStr(st.resolve(a.F[0]))
		if !ok {
			return nil, false
		}
		t, ok := a.F[1].(VTerm)
		if !ok || !strings.HasPrefix(t.Op, "val:") || len(t.Args) != 1 {
			out = append(out, k+"=?")
			continue
		}
		pv := provenance(st.resolve(t.Args[0]))
		pv = strings.TrimPrefix(strings.TrimPrefix(pv, "sub:"), "in:")
		out = append(out, k+"="+t.Op[4:]+" "+pv)
	}
	return out, true
}

var _ = syntax.Perl
