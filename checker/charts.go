package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// S03: charts. Requests for charts are analysed one after another from the state the earlier ones left, caches
// included. Drawing is left to the chart libraries: what is drawn is named after what they were given.

const cpkg = "cmd/server/chart"

func init() {
	register("S03", chartRequests)
}

type chartRun struct {
	*objRun
	bench Val
	warns Val
}

func newChartRun(p *Program, rep *Report) *chartRun {
	r := &chartRun{objRun: newObjRun(p, rep, cpkg, "S03")}
	r.KeepWritten, r.Ages, r.MaxSteps = true, 40, 600_000
	lib := &keepRun{objRun: r.objRun}
	r.OnCall = func(c *Call) ([]Outcome, bool) {
		if outs, ok := r.model(c); ok {
			return outs, true
		}
		if c.Callee != nil {
			return lib.library(c, libName(c.Callee))
		}
		return nil, false
	}
	r.ensureGlobals(p.relSSA(cpkg))
	return r
}

func chartRequests(p *Program, rep *Report) {
	rep.Rule = "every path of chart.Bar and chart.Score from every state an earlier request leaves: what is sent is what the libraries drew for exactly this request's test or handler and item, or keeper and size"
	expandMore = func(n *types.Named) bool {
		switch n.Obj().Name() {
		case "Chart", "XAxis", "YAxis", "ContinuousRange":
			return n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "wcharczuk/go-chart/v2")
		}
		return false
	}
	defer func() { expandMore = nil }()
	newChartRun(p, rep).bars()
	newChartRun(p, rep).scores()
	rep.Floor("charts sent", 30)
	rep.Floor("request histories", 20)
}

// tables: which tests have records of which handlers.
var chartTable = map[string][]string{"T1": {"H1", "H2", "H3"}, "T2": {"H2"}, "T3": {"H3", "H1"}, "t1": {"H2", "H1"}}

func (r *chartRun) model(c *Call) ([]Outcome, bool) {
	st, p := c.St, r.p
	strT := types.Typ[types.String]
	text := func(i int) (string, bool) {
		if i >= len(c.Args) {
			return "", false
		}
		return r.str(st, c.Args[i])
	}
	if c.Callee == nil {
		if c.Method != nil {
			switch c.Method.Name() {
			case "Name":
				return one(st, VTerm{Op: "name", Args: []Val{st.resolve(c.Recv)}, T: strT}), true
			case "ScoreFor":
				return one(st, VTerm{Op: "score", Args: append([]Val{st.resolve(c.Recv)}, resolveAll(st, c.Args)...), T: c.Sig.Results().At(0).Type()}), true
			case "Error":
				return one(st, VTerm{Op: "message", Args: []Val{st.resolve(c.Recv)}, T: strT}), true
			}
		}
		return nil, false
	}
	errT := types.Universe.Lookup("error").Type()
	errOf := func(n string) Val { return VSym{ID: "g:in/" + n, Cls: "nonnil", T: errT} }
	if p.IsRepoFunc(c.Callee) {
		return r.repo(c, p.FuncName(c.Callee), errOf)
	}
	k := libName(c.Callee)
	switch {
	case strings.HasPrefix(k, "log/slog.") || strings.HasPrefix(k, "log.Print"):
		if c.Sig.Results().Len() == 0 {
			return one(st, VTuple{}), true
		}
	case strings.HasPrefix(k, "(*sync.Mutex).") || strings.HasPrefix(k, "(*sync.RWMutex)."):
		if c.Sig.Results().Len() == 0 {
			return one(st, VTuple{}), true
		}
	case k == "(*sync.Map).Load" || k == "(*sync.Map).Store" || k == "(*sync.Map).LoadOrStore":
		key := "map:" + st.resolve(c.Args[0]).key() + ":" + r.bufKey(st, c.Args[1])
		v := st.Mon[key]
		if v == nil && c.Callee.Name() != "Load" || c.Callee.Name() == "Store" {
			st.Mon[key] = st.resolve(c.Args[2])
		}
		switch {
		case c.Callee.Name() == "Store":
			return one(st, VTuple{}), true
		case v != nil:
			return one(st, VTuple{E: []Val{v, constBool(true)}}), true
		case c.Callee.Name() == "LoadOrStore":
			return one(st, VTuple{E: []Val{st.resolve(c.Args[2]), constBool(false)}}), true
		}
		return one(st, VTuple{E: []Val{VNil{}, constBool(false)}}), true
	case strings.HasSuffix(k, "gin.Context).Param"):
		n, ok := text(1)
		if !ok {
			return nil, false
		}
		v := st.Mon["param:"+n]
		if v == nil {
			v = constStr("")
		}
		return one(st, v), true
	case strings.HasSuffix(k, "gin.Context).Data"):
		st.Mon["sent"] = VTuple{E: append(r.sent(st), VTuple{E: resolveAll(st, c.Args[1:])})}
		return one(st, VTuple{}), true
	case strings.Contains(k, "gin.Context).") && c.Sig.Results().Len() == 0:
		st.Mon["other"] = constBool(true)
		return one(st, VTuple{}), true
	case k == "slices.Reverse":
		if sl, ok := st.resolve(c.Args[0]).(VSlice); ok && sl.N >= 0 {
			if e, ok := r.elemsOf(st, sl).(VTuple); ok && r.obj(st, sl.Arr) != nil {
				o := r.obj(st, sl.Arr).clone()
				for i, v := range e.E {
					o.F[fmt.Sprintf("[%d]", len(e.E)-1-i)] = v
				}
				st.H[sl.Arr] = o
				return one(st, VTuple{}), true
			}
		}
	case k == "fmt.Sprintf" || k == "fmt.Sprint":
		if s, ok := r.sprint(st, c, k); ok {
			return one(st, constStr(s)), true
		}
	case k == "strings.Join":
		l, ok := r.elemsOf(st, c.Args[0]).(VTuple)
		sep, ok2 := text(1)
		var parts []string
		for _, v := range l.E {
			s, ok3 := r.str(st, v)
			ok = ok && ok3
			parts = append(parts, s)
		}
		if ok && ok2 {
			return one(st, constStr(strings.Join(parts, sep))), true
		}
	case k == "strconv.Itoa":
		if n, ok := asInt(st.resolve(c.Args[0])); ok {
			return one(st, constStr(strconv.Itoa(int(n)))), true
		}
	case k == "strconv.Atoi":
		if s, ok := text(0); ok {
			n, err := strconv.Atoi(s)
			if err != nil {
				return one(st, VTuple{E: []Val{constInt(int64(n)), errOf("atoiErr")}}), true
			}
			return one(st, VTuple{E: []Val{constInt(int64(n)), VNil{}}}), true
		}
	case k == "strings.TrimSuffix" || k == "strings.ToLower":
		a, ok := text(0)
		if k == "strings.ToLower" && ok {
			return one(st, constStr(strings.ToLower(a))), true
		}
		if b, ok2 := text(1); ok && ok2 {
			return one(st, constStr(strings.TrimSuffix(a, b))), true
		}
	case strings.HasSuffix(k, "TitleTextOptionFunc"):
		return one(st, VTerm{Op: "title", Args: []Val{st.resolve(c.Args[0])}, T: c.Sig.Results().At(0).Type()}), true
	case strings.HasSuffix(k, "YAxisDataOptionFunc"):
		return one(st, VTerm{Op: "labels", Args: []Val{r.elemsOf(st, c.Args[0])}, T: c.Sig.Results().At(0).Type()}), true
	case strings.HasSuffix(k, "OptionFunc") && c.Sig.Results().Len() == 1:
		return one(st, VTerm{Op: "option", T: c.Sig.Results().At(0).Type()}), true
	case strings.HasSuffix(k, "HorizontalBarRender"):
		rows, ok := r.elemsOf(st, c.Args[0]).(VTuple)
		if !ok || len(rows.E) != 1 {
			return nil, false
		}
		vals, _ := r.elemsOf(st, rows.E[0]).(VTuple)
		opts, _ := r.elemsOf(st, c.Args[1]).(VTuple)
		v := VTerm{Op: "bars", Args: []Val{VNil{}, VNil{}, vals}, T: c.Sig.Results().At(0).Type()}
		for _, o := range opts.E {
			if t, ok := o.(VTerm); ok && t.Op == "title" {
				v.Args[0] = t.Args[0]
			} else if ok && t.Op == "labels" {
				v.Args[1] = t.Args[0]
			}
		}
		bad := st.clone()
		bad.Mon["failed"] = constBool(true)
		return []Outcome{{St: st, V: VTuple{E: []Val{v, VNil{}}}}, {St: bad, V: VTuple{E: []Val{VNil{}, errOf("renderErr")}}}}, true
	case strings.HasSuffix(k, "Painter).Bytes"):
		bad := st.clone()
		bad.Mon["failed"] = constBool(true)
		t := c.Sig.Results().At(0).Type()
		return []Outcome{{St: st, V: VTuple{E: []Val{VTerm{Op: "svg", Args: []Val{st.resolve(c.Args[0])}, T: t}, VNil{}}}}, {St: bad, V: VTuple{E: []Val{VNil{}, errOf("bytesErr")}}}}, true
	case strings.HasSuffix(k, "go-chart/v2.Chart).Render"):
		ch := c.Args[0]
		d := VTerm{Op: "drawn", T: strT}
		for _, a := range []string{"XAxis", "YAxis"} {
			ax := r.field(st, ch, a)
			d.Args = append(d.Args, r.field(st, ax, "Name"), r.low(st, r.field(st, ax, "Range")))
		}
		st.Mon["buf:"+r.bufKey(st, c.Args[2])] = d
		bad := st.clone()
		bad.Mon["failed"] = constBool(true)
		return []Outcome{{St: st, V: VNil{}}, {St: bad, V: errOf("renderErr")}}, true
	case k == "(*bytes.Buffer).Bytes":
		if v := st.Mon["buf:"+r.bufKey(st, c.Args[0])]; v != nil {
			return one(st, VTerm{Op: "svg", Args: []Val{v}, T: c.Sig.Results().At(0).Type()}), true
		}
	}
	return nil, false
}

func (r *chartRun) bufKey(st *State, v Val) string {
	v = st.resolve(v)
	if i, ok := v.(VIface); ok {
		v = st.resolve(i.V)
	}
	return v.key()
}

// low is the lower end of an axis.
func (r *chartRun) low(st *State, v Val) Val {
	v = st.resolve(v)
	if i, ok := v.(VIface); ok {
		v = st.resolve(i.V)
	}
	return r.field(st, v, "Min")
}

func (r *chartRun) sent(st *State) []Val {
	if t, ok := st.Mon["sent"].(VTuple); ok {
		return append([]Val(nil), t.E...)
	}
	return nil
}

func (r *chartRun) repo(c *Call, name string, errOf func(string) Val) ([]Outcome, bool) {
	st, p := c.St, r.p
	strT := types.Typ[types.String]
	dt := func(n string) types.Type { return p.Pkg(dpkg).Types.Scope().Lookup(n).Type() }
	arg := func(i int) (string, bool) { return r.str(st, c.Args[i]) }
	isBench := strings.HasPrefix(name, "(*"+dpkg+".Benchmarks).")
	isWarns := strings.HasPrefix(name, "(*"+dpkg+".Warnings).")
	if isBench && st.resolve(c.Args[0]).key() != r.bench.key() || isWarns && st.resolve(c.Args[0]).key() != r.warns.key() {
		return nil, false
	}
	tags := func(n string, l ...string) ([]Outcome, bool) {
		var e []Val
		for _, x := range l {
			e = append(e, VConst{constant.MakeString(x), dt(n)})
		}
		id := fmt.Sprintf("tags%s/%d", n, r.nCall)
		r.nCall++
		return one(st, sliceOf(st, id, types.NewSlice(dt(n)), e)), true
	}
	records := func(n string, keys []string, of func(k string) string) ([]Outcome, bool) {
		if keys == nil {
			return one(st, VNil{}), true
		}
		m := VMap{Obj: r.freshObj(st, c.Fr, c.Site, ".recs", &Object{Kind: "map", T: c.Sig.Results().At(0).Type(), F: map[string]Val{}})}
		for _, k := range keys {
			r.mapUpdateT(c.Fr, st, c.Site, m, VConst{constant.MakeString(k), dt(n)}, r.record(of(k), dt("TestRecord")))
		}
		return one(st, m), true
	}
	switch name {
	case dpkg + ".BenchItemsString":
		s, ok := arg(0)
		if !ok {
			return nil, false
		}
		scope := p.Pkg(dpkg).Types.Scope()
		for _, n := range scope.Names() {
			if k, ok := scope.Lookup(n).(*types.Const); ok && types.Identical(k.Type(), dt("BenchItems")) && strings.EqualFold(n, s) {
				return one(st, VTuple{E: []Val{VConst{k.Val(), k.Type()}, VNil{}}}), true
			}
		}
		return one(st, VTuple{E: []Val{VConst{constant.MakeInt64(0), dt("BenchItems")}, errOf("itemErr")}}), true
	case "(" + dpkg + ".BenchItems).String":
		if n, ok := asInt(st.resolve(c.Args[0])); ok {
			return one(st, constStr(fmt.Sprintf("Item%d", n))), true
		}
	case "(" + dpkg + ".BenchItems).LongName", "(" + dpkg + ".BenchItems).ShortName":
		return one(st, VTerm{Op: name, Args: resolveAll(st, c.Args), T: strT}), true
	case "(*" + dpkg + ".TestRecord).ItemValue":
		return one(st, VTerm{Op: "value", Args: []Val{r.field(st, c.Args[0], "Runs"), st.resolve(c.Args[1])}, T: types.Typ[types.Float64]}), true
	case "(*" + dpkg + ".Benchmarks).HandlerTags":
		return tags("HandlerTag", "H1", "H2", "H3")
	case "(*" + dpkg + ".Benchmarks).TestTags":
		return tags("TestTag", "T1", "T2", "T3", "t1")
	case "(*" + dpkg + ".Warnings).HandlerTags":
		return tags("HandlerTag", "H1", "H2", "H3")
	case "(*" + dpkg + ".Benchmarks).HandlerName", "(*" + dpkg + ".Warnings).HandlerName":
		return one(st, VTerm{Op: "name", Args: resolveAll(st, c.Args[1:]), T: strT}), true
	case "(*" + dpkg + ".Benchmarks).TestName":
		return one(st, VTerm{Op: "testname", Args: resolveAll(st, c.Args[1:]), T: strT}), true
	case "(*" + dpkg + ".Benchmarks).HandlerRecordsFor":
		if t, ok := arg(1); ok {
			return records("HandlerTag", chartTable[t], func(h string) string { return t + "/" + h })
		}
	case "(*" + dpkg + ".Benchmarks).TestRecordsFor":
		if h, ok := arg(1); ok {
			return records("TestTag", testsOf(h), func(t string) string { return t + "/" + h })
		}
	case "(*" + dpkg + ".Benchmarks).HasTest":
		if t, ok := arg(1); ok {
			return one(st, constBool(chartTable[t] != nil)), true
		}
	case "(*" + dpkg + ".Benchmarks).HasHandler":
		if h, ok := arg(1); ok {
			return one(st, constBool(testsOf(h) != nil)), true
		}
	case spkg + ".GetKeeper":
		if t, ok := arg(0); ok {
			return one(st, VSym{ID: "g:in/keeper:" + t, Cls: "nonnil", T: c.Sig.Results().At(0).Type()}), true
		}
	case "(*" + spkg + ".Keeper).X", "(*" + spkg + ".Keeper).Y":
		return one(st, VSym{ID: "g:in/" + c.Callee.Name() + "/" + st.resolve(c.Args[0]).key(), Cls: "nonnil", T: c.Sig.Results().At(0).Type()}), true
	case "(*" + spkg + ".Keeper).HandlerTags":
		return tags("HandlerTag")
	case "(*" + spkg + ".Keeper).Tag":
		if s, ok := st.resolve(c.Args[0]).(VSym); ok {
			return one(st, constStr(strings.TrimPrefix(s.ID, "g:in/keeper:"))), true
		}
	}
	return nil, false
}

// record is a benchmark record, known by its number of runs.
func (r *chartRun) record(id string, t types.Type) Val {
	z := zeroVal(t).(VStruct)
	s := t.Underlying().(*types.Struct)
	v := VStruct{T: t, F: append([]Val(nil), z.F...)}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Runs" {
			v.F[i] = in("record:"+id, s.Field(i).Type())
		}
	}
	return v
}

func testsOf(h string) (l []string) {
	for t, hs := range chartTable {
		for _, x := range hs {
			if x == h {
				l = append(l, t)
			}
		}
	}
	sort.Strings(l)
	return
}

// request analyses one request; the states returned have what was sent in Mon["sent"].
func (r *chartRun) request(fn *ssa.Function, st *State, data Val, params map[string]string) (out []*State) {
	st = st.clone()
	for k, v := range params {
		st.Mon["param:"+k] = constStr(v)
	}
	for _, k := range []string{"sent", "other", "failed"} {
		delete(st.Mon, k)
	}
	r.rep.Count("requests analysed", 1)
	ctx := VSym{ID: "g:in/ctx", Cls: "nonnil", T: fn.Params[0].Type()}
	for _, x := range r.Run(fn, []Val{ctx, data}, st) {
		if x.Panic {
			if x.St == nil || x.St.Mon["failed"] == nil {
				r.bad("S03-panic", fn.Name(), fn, "a request for %s ends in a panic", show(params))
			}
			continue
		}
		r.nCall++
		out = append(out, settle(x, fmt.Sprintf("g:call%d/", r.nCall)).St)
	}
	return
}

func show(params map[string]string) string {
	var l []string
	for k, v := range params {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (r *chartRun) histories(fn *ssa.Function, data Val, reqs []map[string]string, check func(st *State, what string, params map[string]string)) {
	for _, first := range reqs {
		st0 := newState()
		for _, st := range r.request(fn, st0, data, first) {
			check(st, show(first), first)
			for _, second := range reqs {
				r.rep.Count("request histories", 1)
				for _, st2 := range r.request(fn, st, data, second) {
					check(st2, show(second)+" after "+show(first), second)
				}
			}
		}
	}
}

func (r *chartRun) bars() {
	defer r.done()
	fn := r.p.fnByName(cpkg + ".Bar")
	if fn == nil || len(fn.Params) != 2 {
		r.bad("S03-missing", "Bar", nil, "chart.Bar is missing or takes other arguments")
		return
	}
	r.bench = VSym{ID: "g:in/bench", Cls: "nonnil", T: fn.Params[1].Type()}
	r.warns = VNil{}
	var reqs []map[string]string
	for _, q := range []string{"T1/Runs.svg", "T1/Nanos.svg", "T2/Nanos.svg", "T3/Nanos.svg", "t1/Nanos.svg", "H1/Nanos.svg", "H2/Runs.svg", "H3/Nanos.svg", "T1/nanos.svg", "zz/Nanos.svg", "T1/Bad.svg", "T1/Runs"} {
		f := strings.Split(q, "/")
		reqs = append(reqs, map[string]string{"tag": f[0], "item": f[1]})
	}
	itemT := r.p.Pkg(dpkg).Types.Scope().Lookup("BenchItems").Type()
	r.histories(fn, r.bench, reqs, func(st *State, what string, q map[string]string) {
		item := strings.TrimSuffix(q["item"], ".svg")
		sent := r.sent(st)
		var want []string
		for _, h := range []string{"H1", "H2", "H3"} {
			for _, x := range chartTable[q["tag"]] {
				if x == h {
					want = append(want, "name/"+h+"/"+q["tag"]+"/"+h)
				}
			}
		}
		for _, t := range testsOf(q["tag"]) {
			want = append(want, "testname/"+t+"/"+t+"/"+q["tag"])
		}
		if want == nil || item == "Bad" {
			if len(sent) > 0 {
				r.bad("S03-bar", "Bar", fn, "%s: a chart is sent for something that is not there", what)
			}
			return
		}
		if st.Mon["failed"] != nil {
			return
		}
		k, _ := r.p.Pkg(dpkg).Types.Scope().Lookup(map[string]string{"runs": "Runs", "nanos": "Nanos"}[strings.ToLower(item)]).(*types.Const)
		if k == nil {
			r.bad("S03-missing", "BenchItems", nil, "the items Runs and Nanos are missing")
			return
		}
		bars, ok := r.drawn(st, sent, "bars", what, fn)
		if !ok {
			return
		}
		it := VConst{k.Val(), itemT}
		if !strings.Contains(bars.Args[0].key(), "LongName("+it.key()+")") {
			r.bad("S03-bar", "Bar", fn, "%s: the chart's title is %s, not the name of its item", what, valName(bars.Args[0]))
		}
		labels, _ := bars.Args[1].(VTuple)
		vals, _ := bars.Args[2].(VTuple)
		if len(labels.E) != len(want) || len(vals.E) != len(want) {
			r.bad("S03-bar", "Bar", fn, "%s: %d labels and %d bars where there are %d records", what, len(labels.E), len(vals.E), len(want))
			return
		}
		for i, w := range want {
			f := strings.SplitN(w, "/", 3)
			j := len(want) - 1 - i // charts are drawn from the bottom up
			tag := "HandlerTag"
			if f[0] == "testname" {
				tag = "TestTag"
			}
			wl := VTerm{Op: f[0], Args: []Val{VConst{constant.MakeString(f[1]), r.p.Pkg(dpkg).Types.Scope().Lookup(tag).Type()}}}
			if labels.E[j].key() != wl.key() {
				r.bad("S03-bar", "Bar", fn, "%s: bar %d from the top is called %s, not %s", what, i+1, valName(labels.E[j]), valName(wl))
			}
			wv := VTerm{Op: "value", Args: []Val{VSym{ID: "g:in/record:" + f[2]}, it}}
			if vals.E[j].key() != wv.key() {
				r.bad("S03-bar", "Bar", fn, "%s: bar %d from the top (%s) shows %s, not %s", what, i+1, f[1], valName(vals.E[j]), valName(wv))
			}
		}
	})
}

func (r *chartRun) drawn(st *State, sent []Val, op, what string, fn *ssa.Function) (VTerm, bool) {
	if len(sent) != 1 {
		r.bad("S03-sent", fn.Name(), fn, "%s: %d charts are sent", what, len(sent))
		return VTerm{}, false
	}
	r.rep.Count("charts sent", 1)
	d := sent[0].(VTuple).E
	if t, ok := r.str(st, d[1]); !ok || t != "image/svg+xml" {
		r.bad("S03-sent", fn.Name(), fn, "%s: the content type sent is %s", what, valName(d[1]))
	}
	if n, ok := asInt(d[0]); !ok || n != 200 {
		r.bad("S03-sent", fn.Name(), fn, "%s: the status sent is %s", what, valName(d[0]))
	}
	v, ok := d[2].(VTerm)
	if !ok || v.Op != "svg" {
		r.bad("S03-sent", fn.Name(), fn, "%s: what is sent is %s, not a chart", what, valName(d[2]))
		return VTerm{}, false
	}
	t, ok := v.Args[0].(VTerm)
	if !ok || t.Op != op {
		r.bad("S03-sent", fn.Name(), fn, "%s: what is sent is %s, not a chart of this kind", what, valName(v))
		return VTerm{}, false
	}
	return t, true
}

func (r *chartRun) scores() {
	defer r.done()
	fn := r.p.fnByName(cpkg + ".Score")
	if fn == nil || len(fn.Params) != 2 {
		r.bad("S03-missing", "Score", nil, "chart.Score is missing or takes other arguments")
		return
	}
	r.warns = VSym{ID: "g:in/warns", Cls: "nonnil", T: fn.Params[1].Type()}
	r.bench = VNil{}
	var reqs []map[string]string
	for _, q := range []string{"KA/0", "KA/1", "KA/2", "KA/3", "KB/0", "KB/1", "+KA/1", "ka/1"} {
		f := strings.Split(q, "/")
		reqs = append(reqs, map[string]string{"keeper": f[0], "size": f[1]})
	}
	lows := map[string]string{} // size -> lower ends
	r.histories(fn, r.warns, reqs, func(st *State, what string, q map[string]string) {
		sent := r.sent(st)
		if st.Mon["failed"] != nil {
			return
		}
		d, ok := r.drawn(st, sent, "drawn", what, fn)
		if !ok {
			return
		}
		for i, ax := range []string{"X", "Y"} {
			if !strings.Contains(valName(d.Args[2*i]), "("+ax+"/keeper:"+q["keeper"]+"/") {
				r.bad("S03-score", "Score", fn, "%s: axis %s is %s, not the keeper's", what, ax, valName(d.Args[2*i]))
			}
		}
		n, _ := strconv.Atoi(q["size"])
		size, l := strconv.Itoa(n), d.Args[1].key()+" "+d.Args[3].key()
		if lows[size] == "" {
			lows[size] = l
			for s, o := range lows {
				if s != size && o == l {
					r.bad("S03-score", "Score", fn, "%s: the chart has the range of size %s: %s", what, s, l)
				}
			}
		} else if lows[size] != l {
			r.bad("S03-score", "Score", fn, "%s: the chart's range is %s, and %s at another time", what, l, lows[size])
		}
	})
}

func (r *chartRun) str(st *State, v Val) (string, bool) {
	return (&keepRun{objRun: r.objRun}).text(st, v)
}

// sprint gives the text of fixed values.
func (r *chartRun) sprint(st *State, c *Call, k string) (string, bool) {
	format := ""
	if k == "fmt.Sprintf" {
		var ok bool
		if format, ok = r.str(st, c.Args[0]); !ok {
			return "", false
		}
	}
	l, ok := r.elemsOf(st, c.Args[len(c.Args)-1]).(VTuple)
	if !ok {
		return "", false
	}
	var args []any
	for _, v := range l.E {
		i, ok := v.(VIface)
		if !ok {
			return "", false
		}
		x := st.resolve(i.V)
		named, isNamed := i.Dyn.(*types.Named)
		s, isText := r.str(st, x)
		n, isInt := asInt(x)
		switch {
		case isNamed && named.Obj().Name() == "BenchItems" && isInt:
			args = append(args, fmt.Sprintf("Item%d", n))
		case isText:
			args = append(args, s)
		case isInt:
			args = append(args, n)
		default:
			return "", false
		}
	}
	if k == "fmt.Sprint" {
		return fmt.Sprint(args...), true
	}
	return fmt.Sprintf(format, args...), true
}
