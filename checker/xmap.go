package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// X01: the order in which Go iterates a map never reaches a result.
//
// Every range over a map (and, transitively, over every sequence that was filled in map order) is an "unordered
// loop". Its body may only do things whose combined result does not depend on the order of the iterations:
// keyed map updates and deletes, commutative accumulation, selection by comparison, constants, and collecting
// elements into a sequence which is sorted before anything else looks at it.

func init() {
	register("X01", func(p *Program, rep *Report) {
		rep.Rule = "every range over a map (or over a sequence collected in map order) must have an order-independent effect: keyed updates, commutative accumulation, selection by comparison, or collection into a sequence that is sorted on every path before it is read, returned or stored; no writes, appends to shared state or first/last-wins assignments in iteration order"
		newXmap(p, rep).run()
		rep.Floor("map loops", 25)
		rep.Floor("sorted collections", 8)
		rep.Assume("debug output (internal/test.Debugf), diagnostics logged through slog and testify failure messages are not results")
		rep.Assume("an error value or text that names one offending element may name any of several")
		rep.Assume("a value used as a map key or sorted by a string is taken to identify its element")
	})
}

type xmap struct {
	p       *Program
	rep     *Report
	seen    map[string]bool
	effects map[*ssa.Function][]xeffect
	busy    map[*ssa.Function]bool
	calls   map[*ssa.Function][]ssa.CallInstruction // static call sites in the repository
	loopsOf map[*ssa.Function][]*xloop
}

type xloop struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool // natural loop
	region map[*ssa.BasicBlock]bool // natural loop plus early exits
	elems  map[ssa.Value]bool       // values that differ per iteration by definition
	key    ssa.Value
	over   ssa.Value // the map being ranged over, nil for sequences
	what   string
}

// xeffect is an order-sensitive effect of a function, on a parameter (>=0), a free variable or global state (-1).
type xeffect struct {
	param  int
	free   *ssa.FreeVar
	app    bool   // appends to the location path below the parameter
	path   string // only for app
	reason string
}

func newXmap(p *Program, rep *Report) *xmap {
	x := &xmap{p: p, rep: rep, seen: map[string]bool{}, effects: map[*ssa.Function][]xeffect{}, busy: map[*ssa.Function]bool{},
		calls: map[*ssa.Function][]ssa.CallInstruction{}, loopsOf: map[*ssa.Function][]*xloop{}}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && p.IsRepoFunc(f) {
						x.calls[f] = append(x.calls[f], c)
					}
				}
			}
		}
	}
	return x
}

func (x *xmap) run() {
	for _, fn := range x.p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				n, ok := i.(*ssa.Next)
				if !ok || n.IsString {
					continue
				}
				r, ok := n.Iter.(*ssa.Range)
				if !ok {
					continue
				}
				l := x.loopAt(fn, b)
				l.over, l.what = r.X, "map"
				l.elems[n] = true
				for _, ref := range *n.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok {
						l.elems[e] = true
						if e.Index == 1 {
							l.key = e
						}
					}
				}
				x.rep.Count("map loops", 1)
				x.rep.Site("range over map in %s", x.p.FuncName(fn))
				x.loop(l)
			}
		}
	}
}

func (x *xmap) violate(fn *ssa.Function, what string, pos token.Pos, format string, args ...any) {
	x.rep.Violate("map-order", x.p.FuncName(fn)+" / "+what, x.p.Pos(pos), format, args...)
}

// ---------------------------------------------------------------- loops

// loopAt describes the loop whose header is h.
func (x *xmap) loopAt(fn *ssa.Function, h *ssa.BasicBlock) *xloop {
	l := &xloop{fn: fn, header: h, blocks: map[*ssa.BasicBlock]bool{h: true}, region: map[*ssa.BasicBlock]bool{h: true}, elems: map[ssa.Value]bool{}}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if l.blocks[b] {
			return
		}
		l.blocks[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			back(p)
		}
	}
	for b := range l.blocks {
		l.region[b] = true
	}
	if len(h.Succs) == 2 {
		for _, b := range fn.Blocks {
			if b != h && h.Succs[0].Dominates(b) && len(h.Succs[0].Preds) == 1 {
				l.region[b] = true
			}
		}
	}
	return l
}

// innermost finds the smallest natural loop that contains b.
func (x *xmap) innermost(fn *ssa.Function, b *ssa.BasicBlock) *xloop {
	if _, ok := x.loopsOf[fn]; !ok {
		x.loopsOf[fn] = nil
		for _, h := range fn.Blocks {
			for _, p := range h.Preds {
				if h.Dominates(p) {
					x.loopsOf[fn] = append(x.loopsOf[fn], x.loopAt(fn, h))
					break
				}
			}
		}
	}
	var best *xloop
	for _, l := range x.loopsOf[fn] {
		if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
			best = l
		}
	}
	return best
}

func (l *xloop) inRegion(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	return ok && i.Parent() == l.fn && l.region[i.Block()]
}

// dep reports whether v depends on the iteration.
func (l *xloop) dep(v ssa.Value) bool { return l.depRec(v, map[ssa.Value]bool{}) }

func (l *xloop) depRec(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if l.elems[v] {
		return true
	}
	if !l.inRegion(v) {
		return false
	}
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.header {
		return true
	}
	if a, ok := v.(*ssa.Alloc); ok {
		// a cell of this iteration: whatever was stored in it
		for _, r := range *a.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == a && l.depRec(s.Val, seen) {
				return true
			}
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && l.depRec(s.Val, seen) {
						return true
					}
				}
			}
			if fa, ok := r.(*ssa.FieldAddr); ok {
				for _, r2 := range *fa.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && l.depRec(s.Val, seen) {
						return true
					}
				}
			}
		}
	}
	for _, op := range v.(ssa.Instruction).Operands(nil) {
		if op != nil && *op != nil && l.depRec(*op, seen) {
			return true
		}
	}
	return false
}

// loc names a memory location; shared is false when it belongs to the element or to this iteration.
func (l *xloop) loc(v ssa.Value) (key string, shared bool) { return l.locRec(v, 0) }

func (l *xloop) locRec(v ssa.Value, depth int) (string, bool) {
	if depth > 30 {
		return "?", false
	}
	if l.elems[v] {
		return "elem", false
	}
	switch v := v.(type) {
	case *ssa.FieldAddr:
		k, s := l.locRec(v.X, depth+1)
		return fmt.Sprintf("%s.%d", k, v.Field), s
	case *ssa.Field:
		k, s := l.locRec(v.X, depth+1)
		return fmt.Sprintf("%s.%d", k, v.Field), s
	case *ssa.IndexAddr:
		k, s := l.locRec(v.X, depth+1)
		if l.dep(v.Index) {
			return k + "[dep]", s
		}
		return k + "[]", s
	case *ssa.UnOp:
		if v.Op == token.MUL {
			k, s := l.locRec(v.X, depth+1)
			return k + "*", s
		}
	case *ssa.Lookup:
		if l.dep(v.Index) {
			return "elem", false
		}
		k, s := l.locRec(v.X, depth+1)
		return k + "[k]", s
	case *ssa.Extract:
		return l.locRec(v.Tuple, depth+1)
	case *ssa.MakeInterface:
		return l.locRec(v.X, depth+1)
	case *ssa.ChangeType:
		return l.locRec(v.X, depth+1)
	case *ssa.ChangeInterface:
		return l.locRec(v.X, depth+1)
	case *ssa.TypeAssert:
		return l.locRec(v.X, depth+1)
	case *ssa.Slice:
		return l.locRec(v.X, depth+1)
	case *ssa.Global:
		return v.String(), true
	case *ssa.Phi:
		if l.inRegion(v) && v.Block() != l.header {
			for _, e := range v.Edges {
				if k, s := l.locRec(e, depth+1); s {
					return k, true
				}
			}
			return "phi", false
		}
	}
	if v == nil {
		return "?", false
	}
	return fmt.Sprintf("%s@%p", v.Name(), v), !l.inRegion(v)
}

// ---------------------------------------------------------------- the body of an unordered loop

const (
	accKeep = 1 << iota
	accConst
	accCommute
	accAppend
	accConcat
	accOther
)

func (x *xmap) loop(l *xloop) {
	id := fmt.Sprintf("%p/%s", l.header, l.what)
	if x.seen[id] {
		return
	}
	x.seen[id] = true
	if l.what != "map" {
		x.rep.Count("loops over sequences in map order", 1)
	}
	fn := l.fn

	// Where the loop is left other than by running out of elements.
	early := false
	for b := range l.region {
		if b == l.header {
			continue
		}
		for _, s := range b.Succs {
			if !l.region[s] {
				early = true
			}
		}
		if len(b.Succs) == 0 {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok {
					x.earlyReturn(l, r)
				}
			}
		}
	}

	type acc struct {
		name string
		vals []ssa.Value
		locs []string
		pos  token.Pos
	}
	var collected []acc
	update := func(name string, kinds int, consts map[string]bool, others []ssa.Value, at []*ssa.BasicBlock, isOld func(ssa.Value) bool, pos token.Pos, t types.Type) bool {
		if kinds&accConcat != 0 {
			x.violate(fn, name, pos, "text is concatenated in the iteration order of a %s", l.what)
		}
		if len(consts) > 1 {
			x.violate(fn, name, pos, "different constants are assigned in the iteration order of a %s: the last one wins", l.what)
		}
		if kinds&accOther != 0 {
			for i, v := range others {
				if !l.dep(v) || isErrorType(v.Type()) || x.selected(l, v, at[i], isOld) {
					continue
				}
				x.violate(fn, name, pos, "a value of one iteration over a %s is kept: which one depends on the iteration order", l.what)
			}
		}
		return kinds&accAppend != 0
	}

	// Accumulators held in registers.
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if l.elems[ph] || l.isIndex(ph) {
			continue
		}
		isOld := func(v ssa.Value) bool { return v == ph }
		kinds, consts := 0, map[string]bool{}
		var others []ssa.Value
		var at []*ssa.BasicBlock
		for i, e := range ph.Edges {
			if !l.blocks[l.header.Preds[i]] {
				continue
			}
			l.classify(e, l.header.Preds[i], isOld, &kinds, consts, &others, &at, map[ssa.Value]bool{})
		}
		name := "accumulator " + ph.Comment
		if update(name, kinds, consts, others, at, isOld, ph.Pos(), ph.Type()) {
			collected = append(collected, acc{name: ph.Comment, vals: []ssa.Value{ph}, pos: ph.Pos()})
		}
	}
	// Values carried out by break.
	for b := range l.region {
		for _, s := range b.Succs {
			if l.region[s] || b == l.header {
				continue
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, pr := range s.Preds {
					if pr != b {
						continue
					}
					v := ph.Edges[i]
					if hp, ok := v.(*ssa.Phi); ok && hp.Block() == l.header {
						continue
					}
					if l.dep(v) && !isErrorType(v.Type()) && !x.selected(l, v, b, func(ssa.Value) bool { return false }) {
						x.violate(fn, "break "+ph.Comment, ph.Pos(), "the loop over a %s stops at some element and keeps a value of it: which one depends on the iteration order", l.what)
					}
				}
			}
		}
	}

	// Accumulators held in memory, map updates, calls.
	grown := map[string]bool{}
	for b := range l.region {
		for _, in := range b.Instrs {
			if mu, ok := in.(*ssa.MapUpdate); ok {
				k, _ := l.loc(mu.Map)
				grown[k] = true
			}
		}
	}
	var seqMaps []acc
	for _, b := range fn.Blocks {
		if !l.region[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				k, shared := l.loc(in.Addr)
				if !shared {
					continue
				}
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
					if l.key != nil && l.dep(ia.Index) && !x.usesAcc(l, ia.Index, grown) {
						continue // slot chosen by the element itself
					}
					if !l.dep(in.Val) {
						continue
					}
					// list[n] = element with a running n fills the list in iteration order
					if base, ok := ia.X.(ssa.Value); ok {
						bk, _ := l.loc(base)
						collected = append(collected, acc{name: valueName(base), vals: []ssa.Value{base}, locs: []string{bk}, pos: in.Pos()})
					}
					continue
				}
				if l.scratch(in.Addr) {
					continue
				}
				isOld := func(v ssa.Value) bool {
					u, ok := v.(*ssa.UnOp)
					if !ok || u.Op != token.MUL {
						return false
					}
					k2, s2 := l.loc(u.X)
					return s2 && k2 == k
				}
				kinds, consts := 0, map[string]bool{}
				var others []ssa.Value
				var at []*ssa.BasicBlock
				l.classify(in.Val, b, isOld, &kinds, consts, &others, &at, map[ssa.Value]bool{})
				name := valueName(in.Addr)
				if update("variable "+name, kinds, consts, others, at, isOld, in.Pos(), in.Val.Type()) {
					collected = append(collected, acc{name: name, locs: []string{k}, pos: in.Pos()})
				}
			case *ssa.MapUpdate:
				k, shared := l.loc(in.Map)
				if !shared {
					continue
				}
				if l.over != nil {
					if ok, _ := l.loc(l.over); ok == k && in.Key != l.key {
						x.violate(fn, "update "+valueName(in.Map), in.Pos(), "entries are added to the map while it is being iterated: whether they are visited depends on the iteration order")
					}
				}
				isOld := func(v ssa.Value) bool {
					if e, ok := v.(*ssa.Extract); ok {
						v = e.Tuple
					}
					lk, ok := v.(*ssa.Lookup)
					if !ok {
						return false
					}
					k2, _ := l.loc(lk.X)
					return k2 == k
				}
				kinds, consts := 0, map[string]bool{}
				var others []ssa.Value
				var at []*ssa.BasicBlock
				l.classify(in.Value, b, isOld, &kinds, consts, &others, &at, map[ssa.Value]bool{})
				name := valueName(in.Map)
				if l.dep(in.Key) {
					if kinds&accAppend != 0 && !(l.key != nil && in.Key == l.key) {
						seqMaps = append(seqMaps, acc{name: name, vals: []ssa.Value{in.Map}, locs: []string{k}, pos: in.Pos()})
					}
					if kinds&accConcat != 0 && in.Key != l.key {
						x.violate(fn, "entry of "+name, in.Pos(), "text is concatenated in the iteration order of a %s", l.what)
					}
					for _, v := range others {
						if x.usesAcc(l, v, grown) {
							x.violate(fn, "entry of "+name, in.Pos(), "an entry gets a running value, so its value depends on the iteration order of a %s", l.what)
						}
					}
					continue
				}
				if update("entry of "+name, kinds, consts, others, at, isOld, in.Pos(), in.Value.Type()) {
					seqMaps = append(seqMaps, acc{name: name, vals: []ssa.Value{in.Map}, locs: []string{k}, pos: in.Pos()})
				}
			case *ssa.Send:
				if _, s := l.loc(in.Chan); s {
					x.violate(fn, "send", in.Pos(), "values are sent in the iteration order of a %s", l.what)
				}
			case *ssa.Defer:
				x.violate(fn, "defer", in.Pos(), "calls are deferred in the iteration order of a %s", l.what)
			case *ssa.Call:
				for _, ef := range x.callEffects(in) {
					if ef.target == nil {
						x.violate(fn, "output "+ef.reason, in.Pos(), "%s in the iteration order of a %s", ef.reason, l.what)
						continue
					}
					k, shared := l.loc(ef.target)
					if !shared {
						continue
					}
					if ef.app && ef.path != "?" {
						collected = append(collected, acc{name: valueName(ef.target), locs: []string{k + ef.path}, pos: in.Pos()})
						continue
					}
					x.violate(fn, "output "+ef.reason, in.Pos(), "%s in the iteration order of a %s", ef.reason, l.what)
				}
			}
		}
	}

	// What follows the loop.
	var starts []xpoint
	for b := range l.region {
		for _, s := range b.Succs {
			if !l.region[s] {
				starts = append(starts, xpoint{s, 0, b})
			}
		}
	}
	for _, a := range collected {
		if early {
			x.violate(fn, "partial "+a.name, a.pos, "the loop over a %s collects elements and may stop early: which ones were collected depends on the iteration order", l.what)
		}
		x.rep.Count("sequences collected in map order", 1)
		x.rep.Site("sequence %s collected in map order by %s", a.name, x.p.FuncName(fn))
		sc := x.newScan(fn, a.name, a.vals, a.locs)
		sc.from = l
		sc.scan(starts)
	}
	for _, a := range seqMaps {
		x.entries(l, a.name, a.vals, a.locs, a.pos, starts)
	}
}

// scratch reports whether addr is a variable that nothing reads outside the loop.
func (l *xloop) scratch(addr ssa.Value) bool {
	a, ok := addr.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == a {
			continue
		}
		if !l.region[r.Block()] {
			return false
		}
	}
	return true
}

// isIndex reports whether ph is the running index of a loop over a sequence.
func (l *xloop) isIndex(ph *ssa.Phi) bool {
	return ph.Comment == "rangeindex"
}

// classify decides how an accumulator's new value relates to its old one.
func (l *xloop) classify(v ssa.Value, at *ssa.BasicBlock, isOld func(ssa.Value) bool, kinds *int, consts map[string]bool, others *[]ssa.Value, ats *[]*ssa.BasicBlock, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	if isOld(v) {
		*kinds |= accKeep
		return
	}
	other := func() {
		*kinds |= accOther
		*others = append(*others, v)
		*ats = append(*ats, at)
	}
	sub := func(w ssa.Value) int {
		k := 0
		var o []ssa.Value
		var a []*ssa.BasicBlock
		l.classify(w, at, isOld, &k, map[string]bool{}, &o, &a, map[ssa.Value]bool{})
		return k
	}
	switch v := v.(type) {
	case *ssa.Const:
		*kinds |= accConst
		if v.Value == nil {
			consts["nil"] = true
		} else {
			consts[v.Value.ExactString()] = true
		}
		return
	case *ssa.Phi:
		if l.inRegion(v) && v.Block() != l.header {
			for i, e := range v.Edges {
				l.classify(e, v.Block().Preds[i], isOld, kinds, consts, others, ats, seen)
			}
			return
		}
	case *ssa.Convert:
		if k := sub(v.X); k&(accKeep|accCommute) != 0 {
			l.classify(v.X, at, isOld, kinds, consts, others, ats, seen)
			return
		}
	case *ssa.ChangeType:
		l.classify(v.X, at, isOld, kinds, consts, others, ats, seen)
		return
	case *ssa.BinOp:
		kx, ky := sub(v.X), sub(v.Y)
		if (kx|ky)&(accKeep|accCommute|accConcat) != 0 {
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				*kinds |= accConcat
				return
			}
			switch v.Op {
			case token.ADD, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
				*kinds |= accCommute
				return
			case token.SUB:
				if kx&(accKeep|accCommute) != 0 {
					*kinds |= accCommute
					return
				}
			}
		}
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "append":
				if sub(v.Call.Args[0])&(accKeep|accAppend) != 0 {
					*kinds |= accAppend
					return
				}
			case "min", "max":
				for _, a := range v.Call.Args {
					if sub(a)&(accKeep|accCommute) != 0 {
						*kinds |= accCommute
						return
					}
				}
			}
		}
		if f := v.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "math" && (f.Name() == "Max" || f.Name() == "Min") {
			for _, a := range v.Call.Args {
				if sub(a)&(accKeep|accCommute) != 0 {
					*kinds |= accCommute
					return
				}
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			// a variable of this iteration that is an iteration-local cell
			if a, ok := v.X.(*ssa.Alloc); ok && l.inRegion(a) {
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						l.classify(s.Val, s.Block(), isOld, kinds, consts, others, ats, seen)
					}
				}
				return
			}
		}
	}
	other()
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// selected reports whether keeping v is a choice by comparison (largest, smallest, the one equal to something)
// rather than first or last come.
func (x *xmap) selected(l *xloop, v ssa.Value, at *ssa.BasicBlock, isOld func(ssa.Value) bool) bool {
	acc := func(w ssa.Value) bool {
		if isOld(w) {
			return true
		}
		if ph, ok := w.(*ssa.Phi); ok && ph.Block() == l.header {
			return true
		}
		if u, ok := w.(*ssa.UnOp); ok && u.Op == token.MUL {
			if k, s := l.loc(u.X); s {
				for b := range l.region {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok {
							if k2, s2 := l.loc(st.Addr); s2 && k2 == k {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	for b := range l.region {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch bo.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if acc(bo.X) && l.dep(bo.Y) || acc(bo.Y) && l.dep(bo.X) {
				if b.Succs[0].Dominates(at) || b.Succs[1].Dominates(at) || b == at {
					return true
				}
			}
		case token.EQL, token.NEQ:
			hit := b.Succs[0]
			if bo.Op == token.NEQ {
				hit = b.Succs[1]
			}
			if hit.Dominates(at) && len(hit.Preds) == 1 && !acc(bo.X) && !acc(bo.Y) && l.dep(bo.X) != l.dep(bo.Y) {
				if c, ok := bo.Y.(*ssa.Const); ok && (c.Value == nil || c.Value.Kind() == constant.Bool) {
					continue
				}
				return true
			}
		}
	}
	return false
}

func (x *xmap) earlyReturn(l *xloop, r *ssa.Return) {
	for _, v := range r.Results {
		if isErrorType(v.Type()) || !l.dep(v) {
			continue
		}
		if x.selected(l, v, r.Block(), func(ssa.Value) bool { return false }) {
			continue
		}
		x.violate(l.fn, "return", r.Pos(), "a value of one iteration over a %s is returned: which one depends on the iteration order", l.what)
	}
}

// usesAcc reports whether v is computed from something that grows during the loop.
func (x *xmap) usesAcc(l *xloop, v ssa.Value, grown map[string]bool) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == nil || seen[v] || !l.inRegion(v) || l.elems[v] {
			return false
		}
		seen[v] = true
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.header {
			return true
		}
		if c, ok := v.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				k, s := l.loc(c.Call.Args[0])
				if s && grown[k] {
					return true
				}
			}
		}
		for _, op := range v.(ssa.Instruction).Operands(nil) {
			if *op != nil && rec(*op) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

func valueName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		if pt, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
				return st.Field(v.Field).Name()
			}
		}
	case *ssa.UnOp:
		return valueName(v.X)
	case *ssa.Alloc:
		return v.Comment
	case *ssa.Phi:
		return v.Comment
	case *ssa.Global, *ssa.Parameter, *ssa.FreeVar:
		return v.Name()
	case *ssa.MakeMap, *ssa.MakeSlice:
		return "local"
	case *ssa.Lookup:
		return valueName(v.X) + " entry"
	case *ssa.IndexAddr:
		return valueName(v.X) + " element"
	case *ssa.MakeInterface:
		return valueName(v.X)
	}
	return fmt.Sprintf("%T", v)[5:]
}

// ---------------------------------------------------------------- order-sensitive effects of calls

type xcallEffect struct {
	target ssa.Value // nil: global
	app    bool
	path   string
	reason string
}

// rootOf finds what a value was reached from inside a function.
func (x *xmap) rootOf(v ssa.Value, depth int) (root ssa.Value, path string) {
	for depth < 40 {
		depth++
		switch w := v.(type) {
		case *ssa.FieldAddr:
			r, p := x.rootOf(w.X, depth)
			return r, fmt.Sprintf("%s.%d", p, w.Field)
		case *ssa.Field:
			r, p := x.rootOf(w.X, depth)
			return r, fmt.Sprintf("%s.%d", p, w.Field)
		case *ssa.IndexAddr:
			r, _ := x.rootOf(w.X, depth)
			return r, "?"
		case *ssa.UnOp:
			if w.Op != token.MUL {
				return v, ""
			}
			if a, ok := w.X.(*ssa.Alloc); ok {
				// a parameter spilled to a cell
				var src ssa.Value
				n := 0
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						src = s.Val
						n++
					}
				}
				if n == 1 {
					v = src
					continue
				}
			}
			r, p := x.rootOf(w.X, depth)
			return r, p + "*"
		case *ssa.Lookup:
			r, _ := x.rootOf(w.X, depth)
			return r, "?"
		case *ssa.Extract:
			v = w.Tuple
		case *ssa.MakeInterface:
			v = w.X
		case *ssa.ChangeInterface:
			v = w.X
		case *ssa.ChangeType:
			v = w.X
		case *ssa.TypeAssert:
			v = w.X
		case *ssa.Slice:
			v = w.X
		case *ssa.Phi:
			for _, e := range w.Edges {
				r, _ := x.rootOf(e, depth+8)
				switch r.(type) {
				case *ssa.Parameter, *ssa.Global, *ssa.FreeVar:
					return r, "?"
				}
			}
			return v, ""
		case *ssa.Call:
			f := w.Call.StaticCallee()
			if f != nil && x.p.IsRepoFunc(f) && len(w.Call.Args) > 0 {
				if _, ptr := w.Type().Underlying().(*types.Pointer); ptr {
					r, _ := x.rootOf(w.Call.Args[0], depth+4)
					switch r.(type) {
					case *ssa.Parameter, *ssa.Global, *ssa.FreeVar:
						return r, "?"
					}
				}
			}
			return v, ""
		default:
			return v, ""
		}
	}
	return v, ""
}

// outputs lists the primitive output operations: for each call, what it writes to (nil is global output).
func (x *xmap) primitive(c *ssa.CallCommon) (targets []ssa.Value, reason string, ok bool) {
	if c.IsInvoke() {
		switch c.Method.Name() {
		case "Write", "WriteString", "WriteByte", "WriteRune":
			return []ssa.Value{c.Value}, "data is written", true
		}
		return nil, "", false
	}
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil && f.Object() == nil {
		return nil, "", false
	}
	pkg := ""
	if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	name := f.Name()
	recv := f.Signature.Recv() != nil
	switch {
	case pkg == "fmt" && strings.HasPrefix(name, "Print"):
		return []ssa.Value{nil}, "text is printed", true
	case pkg == "fmt" && strings.HasPrefix(name, "Fprint"), pkg == "io" && (name == "WriteString" || name == "Copy"):
		return []ssa.Value{c.Args[0]}, "text is written", true
	case recv && (pkg == "strings" || pkg == "bytes" || pkg == "bufio" || pkg == "os") && strings.HasPrefix(name, "Write"):
		return []ssa.Value{c.Args[0]}, "text is written", true
	case recv && (pkg == "html/template" || pkg == "text/template") && strings.HasPrefix(name, "Execute"):
		return []ssa.Value{c.Args[1]}, "a template is written", true
	}
	return nil, "", false
}

func (x *xmap) exempt(f *ssa.Function) bool {
	return f.Name() == "Debugf" && strings.HasSuffix(x.p.FuncPkgPath(f), "/internal/test")
}

func (x *xmap) callEffects(c ssa.CallInstruction) []xcallEffect {
	common := c.Common()
	var out []xcallEffect
	if t, why, ok := x.primitive(common); ok {
		for _, v := range t {
			out = append(out, xcallEffect{target: v, reason: why})
		}
		return out
	}
	add := func(f *ssa.Function, args []ssa.Value, bind []ssa.Value) {
		if x.exempt(f) {
			return
		}
		for _, ef := range x.effectsOf(f) {
			switch {
			case ef.free != nil:
				for i, fv := range f.FreeVars {
					if fv == ef.free && i < len(bind) {
						out = append(out, xcallEffect{target: bind[i], app: ef.app, path: ef.path, reason: ef.reason})
					}
				}
			case ef.param >= 0 && ef.param < len(args):
				out = append(out, xcallEffect{target: args[ef.param], app: ef.app, path: ef.path, reason: ef.reason})
			case ef.param < 0:
				out = append(out, xcallEffect{reason: ef.reason})
			}
		}
	}
	if common.IsInvoke() {
		for _, f := range x.implementations(common) {
			add(f, append([]ssa.Value{common.Value}, common.Args...), nil)
		}
	} else if f := common.StaticCallee(); f != nil {
		if x.p.IsRepoFunc(f) {
			var bind []ssa.Value
			if mc, ok := common.Value.(*ssa.MakeClosure); ok {
				bind = mc.Bindings
			}
			add(f, common.Args, bind)
		}
	}
	// Function literals handed to the callee are taken to be called by it.
	for _, a := range common.Args {
		if mc, ok := a.(*ssa.MakeClosure); ok {
			if f, ok := mc.Fn.(*ssa.Function); ok && x.p.IsRepoFunc(f) {
				add(f, nil, mc.Bindings)
			}
		}
		if f, ok := a.(*ssa.Function); ok && x.p.IsRepoFunc(f) {
			add(f, nil, nil)
		}
	}
	return out
}

// implementations resolves a call through an interface declared in the repository.
func (x *xmap) implementations(c *ssa.CallCommon) []*ssa.Function {
	n, ok := c.Value.Type().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range x.p.Funcs {
		r := f.Signature.Recv()
		if r == nil || f.Name() != c.Method.Name() || f.Synthetic != "" {
			continue
		}
		if types.Implements(r.Type(), it) {
			out = append(out, f)
		}
	}
	return out
}

func (x *xmap) effectsOf(f *ssa.Function) []xeffect {
	if e, ok := x.effects[f]; ok {
		return e
	}
	if x.busy[f] {
		return nil
	}
	x.busy[f] = true
	defer delete(x.busy, f)
	var out []xeffect
	have := map[string]bool{}
	add := func(e xeffect) {
		k := fmt.Sprint(e.param, e.free, e.app, e.path)
		if !have[k] {
			have[k] = true
			out = append(out, e)
		}
	}
	on := func(v ssa.Value, app bool, path, reason string) {
		if v == nil {
			add(xeffect{param: -1, reason: reason})
			return
		}
		r, p := x.rootOf(v, 0)
		if strings.Contains(p, "?") || path == "?" {
			p, path = "?", ""
		}
		switch r := r.(type) {
		case *ssa.Parameter:
			for i, pa := range f.Params {
				if pa == r {
					add(xeffect{param: i, app: app, path: p + path, reason: reason})
				}
			}
		case *ssa.Global:
			if app {
				add(xeffect{param: -1, reason: reason + " in " + r.Name()})
				return
			}
			add(xeffect{param: -1, reason: reason})
		case *ssa.FreeVar:
			add(xeffect{free: r, app: app, path: p + path, reason: reason})
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case ssa.CallInstruction:
				for _, ef := range x.callEffects(in) {
					on(ef.target, ef.app, ef.path, ef.reason)
				}
			case *ssa.Store:
				// location = append(location, ...): grows something the caller can see
				c, ok := in.Val.(*ssa.Call)
				if !ok {
					continue
				}
				if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" {
					continue
				}
				u, ok := c.Call.Args[0].(*ssa.UnOp)
				if !ok {
					continue
				}
				_, p1 := x.rootOf(in.Addr, 0)
				_, p2 := x.rootOf(u.X, 0)
				if p1 == p2 {
					on(in.Addr, true, "", "elements are appended")
				}
			}
		}
	}
	x.effects[f] = out
	return out
}

// ---------------------------------------------------------------- what happens to a sequence in map order

type xpoint struct {
	b    *ssa.BasicBlock
	i    int
	from *ssa.BasicBlock
}

type xscan struct {
	x     *xmap
	fn    *ssa.Function
	name  string
	vals  map[ssa.Value]bool
	locs  map[string]bool
	from  *xloop
	lk    *xloop // for location names
	outer bool   // some location outlives the call
	depth int

	sortedAll bool
	unsorted  map[int]bool // results returned unsorted
}

func (x *xmap) newScan(fn *ssa.Function, name string, vals []ssa.Value, locs []string) *xscan {
	s := &xscan{x: x, fn: fn, name: name, vals: map[ssa.Value]bool{}, locs: map[string]bool{}, unsorted: map[int]bool{},
		lk: &xloop{fn: fn, region: map[*ssa.BasicBlock]bool{}, elems: map[ssa.Value]bool{}}}
	for _, v := range vals {
		s.vals[v] = true
	}
	for _, l := range locs {
		s.locs[l] = true
	}
	s.close()
	return s
}

// close finds everything in the function that denotes the sequence.
func (s *xscan) close() {
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value) {
			if v != nil && !s.vals[v] {
				s.vals[v] = true
				changed = true
			}
		}
		for _, b := range s.fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Phi:
					for _, e := range in.Edges {
						if s.vals[e] {
							mark(in)
						}
					}
				case *ssa.MakeInterface:
					if s.vals[in.X] {
						mark(in)
					}
				case *ssa.ChangeType:
					if s.vals[in.X] {
						mark(in)
					}
				case *ssa.Convert:
					if s.vals[in.X] {
						mark(in)
					}
				case *ssa.Slice:
					if s.vals[in.X] {
						mark(in)
					}
				case *ssa.UnOp:
					if in.Op == token.MUL && len(s.locs) > 0 {
						if k, _ := s.lk.loc(in.X); s.locs[k] {
							mark(in)
						}
					}
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						for _, a := range in.Call.Args {
							if s.vals[a] {
								mark(in)
							}
						}
					}
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && s.vals[in.Call.Args[1]] {
						mark(in.Call.Args[0])
					}
				case *ssa.Store:
					if s.vals[in.Val] {
						if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
							mark(ia.X)
							continue
						}
						if k, _ := s.lk.loc(in.Addr); !s.locs[k] {
							s.locs[k] = true
							changed = true
						}
					}
				}
			}
		}
	}
}

// outlives reports whether a location is visible after the function returns.
func (s *xscan) outlives() (string, bool) {
	for k := range s.locs {
		for _, b := range s.fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if kk, _ := s.lk.loc(st.Addr); kk != k {
					continue
				}
				switch a := st.Addr.(type) {
				case *ssa.Global:
					return a.Name(), true
				case *ssa.FieldAddr:
					return valueName(a), true
				case *ssa.FreeVar:
					return a.Name(), true
				case *ssa.UnOp:
					return valueName(a), true
				}
			}
		}
		if strings.HasPrefix(k, "param") || strings.Contains(k, ".") {
			return s.name, true
		}
	}
	return "", false
}

func isSortCall(c *ssa.CallCommon) (arg ssa.Value, cmp ssa.Value, ok bool) {
	f := c.StaticCallee()
	if f == nil {
		return nil, nil, false
	}
	o := f.Object()
	if f.Origin() != nil {
		o = f.Origin().Object()
	}
	if o == nil || o.Pkg() == nil || len(c.Args) == 0 {
		return nil, nil, false
	}
	switch o.Pkg().Path() {
	case "sort":
		switch o.Name() {
		case "Strings", "Ints", "Float64s", "Sort", "Stable":
			return c.Args[0], nil, true
		case "Slice", "SliceStable":
			return c.Args[0], c.Args[1], true
		}
	case "slices", "golang.org/x/exp/slices":
		switch o.Name() {
		case "Sort":
			return c.Args[0], nil, true
		case "SortFunc", "SortStableFunc":
			return c.Args[0], c.Args[1], true
		}
	}
	return nil, nil, false
}

// distinguishes reports whether a comparison function can tell apart elements that agree in everything but identity.
func (x *xmap) distinguishes(cmp ssa.Value, depth int) bool {
	var f *ssa.Function
	switch c := cmp.(type) {
	case *ssa.MakeClosure:
		f, _ = c.Fn.(*ssa.Function)
	case *ssa.Function:
		f = c
	}
	if f == nil || f.Blocks == nil {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp:
				switch in.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					if bt, ok := in.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
						return true
					}
					// comparing whole elements (not a property of them)
					if u, ok := in.X.(*ssa.UnOp); ok {
						if _, ok := u.X.(*ssa.IndexAddr); ok {
							return true
						}
					}
					if _, ok := in.X.(*ssa.Parameter); ok {
						return true
					}
				}
			case *ssa.Call:
				g := in.Call.StaticCallee()
				if g == nil {
					return true
				}
				switch {
				case g.Name() == "Compare" || g.Name() == "Less":
					if len(in.Call.Args) > 0 {
						if bt, ok := in.Call.Args[0].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
							return true
						}
						if _, ok := in.Call.Args[0].(*ssa.Parameter); ok {
							return true
						}
					}
				case x.p.IsRepoFunc(g) && depth < 4 && types.Identical(g.Signature.Results().At(0).Type(), f.Signature.Results().At(0).Type()):
					if x.distinguishes(g, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// scan follows every path from the given points until the sequence is sorted.
func (s *xscan) scan(starts []xpoint) {
	x := s.x
	if s.depth > 6 {
		return
	}
	s.sortedAll = true
	reached := false
	seen := map[string]bool{}
	work := append([]xpoint(nil), starts...)
	for len(work) > 0 {
		pt := work[len(work)-1]
		work = work[:len(work)-1]
		k := fmt.Sprintf("%d/%d", pt.b.Index, pt.i)
		if seen[k] {
			continue
		}
		seen[k] = true
		stopped := false
		for i := pt.i; i < len(pt.b.Instrs); i++ {
			if s.step(pt.b.Instrs[i], &reached) {
				stopped = true
				break
			}
		}
		if stopped {
			continue
		}
		succs := pt.b.Succs
		if iff, ok := pt.b.Instrs[len(pt.b.Instrs)-1].(*ssa.If); ok {
			if skip := s.shortEdge(iff.Cond); skip >= 0 {
				succs = []*ssa.BasicBlock{pt.b.Succs[1-skip]}
			}
		}
		for _, n := range succs {
			if s.from != nil && s.from.region[n] && n != s.from.header {
				continue
			}
			if s.from != nil && n == s.from.header {
				continue // collected again from the start
			}
			work = append(work, xpoint{n, 0, pt.b})
		}
	}
	_ = x
}

// shortEdge recognises a test of the sequence's length; it names the edge on which there is at most one element.
func (s *xscan) shortEdge(cond ssa.Value) int {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return -1
	}
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := c.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "len" && s.vals[c.Call.Args[0]]
	}
	num := func(v ssa.Value) (int64, bool) {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, false
		}
		return c.Int64(), true
	}
	op, n := bo.Op, int64(0)
	if isLen(bo.X) {
		v, ok := num(bo.Y)
		if !ok {
			return -1
		}
		n = v
	} else if isLen(bo.Y) {
		v, ok := num(bo.X)
		if !ok {
			return -1
		}
		n = v
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	} else {
		return -1
	}
	// Which edge implies len <= 1?
	switch op {
	case token.GTR: // len > n, false edge: len <= n
		if n <= 1 {
			return 1
		}
	case token.GEQ: // false edge: len <= n-1
		if n <= 2 {
			return 1
		}
	case token.LSS: // true edge: len <= n-1
		if n <= 2 {
			return 0
		}
	case token.LEQ:
		if n <= 1 {
			return 0
		}
	case token.EQL:
		if n <= 1 {
			return 0
		}
	case token.NEQ:
		if n <= 1 {
			return 1
		}
	}
	return -1
}

// step handles one instruction; true means the sequence is ordered from here on (or the path ends).
func (s *xscan) step(in ssa.Instruction, reached *bool) bool {
	x := s.x
	pos := in.Pos()
	switch in := in.(type) {
	case *ssa.Panic:
		return true
	case ssa.CallInstruction:
		c := in.Common()
		if arg, cmp, ok := isSortCall(c); ok {
			if s.vals[arg] {
				if cmp != nil && !x.distinguishes(cmp, 0) {
					x.violate(s.fn, "sort "+s.name, pos, "the sequence collected in map order is sorted by something that several elements may share, so equal elements stay in map order")
				}
				x.rep.Count("sorted collections", 1)
				return true
			}
			return false
		}
		if bi, ok := c.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "print", "println":
				for _, a := range c.Args {
					if s.vals[a] {
						x.violate(s.fn, "use "+s.name, pos, "a sequence collected in map order is printed without being sorted")
					}
				}
			}
			return false
		}
		for i, a := range c.Args {
			if !s.vals[a] {
				continue
			}
			f := c.StaticCallee()
			if f == nil {
				x.violate(s.fn, "use "+s.name, pos, "a sequence collected in map order is passed to an unknown function without being sorted")
				continue
			}
			if x.p.IsRepoFunc(f) && f.Blocks != nil {
				if x.exempt(f) || i >= len(f.Params) {
					continue
				}
				sub := x.newScan(f, s.name, []ssa.Value{f.Params[i]}, nil)
				sub.depth = s.depth + 1
				sub.scan([]xpoint{{f.Blocks[0], 0, nil}})
				if sub.sortedAll {
					x.rep.Count("sorted collections", 1)
					return true
				}
				continue
			}
			pk := ""
			if o := f.Object(); o != nil && o.Pkg() != nil {
				pk = o.Pkg().Path()
			} else if f.Origin() != nil && f.Origin().Pkg != nil {
				pk = f.Origin().Pkg.Pkg.Path()
			}
			if strings.Contains(pk, "stretchr/testify") {
				continue
			}
			if pk == "slices" && (strings.HasPrefix(f.Name(), "Contains") || strings.HasPrefix(f.Name(), "Max") || strings.HasPrefix(f.Name(), "Min")) {
				continue
			}
			x.violate(s.fn, "use "+s.name, pos, "a sequence collected in map order is passed to %s without being sorted", x.p.FuncName(f))
		}
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			s.closure(mc, pos)
		}
	case *ssa.MakeClosure:
		onlySort := true
		for _, r := range *in.Referrers() {
			if c, ok := r.(ssa.CallInstruction); ok {
				if _, cmp, ok := isSortCall(c.Common()); ok && cmp == in {
					continue
				}
			}
			onlySort = false
		}
		if !onlySort {
			s.closure(in, pos)
		}
	case *ssa.IndexAddr:
		if s.vals[in.X] {
			if a, ok := in.X.(*ssa.Alloc); ok && a.Comment == "varargs" {
				return false
			}
			s.element(in, in.Index)
		}
	case *ssa.Index:
		if s.vals[in.X] {
			s.element(in, in.Index)
		}
	case *ssa.MapUpdate:
		if s.vals[in.Value] {
			x.violate(s.fn, "use "+s.name, pos, "a sequence collected in map order is stored in a map without being sorted")
		}
	case *ssa.Send:
		if s.vals[in.X] {
			x.violate(s.fn, "use "+s.name, pos, "a sequence collected in map order is sent without being sorted")
		}
	case *ssa.Return:
		s.sortedAll = false
		for i, r := range in.Results {
			if s.vals[r] && !s.unsorted[i] {
				s.unsorted[i] = true
				s.returned(i, pos)
			}
		}
		if s.depth == 0 {
			if n, ok := s.outlives(); ok {
				x.violate(s.fn, "left "+s.name, pos, "%s is left in map order", n)
			}
		}
		return true
	}
	return false
}

// closure follows the sequence into a function literal that captures it.
func (s *xscan) closure(mc *ssa.MakeClosure, pos token.Pos) {
	f, ok := mc.Fn.(*ssa.Function)
	if !ok || f.Blocks == nil {
		return
	}
	for i, bnd := range mc.Bindings {
		k, _ := s.lk.loc(bnd)
		if !s.locs[k] && !s.vals[bnd] {
			continue
		}
		fv := f.FreeVars[i]
		sub := s.x.newScan(f, s.name, nil, []string{fmt.Sprintf("%s@%p", fv.Name(), fv)})
		sub.depth = s.depth + 1
		sub.scan([]xpoint{{f.Blocks[0], 0, nil}})
	}
}

// element handles reading one element of the sequence: a loop over it is an unordered loop.
func (s *xscan) element(v ssa.Value, index ssa.Value) {
	x := s.x
	in := v.(ssa.Instruction)
	// only writing the element is not a read
	reads := false
	for _, r := range *v.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == v {
			continue
		}
		reads = true
	}
	if !reads {
		return
	}
	l := x.innermost(s.fn, in.Block())
	for l != nil {
		phi := false
		var idx func(w ssa.Value, d int)
		idx = func(w ssa.Value, d int) {
			if ph, ok := w.(*ssa.Phi); ok && ph.Block() == l.header {
				phi = true
			}
			if bo, ok := w.(*ssa.BinOp); ok && d < 3 {
				idx(bo.X, d+1)
				idx(bo.Y, d+1)
			}
		}
		idx(index, 0)
		if phi {
			break
		}
		// an enclosing loop
		var next *xloop
		for _, m := range x.loopsOf[s.fn] {
			if m != l && m.blocks[l.header] && len(m.blocks) > len(l.blocks) && (next == nil || len(m.blocks) < len(next.blocks)) {
				next = m
			}
		}
		l = next
	}
	if l == nil {
		x.violate(s.fn, "element of "+s.name, in.Pos(), "one element of a sequence collected in map order is picked by position")
		return
	}
	n := *l
	n.elems = map[ssa.Value]bool{v: true}
	n.what = "sequence collected in map order (" + s.name + ")"
	if ph, ok := index.(*ssa.Phi); ok {
		n.elems[ph] = true
	}
	if bo, ok := index.(*ssa.BinOp); ok {
		n.elems[bo] = true
		if ph, ok := bo.X.(*ssa.Phi); ok {
			n.elems[ph] = true
		}
	}
	x.loop(&n)
}

// returned follows a sequence that a function returns in map order.
func (s *xscan) returned(i int, pos token.Pos) {
	x := s.x
	f := s.fn
	if o := f.Object(); o != nil && o.Exported() {
		x.violate(f, "result "+s.name, pos, "an exported function returns a sequence in map order")
		return
	}
	for _, c := range x.calls[f] {
		v, ok := c.(*ssa.Call)
		if !ok {
			continue
		}
		var src ssa.Value = v
		if f.Signature.Results().Len() > 1 {
			src = nil
			for _, r := range *v.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index == i {
					src = e
				}
			}
		}
		if src == nil {
			continue
		}
		key := fmt.Sprintf("ret/%p/%d", v, i)
		if x.seen[key] {
			continue
		}
		x.seen[key] = true
		sub := x.newScan(v.Parent(), "result of "+x.p.FuncName(f), []ssa.Value{src}, nil)
		at := src.(ssa.Instruction)
		for k, in := range at.Block().Instrs {
			if in == at {
				sub.scan([]xpoint{{at.Block(), k + 1, nil}})
			}
		}
	}
}

// entries checks a map whose entries are sequences collected in map order.
func (x *xmap) entries(l *xloop, name string, vals []ssa.Value, locs []string, pos token.Pos, starts []xpoint) {
	fn := l.fn
	lk := &xloop{fn: fn, region: map[*ssa.BasicBlock]bool{}, elems: map[ssa.Value]bool{}}
	same := func(v ssa.Value) bool {
		for _, w := range vals {
			if v == w {
				return true
			}
		}
		k, _ := lk.loc(v)
		for _, w := range locs {
			if k == w {
				return true
			}
		}
		return false
	}
	x.rep.Count("maps of sequences collected in map order", 1)
	// A loop over the map that sorts every entry orders it.
	var sorted []*ssa.BasicBlock
	type src struct {
		v  ssa.Value
		at ssa.Instruction
	}
	var reads []src
	for _, b := range fn.Blocks {
		if l.region[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Next:
				r, ok := in.Iter.(*ssa.Range)
				if !ok || !same(r.X) {
					continue
				}
				for _, ref := range *in.Referrers() {
					e, ok := ref.(*ssa.Extract)
					if !ok || e.Index != 2 {
						continue
					}
					inner := x.loopAt(fn, b)
					s := x.newScan(fn, "entry of "+name, []ssa.Value{e}, nil)
					if s.sortsWithin(inner, b) {
						sorted = append(sorted, b)
						x.rep.Count("sorted collections", 1)
					} else {
						reads = append(reads, src{e, e})
					}
				}
			case *ssa.Lookup:
				if !same(in.X) {
					continue
				}
				if in.CommaOk {
					for _, ref := range *in.Referrers() {
						if e, ok := ref.(*ssa.Extract); ok && e.Index == 0 {
							reads = append(reads, src{e, e})
						}
					}
				} else {
					reads = append(reads, src{in, in})
				}
			case *ssa.Return:
				for _, r := range in.Results {
					if same(r) {
						ok := false
						for _, sb := range sorted {
							ok = ok || sb.Dominates(b)
						}
						if !ok {
							x.violate(fn, "entries of "+name, in.Pos(), "a map whose entries were collected in map order is returned without sorting them")
						}
					}
				}
			}
		}
	}
	for _, r := range reads {
		ok := false
		for _, sb := range sorted {
			ok = ok || sb.Dominates(r.at.Block())
		}
		if ok {
			continue
		}
		s := x.newScan(fn, "entry of "+name, []ssa.Value{r.v}, nil)
		s.from = nil
		for k, in := range r.at.Block().Instrs {
			if in == r.at {
				s.scan([]xpoint{{r.at.Block(), k + 1, nil}})
			}
		}
	}
	if len(sorted) == 0 {
		for _, v := range vals {
			if u, ok := v.(*ssa.UnOp); ok {
				switch u.X.(type) {
				case *ssa.Global, *ssa.FieldAddr:
					x.violate(fn, "entries of "+name, pos, "the entries of %s are left in map order", valueName(u.X))
				}
			}
		}
	}
}

// sortsWithin reports whether the sequence is sorted in every iteration of the loop.
func (s *xscan) sortsWithin(l *xloop, h *ssa.BasicBlock) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if arg, cmp, ok := isSortCall(c.Common()); ok && s.vals[arg] {
				if cmp != nil && !s.x.distinguishes(cmp, 0) {
					continue
				}
				return true
			}
			if f := c.Call.StaticCallee(); f != nil && s.x.p.IsRepoFunc(f) && f.Blocks != nil {
				for i, a := range c.Call.Args {
					if s.vals[a] && i < len(f.Params) {
						sub := s.x.newScan(f, s.name, []ssa.Value{f.Params[i]}, nil)
						sub.depth = s.depth + 1
						sub.scan([]xpoint{{f.Blocks[0], 0, nil}})
						if sub.sortedAll {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

var _ = sort.Strings
