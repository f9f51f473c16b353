package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Scan functions decide that a list of attributes has nothing to show (emptyGroup). The claim (f, b) is:
// when f returns b, its argument (an attribute, or every attribute of a list) is empty, or a group that is
// recursively empty. Claims are checked on the function's paths, one loop iteration at a time, assuming the
// claims for the functions called (which hold by induction on the depth of the calls).

type scanProver struct {
	p      *Program
	claims map[scanKey]byte       // 'y' holds (or is assumed), 'n' refuted, '?' not understood
	why    map[scanKey]string     // reason of the last refutation
	emits  map[*ssa.Function]bool // functions that write the attributes they are given
}

type scanKey struct {
	fn *ssa.Function
	b  bool
}

func newScanProver(p *Program) *scanProver {
	return &scanProver{p: p, claims: map[scanKey]byte{}, why: map[scanKey]string{}}
}

// scanParam is the parameter a candidate judges.
func scanParam(fn *ssa.Function) (par *ssa.Parameter, list bool) {
	res := fn.Signature.Results()
	if fn.Blocks == nil || res.Len() != 1 || !isBool(res.At(0).Type()) {
		return nil, false
	}
	for _, q := range fn.Params {
		switch {
		case isAttrType(q.Type()):
			if par != nil {
				return nil, false
			}
			par = q
		case isAttrList(q.Type()):
			if par != nil {
				return nil, false
			}
			par, list = q, true
		}
	}
	return
}

func isAttrList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isAttrType(s.Elem())
}

// prove settles the claims of all candidate functions of a package: assume all, drop the refuted, repeat.
func (s *scanProver) prove(fns []*ssa.Function) {
	var keys []scanKey
	for _, fn := range fns {
		if q, _ := scanParam(fn); q != nil {
			for _, b := range []bool{true, false} {
				k := scanKey{fn, b}
				s.claims[k] = 'y'
				keys = append(keys, k)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, k := range keys {
			if s.claims[k] == 'n' {
				continue
			}
			old := s.claims[k]
			r, why := s.check(k)
			if r != old {
				s.claims[k], s.why[k] = r, why
				changed = changed || r == 'n' || old == 'y'
			}
		}
	}
}

// scanSeg is one path between loop headers.
type scanSeg struct {
	from  *ssa.BasicBlock // loop header or nil for the entry
	conds map[ssa.Value]bool
	env   map[*ssa.Phi]ssa.Value
	to    *ssa.BasicBlock         // loop header it ends at, or
	ret   ssa.Value               // the value returned
	next  map[*ssa.Phi]ssa.Value  // values the header's phis get
	taken map[*ssa.BasicBlock]int // successor taken per block
	calls []*ssa.Call
}

type scanLoop struct {
	header *ssa.BasicBlock
	over   string // path of the list
	idx    ssa.Value
	phi    *ssa.Phi
	body   int // successor index that continues
}

func loopHeaders(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	h := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, n := range b.Succs {
			if n.Dominates(b) {
				h[n] = true
			}
		}
	}
	return h
}

// segments lists the paths of a function between its loop headers; nil if they are too many or unusual.
func (s *scanProver) segments(fn *ssa.Function, heads map[*ssa.BasicBlock]bool) []*scanSeg {
	var segs []*scanSeg
	ok := true
	var walk func(g *scanSeg, b, prev *ssa.BasicBlock, depth int)
	walk = func(g *scanSeg, b, prev *ssa.BasicBlock, depth int) {
		if len(segs) > 3000 || depth > 200 {
			ok = false
			return
		}
		env := g.env
		if prev != nil && (!heads[b] || depth > 0) {
			// phis
			idx := -1
			for i, q := range b.Preds {
				if q == prev {
					idx = i
				}
			}
			vals := map[*ssa.Phi]ssa.Value{}
			for _, ins := range b.Instrs {
				if phi, isPhi := ins.(*ssa.Phi); isPhi {
					v := phi.Edges[idx]
					if q, isP := v.(*ssa.Phi); isP && env[q] != nil {
						v = env[q]
					}
					vals[phi] = v
				}
			}
			if heads[b] {
				g.to, g.next = b, vals
				segs = append(segs, g)
				return
			}
			env = map[*ssa.Phi]ssa.Value{}
			for p, v := range g.env {
				env[p] = v
			}
			for p, v := range vals {
				env[p] = v
			}
		}
		cp := *g
		g = &cp
		g.calls = append([]*ssa.Call{}, g.calls...)
		for _, ins := range b.Instrs {
			if c, isC := ins.(*ssa.Call); isC {
				g.calls = append(g.calls, c)
			}
		}
		last := b.Instrs[len(b.Instrs)-1]
		switch t := last.(type) {
		case *ssa.Return:
			n := *g
			n.env = env
			if len(t.Results) > 0 {
				n.ret = t.Results[0]
			}
			segs = append(segs, &n)
		case *ssa.Jump:
			n := *g
			n.env = env
			walk(&n, b.Succs[0], b, depth+1)
		case *ssa.If:
			base, pos := s.literal(t.Cond, env)
			for i, succ := range b.Succs {
				want := (i == 0) == pos
				if c, isC := base.(*ssa.Const); isC {
					if v, isB := constBoolVal(c); isB && v != want {
						continue
					}
				}
				if v, known := g.conds[base]; known && v != want {
					continue
				}
				n := *g
				n.env = env
				n.conds = map[ssa.Value]bool{base: want}
				for q, v := range g.conds {
					n.conds[q] = v
				}
				n.taken = map[*ssa.BasicBlock]int{b: i}
				for q, v := range g.taken {
					n.taken[q] = v
				}
				walk(&n, succ, b, depth+1)
			}
		case *ssa.Panic:
		default:
			ok = false
		}
	}
	walk(&scanSeg{conds: map[ssa.Value]bool{}, env: map[*ssa.Phi]ssa.Value{}}, fn.Blocks[0], nil, 0)
	for h := range heads {
		walk(&scanSeg{from: h, conds: map[ssa.Value]bool{}, env: map[*ssa.Phi]ssa.Value{}}, h, nil, 0)
	}
	if !ok {
		return nil
	}
	return segs
}

func (s *scanProver) check(k scanKey) (byte, string) {
	fn := k.fn
	par, list := scanParam(fn)
	heads := loopHeaders(fn)
	segs := s.segments(fn, heads)
	if segs == nil {
		return '?', "too many paths"
	}
	loops := map[*ssa.BasicBlock]*scanLoop{}
	for h := range heads {
		l := s.loop(h)
		if l == nil {
			return '?', "a loop is not recognised"
		}
		loops[h] = l
	}
	// may the value returned be b
	canBe := func(g *scanSeg, b bool) (*scanSeg, bool) {
		base, pos := s.literal(g.ret, g.env)
		want := b == pos
		if c, isC := base.(*ssa.Const); isC {
			v, _ := constBoolVal(c)
			return g, v == want
		}
		if v, known := g.conds[base]; known {
			return g, v == want
		}
		n := *g
		n.conds = map[ssa.Value]bool{base: want}
		for q, v := range g.conds {
			n.conds[q] = v
		}
		return &n, true
	}
	verdict, why := byte('y'), ""
	for _, g := range segs {
		if g.to != nil {
			continue
		}
		g, can := canBe(g, k.b)
		if !can {
			continue
		}
		if !list {
			if !s.empty(g, s.path(par, g.env)) {
				return 'n', "an attribute not shown to be empty can be taken for empty"
			}
			continue
		}
		p := s.path(par, g.env)
		if s.allEmpty(g, p) {
			continue
		}
		if l := loops[g.from]; l != nil && l.over == p && s.exhausted(g, l) {
			// the loop must have judged every element, possibly remembering the verdict in a variable
			if s.loopJudges(segs, l, nil, 0) {
				continue
			}
			found := false
			for phi, c := range s.markers(g, l, segs) {
				if s.loopJudges(segs, l, phi, c) {
					found = true
				}
			}
			if found {
				continue
			}
			return 'n', "a loop passes over an attribute without having shown it to be empty"
		}
		return 'n', "the list can be taken for empty before all of it was looked at"
	}
	return verdict, why
}

func constBoolVal(c *ssa.Const) (bool, bool) {
	if c.Value != nil && c.Value.Kind() == constant.Bool {
		return constant.BoolVal(c.Value), true
	}
	return false, false
}

// literal strips negations and comparisons with constants off a condition.
func (s *scanProver) literal(v ssa.Value, env map[*ssa.Phi]ssa.Value) (ssa.Value, bool) {
	pos := true
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.NOT {
				v, pos = x.X, !pos
				continue
			}
		case *ssa.Phi:
			if r := env[x]; r != nil && r != v {
				v = r
				continue
			}
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				a, b := x.X, x.Y
				if _, isC := a.(*ssa.Const); isC {
					a, b = b, a
				}
				if c, isC := b.(*ssa.Const); isC {
					if bv, isB := constBoolVal(c); isB {
						v = a
						if bv != (x.Op == token.EQL) {
							pos = !pos
						}
						continue
					}
				}
			}
		}
		return v, pos
	}
}

// loop recognises a loop that visits each element of a list once.
func (s *scanProver) loop(h *ssa.BasicBlock) *scanLoop {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	x, y, op := cmp.X, cmp.Y, cmp.Op
	if op == token.GTR { // len > i
		x, y, op = y, x, token.LSS
	}
	idx := x
	add := 0
	phi, ok := x.(*ssa.Phi)
	if !ok {
		b, isB := x.(*ssa.BinOp)
		if !isB || b.Op != token.ADD {
			return nil
		}
		if c, isC := b.Y.(*ssa.Const); !isC || c.Value == nil || c.Int64() != 1 {
			return nil
		}
		if phi, ok = b.X.(*ssa.Phi); !ok {
			return nil
		}
		add = 1
	}
	if phi.Block() != h {
		return nil
	}
	over := ""
	switch op {
	case token.LSS, token.NEQ:
		c, isC := y.(*ssa.Call)
		if !isC {
			return nil
		}
		if bi, isB := c.Call.Value.(*ssa.Builtin); !isB || bi.Name() != "len" {
			return nil
		}
		over = s.path(c.Call.Args[0], nil)
	case token.GEQ:
		if c, isC := y.(*ssa.Const); !isC || c.Value == nil || c.Int64() != 0 || add != 0 {
			return nil
		}
	default:
		return nil
	}
	back := op == token.GEQ
	for i, e := range phi.Edges {
		inside := h.Dominates(h.Preds[i])
		switch {
		case !inside && !back:
			if c, isC := e.(*ssa.Const); !isC || c.Value == nil || c.Int64() != int64(-add) {
				return nil
			}
		case !inside && back:
			b, isB := e.(*ssa.BinOp)
			if !isB || b.Op != token.SUB {
				return nil
			}
			c, isC := b.X.(*ssa.Call)
			if !isC {
				return nil
			}
			if bi, isB := c.Call.Value.(*ssa.Builtin); !isB || bi.Name() != "len" {
				return nil
			}
			if k, isK := b.Y.(*ssa.Const); !isK || k.Int64() != 1 {
				return nil
			}
			over = s.path(c.Call.Args[0], nil)
		default:
			if add == 1 {
				if e != x {
					return nil
				}
				continue
			}
			b, isB := e.(*ssa.BinOp)
			if !isB || b.X != ssa.Value(phi) {
				return nil
			}
			k, isK := b.Y.(*ssa.Const)
			if !isK || k.Value == nil || k.Int64() != 1 || b.Op != map[bool]token.Token{false: token.ADD, true: token.SUB}[back] {
				return nil
			}
		}
	}
	return &scanLoop{header: h, over: over, idx: idx, phi: phi, body: 0}
}

func (s *scanProver) exhausted(g *scanSeg, l *scanLoop) bool {
	i, ok := g.taken[l.header]
	return g.from == l.header && ok && i != l.body
}

// markers are the loop variables whose value at the end of this path is a known constant.
func (s *scanProver) markers(g *scanSeg, l *scanLoop, segs []*scanSeg) map[*ssa.Phi]int64 {
	out := map[*ssa.Phi]int64{}
	for _, ins := range l.header.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok || phi == l.phi {
			continue
		}
		if isBool(phi.Type()) {
			if v, known := g.conds[phi]; known {
				out[phi] = map[bool]int64{false: 0, true: 1}[v]
			}
			continue
		}
		for c, v := range g.conds {
			b, isB := c.(*ssa.BinOp)
			if !isB {
				continue
			}
			if r, isP := b.X.(*ssa.Phi); !isP || r != phi {
				continue
			}
			k, isK := b.Y.(*ssa.Const)
			if !isK || k.Value == nil || k.Value.Kind() != constant.Int {
				continue
			}
			switch n := k.Int64(); {
			case b.Op == token.EQL && v, b.Op == token.NEQ && !v:
				out[phi] = n
			case n == 0 && (b.Op == token.GTR && !v || b.Op == token.LEQ && v), n == 1 && (b.Op == token.LSS && v || b.Op == token.GEQ && !v):
				out[phi] = 0
			}
		}
	}
	return out
}

// visits checks that a function that writes a list of attributes gets to each of them, unless it reports an error:
// 'y', 'n' or '?' (not understood).
func (s *scanProver) visits(fn *ssa.Function, par *ssa.Parameter) (byte, string) {
	heads := loopHeaders(fn)
	segs := s.segments(fn, heads)
	if segs == nil {
		return '?', "its paths are too many"
	}
	loops := map[*ssa.BasicBlock]*scanLoop{}
	all := true
	for h := range heads {
		if l := s.loop(h); l != nil {
			loops[h] = l
		} else {
			all = false
		}
	}
	passed := false
	for _, g := range segs {
		for _, c := range g.calls {
			for _, a := range c.Call.Args {
				if f := s.callee(c); f != nil && s.emits[f] && (isAttrType(a.Type()) || isAttrList(a.Type())) {
					passed = true
				}
			}
		}
	}
	if !passed {
		return '?', "it hands no attribute to a writing function"
	}
	for _, g := range segs {
		if g.to != nil || g.ret != nil && s.isError(g, fn) {
			continue
		}
		p := s.path(par, g.env)
		if s.allEmpty(g, p) || s.hands(g, p) {
			continue
		}
		if l := loops[g.from]; l != nil && l.over == p {
			if !s.exhausted(g, l) {
				return 'n', "it can stop before the last attribute without an error"
			}
			for _, h := range segs {
				if h.to == l.header && h.from == l.header {
					elem := l.over + "[" + l.idx.Name() + "]"
					if !s.hands(h, elem) && !s.empty(h, elem) {
						return 'n', "its loop can pass over an attribute that is not empty"
					}
				}
			}
			continue
		}
		if !all {
			return '?', "a loop is not recognised"
		}
		// A list passed in a loop that this path has left behind.
		behind := false
		for _, l := range loops {
			if l.over == p && l.header != g.from && g.from != nil {
				behind = true
			}
		}
		if behind {
			return '?', "several loops"
		}
		return 'n', "it can return without an error and without having gone through the attributes"
	}
	return 'y', ""
}

func (s *scanProver) callee(c *ssa.Call) *ssa.Function {
	if f := c.Call.StaticCallee(); f != nil {
		return f
	}
	if mc, ok := c.Call.Value.(*ssa.MakeClosure); ok {
		return mc.Fn.(*ssa.Function)
	}
	return nil
}

// hands: on this path what is called p is handed to a function that writes attributes.
func (s *scanProver) hands(g *scanSeg, p string) bool {
	for _, c := range g.calls {
		f := s.callee(c)
		if f == nil || !s.emits[f] {
			continue
		}
		for _, a := range c.Call.Args {
			if (isAttrType(a.Type()) || isAttrList(a.Type())) && s.path(a, g.env) == p {
				return true
			}
		}
	}
	return false
}

// isError: the path returns an error that is not nil.
func (s *scanProver) isError(g *scanSeg, fn *ssa.Function) bool {
	if fn.Signature.Results().Len() != 1 || typeKey(fn.Signature.Results().At(0).Type()) != "error" {
		return false
	}
	v := g.ret
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Phi:
			if r := g.env[x]; r != nil && r != v {
				v = r
				continue
			}
		case *ssa.MakeInterface:
			return true
		case *ssa.Call:
			if _, name := callOf(x); name == "fmt.Errorf" || name == "errors.New" {
				return true
			}
		}
		break
	}
	for c, b := range g.conds {
		x, ok := c.(*ssa.BinOp)
		if !ok || x.Op != token.EQL && x.Op != token.NEQ {
			continue
		}
		k, isC := x.Y.(*ssa.Const)
		l := x.X
		if q, isP := l.(*ssa.Phi); isP && g.env[q] != nil {
			l = g.env[q]
		}
		if isC && k.Value == nil && (l == v || s.same(l, v)) && b == (x.Op == token.NEQ) {
			return true
		}
	}
	return false
}

// same: two loads of a variable that is not stored to in between (the variable is local and both are on one path).
func (s *scanProver) same(a, b ssa.Value) bool {
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X
}

// loopJudges: each iteration that goes on shows its element empty (or, with a marker, leaves the marker off its value).
func (s *scanProver) loopJudges(segs []*scanSeg, l *scanLoop, marker *ssa.Phi, val int64) bool {
	for _, g := range segs {
		if g.to != l.header {
			continue
		}
		var nv ssa.Value
		if marker != nil {
			nv = g.next[marker]
		}
		if g.from != l.header { // entering the loop: nothing visited yet
			if g.from != nil {
				return false
			}
			continue
		}
		elem := l.over + "[" + l.idx.Name() + "]"
		seen := s.empty(g, elem)
		if marker == nil {
			if !seen {
				return false
			}
			continue
		}
		same := nv == ssa.Value(marker)
		if same || nv == nil {
			if !seen {
				// unless the marker is already known to be off
				if v, known := g.conds[marker]; known && isBool(marker.Type()) && (v != (val == 1)) {
					continue
				}
				return false
			}
			continue
		}
		if c, isC := nv.(*ssa.Const); isC && c.Value != nil {
			n := int64(0)
			if bv, isB := constBoolVal(c); isB {
				if bv {
					n = 1
				}
			} else {
				n = c.Int64()
			}
			if n == val {
				return false // forgets what was seen
			}
			continue
		}
		if b, isB := nv.(*ssa.BinOp); isB && b.Op == token.ADD && b.X == ssa.Value(marker) && val == 0 {
			if c, isC := b.Y.(*ssa.Const); isC && c.Value != nil && c.Int64() > 0 {
				continue // counted
			}
		}
		// marker = some condition
		base, pos := s.literal(nv, g.env)
		n := *g
		n.conds = map[ssa.Value]bool{base: pos == (val == 1)}
		for q, v := range g.conds {
			n.conds[q] = v
		}
		if old, known := g.conds[marker]; known && old == (val == 1) && s.empty(&n, elem) {
			continue
		}
		return false
	}
	return true
}

// path names what a value was read from; a resolved value has the name of the value itself.
func (s *scanProver) path(v ssa.Value, env map[*ssa.Phi]ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Phi:
		if r := env[x]; r != nil && r != v {
			return s.path(r, env)
		}
	case *ssa.ChangeType:
		return s.path(x.X, env)
	case *ssa.Field:
		return s.path(x.X, env) + "." + x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return s.addr(x.X, env)
		}
	case *ssa.Slice:
		lo, _ := x.Low.(*ssa.Const)
		if x.High == nil && x.Max == nil && lo != nil && lo.Int64() == 1 {
			return s.path(x.X, env) + "[1:]"
		}
		if x.High == nil && x.Max == nil && (x.Low == nil || lo != nil && lo.Int64() == 0) {
			return s.path(x.X, env)
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			switch fnKey(f) {
			case "(log/slog.Value).Resolve":
				return s.path(x.Call.Args[0], env)
			case "(log/slog.Value).Group":
				return s.path(x.Call.Args[0], env) + ".Group()"
			case "slices.Clip", "slices.Clone":
				return s.path(x.Call.Args[0], env)
			}
		}
	}
	return "?" + v.Name()
}

func (s *scanProver) addr(a ssa.Value, env map[*ssa.Phi]ssa.Value) string {
	switch x := a.(type) {
	case *ssa.IndexAddr:
		if c, isC := x.Index.(*ssa.Const); isC {
			return s.path(x.X, env) + "[" + strconv.FormatInt(c.Int64(), 10) + "]"
		}
		return s.path(x.X, env) + "[" + x.Index.Name() + "]"
	case *ssa.FieldAddr:
		return s.addr(x.X, env) + "." + derefType(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.Alloc:
		var whole ssa.Value
		n := 0
		for _, r := range *x.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == ssa.Value(x) {
					whole = r.Val
					n++
				} else {
					return "?" + a.Name()
				}
			case *ssa.FieldAddr:
				for _, q := range *r.Referrers() {
					if st, isSt := q.(*ssa.Store); isSt {
						// attr.Value = attr.Value.Resolve()
						c, isC := st.Val.(*ssa.Call)
						if !isC || c.Call.StaticCallee() == nil || fnKey(c.Call.StaticCallee()) != "(log/slog.Value).Resolve" {
							return "?" + a.Name()
						}
						ld, isLd := c.Call.Args[0].(*ssa.UnOp)
						if !isLd {
							return "?" + a.Name()
						}
						fa, isFa := ld.X.(*ssa.FieldAddr)
						if !isFa || fa.X != ssa.Value(x) || fa.Field != r.Field {
							return "?" + a.Name()
						}
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return "?" + a.Name()
			}
		}
		if n == 1 {
			return s.path(whole, env)
		}
	}
	return "?" + a.Name()
}

// zeroAttr recognises the empty attribute (or value).
func (s *scanProver) zeroAttr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || len(f.Blocks) != 1 || len(x.Call.Args) != 0 {
			return false
		}
		r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
		return ok && len(r.Results) == 1 && s.zeroAttr(r.Results[0])
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.Alloc:
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if !s.zeroAttr(r.Val) {
						return false
					}
				default:
					return false
				}
			}
			return true
		case *ssa.Global:
			return s.zeroGlobal(a)
		}
	}
	return false
}

func (s *scanProver) zeroGlobal(g *ssa.Global) bool {
	for _, f := range s.p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && st.Addr == ssa.Value(g) && !s.zeroAttr(st.Val) {
					return false
				}
			}
		}
	}
	return true
}

func callOf(v ssa.Value) (*ssa.Call, string) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, ""
	}
	if f := c.Call.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			f = o
		}
		return c, fnKey(f)
	}
	return c, ""
}

// claimed: the condition c == v says that what is called p is empty.
func (s *scanProver) claimed(c ssa.Value, v bool, p string, env map[*ssa.Phi]ssa.Value) bool {
	call, _ := callOf(c)
	if call == nil {
		return false
	}
	f := call.Call.StaticCallee()
	if f == nil {
		if mc, ok := call.Call.Value.(*ssa.MakeClosure); ok {
			f = mc.Fn.(*ssa.Function)
		}
	}
	if f == nil {
		return false
	}
	q, _ := scanParam(f)
	if q == nil || s.claims[scanKey{f, v}] != 'y' {
		return false
	}
	for i, prm := range f.Params {
		if prm == q && i < len(call.Call.Args) {
			return s.path(call.Call.Args[i], env) == p
		}
	}
	return false
}

// empty: the conditions on the path show that the attribute called p is empty or an empty group.
func (s *scanProver) empty(g *scanSeg, p string) bool {
	noKey, noValue := false, false
	for c, v := range g.conds {
		call, name := callOf(c)
		if call != nil {
			a := call.Call.Args
			switch name {
			case "(log/slog.Attr).Equal":
				if v && (s.path(a[0], g.env) == p && s.zeroAttr(a[1]) || s.path(a[1], g.env) == p && s.zeroAttr(a[0])) {
					return true
				}
			case "(log/slog.Value).Equal":
				if v && (s.path(a[0], g.env) == p+".Value" && s.zeroAttr(a[1]) || s.path(a[1], g.env) == p+".Value" && s.zeroAttr(a[0])) {
					noValue = true
				}
			}
			if s.claimed(c, v, p, g.env) || s.claimed(c, v, p+".Value.Group()", g.env) {
				return true
			}
		}
		b, ok := c.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			continue
		}
		x, y := b.X, b.Y
		if _, isC := x.(*ssa.Const); isC {
			x, y = y, x
		}
		k, isC := y.(*ssa.Const)
		if !isC || v != (b.Op == token.EQL) {
			continue
		}
		if s.path(x, g.env) == p+".Key" && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "" {
			noKey = true
		}
		if cl, n := callOf(x); n == "(log/slog.Value).Any" && k.Value == nil && s.path(cl.Call.Args[0], g.env) == p+".Value" {
			noValue = true
		}
	}
	if noKey && noValue {
		return true
	}
	return s.allEmpty(g, p+".Value.Group()")
}

// allEmpty: the conditions on the path show that every member of the list called p is empty.
func (s *scanProver) allEmpty(g *scanSeg, p string) bool {
	for c, v := range g.conds {
		if s.claimed(c, v, p, g.env) {
			return true
		}
		if s.claimed(c, v, p+"[1:]", g.env) {
			n := *g
			n.conds = map[ssa.Value]bool{}
			for q, w := range g.conds {
				if q != c {
					n.conds[q] = w
				}
			}
			if s.empty(&n, p+"[0]") {
				return true
			}
		}
		if call, name := callOf(c); call != nil && name == "slices.ContainsFunc" && !v && s.path(call.Call.Args[0], g.env) == p {
			if s.visitor(call.Call.Args[1], false) {
				return true
			}
		}
		b, ok := c.(*ssa.BinOp)
		if !ok {
			continue
		}
		k, isC := b.Y.(*ssa.Const)
		call, name := callOf(b.X)
		if !isC || call == nil || k.Value == nil || k.Value.Kind() != constant.Int {
			continue
		}
		n := k.Int64()
		if bi, isB := call.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" && s.path(call.Call.Args[0], g.env) == p {
			switch {
			case n == 0 && (b.Op == token.EQL && v || b.Op == token.NEQ && !v || b.Op == token.GTR && !v || b.Op == token.LEQ && v),
				n == 1 && (b.Op == token.LSS && v || b.Op == token.GEQ && !v):
				return true
			}
		}
		if name == "slices.IndexFunc" && s.path(call.Call.Args[0], g.env) == p {
			switch {
			case n == 0 && (b.Op == token.LSS && v || b.Op == token.GEQ && !v), n == -1 && (b.Op == token.EQL && v || b.Op == token.NEQ && !v || b.Op == token.GTR && !v):
				if s.visitor(call.Call.Args[1], false) {
					return true
				}
			}
		}
	}
	return false
}

// visitor: a function value that returns b only for empty attributes.
func (s *scanProver) visitor(v ssa.Value, b bool) bool {
	var f *ssa.Function
	switch x := v.(type) {
	case *ssa.MakeClosure:
		f = x.Fn.(*ssa.Function)
	case *ssa.Function:
		f = x
	case *ssa.ChangeType:
		return s.visitor(x.X, b)
	}
	return f != nil && s.claims[scanKey{f, b}] == 'y'
}
