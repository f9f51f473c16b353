package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Escapers: functions that walk the bytes of a text and append it, escaped, to an output.
//
// The loop over the text is analysed once per value of the current byte (a finite domain of 256) and per
// relation between the start of the pending run and the current index (equal, or smaller). The obligation is
// the loop invariant "what was appended so far, followed by text[run:cur], decodes to text[:cur], and
// text[run:cur] needs no escaping": every way through the loop body must either keep the byte in the run
// (and the byte must not need escaping) or flush the run, append exactly one JSON encoding of the byte and
// start a new run after it; and the code after the loop must flush the last run.

type escaper struct {
	fn     *ssa.Function
	ok     bool
	why    string
	at     token.Pos
	slices map[ssa.Instruction]bool
	fns    map[*ssa.Function]bool
	paths  int
}

type rv interface{}

type (
	rConst struct{ c constant.Value }
	rLin   struct {
		v string
		k int64
	}
	rBytes struct{ b []byte }  // known bytes (slice, array slice or string)
	rSub   struct{ lo, hi rv } // a part of the text
	rPtr   struct {
		obj  string
		path string
	}
	rFunc struct {
		fn   *ssa.Function
		bind []rv
	}
	rTuple struct{ e []rv }
	rIface struct{ v rv }
	rTop   struct{}
	rText  struct{} // the text itself
	rHigh  struct{} // a rune of at least 128
	rArr   struct{ obj string }
)

type rTok struct {
	b      byte
	flush  bool
	lo, hi rv
}

type rState struct {
	mem  map[string]map[string]rv // alloc -> path -> value
	toks []rTok
}

func (s *rState) clone() *rState {
	n := &rState{mem: map[string]map[string]rv{}, toks: append([]rTok(nil), s.toks...)}
	for k, m := range s.mem {
		c := make(map[string]rv, len(m))
		for p, v := range m {
			c[p] = v
		}
		n.mem[k] = c
	}
	return n
}

type rFrame struct {
	fn   *ssa.Function
	regs map[ssa.Value]rv
	id   string
}

func (f *rFrame) clone() *rFrame {
	n := &rFrame{fn: f.fn, id: f.id, regs: make(map[ssa.Value]rv, len(f.regs))}
	for k, v := range f.regs {
		n.regs[k] = v
	}
	return n
}

type rFail struct {
	why string
	at  token.Pos
}

// rInterp analyses an escaper.
type rInterp struct {
	p      *Program
	top    *ssa.Function
	text   ssa.Value
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool

	// the case under analysis
	cur     rv     // value of the current element
	phase   string // pre, body, exit
	strict  int    // 1: run start < current index, 0: equal
	empty   bool
	begin   string
	slices  map[ssa.Instruction]bool
	fns     map[*ssa.Function]bool
	steps   int
	paths   int
	globals map[string]rv
}

// stop points reached by an analysis of a piece of code
type rStop struct {
	kind string // header, return, left
	fr   *rFrame
	st   *rState
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	rets []rv
}

func (r *rInterp) fail(at token.Pos, f string, args ...any) {
	panic(rFail{fmt.Sprintf(f, args...), at})
}

// diff bounds x-y for linear values: lo, hi, with flags for infinity.
func (r *rInterp) diff(x, y rv) (lo, hi int64, loInf, hiInf, ok bool) {
	a, ok1 := r.lin(x)
	b, ok2 := r.lin(y)
	if !ok1 || !ok2 {
		return 0, 0, true, true, false
	}
	k := a.k - b.k
	if a.v == b.v {
		return k, k, false, false, true
	}
	l1, h1, hi1 := r.order(a.v, b.v)
	if l1 != nil {
		lo = *l1 + k
	} else {
		loInf = true
	}
	if !hi1 {
		hi = *h1 + k
	} else {
		hiInf = true
	}
	return lo, hi, loInf, hiInf, true
}

func i64(n int64) *int64 { return &n }

// order bounds a-b for the symbols "", cur, len and the run start.
func (r *rInterp) order(a, b string) (lo, hi *int64, hiInf bool) {
	rank := map[string]int{"": 0, r.begin: 1, "cur": 2, "len": 3}
	ra, oka := rank[a]
	rb, okb := rank[b]
	if !oka || !okb || (a == r.begin && a == "") {
		return nil, nil, true
	}
	if ra < rb {
		l, h, inf := r.order(b, a)
		// negate
		if inf {
			if l == nil {
				return nil, nil, true
			}
			return nil, i64(-*l), false
		}
		return i64(-*h), i64(-*l), false
	}
	atLeast := func(n int64) (*int64, *int64, bool) { return i64(n), nil, true }
	exact := func(n int64) (*int64, *int64, bool) { return i64(n), i64(n), false }
	if r.empty {
		return exact(0)
	}
	end := r.phase == "exit"
	switch {
	case b == r.begin && a == "cur", b == r.begin && a == "len" && end:
		if r.strict == 0 {
			return exact(0)
		}
		return atLeast(1)
	case b == r.begin && a == "len":
		return atLeast(1 + int64(r.strict))
	case a == "len" && b == "cur":
		if end {
			return exact(0)
		}
		return atLeast(1)
	case b == "":
		n := int64(0)
		if a == "len" || a == "cur" && r.strict == 1 || end && (a == "cur") {
			n = 1
		}
		return atLeast(n)
	}
	return nil, nil, true
}

func (r *rInterp) lin(v rv) (rLin, bool) {
	switch x := v.(type) {
	case rLin:
		return x, true
	case rConst:
		if x.c.Kind() == constant.Int {
			n, ok := constant.Int64Val(x.c)
			return rLin{"", n}, ok
		}
	}
	return rLin{}, false
}

// cmp decides a comparison: 1 true, 0 false, -1 unknown.
func (r *rInterp) cmp(op token.Token, x, y rv) int {
	cx, ok1 := x.(rConst)
	cy, ok2 := y.(rConst)
	if ok1 && ok2 {
		if cx.c.Kind() == cy.c.Kind() || cx.c.Kind() == constant.Int && cy.c.Kind() == constant.Int {
			if constant.Compare(cx.c, op, cy.c) {
				return 1
			}
			return 0
		}
		return -1
	}
	if _, ok := x.(rHigh); ok && ok2 {
		n, _ := constant.Int64Val(cy.c)
		if n >= 128 {
			return -1
		}
		switch op {
		case token.EQL, token.LSS, token.LEQ:
			return 0
		default:
			return 1
		}
	}
	if _, ok := y.(rHigh); ok && ok1 {
		n, _ := constant.Int64Val(cx.c)
		if n >= 128 {
			return -1
		}
		switch op {
		case token.EQL, token.GTR, token.GEQ:
			return 0
		default:
			return 1
		}
	}
	lo, hi, loInf, hiInf, ok := r.diff(x, y)
	if !ok {
		return -1
	}
	switch op {
	case token.EQL, token.NEQ:
		res := -1
		if !loInf && !hiInf && lo == 0 && hi == 0 {
			res = 1
		} else if !loInf && lo > 0 || !hiInf && hi < 0 {
			res = 0
		}
		if op == token.NEQ && res >= 0 {
			res = 1 - res
		}
		return res
	case token.LSS: // x-y < 0
		if !hiInf && hi < 0 {
			return 1
		}
		if !loInf && lo >= 0 {
			return 0
		}
	case token.LEQ:
		if !hiInf && hi <= 0 {
			return 1
		}
		if !loInf && lo > 0 {
			return 0
		}
	case token.GTR:
		if !loInf && lo > 0 {
			return 1
		}
		if !hiInf && hi <= 0 {
			return 0
		}
	case token.GEQ:
		if !loInf && lo >= 0 {
			return 1
		}
		if !hiInf && hi < 0 {
			return 0
		}
	}
	return -1
}

func rBool(b bool) rv { return rConst{constant.MakeBool(b)} }

func (r *rInterp) val(fr *rFrame, v ssa.Value) rv {
	if x, ok := fr.regs[v]; ok {
		return x
	}
	if fr.fn == r.top && v == r.text {
		return rText{}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return rTop{}
		}
		if x.Value.Kind() == constant.String {
			return rBytes{[]byte(constant.StringVal(x.Value))}
		}
		return rConst{x.Value}
	case *ssa.Function:
		return rFunc{fn: x}
	case *ssa.Global:
		return rPtr{obj: "global:" + x.RelString(nil)}
	}
	return rTop{}
}

func normInt(c constant.Value, t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || c.Kind() != constant.Int {
		return c
	}
	n, exact := constant.Int64Val(c)
	if !exact {
		return c
	}
	switch b.Kind() {
	case types.Uint8:
		n = int64(uint8(n))
	case types.Int8:
		n = int64(int8(n))
	case types.Uint16:
		n = int64(uint16(n))
	case types.Int16:
		n = int64(int16(n))
	case types.Uint32:
		n = int64(uint32(n))
	case types.Int32:
		n = int64(int32(n))
	}
	return constant.MakeInt64(n)
}

func (r *rInterp) binop(op token.Token, x, y rv, t types.Type) rv {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		switch r.cmp(op, x, y) {
		case 1:
			return rBool(true)
		case 0:
			return rBool(false)
		}
		bx, ok1 := x.(rBytes)
		by, ok2 := y.(rBytes)
		if ok1 && ok2 && (op == token.EQL || op == token.NEQ) {
			return rBool((string(bx.b) == string(by.b)) == (op == token.EQL))
		}
		return rTop{}
	}
	cx, ok1 := x.(rConst)
	cy, ok2 := y.(rConst)
	if ok1 && ok2 && cx.c.Kind() == constant.Int && cy.c.Kind() == constant.Int {
		switch op {
		case token.SHL, token.SHR:
			n, _ := constant.Uint64Val(cy.c)
			return rConst{normInt(constant.Shift(cx.c, op, uint(n)), t)}
		case token.QUO:
			if constant.Sign(cy.c) == 0 {
				return rTop{}
			}
			return rConst{normInt(constant.BinaryOp(cx.c, token.QUO_ASSIGN, cy.c), t)}
		case token.REM:
			if constant.Sign(cy.c) == 0 {
				return rTop{}
			}
			return rConst{normInt(constant.BinaryOp(cx.c, op, cy.c), t)}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			return rConst{normInt(constant.BinaryOp(cx.c, op, cy.c), t)}
		}
	}
	if bx, ok := x.(rBytes); ok && op == token.ADD {
		if by, ok := y.(rBytes); ok {
			return rBytes{append(append([]byte(nil), bx.b...), by.b...)}
		}
	}
	lx, ok1 := r.lin(x)
	ly, ok2 := r.lin(y)
	if ok1 && ok2 {
		switch {
		case op == token.ADD && ly.v == "":
			return rLin{lx.v, lx.k + ly.k}
		case op == token.ADD && lx.v == "":
			return rLin{ly.v, lx.k + ly.k}
		case op == token.SUB && ly.v == "":
			return rLin{lx.v, lx.k - ly.k}
		case op == token.SUB && lx.v == ly.v:
			return rConst{constant.MakeInt64(lx.k - ly.k)}
		}
		if op == token.SUB {
			lo, hi, li, hi2, ok := r.diff(x, y)
			if ok && !li && !hi2 && lo == hi {
				return rConst{constant.MakeInt64(lo)}
			}
		}
	}
	return rTop{}
}

func (r *rInterp) emit(st *rState, v rv, at token.Pos) {
	switch x := v.(type) {
	case rBytes:
		for _, b := range x.b {
			st.toks = append(st.toks, rTok{b: b})
		}
	case rSub:
		st.toks = append(st.toks, rTok{flush: true, lo: x.lo, hi: x.hi})
	case rText:
		st.toks = append(st.toks, rTok{flush: true, lo: rConst{constant.MakeInt64(0)}, hi: rLin{"len", 0}})
	case rArr:
		b, ok := r.arrBytes(st, x.obj)
		if !ok {
			r.fail(at, "bytes that are not known are appended")
		}
		for _, c := range b {
			st.toks = append(st.toks, rTok{b: c})
		}
	default:
		r.fail(at, "bytes that are not known are appended")
	}
}

func (r *rInterp) arrBytes(st *rState, obj string) ([]byte, bool) {
	m := st.mem[obj]
	if m == nil {
		return nil, false
	}
	nv, ok := m["#len"].(rConst)
	if !ok {
		return nil, false
	}
	n, _ := constant.Int64Val(nv.c)
	out := make([]byte, n)
	for i := range out {
		switch x := m[fmt.Sprintf("[%d]", i)].(type) {
		case nil:
		case rConst:
			v, ok := constant.Int64Val(x.c)
			if !ok {
				return nil, false
			}
			out[i] = byte(v)
		default:
			return nil, false
		}
	}
	return out, true
}

func (r *rInterp) bytesOf(st *rState, v rv) ([]byte, bool) {
	switch x := v.(type) {
	case rBytes:
		return x.b, true
	case rArr:
		return r.arrBytes(st, x.obj)
	}
	return nil, false
}

// run analyses code from block b (entered from pred) until the loop header, a return, or code outside the region.
func (r *rInterp) run(fr *rFrame, st *rState, pred, b *ssa.BasicBlock, depth int) []rStop {
	var out []rStop
	type item struct {
		fr      *rFrame
		st      *rState
		pred, b *ssa.BasicBlock
		idx     int
	}
	work := []item{{fr, st, pred, b, 0}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.idx == 0 && depth == 0 && it.b == r.header && it.pred != nil && !(r.phase == "exit" && it.pred == r.header) {
			out = append(out, rStop{kind: "header", fr: it.fr, st: it.st, from: it.pred})
			continue
		}
		r.steps++
		if r.steps > 4_000_000 {
			r.fail(it.b.Parent().Pos(), "too many steps")
		}
		if it.idx == 0 && it.pred != nil {
			pi := -1
			for i, p := range it.b.Preds {
				if p == it.pred {
					pi = i
				}
			}
			vals := map[*ssa.Phi]rv{}
			for _, ins := range it.b.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				vals[phi] = r.val(it.fr, phi.Edges[pi])
			}
			for p, v := range vals {
				it.fr.regs[p] = v
			}
		}
		done := false
		for i := it.idx; i < len(it.b.Instrs) && !done; i++ {
			ins := it.b.Instrs[i]
			switch x := ins.(type) {
			case *ssa.Phi:
			case *ssa.If:
				c := r.val(it.fr, x.Cond)
				t, f := true, true
				if k, ok := c.(rConst); ok && k.c.Kind() == constant.Bool {
					t = constant.BoolVal(k.c)
					f = !t
				}
				if t && f {
					work = append(work, item{it.fr.clone(), it.st.clone(), it.b, it.b.Succs[1], 0})
					work = append(work, item{it.fr, it.st, it.b, it.b.Succs[0], 0})
				} else if t {
					work = append(work, item{it.fr, it.st, it.b, it.b.Succs[0], 0})
				} else {
					work = append(work, item{it.fr, it.st, it.b, it.b.Succs[1], 0})
				}
				done = true
			case *ssa.Jump:
				work = append(work, item{it.fr, it.st, it.b, it.b.Succs[0], 0})
				done = true
			case *ssa.Return:
				var rets []rv
				for _, v := range x.Results {
					rets = append(rets, r.val(it.fr, v))
				}
				out = append(out, rStop{kind: "return", fr: it.fr, st: it.st, rets: rets, from: it.b})
				done = true
			case *ssa.Panic:
				r.fail(x.Pos(), "a panic is reachable while text is escaped")
			case *ssa.RunDefers, *ssa.Defer, *ssa.DebugRef:
				if _, ok := x.(*ssa.Defer); ok {
					r.fail(ins.Pos(), "a deferred call")
				}
			case *ssa.Call:
				stops := r.call(it.fr, it.st, x, depth)
				if len(stops) == 1 {
					it.st = stops[0].st
					it.fr.regs[x] = stops[0].rets[0]
					continue
				}
				for _, s := range stops {
					nf := it.fr.clone()
					nf.regs[x] = s.rets[0]
					work = append(work, item{nf, s.st, nil, it.b, i + 1})
				}
				done = true
			default:
				r.instr(it.fr, it.st, ins)
			}
		}
	}
	return out
}

func (r *rInterp) instr(fr *rFrame, st *rState, ins ssa.Instruction) {
	set := func(v rv) { fr.regs[ins.(ssa.Value)] = v }
	switch x := ins.(type) {
	case *ssa.BinOp:
		set(r.binop(x.Op, r.val(fr, x.X), r.val(fr, x.Y), x.Type()))
	case *ssa.UnOp:
		v := r.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			set(r.load(st, v, x))
		case token.NOT:
			if c, ok := v.(rConst); ok && c.c.Kind() == constant.Bool {
				set(rBool(!constant.BoolVal(c.c)))
				return
			}
			set(rTop{})
		default:
			set(rTop{})
		}
	case *ssa.Alloc:
		id := fmt.Sprintf("%s/%s", fr.id, x.Name())
		m := map[string]rv{}
		et := derefType(x.Type())
		if a, ok := et.Underlying().(*types.Array); ok {
			m["#len"] = rConst{constant.MakeInt64(a.Len())}
		} else if isInt(et) {
			m[""] = rConst{constant.MakeInt64(0)}
		} else if isBool(et) {
			m[""] = rBool(false)
		}
		st.mem[id] = m
		set(rPtr{obj: id})
	case *ssa.FieldAddr:
		p, ok := r.val(fr, x.X).(rPtr)
		if !ok {
			set(rTop{})
			return
		}
		set(rPtr{p.obj, fmt.Sprintf("%s.%d", p.path, x.Field)})
	case *ssa.IndexAddr:
		b := r.val(fr, x.X)
		i := r.val(fr, x.Index)
		if _, ok := b.(rText); ok {
			set(rPtr{"text", fmt.Sprint(r.elem(i))})
			return
		}
		ci, isC := i.(rConst)
		var n int64
		if isC {
			n, _ = constant.Int64Val(ci.c)
		}
		switch p := b.(type) {
		case rPtr:
			if isC {
				set(rPtr{p.obj, fmt.Sprintf("%s[%d]", p.path, n)})
				return
			}
		case rArr:
			if isC {
				set(rPtr{p.obj, fmt.Sprintf("[%d]", n)})
				return
			}
		case rBytes:
			if isC && n >= 0 && int(n) < len(p.b) {
				id := fmt.Sprintf("const:%d", p.b[n])
				set(rPtr{id, ""})
				return
			}
		}
		set(rTop{})
	case *ssa.Index:
		set(r.index(st, r.val(fr, x.X), r.val(fr, x.Index)))
	case *ssa.Lookup:
		set(r.index(st, r.val(fr, x.X), r.val(fr, x.Index)))
	case *ssa.Store:
		v := r.val(fr, x.Val)
		if p, ok := r.val(fr, x.Addr).(rPtr); ok {
			if p.obj == "text" {
				r.fail(x.Pos(), "the text is modified")
			}
			if m := st.mem[p.obj]; m != nil {
				m[p.path] = v
			}
		}
	case *ssa.Slice:
		b := r.val(fr, x.X)
		switch b.(type) {
		case rText, rSub:
			var lo, hi rv = rConst{constant.MakeInt64(0)}, rLin{"len", 0}
			if x.Low != nil {
				lo = r.val(fr, x.Low)
			}
			if x.High != nil {
				hi = r.val(fr, x.High)
			}
			if s, ok := b.(rSub); ok {
				// a part of a part
				if x.Low != nil {
					lo = r.binop(token.ADD, s.lo, lo, types.Typ[types.Int])
				} else {
					lo = s.lo
				}
				if x.High != nil {
					hi = r.binop(token.ADD, s.lo, hi, types.Typ[types.Int])
				} else {
					hi = s.hi
				}
			}
			r.slices[ins] = true
			set(rSub{lo, hi})
		case rPtr:
			p := b.(rPtr)
			if x.Low == nil && x.High == nil && p.path == "" && st.mem[p.obj] != nil && st.mem[p.obj]["#len"] != nil {
				set(rArr{p.obj})
				return
			}
			set(rTop{})
		case rBytes:
			lo, hi := int64(0), int64(len(b.(rBytes).b))
			okk := true
			if x.Low != nil {
				c, ok := r.val(fr, x.Low).(rConst)
				okk = okk && ok
				if ok {
					lo, _ = constant.Int64Val(c.c)
				}
			}
			if x.High != nil {
				c, ok := r.val(fr, x.High).(rConst)
				okk = okk && ok
				if ok {
					hi, _ = constant.Int64Val(c.c)
				}
			}
			if okk && lo >= 0 && lo <= hi && int(hi) <= len(b.(rBytes).b) {
				set(rBytes{b.(rBytes).b[lo:hi]})
				return
			}
			set(rTop{})
		default:
			set(rTop{})
		}
	case *ssa.Convert, *ssa.ChangeType:
		var v rv
		var ft, tt types.Type
		if c, ok := ins.(*ssa.Convert); ok {
			v, ft, tt = r.val(fr, c.X), c.X.Type(), c.Type()
		} else {
			c := ins.(*ssa.ChangeType)
			v, ft, tt = r.val(fr, c.X), c.X.Type(), c.Type()
		}
		switch y := v.(type) {
		case rConst:
			if isStringType(tt) && y.c.Kind() == constant.Int {
				n, _ := constant.Int64Val(y.c)
				set(rBytes{[]byte(string(rune(n)))})
				return
			}
			set(rConst{normInt(y.c, tt)})
		case rArr:
			if b, ok := r.arrBytes(st, y.obj); ok {
				set(rBytes{b})
				return
			}
			set(rTop{})
		case rText, rSub, rBytes:
			set(v)
		case rLin:
			if isInt(ft) && isInt(tt) {
				set(v)
				return
			}
			set(rTop{})
		case rHigh:
			if isInt(tt) && !isByteSlice(tt) {
				if bt, ok := tt.Underlying().(*types.Basic); ok && (bt.Kind() == types.Uint8 || bt.Kind() == types.Int8) {
					set(rTop{})
					return
				}
			}
			set(v)
		default:
			set(rTop{})
		}
	case *ssa.MakeInterface:
		set(rIface{r.val(fr, x.X)})
	case *ssa.MakeClosure:
		var bind []rv
		for _, b := range x.Bindings {
			bind = append(bind, r.val(fr, b))
		}
		set(rFunc{x.Fn.(*ssa.Function), bind})
	case *ssa.Extract:
		if t, ok := r.val(fr, x.Tuple).(rTuple); ok && x.Index < len(t.e) {
			set(t.e[x.Index])
			return
		}
		set(rTop{})
	case *ssa.Range:
		if _, ok := r.val(fr, x.X).(rText); ok {
			set(rText{})
			return
		}
		set(rTop{})
	case *ssa.Next:
		if _, ok := r.val(fr, x.Iter).(rText); ok && x.IsString {
			if r.phase == "exit" || r.phase == "pre" {
				set(rTuple{[]rv{rBool(false), rTop{}, rTop{}}})
				return
			}
			set(rTuple{[]rv{rBool(true), rLin{"cur", 0}, r.cur}})
			return
		}
		set(rTop{})
	default:
		if v, ok := ins.(ssa.Value); ok {
			fr.regs[v] = rTop{}
		}
	}
}

func (r *rInterp) elem(i rv) rv {
	if l, ok := r.lin(i); ok && l.v == "cur" && l.k == 0 && r.phase == "body" {
		return "cur"
	}
	return "other"
}

func (r *rInterp) index(st *rState, b, i rv) rv {
	if _, ok := b.(rText); ok {
		if r.elem(i) == "cur" {
			return r.cur
		}
		return rTop{}
	}
	if y, ok := b.(rBytes); ok {
		if c, ok := i.(rConst); ok {
			n, _ := constant.Int64Val(c.c)
			if n >= 0 && int(n) < len(y.b) {
				return rConst{constant.MakeInt64(int64(y.b[n]))}
			}
		}
	}
	if a, ok := b.(rArr); ok {
		if c, ok := i.(rConst); ok {
			n, _ := constant.Int64Val(c.c)
			if v, ok := st.mem[a.obj][fmt.Sprintf("[%d]", n)]; ok {
				return v
			}
		}
	}
	return rTop{}
}

func (r *rInterp) load(st *rState, v rv, at *ssa.UnOp) rv {
	p, ok := v.(rPtr)
	if !ok {
		return rTop{}
	}
	if p.obj == "text" {
		if p.path == "cur" {
			return r.cur
		}
		return rTop{}
	}
	if strings.HasPrefix(p.obj, "const:") {
		n, _ := strconv.Atoi(p.obj[6:])
		return rConst{constant.MakeInt64(int64(n))}
	}
	if strings.HasPrefix(p.obj, "global:") {
		return r.global(p, at.Type())
	}
	if m := st.mem[p.obj]; m != nil {
		if v, ok := m[p.path]; ok {
			return v
		}
		if m["#len"] != nil && strings.HasPrefix(p.path, "[") {
			if isBool(at.Type()) {
				return rBool(false)
			}
			return rConst{constant.MakeInt64(0)}
		}
	}
	return rTop{}
}

// globalTable reads an array variable of a package that is only written by its initialiser, element by element.
func (r *rInterp) globalTable(p rPtr, t types.Type) (rv, bool) {
	if !strings.HasPrefix(p.path, "[") || !strings.HasSuffix(p.path, "]") {
		return nil, false
	}
	n, err := strconv.Atoi(p.path[1 : len(p.path)-1])
	if err != nil {
		return nil, false
	}
	var g *ssa.Global
	for _, pkg := range r.p.SSA.AllPackages() {
		if !isRepoPath(pkg.Pkg.Path()) {
			continue
		}
		for _, m := range pkg.Members {
			if x, ok := m.(*ssa.Global); ok && x.RelString(nil) == p.obj[7:] {
				g = x
			}
		}
	}
	if g == nil {
		return nil, false
	}
	at, ok := derefType(g.Type()).Underlying().(*types.Array)
	if !ok || n < 0 || int64(n) >= at.Len() || !(isInt(t) || isBool(t)) {
		return nil, false
	}
	var val rv = rConst{constant.MakeInt64(0)}
	if isBool(t) {
		val = rBool(false)
	}
	var fns []*ssa.Function
	fns = append(fns, r.p.Funcs...)
	if init := g.Pkg.Func("init"); init != nil {
		fns = append(fns, init)
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if seen[fn] {
			continue
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				uses := false
				for _, op := range ins.Operands(nil) {
					uses = uses || *op == ssa.Value(g)
				}
				if !uses {
					continue
				}
				switch x := ins.(type) {
				case *ssa.DebugRef:
				case *ssa.UnOp:
				case *ssa.IndexAddr:
					for _, ref := range *x.Referrers() {
						switch y := ref.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							c, isC := x.Index.(*ssa.Const)
							v, isV := y.Val.(*ssa.Const)
							if y.Addr != ssa.Value(x) || !isC || !isV || fn.Name() != "init" || fn.Pkg != g.Pkg {
								return nil, false
							}
							if c.Int64() == int64(n) {
								val = rConst{v.Value}
							}
						default:
							return nil, false
						}
					}
				case *ssa.Store:
					if fn.Name() != "init" || fn.Pkg != g.Pkg || x.Addr != ssa.Value(g) {
						return nil, false
					}
					if v, isV := x.Val.(*ssa.Const); isV && v.Value == nil {
						continue
					}
					ld, isL := x.Val.(*ssa.UnOp)
					if !isL || ld.Op != token.MUL {
						return nil, false
					}
					al, isA := ld.X.(*ssa.Alloc)
					if !isA {
						return nil, false
					}
					for _, r1 := range *al.Referrers() {
						switch y := r1.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.IndexAddr:
							for _, r2 := range *y.Referrers() {
								z, isS := r2.(*ssa.Store)
								if _, dbg := r2.(*ssa.DebugRef); dbg {
									continue
								}
								if !isS || z.Addr != ssa.Value(y) {
									return nil, false
								}
								c, isC := y.Index.(*ssa.Const)
								v, isV := z.Val.(*ssa.Const)
								if !isC || !isV {
									return nil, false
								}
								if c.Int64() == int64(n) {
									val = rConst{v.Value}
								}
							}
						default:
							return nil, false
						}
					}
				default:
					return nil, false
				}
			}
		}
	}
	return val, true
}

// global reads a package variable that is only ever set by its initialiser.
func (r *rInterp) global(p rPtr, t types.Type) rv {
	key := p.obj + p.path
	if v, ok := r.globals[key]; ok {
		return v
	}
	v := r.globalVal(p, t)
	if r.globals == nil {
		r.globals = map[string]rv{}
	}
	r.globals[key] = v
	return v
}

func (r *rInterp) globalVal(p rPtr, t types.Type) rv {
	if v, ok := r.globalTable(p, t); ok {
		return v
	}
	e := NewEngine(r.p)
	for _, pkg := range r.p.SSA.AllPackages() {
		if !isRepoPath(pkg.Pkg.Path()) || !strings.HasPrefix(p.obj[7:], pkg.Pkg.Path()+".") {
			continue
		}
		e.ensureGlobals(pkg)
	}
	o := e.Base["g:"+p.obj[7:]]
	if o == nil {
		return rTop{}
	}
	v, ok := o.F[p.path]
	if !ok {
		if len(o.F) > 0 && strings.HasPrefix(p.path, "[") { // element of an array initialised with fewer elements
			if isBool(t) {
				return rBool(false)
			}
			if isInt(t) {
				return rConst{constant.MakeInt64(0)}
			}
		}
		return rTop{}
	}
	if s, ok := asStr(v); ok {
		return rBytes{[]byte(s)}
	}
	if c, ok := v.(VConst); ok {
		return rConst{c.C}
	}
	return rTop{}
}

func oneStop(st *rState, v rv) []rStop { return []rStop{{st: st, rets: []rv{v}}} }

func (r *rInterp) call(fr *rFrame, st *rState, c *ssa.Call, depth int) []rStop {
	cc := &c.Call
	var args []rv
	for _, a := range cc.Args {
		args = append(args, r.val(fr, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			switch x := args[0].(type) {
			case rText:
				return oneStop(st, rLin{"len", 0})
			case rBytes:
				return oneStop(st, rConst{constant.MakeInt64(int64(len(x.b)))})
			case rArr:
				if v, ok := st.mem[x.obj]["#len"]; ok {
					return oneStop(st, v)
				}
			case rSub:
				return oneStop(st, r.binop(token.SUB, x.hi, x.lo, types.Typ[types.Int]))
			}
			return oneStop(st, rTop{})
		case "append":
			if !isByteSlice(c.Type()) {
				return oneStop(st, rTop{})
			}
			if base, ok := r.bytesOf(st, args[0]); ok {
				if add, ok := r.bytesOf(st, args[1]); ok {
					return oneStop(st, rBytes{append(append([]byte(nil), base...), add...)})
				}
				r.fail(c.Pos(), "the text is collected in a way that is not understood")
			}
			if len(args) > 1 {
				r.emit(st, args[1], c.Pos())
			}
			return oneStop(st, rTop{})
		}
		return oneStop(st, rTop{})
	}
	callee := cc.StaticCallee()
	var bind []rv
	if callee == nil {
		if f, ok := r.val(fr, cc.Value).(rFunc); ok && !cc.IsInvoke() {
			callee, bind = f.fn, f.bind
		}
	} else if f, ok := r.val(fr, cc.Value).(rFunc); ok {
		bind = f.bind
	}
	name := ""
	if callee != nil {
		name = fnKey(callee)
	} else if cc.IsInvoke() {
		name = "invoke." + cc.Method.Name()
	}
	tuple := func(n int) rv {
		e := make([]rv, n)
		for i := range e {
			e[i] = rTop{}
		}
		return rTuple{e}
	}
	switch name {
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*strings.Builder).Write", "(*strings.Builder).WriteString", "io.WriteString", "(*bufio.Writer).Write", "(*bufio.Writer).WriteString":
		r.emit(st, args[1], c.Pos())
		return oneStop(st, tuple(2))
	case "invoke.Write", "invoke.WriteString":
		r.emit(st, args[0], c.Pos())
		return oneStop(st, tuple(2))
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "invoke.WriteByte", "(*bufio.Writer).WriteByte":
		v := args[len(args)-1]
		k, ok := v.(rConst)
		if !ok {
			r.fail(c.Pos(), "a byte that is not known is appended")
		}
		n, _ := constant.Int64Val(k.c)
		r.emit(st, rBytes{[]byte{byte(n)}}, c.Pos())
		return oneStop(st, rTop{})
	case "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune", "unicode/utf8.AppendRune":
		v := args[len(args)-1]
		switch k := v.(type) {
		case rConst:
			n, _ := constant.Int64Val(k.c)
			r.emit(st, rBytes{[]byte(string(rune(n)))}, c.Pos())
		case rHigh:
			st.toks = append(st.toks, rTok{flush: true, lo: rLin{"cur", 0}, hi: rLin{"rune", 0}})
		default:
			r.fail(c.Pos(), "a character that is not known is appended")
		}
		if name == "unicode/utf8.AppendRune" {
			return oneStop(st, rTop{})
		}
		return oneStop(st, tuple(2))
	case "fmt.Sprintf", "fmt.Appendf", "fmt.Fprintf":
		i := 0
		if name != "fmt.Sprintf" {
			i = 1
		}
		txt, ok := r.sprintf(st, args[i:])
		if !ok {
			r.fail(c.Pos(), "formatted text that is not known")
		}
		if name == "fmt.Sprintf" {
			return oneStop(st, rBytes{txt})
		}
		r.emit(st, rBytes{txt}, c.Pos())
		if name == "fmt.Fprintf" {
			return oneStop(st, tuple(2))
		}
		return oneStop(st, rTop{})
	case "strings.IndexByte", "bytes.IndexByte", "strings.ContainsRune", "strings.IndexRune":
		if b, ok := r.bytesOf(st, args[0]); ok {
			if k, ok := args[1].(rConst); ok {
				n, _ := constant.Int64Val(k.c)
				idx := int64(strings.IndexRune(string(b), rune(n)))
				if strings.HasSuffix(name, "IndexByte") {
					idx = int64(strings.IndexByte(string(b), byte(n)))
				}
				if name == "strings.ContainsRune" {
					return oneStop(st, rBool(idx >= 0))
				}
				return oneStop(st, rConst{constant.MakeInt64(idx)})
			}
		}
		return oneStop(st, rTop{})
	}
	if callee != nil && callee.Blocks != nil && callee.Pkg != nil && isRepoPath(callee.Pkg.Pkg.Path()) {
		if depth > 5 {
			r.fail(c.Pos(), "calls are nested too deeply")
		}
		if callee == r.top {
			r.fail(c.Pos(), "recursion")
		}
		r.fns[callee] = true
		nf := &rFrame{fn: callee, regs: map[ssa.Value]rv{}, id: fr.id + "/" + c.Name()}
		for i, p := range callee.Params {
			if i < len(args) {
				nf.regs[p] = args[i]
			}
		}
		for i, f := range callee.FreeVars {
			if i < len(bind) {
				nf.regs[f] = bind[i]
			}
		}
		stops := r.run(nf, st, nil, callee.Blocks[0], depth+1)
		for i, s := range stops {
			var v rv = rTop{}
			if len(s.rets) == 1 {
				v = s.rets[0]
			} else if len(s.rets) > 1 {
				v = rTuple{s.rets}
			}
			stops[i].rets = []rv{v}
		}
		return stops
	}
	// Nothing else may receive the text or a part of it.
	for _, a := range args {
		switch a.(type) {
		case rText, rSub:
			r.fail(c.Pos(), "the text is passed to %s", name)
		}
	}
	if c.Call.Signature().Results().Len() > 1 {
		return oneStop(st, tuple(c.Call.Signature().Results().Len()))
	}
	return oneStop(st, rTop{})
}

func (r *rInterp) sprintf(st *rState, args []rv) ([]byte, bool) {
	f, ok := r.bytesOf(st, args[0])
	if !ok || len(args) < 2 {
		return nil, false
	}
	a, ok := args[1].(rArr)
	if !ok {
		return nil, false
	}
	nv, _ := st.mem[a.obj]["#len"].(rConst)
	n, _ := constant.Int64Val(nv.c)
	var vals []any
	for i := int64(0); i < n; i++ {
		x, ok := st.mem[a.obj][fmt.Sprintf("[%d]", i)].(rIface)
		if !ok {
			return nil, false
		}
		switch y := x.v.(type) {
		case rConst:
			m, ok := constant.Int64Val(y.c)
			if !ok {
				return nil, false
			}
			vals = append(vals, m)
		case rBytes:
			vals = append(vals, string(y.b))
		default:
			return nil, false
		}
	}
	return []byte(fmt.Sprintf(string(f), vals...)), true
}

// ---------------------------------------------------------------------------

// loopOf returns the blocks of the natural loop with the given header.
func loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	if len(work) == 0 {
		return nil
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if body[b] {
			continue
		}
		body[b] = true
		work = append(work, b.Preds...)
	}
	return body
}

// textOf follows conversions between string and []byte.
func textOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			if (isStringType(x.X.Type()) || isByteSlice(x.X.Type())) && (isStringType(x.Type()) || isByteSlice(x.Type())) {
				v = x.X
				continue
			}
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			// a parameter kept in a variable that a closure shares
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				if w := onlyStore(a); w != nil {
					v = w
					continue
				}
			}
		}
		return v
	}
}

// onlyStore returns the value of a variable that is stored to once (closures that capture it included).
func onlyStore(a *ssa.Alloc) ssa.Value {
	var val ssa.Value
	var look func(v ssa.Value) bool
	look = func(v ssa.Value) bool {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Addr != v || val != nil {
					return false
				}
				val = x.Val
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return false
				}
			case *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && !look(fn.FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !look(a) {
		return nil
	}
	return val
}

// analyseEscaper decides one function; nil if it does not walk a text.
func analyseEscaper(p *Program, fn *ssa.Function) *escaper {
	var header *ssa.BasicBlock
	var body map[*ssa.BasicBlock]bool
	var text ssa.Value
	for _, b := range fn.Blocks {
		l := loopOf(b)
		if l == nil {
			continue
		}
		for lb := range l {
			for _, ins := range lb.Instrs {
				var x ssa.Value
				switch i := ins.(type) {
				case *ssa.IndexAddr:
					if isByteSlice(i.X.Type()) {
						x = i.X
					}
				case *ssa.Lookup:
					if isStringType(i.X.Type()) {
						x = i.X
					}
				case *ssa.Next:
					if rg, ok := i.Iter.(*ssa.Range); ok && i.IsString {
						x = rg.X
					}
				}
				if x == nil {
					continue
				}
				if prm, ok := textOf(x).(*ssa.Parameter); ok && (isStringType(prm.Type()) || isByteSlice(prm.Type())) {
					if header == nil || len(l) > len(body) {
						header, body, text = b, l, prm
					}
				}
			}
		}
	}
	if header == nil {
		return nil
	}
	es := &escaper{fn: fn}
	func() {
		defer func() {
			if e := recover(); e != nil {
				f, ok := e.(rFail)
				if !ok {
					panic(e)
				}
				es.why, es.at = f.why, f.at
			}
		}()
		r := &rInterp{p: p, top: fn, text: text, header: header, body: body, slices: map[ssa.Instruction]bool{}, fns: map[*ssa.Function]bool{fn: true}}
		r.analyse()
		es.ok = true
		es.slices, es.fns, es.paths = r.slices, r.fns, r.paths
	}()
	return es
}

func (r *rInterp) analyse() {
	// 1. up to the loop
	r.phase, r.begin = "pre", "?"
	fr := &rFrame{fn: r.top, regs: map[ssa.Value]rv{}, id: "f"}
	pre := r.run(fr, &rState{mem: map[string]map[string]rv{}}, nil, r.top.Blocks[0], 0)
	var entry []rStop
	for _, s := range pre {
		switch s.kind {
		case "header":
			entry = append(entry, s)
		case "return":
			r.preReturn(s)
		}
	}
	if len(entry) != 1 {
		r.fail(r.top.Pos(), "the loop is entered in %d ways", len(entry))
	}
	e := entry[0]
	for _, t := range e.st.toks {
		if t.flush {
			r.fail(r.top.Pos(), "text is appended before it is looked at")
		}
	}
	e.st.toks = nil
	// 2. loop variables
	pi := -1
	for i, p := range r.header.Preds {
		if p == e.from {
			pi = i
		}
	}
	init := map[string]rv{}
	vars := map[string]*ssa.Phi{}
	for _, ins := range r.header.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		init[phi.Name()] = r.val(e.fr, phi.Edges[pi])
		vars[phi.Name()] = phi
	}
	cells := map[string]bool{}
	for obj, m := range e.st.mem {
		for path, v := range m {
			if c, ok := v.(rConst); ok && c.c.Kind() == constant.Int && path != "#len" {
				k := "@" + obj + "\x00" + path
				init[k] = v
				cells[k] = true
			}
		}
	}
	// the index: reaches header with +1 on every way round; tried for each candidate
	var names []string
	for n := range init {
		names = append(names, n)
	}
	sort.Strings(names)
	rangeStr := false
	for _, ins := range r.header.Instrs {
		if nx, ok := ins.(*ssa.Next); ok && nx.IsString {
			rangeStr = true
		}
	}
	var last rFail
	try := func(idx string) (ok bool) {
		defer func() {
			if x := recover(); x != nil {
				f, is := x.(rFail)
				if !is {
					panic(x)
				}
				last = f
				ok = false
			}
		}()
		r.loop(e, init, names, vars, idx)
		return true
	}
	if rangeStr {
		if try("") {
			return
		}
		panic(last)
	}
	var best rFail
	for _, n := range names {
		c, ok := init[n].(rConst)
		if !ok || c.c.Kind() != constant.Int {
			continue
		}
		if v, _ := constant.Int64Val(c.c); v != 0 && v != -1 {
			continue
		}
		if try(n) {
			return
		}
		if best.why == "" || strings.HasPrefix(best.why, "index:") {
			best = last
		}
	}
	if best.why == "" {
		best = rFail{"no index that walks the text was found", r.top.Pos()}
	}
	panic(best)
}

func (r *rInterp) preReturn(s rStop) {
	for _, t := range s.st.toks {
		if t.flush {
			r.fail(r.top.Pos(), "text is appended without being escaped")
		}
	}
	r.fail(r.top.Pos(), "the text can be skipped")
}

// loop checks the invariant with the given index variable.
func (r *rInterp) loop(e rStop, init map[string]rv, names []string, vars map[string]*ssa.Phi, idx string) {
	off := int64(0)
	if idx != "" {
		off, _ = constant.Int64Val(init[idx].(rConst).c)
	}
	begins := []string{""}
	for _, n := range names {
		if n == idx {
			continue
		}
		if c, ok := init[n].(rConst); ok && c.c.Kind() == constant.Int && constant.Sign(c.c) == 0 {
			begins = append(begins, n)
		}
	}
	var last rFail
	// the variable that starts the pending run: the one the flushes use; try each, the plain byte-wise form last
	for i := len(begins) - 1; i >= 0; i-- {
		ok := func() (ok bool) {
			defer func() {
				if x := recover(); x != nil {
					f, is := x.(rFail)
					if !is {
						panic(x)
					}
					if last.why == "" || i != 0 {
						last = f
					}
				}
			}()
			r.begin = begins[i]
			if r.begin == "" {
				r.begin = "?"
			}
			r.check(e, init, names, vars, idx, off)
			return true
		}()
		if ok {
			return
		}
	}
	panic(last)
}

func (r *rInterp) setVar(fr *rFrame, st *rState, vars map[string]*ssa.Phi, n string, v rv) {
	if p, ok := vars[n]; ok {
		fr.regs[p] = v
		return
	}
	obj, path, _ := strings.Cut(n[1:], "\x00")
	st.mem[obj][path] = v
}

func (r *rInterp) getVar(s rStop, vars map[string]*ssa.Phi, n string) rv {
	if p, ok := vars[n]; ok {
		for i, pr := range r.header.Preds {
			if pr == s.from {
				return r.val(s.fr, p.Edges[i])
			}
		}
		return rTop{}
	}
	obj, path, _ := strings.Cut(n[1:], "\x00")
	return s.st.mem[obj][path]
}

func (r *rInterp) check(e rStop, init map[string]rv, names []string, vars map[string]*ssa.Phi, idx string, off int64) {
	same := map[string]bool{} // variables that always follow the index
	for _, n := range names {
		same[n] = true
	}
	prepare := func() (*rFrame, *rState) {
		fr, st := e.fr.clone(), e.st.clone()
		for _, n := range names {
			switch {
			case n == idx:
				r.setVar(fr, st, vars, n, rLin{"cur", off})
			case n == r.begin:
				r.setVar(fr, st, vars, n, rLin{n, 0})
			default:
				r.setVar(fr, st, vars, n, rTop{})
			}
		}
		for n, p := range vars {
			if _, ok := init[n]; ok {
				if _, isInt := init[n].(rConst); !isInt {
					fr.regs[p] = rTop{}
				}
			}
		}
		return fr, st
	}
	start := func(fr *rFrame, st *rState) []rStop {
		// execute the header itself, without its phis
		return r.run(fr, st, nil, r.header, 0)
	}
	paths := 0
	cases := 256
	if idx == "" {
		cases = 129
	}
	for c := 0; c < cases; c++ {
		for strict := 0; strict <= 1; strict++ {
			if r.begin == "?" && strict == 1 {
				continue
			}
			r.phase, r.strict, r.empty = "body", strict, false
			r.cur = rConst{constant.MakeInt64(int64(c))}
			if idx == "" && c == 128 {
				r.cur = rHigh{}
			}
			fr, st := prepare()
			for _, s := range start(fr, st) {
				paths++
				if s.kind != "header" {
					r.fail(r.top.Pos(), "the walk can stop at a character (%s) before the end of the text", byteName(c))
				}
				if idx != "" {
					n, ok := r.lin(r.getVar(s, vars, idx))
					if !ok || n.v != "cur" || n.k != off+1 {
						r.fail(r.top.Pos(), "index: the index does not advance by one character after %s", byteName(c))
					}
				}
				for _, n := range names {
					v, ok := r.lin(r.getVar(s, vars, n))
					if !ok || v.v != "cur" || v.k != 0 {
						same[n] = false
					}
				}
				kept := false
				if r.begin != "?" {
					v, ok := r.lin(r.getVar(s, vars, r.begin))
					switch {
					case ok && v.v == r.begin && v.k == 0:
						kept = true
					case ok && v.v == "cur" && v.k == 1:
					default:
						r.fail(r.top.Pos(), "after %s the pending text does not start where it should", byteName(c))
					}
				}
				r.checkByte(c, idx == "" && c == 128, kept, strict, s)
			}
		}
	}
	// after the loop
	for _, mode := range []string{"equal", "less", "empty"} {
		if r.begin == "?" && mode == "less" {
			continue
		}
		r.phase, r.empty, r.strict = "exit", mode == "empty", 0
		if mode == "less" {
			r.strict = 1
		}
		fr, st := prepare()
		if mode == "empty" {
			for _, n := range names {
				r.setVar(fr, st, vars, n, init[n])
			}
			if r.begin != "?" {
				r.setVar(fr, st, vars, r.begin, rLin{r.begin, 0})
			}
			if idx != "" {
				r.setVar(fr, st, vars, idx, rLin{"cur", off})
			}
		} else {
			for _, n := range names {
				if same[n] && n != idx {
					r.setVar(fr, st, vars, n, rLin{"len", -1})
				}
			}
		}
		for _, s := range start(fr, st) {
			paths++
			if s.kind != "return" {
				r.fail(r.top.Pos(), "the loop does not end with the text")
			}
			flushed := 0
			for _, t := range s.st.toks {
				if !t.flush {
					continue
				}
				lo, hi, li, hi2, ok := r.diff(t.hi, t.lo)
				if ok && !li && !hi2 && lo == 0 && hi == 0 {
					continue
				}
				if l, ok := r.lin(t.lo); !ok || l.v != r.begin || l.k != 0 {
					r.fail(r.top.Pos(), "after the loop something other than the pending text is appended")
				}
				d, d2, i1, i2, ok := r.diff(t.hi, rLin{"len", 0})
				if !ok || i1 || i2 || d != 0 || d2 != 0 {
					r.fail(r.top.Pos(), "after the loop the pending text is not appended up to its end")
				}
				flushed++
			}
			want := 0
			if mode == "less" {
				want = 1
			}
			if flushed != want {
				r.fail(r.top.Pos(), "after the loop the pending text is appended %d times", flushed)
			}
		}
	}
	r.paths += paths
}

func byteName(c int) string {
	if c == 128 {
		return "a character outside ASCII"
	}
	return fmt.Sprintf("byte 0x%02x", c)
}

// checkByte checks what one pass through the loop body appended for byte c.
func (r *rInterp) checkByte(c int, high, kept bool, strict int, s rStop) {
	toks := s.st.toks
	safe := high || c >= 0x20 && c != '"' && c != '\\'
	if kept {
		if len(toks) > 0 {
			r.fail(r.top.Pos(), "something is appended for %s although it stays in the pending text", byteName(c))
		}
		if !safe {
			r.fail(r.top.Pos(), "%s reaches the output without being escaped", byteName(c))
		}
		return
	}
	if high && r.begin != "?" {
		r.fail(r.top.Pos(), "a character of several bytes is not kept with its neighbours")
	}
	if r.begin != "?" {
		// the pending run first
		if len(toks) > 0 && toks[0].flush {
			l, ok1 := r.lin(toks[0].lo)
			h, ok2 := r.lin(toks[0].hi)
			if !ok1 || !ok2 || l.v != r.begin || l.k != 0 {
				r.fail(r.top.Pos(), "at %s something other than the pending text is appended", byteName(c))
			}
			d, d2, i1, i2, ok := r.diff(h, rLin{"cur", 0})
			if !ok || i1 || i2 || d != d2 || d < 0 || d > 1 {
				r.fail(r.top.Pos(), "at %s the pending text is not appended up to where it ends", byteName(c))
			}
			toks = toks[1:]
			if d == 1 {
				if !safe || len(toks) > 0 {
					r.fail(r.top.Pos(), "%s reaches the output without being escaped", byteName(c))
				}
				return
			}
		} else if strict == 1 {
			r.fail(r.top.Pos(), "at %s the pending text is dropped", byteName(c))
		}
	}
	if high {
		if len(toks) == 1 && toks[0].flush {
			if l, ok := toks[0].hi.(rLin); ok && l.v == "rune" {
				return
			}
		}
		r.fail(r.top.Pos(), "a character outside ASCII is not appended as it is")
	}
	var out []byte
	for _, t := range toks {
		if t.flush {
			l, ok1 := r.lin(t.lo)
			h, ok2 := r.lin(t.hi)
			if ok1 && ok2 && l == (rLin{"cur", 0}) && h == (rLin{"cur", 1}) {
				out = append(out, byte(c)) // the character itself
				continue
			}
			r.fail(r.top.Pos(), "at %s text is appended out of order", byteName(c))
		}
		out = append(out, t.b)
	}
	if c >= 128 {
		if len(out) != 1 || out[0] != byte(c) {
			r.fail(r.top.Pos(), "%s is not appended as it is", byteName(c))
		}
		return
	}
	var back string
	if err := json.Unmarshal([]byte("\""+string(out)+"\""), &back); err != nil || back != string(rune(c)) {
		r.fail(r.top.Pos(), "%s is written as %q, which does not stand for it", byteName(c), string(out))
	}
}

// escapers analyses every function below the given ones that walks a text it was passed and appends.
func escapers(p *Program, from map[*ssa.Function]bool) []*escaper {
	var out []*escaper
	fns := make([]*ssa.Function, 0, len(from))
	for fn := range from {
		if fn.Blocks != nil {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return p.FuncName(fns[i]) < p.FuncName(fns[j]) })
	for _, fn := range fns {
		if es := analyseEscaper(p, fn); es != nil {
			out = append(out, es)
		}
	}
	return out
}
