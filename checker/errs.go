package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// E01: failures are not lost. For every call that can fail, every path on which it failed must tell someone: return
// an error, give the error to another call (a log, a wrapper, the page), store it, or stop the program.

func init() {
	register("E01", lostErrors)
}

type errScan struct {
	items map[ssa.Value]bool // what its arguments come from
	p     *Program
	rep   *Report
	fn    *ssa.Function
	call  ssa.CallInstruction
	idx   int // which result is the error, -1 if it is the only one
	seen  map[string]bool
	conv  bool               // lost only if what it gave is used all the same
	vals  map[ssa.Value]bool // what it gave
	scan  map[ssa.Value]bool // the scanner whose end is looked at, and not an error
}

var errorType = types.Universe.Lookup("error").Type()

// calls whose failure nobody has to hear about
func cannotMatter(c *ssa.CallCommon) bool {
	name := ""
	var recv types.Type
	if c.IsInvoke() {
		name, recv = c.Method.Name(), c.Value.Type()
	} else if fn := c.StaticCallee(); fn != nil {
		name = fn.Name()
		if r := fn.Signature.Recv(); r != nil {
			recv = r.Type()
		}
		if o := fn.Object(); o != nil && o.Pkg() != nil && recv == nil {
			switch o.Pkg().Path() {
			case "fmt":
				return strings.HasPrefix(name, "Print") || strings.HasPrefix(name, "Fprint")
			case "io":
				return name == "WriteString"
			case "errors":
				return true
			}
		}
	}
	if recv != nil {
		switch derefType(recv).String() {
		case "strings.Builder", "bytes.Buffer", "bytes.Reader", "strings.Reader", "math/rand.Rand", "hash.Hash":
			return true
		case "bufio.Writer", "text/tabwriter.Writer":
			return name != "Flush" // a failure is found when it is flushed
		}
	}
	return name == "Close"
}

// converts: the call turns a text or a value into another form. Not being of that form is an answer, so looking at
// the error is enough.
func converts(c *ssa.CallCommon) bool {
	fn := c.StaticCallee()
	if fn == nil || fn.Signature.Recv() != nil || fn.Object() == nil || fn.Object().Pkg() == nil {
		return false
	}
	switch p := fn.Object().Pkg().Path(); {
	case p == "strconv", p == "time", p == "net/url", strings.HasPrefix(p, "encoding/"):
		return true
	}
	ps := fn.Signature.Params()
	if ps.Len() != 1 || fn.Signature.Results().Len() != 2 {
		return false
	}
	switch t := ps.At(0).Type().Underlying().(type) {
	case *types.Basic:
		return t.Info()&types.IsString != 0
	}
	return false
}

// onlyEnds: the function fails only when a reader of bytes in memory has come to its end.
func (s *errScan) onlyEnds(c *ssa.CallCommon) bool {
	fn := c.StaticCallee()
	if fn == nil || fn.Blocks == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			r, ok := ins.(*ssa.Return)
			if !ok {
				continue
			}
			if !memErr(r.Results[len(r.Results)-1], map[ssa.Value]bool{}) {
				return false
			}
		}
	}
	return true
}

func memErr(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		return ok && cannotMatter(&c.Call)
	case *ssa.Call:
		return cannotMatter(&x.Call)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !memErr(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// makesErrors: what a call gives is an error to be passed on, not the outcome of something that was tried.
func makesErrors(c *ssa.CallCommon) bool {
	if fn := c.StaticCallee(); fn != nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		switch fn.Object().Pkg().Path() + "." + fn.Name() {
		case "fmt.Errorf", "errors.New", "errors.Join", "errors.Unwrap":
			return true
		}
	}
	return false
}

func lostErrors(p *Program, rep *Report) {
	rep.Rule = "every call in the module's source that gives back an error: on every path from it along which the error is not nil, the error (or what is made of it) is returned, passed to a call, stored or thrown, or another error is returned, something is logged or the program ends"
	for _, fn := range p.Funcs {
		path := p.FuncPkgPath(fn)
		if strings.Contains(path, "/tests") || strings.HasSuffix(path, "_test") {
			continue
		}
		if fn.Synthetic != "" {
			continue
		}
		n := 0
		for _, b := range fn.Blocks {
			for i, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if fn2 := c.Common().StaticCallee(); fn2 != nil && fnKey(fn2) == "(*bufio.Scanner).Scan" {
					if _, ok := c.(*ssa.Call); ok {
						rep.Count("scanners read", 1)
						s := &errScan{p: p, rep: rep, fn: fn, call: c}
						s.scanEnd(b)
					}
				}
				sig := c.Common().Signature()
				k := sig.Results().Len()
				if k == 0 || !types.Identical(sig.Results().At(k-1).Type(), errorType) {
					continue
				}
				if _, isB := c.Common().Value.(*ssa.Builtin); isB || cannotMatter(c.Common()) || makesErrors(c.Common()) {
					continue
				}
				s := &errScan{p: p, rep: rep, fn: fn, call: c, idx: k - 1, seen: map[string]bool{}}
				if k == 1 {
					s.idx = -1
				}
				n++
				if s.onlyEnds(c.Common()) {
					rep.Count("calls that only find the end of a text", 1)
					continue
				}
				rep.Count("calls that can fail", 1)
				s.check(b, i)
			}
		}
		for _, b := range fn.Blocks {
			for i, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok {
					for _, a := range c.Call.Args {
						for _, cell := range errorsLeft(a) {
							rep.Count("errors left in a variable by a callback", 1)
							s := &errScan{p: p, rep: rep, fn: fn, call: c, seen: map[string]bool{}}
							if pos, ok := s.walk(b, i+1, errPath{cells: map[ssa.Value]bool{cell: true}}); !ok {
								s.lost(fmt.Sprintf("what failed in the function it is given is not told on a path that ends at %s", p.Pos(pos)))
							}
							m := closureOf(a)
							for j, f := range m.Fn.(*ssa.Function).FreeVars {
								if m.Bindings[j] == cell && manyTimes(&c.Call, m.Fn.(*ssa.Function)) {
									rep.Count("callbacks called for one item after the other", 1)
									if pos, bad := s.overwritten(m.Fn.(*ssa.Function), f); bad {
										s.lost(fmt.Sprintf("the function it is given goes on after a failure and forgets it at %s", p.Pos(pos)))
									}
								}
							}
						}
					}
				}
			}
		}
		if n > 0 {
			rep.Site("function %s", p.FuncName(fn))
		}
	}
	rep.Floor("calls that can fail", 60)
}

func (s *errScan) what() string {
	c := s.call.Common()
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if fn := c.StaticCallee(); fn != nil {
		return s.p.FuncName(fn)
	}
	return "a function value"
}

func (s *errScan) lost(why string) {
	s.rep.Violate("E01-lost", s.p.FuncName(s.fn)+" :: "+s.what(), s.p.Pos(s.call.Pos()), "%s calls %s, and %s", s.p.FuncName(s.fn), s.what(), why)
}

func (s *errScan) check(b *ssa.BasicBlock, i int) {
	call, ok := s.call.(*ssa.Call)
	if !ok {
		s.lost("nothing can look at its error (defer or go)")
		return
	}
	carriers := map[ssa.Value]bool{}
	if s.idx < 0 {
		carriers[call] = true
	} else {
		for _, ref := range *call.Referrers() {
			if x, ok := ref.(*ssa.Extract); ok && x.Index == s.idx {
				carriers[x] = true
			}
			if _, ok := ref.(*ssa.Return); ok {
				return
			}
		}
	}
	used := false
	for v := range carriers {
		for _, ref := range *v.Referrers() {
			if _, dbg := ref.(*ssa.DebugRef); !dbg {
				used = true
			}
		}
	}
	if !used {
		s.lost("its error is dropped")
		return
	}
	s.vals = map[ssa.Value]bool{}
	if converts(s.call.Common()) {
		s.rep.Count("conversions", 1)
		s.conv = true
		if s.idx >= 0 {
			for _, ref := range *call.Referrers() {
				if x, ok := ref.(*ssa.Extract); ok && x.Index != s.idx {
					s.vals[x] = true
				}
			}
		}
	}
	s.items = s.itemSources()
	if pos, ok := s.walk(b, i+1, errPath{car: carriers, cells: map[ssa.Value]bool{}, vals: s.vals}); !ok {
		if s.conv {
			s.lost(fmt.Sprintf("a path on which it failed goes on to use what it gave, and ends at %s without telling anyone", s.p.Pos(pos)))
			return
		}
		s.lost(fmt.Sprintf("a path on which it failed ends at %s without telling anyone", s.p.Pos(pos)))
	}
}

// errPath is what is known on the way: what holds the error, the variables it is in, what the failed call gave, and
// whether that was used.
type errPath struct {
	car, cells, vals map[ssa.Value]bool
	used             bool
	next             bool // what the call is given has been made anew
}

func (q errPath) key(b *ssa.BasicBlock) string {
	k := fmt.Sprint(b.Index, q.used, q.next)
	for _, m := range []map[ssa.Value]bool{q.car, q.cells, q.vals} {
		var l []string
		for v := range m {
			l = append(l, v.Name())
		}
		sort.Strings(l)
		k += "/" + strings.Join(l, ",")
	}
	return k
}

func with(m map[ssa.Value]bool, v ssa.Value) map[ssa.Value]bool {
	if m[v] {
		return m
	}
	n := copyVals(m)
	n[v] = true
	return n
}

func without(m map[ssa.Value]bool, v ssa.Value) map[ssa.Value]bool {
	if !m[v] {
		return m
	}
	n := copyVals(m)
	delete(n, v)
	return n
}

// told: the instruction passes the error on.
func (s *errScan) told(ins ssa.Instruction, q errPath) bool {
	switch x := ins.(type) {
	case *ssa.TypeAssert:
		return q.car[x.X] // looked into
	case *ssa.Store:
		if q.car[x.Val] {
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok && forAnError(ia.X) {
				return false // what is made of it is followed
			}
			a, ok := x.Addr.(*ssa.Alloc)
			return !ok || a.Heap && escapes(a)
		}
	case *ssa.MapUpdate:
		return q.car[x.Value]
	case *ssa.Send:
		return q.car[x.X]
	case *ssa.MakeClosure:
		for _, b := range x.Bindings {
			if q.car[b] || q.cells[b] {
				return true
			}
		}
	case *ssa.Panic:
		return true
	case *ssa.Return:
		res := x.Parent().Signature.Results()
		for i, r := range x.Results {
			if q.car[r] || types.Identical(res.At(i).Type(), errorType) && isErrorValue(r) {
				return true
			}
			if a, ok := r.(*ssa.UnOp); ok && a.Op == token.MUL && q.cells[a.X] {
				return true
			}
		}
		if k := res.Len(); k > 0 {
			// the caller is told that it did not work
			t, ok := res.At(k - 1).Type().Underlying().(*types.Basic)
			return ok && t.Info()&types.IsBoolean != 0
		}
	case ssa.CallInstruction:
		c := x.Common()
		if isErrorsTest(c) || c.IsInvoke() && q.car[c.Value] {
			return false // judged where it is branched on
		}
		if _, ok := ins.(*ssa.Call); ok && makesErrors(c) {
			return false
		}
		for _, a := range c.Args {
			if q.car[a] || q.cells[a] {
				return true
			}
		}
		return speaks(c) || s.saysSo(c)
	}
	return false
}

// walk follows every path on which the error is not nil; false: one ends without a report.
func (s *errScan) walk(b *ssa.BasicBlock, from int, q errPath) (token.Pos, bool) {
	for i := from; i < len(b.Instrs); i++ {
		ins := b.Instrs[i]
		if ins == s.call.(ssa.Instruction) {
			if s.conv || !q.next {
				return ins.Pos(), !(s.conv && q.used) // tried again
			}
			q.next = false
			// called for the next item: only a variable can still hold the error
			car := map[ssa.Value]bool{}
			for v := range q.car {
				if _, ok := v.(*ssa.Phi); ok {
					car[v] = true
				}
			}
			if q.car = car; len(car)+len(q.cells) == 0 {
				return ins.Pos(), false
			}
		}
		if v, ok := ins.(ssa.Value); ok && s.items[v] {
			q.next = true
		}
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		if s.scan != nil {
			if c, ok := ins.(ssa.CallInstruction); ok && s.asksScanner(c.Common()) {
				return 0, true
			}
		}
		if s.told(ins, q) {
			return 0, true
		}
		switch x := ins.(type) {
		case *ssa.Store:
			if a, ok := x.Addr.(*ssa.Alloc); ok {
				if q.car[x.Val] {
					q.cells = with(q.cells, a)
				} else {
					q.cells = without(q.cells, a)
				}
			}
			if q.vals[x.Val] {
				q.used = true
			}
		case *ssa.Return:
			for _, r := range x.Results {
				q.used = q.used || q.vals[r]
			}
			return retPos(x), s.conv && !q.used
		case *ssa.MapUpdate:
			q.used = q.used || q.vals[x.Value] || q.vals[x.Key]
		case ssa.CallInstruction:
			for _, a := range x.Common().Args {
				q.used = q.used || q.vals[a]
			}
			if v, ok := ins.(*ssa.Call); ok && x.Common().IsInvoke() && q.car[x.Common().Value] {
				q.car = with(q.car, v) // err.Error()
			}
			if v, ok := ins.(*ssa.Call); ok && makesErrors(x.Common()) && x.Common().StaticCallee().Name() != "Unwrap" {
				args, _ := joinArgs(v)
				for _, a := range append(args, v.Call.Args...) {
					if q.car[a] {
						q.car = with(q.car, v)
					}
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && q.cells[x.X] {
				q.car = with(q.car, x)
			}
			q = q.derive(x, x.X)
		case *ssa.BinOp:
			if x.Op == token.ADD {
				q = q.derive(x, x.X, x.Y)
			} else if q.vals[x.X] || q.vals[x.Y] {
				q.vals = with(q.vals, x)
			}
		case *ssa.Extract:
			if s.idx < 0 {
				q = q.derive(x, x.Tuple)
			}
		case *ssa.ChangeInterface:
			q = q.derive(x, x.X)
		case *ssa.MakeInterface:
			q = q.derive(x, x.X)
		case *ssa.Convert:
			q = q.derive(x, x.X)
		case *ssa.ChangeType:
			q = q.derive(x, x.X)
		case *ssa.Slice:
			q = q.derive(x, x.X)
		}
	}
	last := b.Instrs[len(b.Instrs)-1]
	next := b.Succs
	if f, ok := last.(*ssa.If); ok {
		if yes, known := s.branch(f.Cond, q.car, q.cells); known {
			if yes {
				next = next[:1]
			} else {
				next = next[1:]
			}
		} else if c, ok := f.Cond.(*ssa.Call); ok && isErrorsTest(&c.Call) && len(c.Call.Args) > 0 && q.car[c.Call.Args[0]] {
			next = next[1:] // an error of a known kind is dealt with
		} else if bo, ok := f.Cond.(*ssa.BinOp); ok && (q.car[bo.X] || q.car[bo.Y]) {
			if bo.Op == token.EQL {
				next = next[1:]
			} else if bo.Op == token.NEQ {
				next = next[:1]
			}
		}
	}
	for _, n := range next {
		o := q
		if f, ok := last.(*ssa.If); ok && len(next) == 2 {
			// another error that is known not to be nil can be told instead
			if x, nonNil := nilTest(f.Cond); x != nil && types.Identical(x.Type(), errorType) && nonNil == (n == b.Succs[0]) {
				o.car = with(o.car, x)
			}
		}
		pi := -1
		for k, pr := range n.Preds {
			if pr == b {
				pi = k
			}
		}
		in := o
		for _, ins := range n.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if in.car[ph.Edges[pi]] {
				o.car = with(o.car, ph)
			} else {
				o.car = without(o.car, ph)
			}
			if in.vals[ph.Edges[pi]] {
				o.vals = with(o.vals, ph)
			} else {
				o.vals = without(o.vals, ph)
			}
		}
		k := o.key(n)
		if s.seen[k] {
			continue
		}
		s.seen[k] = true
		if pos, ok := s.walk(n, 0, o); !ok {
			return pos, false
		}
	}
	return 0, true
}

// itemSources are what the arguments of a call come from that may be another item each time: when one of them is
// executed between two calls, the second one is not the first tried again.
func (s *errScan) itemSources() map[ssa.Value]bool {
	out, seen := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		ins, ok := v.(ssa.Instruction)
		if !ok || seen[v] {
			return
		}
		seen[v] = true
		switch v.(type) {
		case *ssa.Alloc:
			return
		case *ssa.Phi, *ssa.Next, *ssa.Call:
			out[v] = true
		}
		for _, o := range ins.Operands(nil) {
			if *o != nil {
				follow(*o)
			}
		}
	}
	c := s.call.Common()
	if c.IsInvoke() {
		follow(c.Value)
	}
	for _, a := range c.Args {
		follow(a)
	}
	return out
}

// overwritten looks for a callback that is called for one item after the other, leaves an error in a variable, asks
// for the next item, and then forgets the error when that one works.
func (s *errScan) overwritten(fn *ssa.Function, cell *ssa.FreeVar) (token.Pos, bool) {
	isLoad := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && u.X == cell
	}
	// the paths from the entry on which the variable holds an error
	seen := map[string]bool{}
	var pos token.Pos
	// walk: car are the values known not to be nil, stored is the value the variable has; lost reports what is found
	var walk func(b *ssa.BasicBlock, pi int, car map[ssa.Value]bool, holds bool, from int, visit func(ins ssa.Instruction, car map[ssa.Value]bool, holds bool, pi int) bool) bool
	walk = func(b *ssa.BasicBlock, pi int, car map[ssa.Value]bool, holds bool, from int, visit func(ins ssa.Instruction, car map[ssa.Value]bool, holds bool, pi int) bool) bool {
		for i := from; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			if ph, ok := ins.(*ssa.Phi); ok && pi >= 0 {
				if car[ph.Edges[pi]] {
					car = with(car, ph)
				} else {
					car = without(car, ph)
				}
				continue
			}
			if v, ok := ins.(ssa.Value); ok && isLoad(v) && holds {
				car = with(car, v)
			}
			if c, ok := ins.(*ssa.Call); ok {
				for _, a := range c.Call.Args {
					if car[a] {
						car = with(car, c) // made of it
					}
				}
				if sl, ok := joinArgs(c); ok {
					for _, a := range sl {
						if car[a] {
							car = with(car, c)
						}
					}
				}
			}
			if m, ok := ins.(*ssa.MakeInterface); ok && !types.IsInterface(m.X.Type()) {
				car = with(car, m)
			}
			if st, ok := ins.(*ssa.Store); ok && st.Addr == cell {
				if holds && !car[st.Val] && visit(ins, car, holds, pi) {
					return true
				}
				holds = car[st.Val]
				continue
			}
			if r, ok := ins.(*ssa.Return); ok {
				return visit(r, car, holds, pi)
			}
		}
		last := b.Instrs[len(b.Instrs)-1]
		next := b.Succs
		var cond ssa.Value
		if f, ok := last.(*ssa.If); ok {
			cond = f.Cond
			if bo, ok := cond.(*ssa.BinOp); ok && (car[bo.X] || car[bo.Y]) {
				if bo.Op == token.EQL {
					next = next[1:]
				} else if bo.Op == token.NEQ {
					next = next[:1]
				}
			}
		}
		for _, n := range next {
			nc := car
			if x, nonNil := nilTest(cond); cond != nil && len(next) == 2 && x != nil && nonNil == (n == b.Succs[0]) {
				nc = with(nc, x)
			}
			k := errPath{car: nc, used: holds}.key(n)
			npi := -1
			for j, pr := range n.Preds {
				if pr == b {
					npi = j
				}
			}
			k += fmt.Sprint("<", npi)
			if seen[k] {
				continue
			}
			seen[k] = true
			if walk(n, npi, nc, holds, 0, visit) {
				return true
			}
		}
		return false
	}
	over := walk(fn.Blocks[0], -1, map[ssa.Value]bool{}, true, 0, func(ins ssa.Instruction, car map[ssa.Value]bool, holds bool, pi int) bool {
		st, ok := ins.(*ssa.Store)
		if ok {
			pos = st.Pos()
		}
		return ok
	})
	if !over {
		return 0, false
	}
	// having stored an error, it asks for the next item
	for _, ref := range *cell.Referrers() {
		st, ok := ref.(*ssa.Store)
		if !ok {
			continue
		}
		if c, isC := st.Val.(*ssa.Const); isC && c.IsNil() {
			continue
		}
		b := st.Block()
		at := 0
		for i, ins := range b.Instrs {
			if ins == ref {
				at = i
			}
		}
		seen = map[string]bool{}
		on := walk(b, -1, map[ssa.Value]bool{st.Val: true}, false, at, func(ins ssa.Instruction, car map[ssa.Value]bool, holds bool, pi int) bool {
			r, ok := ins.(*ssa.Return)
			if !ok || !holds || len(r.Results) != 1 {
				return false
			}
			v := r.Results[0]
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == r.Block() && pi >= 0 {
				v = ph.Edges[pi]
			}
			switch x := v.(type) {
			case *ssa.Const:
				return x.Value != nil && x.Value.String() == "true"
			case *ssa.BinOp:
				return x.Op == token.NEQ && (car[x.X] || car[x.Y])
			}
			return false
		})
		if on {
			return pos, true
		}
	}
	return 0, false
}

// forAnError: the array holds the arguments of a call that makes an error of them, and is used for nothing else.
func forAnError(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.IndexAddr, *ssa.DebugRef:
		case *ssa.Slice:
			for _, r2 := range *x.Referrers() {
				if c, ok := r2.(*ssa.Call); !ok || !makesErrors(&c.Call) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// joinArgs are the values in the argument list of a variadic call.
func joinArgs(c *ssa.Call) (out []ssa.Value, ok bool) {
	if len(c.Call.Args) == 0 {
		return nil, false
	}
	sl, ok := c.Call.Args[len(c.Call.Args)-1].(*ssa.Slice)
	if !ok {
		return nil, false
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	for _, ref := range *a.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
					out = append(out, st.Val)
					if m, ok := st.Val.(*ssa.ChangeInterface); ok {
						out = append(out, m.X)
					}
				}
			}
		}
	}
	return out, true
}

// derive: v is made of the values given.
func (q errPath) derive(v ssa.Value, of ...ssa.Value) errPath {
	for _, o := range of {
		if q.car[o] {
			q.car = with(q.car, v)
		}
		if q.vals[o] {
			q.vals = with(q.vals, v)
		}
	}
	return q
}

// scanEnd checks that whoever reads with a scanner to the end asks it whether it stopped because of an error.
func (s *errScan) scanEnd(b *ssa.BasicBlock) {
	call := s.call.(*ssa.Call)
	if inMemory(call.Call.Args[0]) {
		return
	}
	s.scan = map[ssa.Value]bool{call.Call.Args[0]: true}
	s.vals = map[ssa.Value]bool{}
	for _, ref := range *call.Referrers() {
		f, ok := ref.(*ssa.If)
		if !ok {
			continue
		}
		s.seen = map[string]bool{}
		if pos, ok := s.walk(f.Block().Succs[1], 0, errPath{car: map[ssa.Value]bool{}, cells: map[ssa.Value]bool{}, vals: s.vals}); !ok {
			s.lost(fmt.Sprintf("a path on which it has come to an end reaches %s without a call of Err", s.p.Pos(pos)))
		}
	}
}

// errorsLeft lists the variables of the caller in which a function literal leaves an error.
func errorsLeft(v ssa.Value) (out []ssa.Value) {
	m := closureOf(v)
	if m == nil {
		return nil
	}
	fn := m.Fn.(*ssa.Function)
	for i, f := range fn.FreeVars {
		pt, ok := f.Type().Underlying().(*types.Pointer)
		if !ok || !types.Identical(pt.Elem(), errorType) {
			continue
		}
		if _, ok := m.Bindings[i].(*ssa.Alloc); !ok {
			continue
		}
		for _, ref := range *f.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == f {
				if k, isC := st.Val.(*ssa.Const); !isC || !k.IsNil() {
					out = append(out, m.Bindings[i])
					break
				}
			}
		}
	}
	return out
}

// closureOf is the function literal that a value is.
func closureOf(v ssa.Value) *ssa.MakeClosure {
	for {
		c, ok := v.(*ssa.ChangeType)
		if !ok {
			break
		}
		v = c.X
	}
	m, _ := v.(*ssa.MakeClosure)
	return m
}

// manyTimes: the call calls the function it is given for one item after the other, until that gives false.
func manyTimes(c *ssa.CallCommon, fn *ssa.Function) bool {
	res := fn.Signature.Results()
	if res.Len() != 1 {
		return false
	}
	if b, ok := res.At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	callee := c.StaticCallee()
	return callee == nil || callee.Name() == "Attrs" || callee.Name() == "Range"
}

// inMemory: the scanner reads a text that is there already.
func inMemory(v ssa.Value) bool {
	c, name := callOf(v)
	if name != "bufio.NewScanner" {
		return false
	}
	a := c.Call.Args[0]
	if m, ok := a.(*ssa.MakeInterface); ok {
		a = m.X
	}
	switch derefType(a.Type()).String() {
	case "strings.Reader", "bytes.Reader", "bytes.Buffer":
		return true
	}
	return false
}

func (s *errScan) asksScanner(c *ssa.CallCommon) bool {
	for _, a := range c.Args {
		for v := range s.scan {
			if a == v || sameLoad(a, v) {
				return true
			}
		}
	}
	return false
}

// sameLoad: both are read from the same variable or field.
func sameLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	if x.X == y.X {
		return true
	}
	f, ok1 := x.X.(*ssa.FieldAddr)
	g, ok2 := y.X.(*ssa.FieldAddr)
	return ok1 && ok2 && f.Field == g.Field && (f.X == g.X || sameLoad(f.X, g.X))
}

// branch decides a test of the error against nil: the error is not nil.
func (s *errScan) branch(c ssa.Value, car, cells map[ssa.Value]bool) (yes, known bool) {
	switch x := c.(type) {
	case *ssa.BinOp:
		isNil := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.IsNil() }
		if car[x.X] && isNil(x.Y) || car[x.Y] && isNil(x.X) {
			return x.Op == token.NEQ, x.Op == token.NEQ || x.Op == token.EQL
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			y, k := s.branch(x.X, car, cells)
			return !y, k
		}
	}
	return false, false
}

// nilTest: the condition compares x with nil; nonNil: it holds when x is not nil.
func nilTest(c ssa.Value) (x ssa.Value, nonNil bool) {
	b, ok := c.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return nil, false
	}
	if k, ok := b.Y.(*ssa.Const); ok && k.IsNil() {
		return b.X, b.Op == token.NEQ
	}
	if k, ok := b.X.(*ssa.Const); ok && k.IsNil() {
		return b.Y, b.Op == token.NEQ
	}
	return nil, false
}

func copyVals(m map[ssa.Value]bool) map[ssa.Value]bool {
	n := make(map[ssa.Value]bool, len(m)+1)
	for k := range m {
		n[k] = true
	}
	return n
}

// escapes: the variable is captured or its address is passed on.
func escapes(a *ssa.Alloc) bool {
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Val == a {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func isErrorsTest(c *ssa.CallCommon) bool {
	fn := c.StaticCallee()
	if fn == nil || fn.Object() == nil || fn.Object().Pkg() == nil {
		return false
	}
	switch fn.Object().Pkg().Path() + "." + fn.Name() {
	case "errors.Is", "errors.As":
		return true
	case "os.IsNotExist", "os.IsExist", "os.IsPermission":
		return true
	}
	return false
}

// isErrorValue: certainly an error, not nil.
func isErrorValue(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		return makesErrors(&x.Call)
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return isErrorValue(x.X)
	case *ssa.UnOp:
		_, g := x.X.(*ssa.Global)
		return x.Op == token.MUL && g
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !isErrorValue(e) {
				return false
			}
		}
		return true
	}
	return false
}

// speaks: the call says something, or ends the program.
func speaks(c *ssa.CallCommon) bool {
	name, pkg := "", ""
	if c.IsInvoke() {
		name = c.Method.Name()
		if c.Method.Pkg() != nil {
			pkg = c.Method.Pkg().Path()
		}
	} else if fn := c.StaticCallee(); fn != nil {
		name = fn.Name()
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			pkg = fn.Object().Pkg().Path()
		}
	}
	switch pkg {
	case "log/slog", "log":
		for _, w := range []string{"Debug", "Info", "Warn", "Error", "Log", "Print", "Fatal", "Panic", "Handle"} {
			if strings.HasPrefix(name, w) {
				return true
			}
		}
		return false
	case "os", "runtime":
		return name == "Exit" || name == "Goexit"
	case "testing":
		return true
	case "fmt":
		return strings.HasPrefix(name, "Print") || strings.HasPrefix(name, "Fprint")
	}
	return strings.HasPrefix(pkg, "github.com/stretchr/testify")
}

// saysSo: a function of the module all of whose paths log something or end the program.
func (s *errScan) saysSo(c *ssa.CallCommon) bool {
	fn := c.StaticCallee()
	if fn == nil || fn.Blocks == nil || !s.p.IsRepoFunc(fn) {
		return false
	}
	for _, ins := range fn.Blocks[0].Instrs {
		if k, ok := ins.(ssa.CallInstruction); ok && speaks(k.Common()) {
			return true
		}
	}
	return false
}

func retPos(r *ssa.Return) token.Pos {
	if r.Pos().IsValid() {
		return r.Pos()
	}
	return r.Parent().Pos()
}
