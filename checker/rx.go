package main

import (
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
)

// Regular expressions are compared as languages: two patterns are equivalent when, from the start of any text,
// a match can end at exactly the same places. The subset automata of both are explored in step over classes of
// characters that neither can tell apart.

func rxProg(pat string) (*syntax.Prog, error) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, err
	}
	return syntax.Compile(re.Simplify())
}

// rxClasses picks one character per class of characters both programs treat alike.
func rxClasses(progs ...*syntax.Prog) []rune {
	cuts := map[rune]bool{0: true, '\n': true, '\n' + 1: true, '0': true, '9' + 1: true, 'A': true, 'Z' + 1: true, '_': true, '_' + 1: true, 'a': true, 'z' + 1: true}
	for _, p := range progs {
		for i := range p.Inst {
			in := &p.Inst[i]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1:
				if len(in.Rune) == 1 {
					cuts[in.Rune[0]], cuts[in.Rune[0]+1] = true, true
					if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
						s := string(in.Rune[0])
						for _, r := range strings.ToLower(s) + strings.ToUpper(s) {
							cuts[r], cuts[r+1] = true, true
						}
					}
					continue
				}
				for k := 0; k+1 < len(in.Rune); k += 2 {
					cuts[in.Rune[k]], cuts[in.Rune[k+1]+1] = true, true
				}
			}
		}
	}
	var out []rune
	for r := range cuts {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

type rxSet struct {
	pcs    []int
	accept bool
}

func (s rxSet) key() string {
	var b strings.Builder
	for _, p := range s.pcs {
		b.WriteString(strconv.Itoa(p))
		b.WriteByte(',')
	}
	if s.accept {
		b.WriteByte('!')
	}
	return b.String()
}

// closure follows empty transitions; end tells whether the text ends here.
func rxClosure(p *syntax.Prog, pcs []int, before, after rune) rxSet {
	seen := map[int]bool{}
	var s rxSet
	cond := syntax.EmptyOpContext(before, after)
	var walk func(pc int)
	walk = func(pc int) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := &p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			walk(int(in.Out))
			walk(int(in.Arg))
		case syntax.InstCapture, syntax.InstNop:
			walk(int(in.Out))
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^cond == 0 {
				walk(int(in.Out))
			}
		case syntax.InstMatch:
			s.accept = true
		case syntax.InstFail:
		default:
			s.pcs = append(s.pcs, pc)
		}
	}
	for _, pc := range pcs {
		walk(pc)
	}
	sort.Ints(s.pcs)
	return s
}

func rxStep(p *syntax.Prog, s rxSet, r rune) []int {
	var out []int
	for _, pc := range s.pcs {
		if p.Inst[pc].MatchRune(r) {
			out = append(out, int(p.Inst[pc].Out))
		}
	}
	return out
}

// rxEquivalent compares two patterns; unanchored ones are compared from each possible start by a leading loop.
func rxEquivalent(a, b string) bool {
	if a == b {
		return true
	}
	pa, err1 := rxProg(a)
	pb, err2 := rxProg(b)
	if err1 != nil || err2 != nil {
		return false
	}
	classes := append(rxClasses(pa, pb), -1) // -1: end of text
	type pair struct {
		a, b   []int
		before rune
	}
	seen := map[string]bool{}
	work := []pair{{[]int{pa.Start}, []int{pb.Start}, -1}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		k := rxSet{pcs: w.a}.key() + "|" + rxSet{pcs: w.b}.key() + "|" + strconv.Itoa(int(w.before))
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 20000 {
			return false
		}
		for _, r := range classes {
			sa, sb := rxClosure(pa, w.a, w.before, r), rxClosure(pb, w.b, w.before, r)
			if sa.accept != sb.accept {
				return false
			}
			if r < 0 {
				continue
			}
			na, nb := rxStep(pa, sa, r), rxStep(pb, sb, r)
			if len(na) == 0 && len(nb) == 0 {
				continue
			}
			sort.Ints(na)
			sort.Ints(nb)
			bf := r
			if !needsContext(pa) && !needsContext(pb) {
				bf = 'x'
			}
			work = append(work, pair{dedupInts(na), dedupInts(nb), bf})
		}
	}
	return true
}

func needsContext(p *syntax.Prog) bool {
	for i := range p.Inst {
		if p.Inst[i].Op == syntax.InstEmptyWidth && syntax.EmptyOp(p.Inst[i].Arg)&(syntax.EmptyBeginLine|syntax.EmptyEndLine|syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			return true
		}
	}
	return false
}

func dedupInts(in []int) []int {
	var out []int
	for i, x := range in {
		if i == 0 || x != in[i-1] {
			out = append(out, x)
		}
	}
	return out
}

// rxGroups counts capture groups.
func rxGroups(pat string) int {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return 0
	}
	return re.MaxCap()
}

type rxThread struct {
	pc  int
	cap []int
}

// rxSettled decides, for a text that begins with prefix, whether whatever follows the leftmost-first match has
// group g equal to prefix[lo:hi]: after reading prefix every thread that can still win has that group.
func rxSettled(pat, prefix string, g, lo, hi int) bool {
	p, err := rxProg(pat)
	if err != nil {
		return false
	}
	ncap := 2 * (g + 1)
	matched := false
	var add func(list []rxThread, seen map[int]bool, pc int, cap []int, pos int, before, after rune) ([]rxThread, bool)
	add = func(list []rxThread, seen map[int]bool, pc int, cap []int, pos int, before, after rune) ([]rxThread, bool) {
		if seen[pc] {
			return list, false
		}
		seen[pc] = true
		in := &p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			var cut bool
			if list, cut = add(list, seen, int(in.Out), cap, pos, before, after); cut {
				return list, true
			}
			return add(list, seen, int(in.Arg), cap, pos, before, after)
		case syntax.InstCapture:
			if int(in.Arg) < ncap {
				c := append([]int(nil), cap...)
				c[in.Arg] = pos
				cap = c
			}
			return add(list, seen, int(in.Out), cap, pos, before, after)
		case syntax.InstNop:
			return add(list, seen, int(in.Out), cap, pos, before, after)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^syntax.EmptyOpContext(before, after) == 0 {
				return add(list, seen, int(in.Out), cap, pos, before, after)
			}
			return list, false
		case syntax.InstMatch:
			matched = true
			return append(list, rxThread{-1, cap}), true // lower priorities are cut off
		case syntax.InstFail:
			return list, false
		}
		return append(list, rxThread{pc, cap}), false
	}
	init := make([]int, ncap)
	for i := range init {
		init[i] = -1
	}
	rs := []rune(prefix)
	at := func(i int) rune {
		if i < len(rs) {
			return rs[i]
		}
		return 'x'
	}
	threads, _ := add(nil, map[int]bool{}, p.Start, init, 0, -1, at(0))
	for i, r := range rs {
		var next []rxThread
		seen := map[int]bool{}
		for _, t := range threads {
			if t.pc < 0 {
				next = append(next, t)
				break
			}
			if p.Inst[t.pc].MatchRune(r) {
				var cut bool
				if next, cut = add(next, seen, int(p.Inst[t.pc].Out), t.cap, i+1, r, at(i+1)); cut {
					break
				}
			}
		}
		threads = next
	}
	if !matched || len(threads) == 0 {
		return false
	}
	for _, t := range threads {
		if t.cap[2*g] != lo || t.cap[2*g+1] != hi {
			return false
		}
	}
	return true
}

// rxMarked is a pattern in which the text of each group is enclosed in marks of its own.
func rxMarked(re *syntax.Regexp) *syntax.Regexp {
	n := *re
	n.Sub = nil
	for _, s := range re.Sub {
		n.Sub = append(n.Sub, rxMarked(s))
	}
	if re.Op == syntax.OpCapture {
		lit := func(r rune) *syntax.Regexp { return &syntax.Regexp{Op: syntax.OpLiteral, Rune: []rune{r}} }
		return &syntax.Regexp{Op: syntax.OpConcat, Sub: []*syntax.Regexp{lit(rune(0xE000 + 2*re.Cap)), n.Sub[0], lit(rune(0xE001 + 2*re.Cap))}}
	}
	return &n
}

// rxSame decides that two patterns match the same texts with the same groups.
func rxSame(a, b string) bool {
	ra, err1 := syntax.Parse(a, syntax.Perl)
	rb, err2 := syntax.Parse(b, syntax.Perl)
	if err1 != nil || err2 != nil {
		return false
	}
	if ra.Simplify().String() == rb.Simplify().String() {
		return true
	}
	greed := func(re *syntax.Regexp) string {
		var b strings.Builder
		var walk func(*syntax.Regexp)
		walk = func(re *syntax.Regexp) {
			switch re.Op {
			case syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat:
				if re.Flags&syntax.NonGreedy != 0 {
					b.WriteByte('n')
				}
			case syntax.OpCapture:
				b.WriteByte('(')
			}
			for _, s := range re.Sub {
				walk(s)
			}
			if re.Op == syntax.OpCapture {
				b.WriteByte(')')
			}
		}
		walk(re)
		return b.String()
	}
	return ra.MaxCap() == rb.MaxCap() && greed(ra) == greed(rb) && rxEquivalent(rxMarked(ra).String(), rxMarked(rb).String())
}
