package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// This file holds the abstract values of the disjunctive dataflow analysis (see absint.go).
// Every value has a canonical key; two values are the same abstract value iff their keys agree.

type Val interface{ key() string }

// VConst is a compile-time constant (bool, number, string).
type VConst struct {
	C constant.Value
	T types.Type
}

func (v VConst) key() string { return "c:" + v.C.ExactString() }

// VNil is the nil of any type.
type VNil struct{}

func (VNil) key() string { return "nil" }

// VSym is an unknown value with an identity. Cls is a free tag carried with the value.
type VSym struct {
	ID  string
	Cls string
	T   types.Type
}

func (v VSym) key() string { return "s:" + v.ID + "/" + v.Cls }

// VTerm is a pure operation on other values.
type VTerm struct {
	Op   string
	Args []Val
	T    types.Type
}

func (v VTerm) key() string {
	parts := make([]string, len(v.Args))
	for i, a := range v.Args {
		parts[i] = a.key()
	}
	return v.Op + "(" + strings.Join(parts, ",") + ")"
}

// VPtr points to a location: an object and a path inside it.
type VPtr struct{ Obj, Path string }

func (v VPtr) key() string { return "p:" + v.Obj + v.Path }

// VStruct is a struct by value.
type VStruct struct {
	T types.Type
	F []Val
}

func (v VStruct) key() string {
	parts := make([]string, len(v.F))
	for i, a := range v.F {
		parts[i] = a.key()
	}
	return "{" + strings.Join(parts, ";") + "}"
}

// VTuple is a multiple result.
type VTuple struct{ E []Val }

func (v VTuple) key() string {
	parts := make([]string, len(v.E))
	for i, a := range v.E {
		parts[i] = a.key()
	}
	return "<" + strings.Join(parts, ";") + ">"
}

// VFunc is a known function value, possibly a closure or a bound method.
type VFunc struct {
	Fn   *ssa.Function
	Bind []Val
}

func (v VFunc) key() string {
	parts := make([]string, len(v.Bind))
	for i, a := range v.Bind {
		parts[i] = a.key()
	}
	return "f:" + v.Fn.String() + "[" + strings.Join(parts, ",") + "]"
}

// VIface is an interface holding a value of known dynamic type.
type VIface struct {
	Dyn types.Type
	V   Val
}

func (v VIface) key() string { return "i:" + typeKey(v.Dyn) + ":" + v.V.key() }

// VSlice is a slice of non-byte elements: a backing array object, and whether its capacity is
// known to equal its length (so that an append must move it).
type VSlice struct {
	Arr  string
	Clip bool
	N    int // known length, or -1
	T    types.Type
}

func (v VSlice) key() string { return fmt.Sprintf("sl:%s/%v/%d", v.Arr, v.Clip, v.N) }

// VSeq is a string or a []byte described by what it contains.
type VSeq struct {
	Str  bool
	C    Content
	Arr  string // backing array object of a []byte
	Clip bool
}

func (v VSeq) key() string {
	return fmt.Sprintf("q:%v:%s/%v:%s", v.Str, v.Arr, v.Clip, v.C.key())
}

// VMap is a map object.
type VMap struct{ Obj string }

func (v VMap) key() string { return "m:" + v.Obj }

// VTop is a value about which nothing is known and which has no identity.
type VTop struct{ T types.Type }

func (VTop) key() string { return "top" }

var typeKeys sync.Map

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	if s, ok := typeKeys.Load(t); ok {
		return s.(string)
	}
	s := types.TypeString(t, nil)
	typeKeys.Store(t, s)
	return s
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func constBool(b bool) Val  { return VConst{constant.MakeBool(b), types.Typ[types.Bool]} }
func constInt(i int64) Val  { return VConst{constant.MakeInt64(i), types.Typ[types.Int]} }
func constStr(s string) Val { return VConst{constant.MakeString(s), types.Typ[types.String]} }
func asBool(v Val) (bool, bool) {
	if c, ok := v.(VConst); ok && c.C.Kind() == constant.Bool {
		return constant.BoolVal(c.C), true
	}
	return false, false
}
func asInt(v Val) (int64, bool) {
	if c, ok := v.(VConst); ok {
		if i, exact := constant.Int64Val(constant.ToInt(c.C)); exact && constant.ToInt(c.C).Kind() == constant.Int {
			return i, true
		}
	}
	return 0, false
}
func asStr(v Val) (string, bool) {
	if c, ok := v.(VConst); ok && c.C.Kind() == constant.String {
		return constant.StringVal(c.C), true
	}
	return "", false
}

// Object is a heap object. Fields is keyed by access path (".a.b", "[2]", "[*]", "" for cells).
type Object struct {
	Kind   string // struct, array, cell, map, buffer, pre
	T      types.Type
	Pre    bool // existed before the analysed call
	Pooled bool // came out of a sync.Pool
	Weak   bool // stands for several objects
	Own    bool // unknown contents, but created by the analysed call (a library function's result)
	F      map[string]Val
}

func (o *Object) clone() *Object {
	n := *o
	n.F = make(map[string]Val, len(o.F)+1)
	for k, v := range o.F {
		n.F[k] = v
	}
	return &n
}

func (o *Object) key() string {
	ks := make([]string, 0, len(o.F))
	for k := range o.F {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	b.WriteString(o.Kind)
	if o.Pre {
		b.WriteByte('P')
	}
	if o.Pooled {
		b.WriteByte('L')
	}
	if o.Weak {
		b.WriteByte('W')
	}
	if o.Own {
		b.WriteByte('o')
	}
	for _, k := range ks {
		b.WriteString(k)
		b.WriteByte('=')
		b.WriteString(o.F[k].key())
		b.WriteByte(',')
	}
	return b.String()
}

// ---------------------------------------------------------------------------
// Content: what a byte sequence contains, as a fragment of a JSON line.

// Chunk is one piece of a short sequence: constant text, or text of a class.
type Chunk struct {
	Lit bool
	S   string // the text, or the source of non-constant text
	Cls string // class of non-constant text: raw, digits, float, jval, jstr, quote, safe, esc, hex1
}

func (c Chunk) key() string {
	if c.Lit {
		return strconv.Quote(c.S)
	}
	return c.Cls + "<" + c.S + ">"
}

// Content is either a short chunk list or, for buffers, the effect of the bytes on a JSON recogniser,
// per recogniser state at the start of the sequence.
type Content struct {
	Map    bool
	Chunks []Chunk
	M      map[string]Out
	Base   string // name of the content this one extends across a call boundary
	Empty  byte   // 'y', 'n' or '?'
	Last   string // last byte: one of "{", ",", " ", "o" (another one), "?" (unknown)
}

func (c Content) key() string {
	var b strings.Builder
	if !c.Map {
		for _, k := range c.Chunks {
			b.WriteString(k.key())
			b.WriteByte('+')
		}
		return b.String()
	}
	ks := make([]string, 0, len(c.M))
	for k := range c.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	b.WriteString(c.Base)
	b.WriteByte('|')
	b.WriteByte(c.Empty)
	b.WriteString(strconv.Quote(c.Last))
	for _, k := range ks {
		o := c.M[k]
		b.WriteString(" " + k + ">" + o.key())
	}
	return b.String()
}

// Out is the effect of a fragment from one start state.
type Out struct {
	Pop, Push string
	End       string
	Err       string
	Raw       string // text of unknown characters that went into a string unescaped: where
}

func (o Out) key() string {
	if o.Err != "" {
		return "!" // the message is not part of the state
	}
	return o.Pop + "^" + o.Push + "^" + o.End + "^" + o.Raw
}

// keyOpens and emptyObjects count what feeding bytes did; a write compares them before and after.
var keyOpens, emptyObjects int

func litContent(s string) Content {
	if s == "" {
		return Content{}
	}
	return Content{Chunks: []Chunk{{Lit: true, S: s}}}
}

// rawSite names the write being analysed.
var rawSite string

// jsonStarts are the recogniser states in which a fragment may begin.
var jsonStarts = []string{"B", "O0", "OM", "OC", "V", "K", "S"}

func emptyBuffer() Content {
	m := map[string]Out{}
	for _, s := range jsonStarts {
		m[s] = Out{End: s}
	}
	return Content{Map: true, M: m, Empty: 'y'}
}

func (c Content) promote() Content {
	if c.Map {
		return c
	}
	out := emptyBuffer()
	for _, k := range c.Chunks {
		out = out.add(k)
	}
	return out
}

func (c Content) isEmpty() byte {
	if c.Map {
		return c.Empty
	}
	res := byte('y')
	for _, k := range c.Chunks {
		if k.Lit && k.S != "" || !k.Lit && nonEmptyClass(k.Cls) {
			return 'n'
		}
		if !k.Lit {
			res = '?'
		}
	}
	return res
}

func nonEmptyClass(cls string) bool {
	switch cls {
	case "digits", "float", "jval", "jstr", "quote", "hex1", "byte", "time":
		return true
	}
	return false
}

// maxChunks bounds chunk lists; analyses of histories that are bounded themselves raise it.
var maxChunks = 6

// add extends the content by one chunk.
func (c Content) add(k Chunk) Content {
	if k.Lit && k.S == "" {
		return c
	}
	if !c.Map {
		n := len(c.Chunks)
		if k.Lit && n > 0 && c.Chunks[n-1].Lit {
			cs := append([]Chunk(nil), c.Chunks...)
			cs[n-1].S += k.S
			if len(cs[n-1].S) < 200 || maxChunks > 6 {
				return Content{Chunks: cs}
			}
		}
		if n < maxChunks {
			return Content{Chunks: append(append([]Chunk(nil), c.Chunks...), k)}
		}
		return c.promote().add(k)
	}
	out := Content{Map: true, M: make(map[string]Out, len(c.M)), Base: c.Base, Empty: c.Empty, Last: c.Last}
	for s, o := range c.M {
		out.M[s] = o.feed(s, k)
	}
	if k.Lit {
		out.Empty, out.Last = 'n', lastClass(k.S)
	} else {
		if nonEmptyClass(k.Cls) {
			out.Empty = 'n'
		} else if out.Empty == 'y' {
			out.Empty = '?'
		}
		if nonEmptyClass(k.Cls) && k.Cls != "byte" {
			out.Last = "o"
		} else {
			out.Last = "?"
		}
	}
	return out
}

// lastClass is what is remembered of the last byte.
func lastClass(s string) string {
	switch b := s[len(s)-1:]; b {
	case "{", ",", " ":
		return b
	}
	return "o"
}

// concat extends c by d.
func (c Content) concat(d Content) Content {
	if !d.Map {
		for _, k := range d.Chunks {
			c = c.add(k)
		}
		return c
	}
	c = c.promote()
	out := Content{Map: true, M: map[string]Out{}, Base: c.Base, Empty: c.Empty, Last: c.Last}
	for s, o := range c.M {
		if strings.HasPrefix(d.Base, "$c") {
			// known only relative to the caller
			if o.Err == "" && d.Empty != 'y' {
				o = Out{Err: "text composed by a caller is copied"}
			}
			out.M[s] = o
			continue
		}
		out.M[s] = o.then(s, d)
	}
	switch {
	case d.Empty == 'n':
		out.Empty, out.Last = 'n', d.Last
	case d.Empty == '?':
		if out.Empty == 'y' {
			out.Empty = '?'
		}
		out.Last = "?"
	}
	return out
}

// then composes this effect (from start s) with the fragment d.
func (o Out) then(s string, d Content) Out {
	if o.Err != "" {
		return o
	}
	n, ok := d.M[o.End]
	if !ok && d.Empty == 'y' {
		return o
	}
	if !ok && o.End == "P" {
		// After a closing brace whose surroundings are not known: more closing braces show that they are objects.
		if m := d.M["OM"]; m.Err == "" && m.Push == "" && m.Pop != "" && (m.End == "P" || m.End == "Q") {
			n, ok = m, true
		}
	}
	if !ok {
		return Out{Err: fmt.Sprintf("a fragment cannot follow %s", stateName(o.End))}
	}
	return o.compose(s, n)
}

func (o Out) compose(s string, n Out) Out {
	if n.Err != "" {
		return n
	}
	res := Out{Pop: o.Pop, Push: o.Push, Raw: o.Raw}
	if res.Raw == "" {
		res.Raw = n.Raw
	}
	for _, p := range n.Pop {
		if res.Push == "" {
			res.Pop += string(p)
			continue
		}
		var e string
		res.Push, e = popStack(res.Push, byte(p))
		if e != "" {
			return Out{Err: e}
		}
	}
	res.Push += n.Push
	if len(res.Push) > 5 {
		return Out{Err: "output is abandoned inside nested objects"}
	}
	res.End = n.End
	if n.End == "P" || n.End == "Q" {
		res.End = afterValue(s, res)
	}
	if n.End == "Q" {
		switch res.End {
		case "D":
			res.End = "N"
		case "P":
			res.End = "Q"
		default:
			return Out{Err: "the line ends after " + stateName(res.End)}
		}
	}
	return res
}

// popStack removes one closer ('}' or ']' or 'N' closers) from a stack of openers.
func popStack(push string, closer byte) (string, string) {
	if closer == 'N' {
		i := strings.IndexByte(push, 'N')
		if i < 0 || strings.Trim(push[i+1:], "{") != "" {
			return push, "more closing braces than open groups"
		}
		return push[:i] + push[i+1:], ""
	}
	open := byte('{')
	if closer == ']' {
		open = '['
	}
	i := len(push) - 1
	if open == '{' {
		for i >= 0 && push[i] == 'N' {
			i--
		}
	}
	if i < 0 || push[i] != open {
		return push, fmt.Sprintf("%q closes nothing that is open", string(closer))
	}
	return push[:i] + push[i+1:], ""
}

// afterValue is the state after a complete value, given what is open.
func afterValue(start string, o Out) string {
	if o.Push != "" {
		switch o.Push[len(o.Push)-1] {
		case '{', 'N':
			return "OM"
		default:
			return "AM"
		}
	}
	if o.Pop != "" {
		return "P"
	}
	switch start[0] {
	case 'B':
		return "D"
	case 'O':
		return "OM"
	case 'A':
		if start == "AK" {
			return "OM"
		}
		return "AM"
	case 'K':
		return "OM"
	}
	return "P"
}

func stateName(s string) string {
	switch s {
	case "B":
		return "the start of a line"
	case "O0":
		return "an opening brace"
	case "OM":
		return "an object member"
	case "OC":
		return "a comma in an object"
	case "V":
		return "a colon"
	case "A0":
		return "an opening bracket"
	case "AM":
		return "an array element"
	case "AC":
		return "a comma in an array"
	case "AK":
		return "an object key"
	case "D":
		return "the end of the object"
	case "N":
		return "the end of the line"
	case "P":
		return "a complete value"
	}
	if s != "" && (s[0] == 'K' || s[0] == 'S') {
		return "the inside of a string"
	}
	return "state " + s
}

// feed advances the effect by one chunk.
func (o Out) feed(start string, k Chunk) Out {
	if o.Err != "" {
		return o
	}
	if k.Lit {
		for i := 0; i < len(k.S); i++ {
			o = o.feedByte(start, k.S[i])
			if o.Err != "" {
				return o
			}
		}
		return o
	}
	inStr := o.End == "K" || o.End == "S"
	switch k.Cls {
	case "digits", "jval":
		if o.End == "V" || o.End == "A0" || o.End == "AC" {
			return o.valueDone(start)
		}
		if inStr {
			return o
		}
	case "float":
		if inStr {
			return o
		}
		return Out{Err: "a floating point number that may be NaN or infinite is written as a bare number"}
	case "jstr", "quote":
		if o.End == "V" || o.End == "A0" || o.End == "AC" {
			return o.valueDone(start)
		}
		if o.End == "O0" || o.End == "OC" {
			keyOpens++
			o.End = "AK"
			return o
		}
		if inStr {
			return o
		}
	case "hex1":
		if inStr {
			return o
		}
		if n := len(o.End); n == 2 && o.End[1] >= '1' && o.End[1] <= '4' && (o.End[0] == 'K' || o.End[0] == 'S') {
			if o.End[1] == '4' {
				o.End = o.End[:1]
			} else {
				o.End = o.End[:1] + string(o.End[1]+1)
			}
			return o
		}
	case "safe", "esc":
		if inStr {
			return o
		}
	case "vbyte":
		// a byte of an escape sequence (or one that needs none), in a function proven to write whole escapes
		if o.End != "" && (o.End[0] == 'K' || o.End[0] == 'S') {
			switch {
			case len(o.End) == 1:
				return o
			case o.End[1] == '\\':
				o.End = o.End[:1]
				return o
			default:
				return o.feed(start, Chunk{Cls: "hex1", S: k.S})
			}
		}
	default:
		if inStr {
			if o.Raw == "" {
				o.Raw = "@" + rawSite
			}
			return o
		}
	}
	return Out{Err: fmt.Sprintf("%s text (%s) is written after %s", k.Cls, k.S, stateName(o.End))}
}

func (o Out) valueDone(start string) Out {
	o.End = afterValue(start, o)
	return o
}

func (o Out) feedByte(start string, b byte) Out {
	fail := func() Out {
		return Out{Err: fmt.Sprintf("byte %q is written after %s", string(b), stateName(o.End))}
	}
	st := o.End
	// Inside strings.
	if st[0] == 'K' || st[0] == 'S' {
		switch {
		case len(st) == 1:
			switch {
			case b == '"':
				if st == "K" {
					o.End = "AK"
					return o
				}
				return o.valueDone(start)
			case b == '\\':
				o.End = st + "\\"
				return o
			case b < 0x20:
				return Out{Err: fmt.Sprintf("control byte %#x is written inside a string", b)}
			}
			return o
		case st[1] == '\\':
			switch b {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
				o.End = st[:1]
				return o
			case 'u':
				o.End = st[:1] + "1"
				return o
			}
			return Out{Err: fmt.Sprintf("invalid escape \\%s", string(b))}
		default:
			if b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F' {
				return o.feed(start, Chunk{Cls: "hex1"})
			}
			return Out{Err: "invalid \\u escape"}
		}
	}
	if strings.HasPrefix(st, "lit:") || st == "num" {
		if st == "num" {
			if b >= '0' && b <= '9' || b == '.' || b == 'e' || b == 'E' || b == '+' || b == '-' {
				return o
			}
			return o.valueDone(start).feedByte(start, b)
		}
		w := st[4:] + string(b)
		for _, lit := range []string{"true", "false", "null"} {
			if lit == w {
				return o.valueDone(start)
			}
			if strings.HasPrefix(lit, w) {
				o.End = "lit:" + w
				return o
			}
		}
		return fail()
	}
	if st == "D" {
		if b == '\n' {
			o.End = "N"
			return o
		}
		if b == '\r' || b == ' ' {
			return o
		}
		return fail()
	}
	if st == "P" && b == '\n' {
		// the end of the line, provided that the value is the outermost one
		o.End = "Q"
		return o
	}
	if st == "N" || st == "Q" {
		return fail()
	}
	if b == ' ' || b == '\t' {
		return o
	}
	value := st == "V" || st == "A0" || st == "AC"
	switch b {
	case '{':
		if st == "B" || value {
			o.Push += "{"
			o.End = "O0"
			return o
		}
	case '[':
		if value {
			o.Push += "["
			o.End = "A0"
			return o
		}
	case '}', ']':
		okState := b == '}' && (st == "O0" || st == "OM" || st == "P") || b == ']' && (st == "A0" || st == "AM" || st == "P")
		if !okState {
			break
		}
		if st == "O0" && (start != "B" || len(o.Push) > 1) {
			emptyObjects++
		}
		if o.Push == "" {
			if start == "B" {
				break
			}
			o.Pop += string(b)
			o.End = "P"
			return o
		}
		var e string
		o.Push, e = popStack(o.Push, b)
		if e != "" {
			return Out{Err: e}
		}
		o.End = afterValue(start, o)
		return o
	case '"':
		if value {
			o.End = "S"
			return o
		}
		if st == "O0" || st == "OC" {
			keyOpens++
			o.End = "K"
			return o
		}
	case ':':
		if st == "AK" {
			o.End = "V"
			return o
		}
	case ',':
		if st == "OM" {
			o.End = "OC"
			return o
		}
		if st == "AM" {
			o.End = "AC"
			return o
		}
	default:
		if value {
			if b >= '0' && b <= '9' || b == '-' {
				o.End = "num"
				return o
			}
			if b == 't' || b == 'f' || b == 'n' {
				o.End = "lit:" + string(b)
				return o
			}
		}
	}
	return fail()
}
