package main

import (
	"fmt"
	"go/types"
	mbig "math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values are hash-consed terms: two values are known to be equal iff they are the same *Term.
type Op uint8

const (
	OInt    Op = iota // linear combination N + sum Coef[i]*Args[i]
	OBool             // N = 0/1
	ONil              // nil pointer, slice, map, func, interface, chan
	OSym              // unknown value; S = name, T = type
	OStr              // concatenation of segments (Args); no Args = empty string
	OLit              // string segment: constant S
	ODec              // string segment: decimal rendering of Args[0]
	OBE               // string segment: N bytes big endian of Args[0]
	OLE               // string segment: N bytes little endian of Args[0]
	OByte             // string segment: one byte, Args[0]
	OSub              // string segment: Args[0][Args[1]:Args[2]] that could not be resolved
	ORep              // string segment: Args[0] with %i = 0..Args[1]-1
	OZeros            // string segment: Args[0] zero bytes
	OJoin             // string segment: elements of list Args[0] joined with Args[1]
	OLen              // length of a string segment / list / map
	OObj              // identity of a heap object, S = id
	OPtr              // address: Args[0] = obj, S = path ("1/3"), further Args = symbolic indexes
	OSlice            // Args = obj, lo, hi, cap
	OIface            // T = dynamic type, Args[0] = value
	OFn               // function value: F, Args = bindings
	OTuple            // Args
	OStruct           // Args = fields, T
	OApp              // uninterpreted function S of Args
	OWrap             // integer Args[0] reduced to type T
	OLe0              // bool: Args[0] <= 0
	OEq0              // bool: Args[0] == 0
	OIsNil            // bool
	OStrEq            // bool: string equality
	OPrefix           // bool: Args[0] starts with Args[1]
	OSuffix           // bool
	OEq               // bool: equality of other values
	ONot              // bool
	OFloat            // constant float S
)

var opNames = map[Op]string{OJoin: "join", ORep: "rep", OSub: "sub", OLen: "len", OWrap: "wrap", OEq: "eq", OStrEq: "streq", OPrefix: "prefix", OSuffix: "suffix", OIsNil: "isnil", OTuple: "tuple", OStruct: "struct", OSlice: "slice"}

type Term struct {
	Op   Op
	Args []*Term
	Coef []int64 // OInt
	N    int64
	S    string
	T    types.Type
	F    *ssa.Function
	id   int
	sym  *SymInfo
	self [1]*Term // the term itself, as its own list of unknowns
}

// SymInfo describes the values an opaque symbol ranges over.
type SymInfo struct {
	HasLo, HasHi bool
	Lo, Hi       int64
	Bits         int // for unsigned 64-bit values: range is [0, 2^Bits)
	MinLen       int64
	MaxLen       int64 // 0 = none
	Charset      func(b byte) bool
	NonNil       bool
	Origin       string   // external, borrowed, ...
	NotPrefix    []string // prefixes that the string is known not to have
	Msg, Field   string   // message of the peer the symbol is a field of
}

var (
	internTab = map[string]*Term{}
	allTerms  []*Term
	typeIDs   = map[string]int{}
)

func typeID(t types.Type) string {
	if t == nil {
		return ""
	}
	s := types.TypeString(t, nil)
	id, ok := typeIDs[s]
	if !ok {
		id = len(typeIDs) + 1
		typeIDs[s] = id
	}
	return strconv.Itoa(id)
}

func mk(op Op, s string, n int64, t types.Type, f *ssa.Function, coef []int64, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(op) + 'A')
	sb.WriteString(strconv.FormatInt(n, 36))
	sb.WriteByte('|')
	for i, a := range args {
		if a == nil {
			panic("nil term argument")
		}
		if coef != nil {
			sb.WriteString(strconv.FormatInt(coef[i], 36))
			sb.WriteByte('*')
		}
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte(',')
	}
	sb.WriteByte('|')
	if f != nil {
		sb.WriteString(fmt.Sprintf("%p", f))
	}
	sb.WriteByte('|')
	sb.WriteString(typeID(t))
	sb.WriteByte('|')
	sb.WriteString(s)
	k := sb.String()
	if x, ok := internTab[k]; ok {
		return x
	}
	x := &Term{Op: op, Args: args, Coef: coef, N: n, S: s, T: t, F: f, id: len(allTerms) + 1}
	internTab[k] = x
	allTerms = append(allTerms, x)
	return x
}

func Int(n int64) *Term { return mk(OInt, "", n, nil, nil, nil) }
func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var (
	tTrue  = mk(OBool, "", 1, nil, nil, nil)
	tFalse = mk(OBool, "", 0, nil, nil, nil)
	tNil   = mk(ONil, "", 0, nil, nil, nil)
	tEmpty = mk(OStr, "", 0, nil, nil, nil)
	tZero  = Int(0)
	tOne   = Int(1)
	tUnit  = mk(OTuple, "", 0, nil, nil, nil)
)

func Sym(name string, t types.Type, info *SymInfo) *Term {
	x := mk(OSym, name, 0, t, nil, nil)
	if info != nil && x.sym == nil {
		x.sym = info
	}
	return x
}
func App(name string, args ...*Term) *Term { return mk(OApp, name, 0, nil, nil, nil, args...) }
func AppT(name string, t types.Type, args ...*Term) *Term {
	return mk(OApp, name, 0, t, nil, nil, args...)
}
func Obj_(id string) *Term           { return mk(OObj, id, 0, nil, nil, nil) }
func Tuple(args ...*Term) *Term      { return mk(OTuple, "", 0, nil, nil, nil, args...) }
func IsNilT(x *Term) *Term           { return mk(OIsNil, "", 0, nil, nil, nil, x) }
func (t *Term) isInt() bool          { return t.Op == OInt }
func (t *Term) isConst() bool        { return t.Op == OInt && len(t.Args) == 0 }
func (t *Term) isBoolConst() bool    { return t.Op == OBool }
func (t *Term) constIs(n int64) bool { return t.isConst() && t.N == n }

// ---- linear integers ----

type linAcc struct {
	c    int64
	m    map[*Term]int64
	over bool
}

func (l *linAcc) add(t *Term, k int64) {
	if l.m == nil {
		l.m = map[*Term]int64{}
	}
	if t.Op == OInt {
		p, ok := mulOv(t.N, k)
		s, ok2 := addOv(l.c, p)
		if !ok || !ok2 {
			l.over = true
			return
		}
		l.c = s
		for i, a := range t.Args {
			p, ok := mulOv(t.Coef[i], k)
			if !ok {
				l.over = true
				return
			}
			l.m[a] += p
		}
		return
	}
	l.m[t] += k
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if c/b != a || (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63) {
		return 0, false
	}
	return c, true
}
func addOv(a, b int64) (int64, bool) {
	c := a + b
	if (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c >= 0) {
		return 0, false
	}
	return c, true
}

func (l *linAcc) term() *Term {
	if l.over {
		return nil
	}
	var as []*Term
	for a, c := range l.m {
		if c != 0 {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if l.c == 0 && len(as) == 1 && l.m[as[0]] == 1 {
		return as[0]
	}
	cs := make([]int64, len(as))
	for i, a := range as {
		cs[i] = l.m[a]
	}
	return mk(OInt, "", l.c, nil, nil, cs, as...)
}

// Lin builds c + sum k_i*t_i from alternating coefficient/term pairs; nil on overflow.
func lin(c int64, kt ...interface{}) *Term {
	var l linAcc
	l.c = c
	for i := 0; i < len(kt); i += 2 {
		l.add(kt[i+1].(*Term), int64(kt[i].(int)))
	}
	r := l.term()
	if r == nil {
		return App("overflow", Int(c), kt[1].(*Term))
	}
	return r
}
func Add(a, b *Term) *Term        { return lin(0, 1, a, 1, b) }
func Sub2(a, b *Term) *Term       { return lin(0, 1, a, -1, b) }
func AddC(a *Term, c int64) *Term { return lin(c, 1, a) }

// ---- strings ----

func Lit(s string) *Term {
	if s == "" {
		return tEmpty
	}
	return Cat(mk(OLit, s, 0, nil, nil, nil))
}

// segs returns the segments of a string-valued term.
func segs(t *Term) []*Term {
	if t.Op == OStr {
		return t.Args
	}
	return []*Term{t}
}

// Cat concatenates string-valued terms. The result is a single segment term when there is one segment.
func Cat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		for _, s := range segs(t) {
			if s.Op == OLit && s.S == "" {
				continue
			}
			if s.Op == OZeros {
				if s.Args[0].constIs(0) {
					continue
				}
				if s.Args[0].isConst() && s.Args[0].N <= 64 {
					s = mk(OLit, strings.Repeat("\x00", int(s.Args[0].N)), 0, nil, nil, nil)
				}
			}
			if s.Op == ORep && s.Args[1].constIs(0) {
				continue
			}
			if s.Op == OByte && s.Args[0].isConst() {
				s = mk(OLit, string([]byte{byte(s.Args[0].N)}), 0, nil, nil, nil)
			}
			if (s.Op == OBE || s.Op == OLE) && s.Args[0].isConst() {
				b := make([]byte, s.N)
				for i := range b {
					sh := uint(8 * i)
					if s.Op == OBE {
						sh = uint(8 * (int(s.N) - 1 - i))
					}
					b[i] = byte(uint64(s.Args[0].N) >> sh)
				}
				s = mk(OLit, string(b), 0, nil, nil, nil)
			}
			if (s.Op == OBE || s.Op == OLE) && s.Args[0].Op == OWrap && typeBytes(s.Args[0].T) >= s.N {
				s = mk(s.Op, "", s.N, nil, nil, nil, s.Args[0].Args[0])
			}
			if s.Op == ODec && s.Args[0].isConst() {
				s = mk(OLit, strconv.FormatInt(s.Args[0].N, 10), 0, nil, nil, nil)
			}
			if n := len(out); n > 0 && s.Op == OLit && out[n-1].Op == OLit {
				out[n-1] = mk(OLit, out[n-1].S+s.S, 0, nil, nil, nil)
				continue
			}
			// the bytes of a number, one by one or some at a time
			if v, lo, w := bytesOf(s); w > 0 && lo == 0 {
				best, from := int64(0), 0
				sum := w
				for i := len(out) - 1; i >= 0 && sum < 8; i-- {
					u, l, n := bytesOf(out[i])
					if n == 0 || l != sum || stripWrap(u, sum+n) != stripWrap(v, sum+n) {
						break
					}
					sum += n
					if sum == 2 || sum == 4 || sum == 8 {
						best, from = sum, i
					}
				}
				if best > 0 {
					out = append(out[:from], mk(OBE, "", best, nil, nil, nil, stripWrap(v, best)))
					continue
				}
			}
			// adjacent pieces of the same whole
			if n := len(out); n > 0 && s.Op == OSub && out[n-1].Op == OSub && out[n-1].Args[0] == s.Args[0] && out[n-1].Args[2] == s.Args[1] {
				out[n-1] = mkSub(s.Args[0], out[n-1].Args[1], s.Args[2])
				continue
			}
			out = append(out, s)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OStr, "", 0, nil, nil, nil, out...)
}

// bytesOf: the segment is the w bytes of v that begin with byte lo, the highest first.
func bytesOf(x *Term) (v *Term, lo, w int64) {
	switch x.Op {
	case OByte:
		v, lo = byteIndex(x.Args[0])
		return v, lo, 1
	case OBE:
		v, lo = byteIndex2(stripWrap(x.Args[0], x.N))
		return v, lo, x.N
	}
	return nil, 0, 0
}

// byteIndex: x is byte k (the lowest is 0) of v.
func byteIndex(x *Term) (v *Term, k int64) {
	return byteIndex2(stripWrap(x, 1))
}

func byteIndex2(x *Term) (v *Term, k int64) {
	if x.Op != OApp {
		return x, 0
	}
	switch {
	case x.S == "byteof":
		return x.Args[0], x.Args[1].N
	case x.S == "div" && x.Args[1].isConst():
		for k := int64(1); k < 8; k++ {
			if x.Args[1].N == 1<<uint(8*k) {
				return x.Args[0], k
			}
		}
	case strings.HasPrefix(x.S, ">>") && len(x.Args) == 1:
		if n, err := strconv.ParseInt(x.S[2:], 10, 64); err == nil && n%8 == 0 && n < 64 {
			return x.Args[0], n / 8
		}
	}
	return x, 0
}

// stripWrap: the lowest n bytes are those of x.
func stripWrap(x *Term, n int64) *Term {
	for x.Op == OWrap && typeBytes(x.T) >= n {
		x = x.Args[0]
	}
	return x
}

// A byteRef is one byte of a number: a constant, byte idx of the term src (0 is the lowest) or the byte of the
// string str at off.
type byteRef struct {
	src *Term
	idx int64
	str *Term
	off *Term
}

func (b byteRef) zero() bool { return b.src == nil && b.str == nil && b.idx == 0 }

// byteVec is the lowest n bytes of x, the lowest first.
func (s *State) byteVec(x *Term, n int64) []byteRef {
	out := make([]byteRef, n)
	if v, ok := bigVal(x); ok {
		m := new(mbig.Int).Set(v)
		if m.Sign() < 0 {
			m.Add(m, new(mbig.Int).Lsh(mbig.NewInt(1), 64))
		}
		u := m.Uint64()
		for k := range out {
			out[k].idx = int64(u >> uint(8*k) & 0xff)
		}
		return out
	}
	plain := func() []byteRef {
		w := n
		if s.cons.entails(neg(x)) {
			for w > 1 && w < 9 && s.cons.entails(AddC(x, -(1<<uint(8*(w-1))-1))) {
				w--
			}
		}
		for k := int64(0); k < w; k++ {
			out[k] = byteRef{src: x, idx: k}
		}
		return out
	}
	unsigned := func(t types.Type) bool {
		lo, _, _ := typeLimits(t)
		return lo == 0
	}
	switch {
	case x.Op == OWrap:
		m := typeBytes(x.T)
		if n <= m {
			return s.byteVec(x.Args[0], n)
		}
		if !unsigned(x.T) || m == 0 {
			return plain()
		}
		copy(out, s.byteVec(x.Args[0], m))
		return out
	case x.Op != OApp:
	case strings.HasPrefix(x.S, "<<") && len(x.Args) == 1 && x.T != nil:
		k, err := strconv.ParseInt(x.S[2:], 10, 64)
		m := typeBytes(x.T)
		if err != nil || k%8 != 0 || k >= 64 || m == 0 || n > m && !unsigned(x.T) {
			return plain()
		}
		k /= 8
		if m = min(m, n); m > k {
			copy(out[k:], s.byteVec(x.Args[0], m-k))
		}
		return out
	case x.S == "arith|":
		if v := mergeBytes(s.byteVec(x.Args[0], n), s.byteVec(x.Args[1], n)); v != nil {
			return v
		}
		return plain()
	case x.S == "byteof":
		copy(out, s.byteVec(x.Args[0], x.Args[1].N+1)[x.Args[1].N:])
		return out
	case x.S == "byteat":
		out[0] = byteRef{str: x.Args[0], off: x.Args[1]}
		return out
	case len(x.Args) == 1 && (x.S == "be16" || x.S == "be32" || x.S == "be64"):
		w := map[string]int64{"be16": 2, "be32": 4, "be64": 8}[x.S]
		for k := int64(0); k < min(n, w); k++ {
			out[k] = byteRef{str: x.Args[0], off: Int(w - 1 - k)}
			if p := x.Args[0]; p.Op == OSub {
				out[k] = byteRef{str: p.Args[0], off: AddC(p.Args[1], w-1-k)}
			}
		}
		return out
	default:
		v, k := byteIndex(x)
		if k == 0 || !s.cons.entails(neg(v)) && (x.T == nil || !unsigned(x.T)) {
			return plain()
		}
		copy(out, s.byteVec(v, min(8, n+k))[k:])
		return out
	}
	return plain()
}

// mergeBytes: two numbers no byte of which overlaps.
func mergeBytes(a, b []byteRef) []byteRef {
	out := make([]byteRef, len(a))
	for k := range a {
		switch {
		case b[k].zero():
			out[k] = a[k]
		case a[k].zero():
			out[k] = b[k]
		default:
			return nil
		}
	}
	return out
}

// combineBytes: shifted bytes that are put together again.
func combineBytes(s *State, t types.Type, parts ...*Term) *Term {
	n := typeBytes(t)
	if n <= 1 {
		return nil
	}
	v := make([]byteRef, n)
	for _, p := range parts {
		if v = mergeBytes(v, s.byteVec(p, n)); v == nil {
			return nil
		}
	}
	w := n
	for w > 0 && v[w-1].zero() {
		w--
	}
	if w == 0 {
		return tZero
	}
	same, all, str, le := true, true, true, true
	for k := int64(0); k < w; k++ {
		b := v[k]
		all = all && b.src == nil && b.str == nil
		same = same && b.src != nil && b.src == v[0].src && b.idx == v[0].idx+k
		str = str && b.str != nil && b.str == v[0].str && s.cons.entailsEq(Sub2(b.off, AddC(v[0].off, -k)))
		le = le && b.str != nil && b.str == v[0].str && s.cons.entailsEq(Sub2(b.off, AddC(v[0].off, k)))
	}
	switch {
	case all:
		var u uint64
		for k := int64(0); k < w; k++ {
			u |= uint64(v[k].idx) << uint(8*k)
		}
		return s.wrap(bigConst(u, types.Typ[types.Uint64]), t)
	case same:
		src := v[0].src
		if k := v[0].idx; k > 0 {
			if src = s.divide(src, Int(1<<uint(8*k)), types.Typ[types.Uint64]); src == nil {
				return nil
			}
		}
		switch w {
		case 1, 2, 4, 8:
			return s.wrap(s.wrap(src, uintOf(w)), t)
		}
		if s.cons.entails(neg(src)) && s.cons.entails(AddC(src, -(1<<uint(8*w)-1))) {
			return s.wrap(src, t)
		}
		return nil
	case w != 2 && w != 4 && w != 8:
		return nil
	case str:
		return s.wrap(s.decodeInt(s.slice(v[0].str, AddC(v[0].off, 1-w), AddC(v[0].off, 1)), w, true, uintOf(w)), t)
	case le:
		return s.wrap(s.decodeInt(s.slice(v[0].str, v[0].off, AddC(v[0].off, w)), w, false, uintOf(w)), t)
	}
	return nil
}

func mkSub(base, lo, hi *Term) *Term {
	if lo == hi {
		return tEmpty
	}
	if lo.constIs(0) && hi == StrLen(base) {
		return base
	}
	return mk(OSub, "", 0, nil, nil, nil, base, lo, hi)
}

func Dec(x *Term) *Term           { return Cat(mk(ODec, "", 0, nil, nil, nil, x)) }
func BE(n int64, x *Term) *Term   { return Cat(mk(OBE, "", n, nil, nil, nil, x)) }
func LE(n int64, x *Term) *Term   { return Cat(mk(OLE, "", n, nil, nil, nil, x)) }
func ByteSeg(x *Term) *Term       { return Cat(mk(OByte, "", 0, nil, nil, nil, x)) }
func Zeros(n *Term) *Term         { return Cat(mk(OZeros, "", 0, nil, nil, nil, n)) }
func Rep(t, n *Term) *Term        { return Cat(mk(ORep, "", 0, nil, nil, nil, t, n)) }
func JoinT(list, sep *Term) *Term { return mk(OJoin, "", 0, nil, nil, nil, list, sep) }

// StrLen is the length of a string-valued term.
func StrLen(t *Term) *Term {
	var l linAcc
	l.m = map[*Term]int64{}
	for _, s := range segs(t) {
		switch s.Op {
		case OLit:
			l.c += int64(len(s.S))
		case OBE, OLE:
			l.c += s.N
		case OByte:
			l.c++
		case OZeros:
			l.add(s.Args[0], 1)
		case OSub:
			l.add(s.Args[2], 1)
			l.add(s.Args[1], -1)
		default:
			l.add(mk(OLen, "", 0, nil, nil, nil, s), 1)
		}
	}
	return l.term()
}

// constStr returns the constant a string-valued term denotes.
func constStr(t *Term) (string, bool) {
	switch t.Op {
	case OStr:
		if len(t.Args) == 0 {
			return "", true
		}
	case OLit:
		return t.S, true
	}
	return "", false
}

// charOK reports whether every byte of a segment is known to satisfy f.
func segAll(s *Term, f func(b byte) bool) bool {
	switch s.Op {
	case OLit:
		for i := 0; i < len(s.S); i++ {
			if !f(s.S[i]) {
				return false
			}
		}
		return true
	case ODec:
		for _, c := range []byte("0123456789") {
			if !f(c) {
				return false
			}
		}
		return nonNeg(s.Args[0]) || f('-')
	case OSym:
		if s.sym != nil && s.sym.Charset != nil {
			for c := 0; c < 256; c++ {
				if s.sym.Charset(byte(c)) && !f(byte(c)) {
					return false
				}
			}
			return true
		}
	case OSub:
		if s.Args[0].Op == OSym {
			return segAll(s.Args[0], f)
		}
	}
	return false
}

func nonNeg(t *Term) bool {
	lo, ok, _, _ := termRange(t)
	return ok && lo >= 0
}

func segMinLen(s *Term) int64 {
	switch s.Op {
	case OLit:
		return int64(len(s.S))
	case ODec:
		return 1
	case OBE, OLE:
		return s.N
	case OByte:
		return 1
	case OSym:
		if s.sym != nil {
			return s.sym.MinLen
		}
	}
	return 0
}

// ---- ranges of atoms ----

func basicRange(t types.Type) (lo int64, okLo bool, hi int64, okHi bool) {
	if t == nil {
		return
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, true, 255, true
	case types.Uint16:
		return 0, true, 65535, true
	case types.Uint32:
		return 0, true, 1<<32 - 1, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, true, 0, false
	case types.Int8:
		return -128, true, 127, true
	case types.Int16:
		return -32768, true, 32767, true
	case types.Int32:
		return -1 << 31, true, 1<<31 - 1, true
	}
	return
}

// termRange gives bounds of an integer term that hold in every state.
func termRange(t *Term) (lo int64, okLo bool, hi int64, okHi bool) {
	switch t.Op {
	case OInt:
		lo, hi, okLo, okHi = t.N, t.N, true, true
		for i, a := range t.Args {
			l, ol, h, oh := termRange(a)
			k := t.Coef[i]
			if k < 0 {
				l, h, ol, oh = h, l, oh, ol
			}
			if ol {
				if p, ok := mulOv(l, k); ok {
					if lo, ok = addOv(lo, p); !ok {
						okLo = false
					}
				} else {
					okLo = false
				}
			} else {
				okLo = false
			}
			if oh {
				if p, ok := mulOv(h, k); ok {
					if hi, ok = addOv(hi, p); !ok {
						okHi = false
					}
				} else {
					okHi = false
				}
			} else {
				okHi = false
			}
		}
		return
	case OLen:
		lo, okLo = 0, true
		hi, okHi = 1<<40, true // no object is larger
		if s := t.Args[0]; s.Op == OSym && s.sym != nil {
			lo = s.sym.MinLen
			if s.sym.MaxLen > 0 {
				hi = s.sym.MaxLen
			}
		} else if s.Op == ODec {
			lo = 1
			hi = 20
		}
		return
	case OSym:
		lo, okLo, hi, okHi = basicRange(t.T)
		if t.sym != nil {
			if t.sym.HasLo {
				lo, okLo = t.sym.Lo, true
			}
			if t.sym.HasHi {
				hi, okHi = t.sym.Hi, true
			}
		}
		return
	case OWrap:
		return basicRange(t.T)
	case OApp:
		if t.S == "byteat" {
			return 0, true, 255, true
		}
		if t.S == "div" && t.Args[1].isConst() && t.Args[1].N > 0 {
			b := t.Args[1].N
			lo, okLo, hi, okHi = termRange(t.Args[0])
			return lo / b, okLo, hi / b, okHi
		}
		return basicRange(t.T)
	}
	return
}

// ---- printing ----

func (t *Term) String() string {
	if t == nil {
		return "<none>"
	}
	switch t.Op {
	case OInt:
		var sb strings.Builder
		for i, a := range t.Args {
			k := t.Coef[i]
			switch {
			case k == 1 && sb.Len() > 0:
				sb.WriteString("+")
			case k == -1:
				sb.WriteString("-")
			case k != 1:
				fmt.Fprintf(&sb, "%+d*", k)
			}
			sb.WriteString(a.String())
		}
		if t.N != 0 || sb.Len() == 0 {
			if sb.Len() > 0 && t.N > 0 {
				sb.WriteString("+")
			}
			fmt.Fprintf(&sb, "%d", t.N)
		}
		return sb.String()
	case OBool:
		return strconv.FormatBool(t.N == 1)
	case ONil:
		return "nil"
	case OSym:
		return t.S
	case OStr:
		var p []string
		for _, a := range t.Args {
			p = append(p, a.String())
		}
		if len(p) == 0 {
			return `""`
		}
		return strings.Join(p, "·")
	case OLit:
		return strconv.Quote(t.S)
	case ODec:
		return "dec(" + t.Args[0].String() + ")"
	case OBE:
		return fmt.Sprintf("be%d(%s)", t.N*8, t.Args[0])
	case OLE:
		return fmt.Sprintf("le%d(%s)", t.N*8, t.Args[0])
	case OByte:
		return "byte(" + t.Args[0].String() + ")"
	case OObj:
		return "&" + t.S
	case OPtr:
		s := t.Args[0].String() + "." + t.S
		for _, a := range t.Args[1:] {
			s += "[" + a.String() + "]"
		}
		return s
	case OIface:
		return types.TypeString(t.T, func(p *types.Package) string { return p.Name() }) + "(" + t.Args[0].String() + ")"
	case OFn:
		return "func " + t.F.Name()
	case OLe0:
		return t.Args[0].String() + "<=0"
	case OEq0:
		return t.Args[0].String() + "==0"
	case ONot:
		return "!" + t.Args[0].String()
	case OFloat:
		return t.S
	}
	n := opNames[t.Op]
	if t.Op == OApp {
		n = t.S
	}
	if n == "" {
		n = fmt.Sprintf("op%d", t.Op)
	}
	var p []string
	for _, a := range t.Args {
		p = append(p, a.String())
	}
	return n + "(" + strings.Join(p, ",") + ")"
}

// mentions calls f for every subterm.
func (t *Term) walk(f func(*Term) bool) {
	if !f(t) {
		return
	}
	for _, a := range t.Args {
		a.walk(f)
	}
}

// subst replaces terms according to m, rebuilding canonical forms.
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	changed := false
	for i, a := range t.Args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		switch t.Op {
		case OInt:
			var l linAcc
			l.c = t.N
			for i, a := range args {
				l.add(a, t.Coef[i])
			}
			r = l.term()
			if r == nil {
				r = App("overflow", args...)
			}
		case OStr:
			r = Cat(args...)
		case ODec, OBE, OLE, OByte, OZeros, ORep:
			r = Cat(mk(t.Op, t.S, t.N, t.T, t.F, nil, args...))
		case OSub:
			r = mkSub(args[0], args[1], args[2])
		case OLen:
			if isStrTerm(args[0]) {
				r = StrLen(args[0])
			} else {
				r = mk(t.Op, t.S, t.N, t.T, t.F, nil, args...)
			}
		default:
			r = mk(t.Op, t.S, t.N, t.T, t.F, t.Coef, args...)
		}
	}
	memo[t] = r
	return r
}

func isStrTerm(t *Term) bool {
	switch t.Op {
	case OStr, OLit, ODec, OBE, OLE, OByte, OSub, OZeros, OJoin, ORep:
		return true
	case OSym, OApp:
		if t.T == nil {
			return false
		}
		b, ok := t.T.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	return false
}

// typeBytes is the size of an integer type.
func typeBytes(t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return 1
	case types.Uint16, types.Int16:
		return 2
	case types.Uint32, types.Int32, types.UntypedRune:
		return 4
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 8
	}
	return 0
}
