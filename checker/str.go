package main

import (
	"go/types"
	"strings"
)

// Operations on structured strings in a state.

type segPos struct {
	seg        *Term
	start, end *Term
}

func positions(t *Term) []segPos {
	var r []segPos
	p := tZero
	for _, g := range segs(t) {
		e := Add(p, StrLen(g))
		r = append(r, segPos{g, p, e})
		p = e
	}
	return r
}

// segSlice cuts a single segment at offsets relative to it.
func (s *State) segSlice(g, lo, hi *Term) *Term {
	if lo == hi {
		return tEmpty
	}
	n := StrLen(g)
	if lo.constIs(0) && (hi == n || s.cons.entailsEq(Sub2(hi, n))) {
		return g
	}
	switch g.Op {
	case OLit:
		if lo.isConst() && hi.isConst() && lo.N >= 0 && hi.N <= int64(len(g.S)) && lo.N <= hi.N {
			return Lit(g.S[lo.N:hi.N])
		}
	case OZeros:
		return Zeros(Sub2(hi, lo))
	case OSub:
		return mkSub(g.Args[0], Add(g.Args[1], lo), Add(g.Args[1], hi))
	case OBE:
		if lo.isConst() && hi.isConst() {
			// the low order bytes of a big endian number
			if hi.N == g.N && lo.N >= 0 && lo.N < hi.N {
				return BE(hi.N-lo.N, App("lowbytes", Int(hi.N-lo.N), g.Args[0]))
			}
		}
	}
	return mkSub(g, lo, hi)
}

// slice returns t[lo:hi]. The bounds are known to be in range.
func (s *State) slice(t, lo, hi *Term) *Term {
	if lo == hi {
		return tEmpty
	}
	ps := positions(t)
	if len(ps) == 0 {
		return tEmpty
	}
	le := func(a, b *Term) bool { return s.cons.entails(Sub2(a, b)) }
	// first segment: the last one whose start <= lo
	find := func(x *Term, isHi bool) (int, *Term, bool) {
		for i, p := range ps {
			if p.start == x || s.cons.entailsEq(Sub2(p.start, x)) {
				return i, tZero, true
			}
		}
		if last := ps[len(ps)-1]; last.end == x || s.cons.entailsEq(Sub2(last.end, x)) {
			return len(ps), tZero, true
		}
		for i, p := range ps {
			if le(p.start, x) && le(x, p.end) {
				return i, Sub2(x, p.start), true
			}
		}
		return 0, nil, false
	}
	i, lo2, ok1 := find(lo, false)
	j, hi2, ok2 := find(hi, true)
	if !ok1 || !ok2 {
		if len(ps) == 1 {
			return s.segSlice(ps[0].seg, lo, hi)
		}
		return mkSub(t, lo, hi)
	}
	if i > j || (i == j && i == len(ps)) {
		return tEmpty
	}
	if i == j {
		if lo2 == hi2 {
			return tEmpty
		}
		return Cat(s.segSlice(ps[i].seg, lo2, hi2))
	}
	var out []*Term
	out = append(out, s.segSlice(ps[i].seg, lo2, StrLen(ps[i].seg)))
	for k := i + 1; k < j; k++ {
		out = append(out, ps[k].seg)
	}
	if j < len(ps) && !hi2.constIs(0) {
		out = append(out, s.segSlice(ps[j].seg, tZero, hi2))
	}
	return Cat(out...)
}

// byteAt returns byte idx of t, or nil if the segment it is in is not known.
func (s *State) byteAt(t, idx *Term) *Term {
	ps := positions(t)
	for _, p := range ps {
		off := Sub2(idx, p.start)
		if p.seg.Op == OByte && (off.constIs(0) || s.cons.entailsEq(off)) {
			return p.seg.Args[0]
		}
		if p.seg.Op == OLit {
			if off.isConst() {
				if off.N >= 0 && off.N < int64(len(p.seg.S)) {
					return Int(int64(p.seg.S[off.N]))
				}
				continue
			}
			for k := 0; k < len(p.seg.S); k++ {
				if s.cons.entailsEq(AddC(off, int64(-k))) {
					return Int(int64(p.seg.S[k]))
				}
			}
			continue
		}
		n := StrLen(p.seg)
		if s.cons.entails(neg(off)) && s.cons.entails(AddC(Sub2(off, n), 1)) {
			switch p.seg.Op {
			case OZeros:
				return tZero
			case OBE:
				if off.isConst() {
					if off.N == p.seg.N-1 {
						return s.wrap(p.seg.Args[0], types.Typ[types.Uint8])
					}
					k := p.seg.N - 1 - off.N
					if b := s.byteVec(p.seg.Args[0], k+1)[k]; b.src == nil && b.str == nil {
						return Int(b.idx)
					}
					return AppT("byteof", types.Typ[types.Uint8], p.seg.Args[0], Int(k))
				}
			case OLE:
				if off.isConst() && off.N == 0 {
					return s.wrap(p.seg.Args[0], types.Typ[types.Uint8])
				}
			}
			return s.symByte(p.seg, off)
		}
	}
	if len(ps) == 1 && ps[0].seg.Op != OLit {
		return s.symByte(ps[0].seg, idx)
	}
	return nil
}

func (s *State) symByte(g, off *Term) *Term {
	if g.Op == OSub {
		return s.symByte(g.Args[0], Add(off, g.Args[1]))
	}
	if g.Op == OStr {
		if b := s.byteAt(g, off); b != nil {
			return b
		}
	}
	off = s.canonIdx(g, off, tZero)
	b := AppT("byteat", types.Typ[types.Uint8], g, off)
	// what is known about the bytes of the segment
	var okb [256]bool
	for c := 0; c < 256; c++ {
		okb[c] = segMay(g, byte(c))
	}
	s.assumeByteSet(b, okb)
	return b
}

// segMay reports whether a byte of the segment may have the value c.
func segMay(g *Term, c byte) bool {
	switch g.Op {
	case OLit:
		return strings.IndexByte(g.S, c) >= 0
	case ODec:
		return c >= '0' && c <= '9' || c == '-' && !nonNeg(g.Args[0])
	case OSym:
		if g.sym != nil && g.sym.Charset != nil {
			return g.sym.Charset(c)
		}
	case OSub:
		if g.Args[0].Op != OStr {
			return segMay(g.Args[0], c)
		}
		for _, x := range segs(g.Args[0]) {
			if segMay(x, c) {
				return true
			}
		}
		return false
	case OZeros:
		return c == 0
	case ORep:
		for _, x := range segs(g.Args[0]) {
			if segMay(x, c) {
				return true
			}
		}
		return false
	case OJoin:
		for _, x := range segs(g.Args[1]) {
			if segMay(x, c) {
				return true
			}
		}
		if g.Args[0].sym != nil && g.Args[0].sym.Charset != nil {
			return g.Args[0].sym.Charset(c)
		}
	case OApp:
		if g.S == "elem" && g.Args[0].sym != nil && g.Args[0].sym.Charset != nil {
			return g.Args[0].sym.Charset(c)
		}
	}
	return true
}

func strMay(t *Term, c byte) bool {
	for _, g := range segs(t) {
		if segMay(g, c) {
			return true
		}
	}
	return false
}

// segMay with what the state knows about vetted strings.
func (s *State) may(g *Term, c byte) bool {
	if !segMay(g, c) {
		return false
	}
	b := g
	if b.Op == OSub && b.Args[0].Op != OStr {
		b = b.Args[0]
	}
	if v, ok := s.vet[b]; ok && s.cons.entails(Sub2(StrLen(b), v.n)) {
		return v.set[c]
	}
	if st, ok := s.elemFacts(b); ok && st[c] == false {
		return false
	}
	return true
}

// elemFacts: byte set known for every element of a list of strings.
func (s *State) elemFacts(g *Term) ([256]bool, bool) {
	var all [256]bool
	if g.Op == OApp && g.S == "elem" {
		if v, ok := s.vet[App("elems", g.Args[0])]; ok {
			// elements [0,n) are vetted
			if s.cons.entails(AddC(Sub2(g.Args[1], v.n), 1)) {
				return v.set, true
			}
		}
	}
	return all, false
}

func (s *State) assumeByteSet(b *Term, set [256]bool) {
	if b.isConst() {
		return
	}
	lo, hi := 0, 255
	for lo < 256 && !set[lo] {
		lo++
	}
	for hi >= 0 && !set[hi] {
		hi--
	}
	if lo > hi {
		s.dead = true
		return
	}
	if lo > 0 {
		s.assume(Le0(Sub2(Int(int64(lo)), b)), true)
	}
	if hi < 255 {
		s.assume(Le0(Sub2(b, Int(int64(hi)))), true)
	}
	holes := 0
	for c := lo; c <= hi; c++ {
		if !set[c] {
			holes++
			if holes <= 8 {
				s.assume(EqInt(b, Int(int64(c))), false)
			}
		}
	}
}

// bytePositions gives alternatives (constraints) for the position idx in t.
func (s *State) bytePositions(t, idx *Term) [][]*Term {
	var r [][]*Term
	for _, p := range positions(t) {
		if p.seg.Op == OLit && len(p.seg.S) <= 64 {
			for k := range p.seg.S {
				d := Sub2(idx, AddC(p.start, int64(k)))
				if s.cons.feasible(d, neg(d)) {
					r = append(r, []*Term{d, neg(d)})
				}
			}
			continue
		}
		c := []*Term{Sub2(p.start, idx), AddC(Sub2(idx, p.end), 1)}
		if s.cons.feasible(c...) {
			r = append(r, c)
		}
	}
	return r
}

// replaceBytes returns t with [lo,hi) replaced by v of the same length.
func (s *State) replaceBytes(t, lo, hi, v *Term) (*Term, bool) {
	n := StrLen(t)
	a := s.slice(t, tZero, lo)
	c := s.slice(t, hi, n)
	return Cat(a, v, c), true
}

// ---- comparison ----

func lenBounds(g *Term) (int64, int64, bool) {
	lo, _, hi, okHi := termRange(StrLen(g))
	if lo < 0 {
		lo = 0
	}
	return lo, hi, okHi && hi < 1<<30
}

// stripCommon removes equal segments and literal prefixes and suffixes. differ is set if the strings can not be equal.
func (s *State) stripCommon(a, b []*Term) (ra, rb []*Term, differ bool) {
	for len(a) > 0 && len(b) > 0 {
		x, y := a[0], b[0]
		if x == y {
			a, b = a[1:], b[1:]
			continue
		}
		if x.Op == OLit && y.Op == OLit {
			n := len(x.S)
			if len(y.S) < n {
				n = len(y.S)
			}
			if x.S[:n] != y.S[:n] {
				return a, b, true
			}
			a, b = a[1:], b[1:]
			if len(x.S) > n {
				a = append([]*Term{mk(OLit, x.S[n:], 0, nil, nil, nil)}, a...)
			}
			if len(y.S) > n {
				b = append([]*Term{mk(OLit, y.S[n:], 0, nil, nil, nil)}, b...)
			}
			continue
		}
		if x.Op == OLit || y.Op == OLit {
			l, o, rest := x, y, b[1:]
			if y.Op == OLit {
				l, o, rest = y, x, a[1:]
			}
			// may o start with the first byte of l?
			lo, _, _ := lenBounds(o)
			if lo > 0 && !s.mayFirst(o, l.S[0]) {
				return a, b, true
			}
			if lo == 0 && !s.mayFirst(o, l.S[0]) && len(rest) == 0 {
				// o must be empty, and then l remains
				return a, b, true
			}
			for _, np := range notPrefixes(o, len(rest) == 0) {
				if strings.HasPrefix(l.S, np) {
					return a, b, true
				}
			}
		}
		break
	}
	for len(a) > 0 && len(b) > 0 {
		x, y := a[len(a)-1], b[len(b)-1]
		if x == y {
			a, b = a[:len(a)-1], b[:len(b)-1]
			continue
		}
		if x.Op == OLit && y.Op == OLit {
			n := len(x.S)
			if len(y.S) < n {
				n = len(y.S)
			}
			if x.S[len(x.S)-n:] != y.S[len(y.S)-n:] {
				return a, b, true
			}
			a, b = append([]*Term{}, a[:len(a)-1]...), append([]*Term{}, b[:len(b)-1]...)
			if len(x.S) > n {
				a = append(a, mk(OLit, x.S[:len(x.S)-n], 0, nil, nil, nil))
			}
			if len(y.S) > n {
				b = append(b, mk(OLit, y.S[:len(y.S)-n], 0, nil, nil, nil))
			}
			continue
		}
		if x.Op == OLit || y.Op == OLit {
			l, o := x, y
			if y.Op == OLit {
				l, o = y, x
			}
			lo, _, _ := lenBounds(o)
			if lo > 0 && !s.may(o, l.S[len(l.S)-1]) {
				return a, b, true
			}
		}
		break
	}
	return a, b, false
}

func (s *State) mayFirst(g *Term, c byte) bool {
	if g.Op == OApp && g.S == "elem" || g.Op == OSym || g.Op == OSub || g.Op == ODec {
		return s.may(g, c)
	}
	return s.may(g, c)
}

// mkStrEq builds a == b for strings, simplified structurally.
func mkStrEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	x, ok1 := constStr(a)
	y, ok2 := constStr(b)
	if ok1 && ok2 {
		return Bool(x == y)
	}
	if ok1 && x == "" {
		return EqInt(StrLen(b), tZero)
	}
	if ok2 && y == "" {
		return EqInt(StrLen(a), tZero)
	}
	if b.id < a.id {
		a, b = b, a
	}
	return mk(OStrEq, "", 0, nil, nil, nil, a, b)
}

func (s *State) decideStrEq(a, b *Term) int {
	if s.cons.entailsNe(Sub2(StrLen(a), StrLen(b))) {
		return 0
	}
	ra, rb, differ := s.stripCommon(segs(a), segs(b))
	if differ {
		return 0
	}
	if len(ra) == 0 && len(rb) == 0 {
		return 1
	}
	ca, cb := Cat(ra...), Cat(rb...)
	if s.cons.entailsNe(Sub2(StrLen(ca), StrLen(cb))) {
		return 0
	}
	if len(ra) == 0 && s.cons.entailsEq(StrLen(cb)) || len(rb) == 0 && s.cons.entailsEq(StrLen(ca)) {
		return 1
	}
	// a literal that contains a byte the other can not contain
	for i := 0; i < 2; i++ {
		if l, ok := constStr(ca); ok {
			for k := 0; k < len(l); k++ {
				may := false
				for _, g := range rb {
					if s.may(g, l[k]) {
						may = true
					}
				}
				if !may {
					return 0
				}
			}
			// different from a literal it is known to be equal to
			if len(rb) == 1 {
				for f, v := range s.facts {
					if v && f.Op == OStrEq && (f.Args[0] == rb[0] || f.Args[1] == rb[0]) {
						o := f.Args[0]
						if o == rb[0] {
							o = f.Args[1]
						}
						if x, ok := constStr(o); ok {
							if x == l {
								return 1
							}
							return 0
						}
					}
				}
				if rb[0].Op == ODec && l != "" {
					// decimal: equal numbers
					if n, ok := parseCanon(l); ok {
						return s.decide(EqInt(rb[0].Args[0], Int(n)))
					}
					return 0
				}
			}
		}
		ra, rb, ca, cb = rb, ra, cb, ca
	}
	if ca != a || cb != b {
		q := mkStrEq(ca, cb)
		if q.Op == OStrEq {
			if v, ok := s.facts[q]; ok {
				if v {
					return 1
				}
				return 0
			}
		} else {
			return s.decide(q)
		}
	}
	if len(ra) == 1 && len(rb) == 1 && ra[0].Op == rb[0].Op && ra[0].N == rb[0].N && (ra[0].Op == ODec || ra[0].Op == OBE) {
		return s.decide(EqInt(ra[0].Args[0], rb[0].Args[0]))
	}
	return -1
}

func parseCanon(l string) (int64, bool) {
	if len(l) == 0 || len(l) > 18 || (l[0] == '0' && len(l) > 1) {
		return 0, false
	}
	var n int64
	for i := 0; i < len(l); i++ {
		if l[i] < '0' || l[i] > '9' {
			return 0, false
		}
		n = n*10 + int64(l[i]-'0')
	}
	return n, true
}

func mkPrefix(x, p *Term) *Term {
	if l, ok := constStr(p); ok {
		if l == "" {
			return tTrue
		}
		if c, ok := constStr(x); ok {
			return Bool(strings.HasPrefix(c, l))
		}
	}
	return mk(OPrefix, "", 0, nil, nil, nil, x, p)
}
func mkSuffix(x, p *Term) *Term {
	if l, ok := constStr(p); ok {
		if l == "" {
			return tTrue
		}
		if c, ok := constStr(x); ok {
			return Bool(strings.HasSuffix(c, l))
		}
	}
	return mk(OSuffix, "", 0, nil, nil, nil, x, p)
}

func (s *State) decidePrefix(x, p *Term) int {
	if s.cons.entails(AddC(Sub2(StrLen(x), StrLen(p)), 1)) {
		return 0
	}
	a, b := segs(x), segs(p)
	for len(a) > 0 && len(b) > 0 {
		if a[0] == b[0] {
			a, b = a[1:], b[1:]
			continue
		}
		if a[0].Op == OLit && b[0].Op == OLit {
			n := len(a[0].S)
			if len(b[0].S) < n {
				n = len(b[0].S)
			}
			if a[0].S[:n] != b[0].S[:n] {
				return 0
			}
			x, y := a[0].S, b[0].S
			a, b = a[1:], b[1:]
			if len(x) > n {
				a = append([]*Term{mk(OLit, x[n:], 0, nil, nil, nil)}, a...)
			}
			if len(y) > n {
				b = append([]*Term{mk(OLit, y[n:], 0, nil, nil, nil)}, b...)
			}
			continue
		}
		break
	}
	if len(b) == 0 {
		return 1
	}
	if len(a) == 0 {
		return 0
	}
	if b[0].Op == OLit {
		g := a[0]
		lo, _, _ := lenBounds(g)
		if !s.mayFirst(g, b[0].S[0]) && (lo > 0 || len(a) == 1) {
			return 0
		}
		if lo == 0 && !s.mayFirst(g, b[0].S[0]) {
			// g is empty, or the first byte differs
			if s.decidePrefix(Cat(a[1:]...), Cat(b...)) == 0 {
				return 0
			}
		}
		for _, np := range notPrefixes(g, len(a) == 1) {
			if strings.HasPrefix(b[0].S, np) {
				return 0
			}
		}
		// bytes that the segments can not contain
		if len(a) == 1 {
			for k := 0; k < len(b[0].S); k++ {
				if !s.may(g, b[0].S[k]) {
					return 0
				}
			}
		} else if g.sym != nil && a[1].Op == OLit {
			// literal must end inside g or run into the following literal
			l := b[0].S
			ok := false
			for k := 0; k <= len(l) && !ok; k++ {
				if k > 0 && !s.may(g, l[k-1]) {
					break
				}
				rest := l[k:]
				if rest == "" || strings.HasPrefix(a[1].S, rest) || strings.HasPrefix(rest, a[1].S) {
					ok = true
				}
			}
			if !ok {
				return 0
			}
		}
		// known prefixes
		for f, v := range s.facts {
			if v && f.Op == OPrefix && f.Args[0] == Cat(a...) {
				if l, ok := constStr(f.Args[1]); ok {
					if strings.HasPrefix(l, b[0].S) {
						return 1
					}
					if !strings.HasPrefix(b[0].S, l) {
						return 0
					}
				}
			}
			if v && f.Op == OStrEq && len(a) == 1 && (f.Args[0] == g || f.Args[1] == g) {
				o := f.Args[0]
				if o == g {
					o = f.Args[1]
				}
				if l, ok := constStr(o); ok {
					return b2i(strings.HasPrefix(l, b[0].S))
				}
			}
		}
	}
	return -1
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (s *State) decideSuffix(x, p *Term) int {
	if s.cons.entails(AddC(Sub2(StrLen(x), StrLen(p)), 1)) {
		return 0
	}
	a, b := segs(x), segs(p)
	for len(a) > 0 && len(b) > 0 {
		la, lb := a[len(a)-1], b[len(b)-1]
		if la == lb {
			a, b = a[:len(a)-1], b[:len(b)-1]
			continue
		}
		if la.Op == OLit && lb.Op == OLit {
			n := len(la.S)
			if len(lb.S) < n {
				n = len(lb.S)
			}
			if la.S[len(la.S)-n:] != lb.S[len(lb.S)-n:] {
				return 0
			}
			a, b = append([]*Term{}, a[:len(a)-1]...), append([]*Term{}, b[:len(b)-1]...)
			if len(la.S) > n {
				a = append(a, mk(OLit, la.S[:len(la.S)-n], 0, nil, nil, nil))
			}
			if len(lb.S) > n {
				b = append(b, mk(OLit, lb.S[:len(lb.S)-n], 0, nil, nil, nil))
			}
			continue
		}
		break
	}
	if len(b) == 0 {
		return 1
	}
	if len(a) == 0 {
		return 0
	}
	if lb := b[len(b)-1]; lb.Op == OLit {
		g := a[len(a)-1]
		if !s.may(g, lb.S[len(lb.S)-1]) {
			if lo, _, _ := lenBounds(g); lo > 0 || len(a) == 1 {
				return 0
			}
			if s.decideSuffix(Cat(a[:len(a)-1]...), Cat(b...)) == 0 {
				return 0
			}
		}
	}
	return -1
}

// indexByte finds the first c in t: (offset, 1), none (nil, 0), or unknown (nil, -1).
func (s *State) indexByte(t *Term, c byte) (*Term, int) {
	p := tZero
	for _, g := range segs(t) {
		if g.Op == OLit {
			if k := strings.IndexByte(g.S, c); k >= 0 {
				return AddC(p, int64(k)), 1
			}
		} else if s.may(g, c) {
			if g.Op == OByte && g.Args[0].isConst() && byte(g.Args[0].N) == c {
				return p, 1
			}
			return nil, -1
		}
		p = Add(p, StrLen(g))
	}
	return nil, 0
}

// splitPieces splits t at a one-byte separator. The result is a list of pieces; a piece with star is a run.
func (s *State) splitPieces(t *Term, sep byte) ([]LSeg, bool) {
	var out []LSeg
	var cur []*Term
	afterStar := false
	flush := func() {
		if afterStar && len(cur) == 0 {
			afterStar = false
			return
		}
		out = append(out, LSeg{Elem: Cat(cur...)})
		cur = nil
	}
	for _, g := range segs(t) {
		switch {
		case g.Op == OLit:
			parts := strings.Split(g.S, string([]byte{sep}))
			for i, p := range parts {
				if i > 0 {
					flush()
				}
				if p != "" {
					if afterStar {
						return nil, false
					}
					cur = append(cur, Lit(p))
				}
			}
		case !s.may(g, sep):
			if afterStar {
				return nil, false
			}
			cur = append(cur, g)
		case g.Op == OJoin && g.Args[1] == Lit(string([]byte{sep})) && len(cur) == 0 && !afterStar:
			l := g.Args[0]
			if l.sym == nil || l.sym.Charset == nil || l.sym.Charset(sep) {
				return nil, false
			}
			out = append(out, LSeg{Star: &Star{id: l.S, base: l, n: lenAtom(l), off: tZero, T: types.Typ[types.String], input: true}})
			afterStar = true
		default:
			return nil, false
		}
	}
	if !afterStar {
		flush()
	}
	return out, true
}

// notPrefixes: what a segment is known not to start with. A whole string that is a start of another one
// does not start with what that one does not start with.
func notPrefixes(g *Term, whole bool) []string {
	for whole && g.Op == OSub && g.Args[1].constIs(0) {
		g = g.Args[0]
	}
	if g.sym == nil {
		return nil
	}
	return g.sym.NotPrefix
}
