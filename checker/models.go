package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode"
)

// Models of the standard library functions that the repository calls.

type modelFn func(e *Engine, s *State, c *call) []*State

var models map[string]modelFn

var (
	tString = types.Typ[types.String]
	tIntT   = types.Typ[types.Int]
	tBoolT  = types.Typ[types.Bool]
)

func (e *Engine) model(s *State, c *call) []*State {
	if !strings.HasPrefix(c.name, "invoke:") && !strings.HasPrefix(c.name, "call:") {
		e.event(s, &Event{Kind: "extcall", Pos: c.pos, S: c.name, Args: c.args, In: c.in})
	}
	if m, ok := models[c.name]; ok {
		return m(e, s, c)
	}
	if c.name == "call:value" || strings.HasPrefix(c.name, "invoke:") {
		if h, ok := e.callHooks[c.name]; ok {
			return h(e, s, c)
		}
		if h, ok := e.hooks.(interface {
			Unknown(e *Engine, s *State, c *call) ([]*State, bool)
		}); ok {
			if r, done := h.Unknown(e, s, c); done {
				return r
			}
		}
	}
	if c.name == "invoke:error.Error" {
		// messages of errors are less than 1 MiB
		return c.ret(s, Sym(s.newName("errmsg"), tString, &SymInfo{MaxLen: 1 << 20}))
	}
	for _, p := range pureUnknown {
		if strings.HasPrefix(c.name, p) {
			if v := c.sig.Results(); v.Len() == 0 {
				return c.ret(s, tUnit)
			}
			for _, q := range vagueResults {
				if strings.HasPrefix(c.name, q) {
					s.vague(c.pos, c.name+" is not modelled")
				}
			}
			return c.ret(s, e.unknownResult(s, c))
		}
	}
	s.vague(c.pos, c.name+" is not modelled")
	e.unmodelled[c.name]++
	// everything that can be reached from the arguments may change
	e.event(s, &Event{Kind: "unmodelled", Pos: c.pos, S: c.name, Args: c.args, In: c.in})
	e.havocArgs(s, c)
	return c.ret(s, e.unknownResult(s, c))
}

// functions without effects on the values the analysis follows
var pureUnknown = []string{"log.", "(*log.Logger).", "os.", "runtime.", "(time.Time).", "(time.Duration).", "time.", "unicode.", "context.", "math.", "(context.", "invoke:context.", "invoke:error.", "invoke:net.Addr.",
	"math/rand.", "(*math/rand.", "path.", "path/filepath.", "(reflect.", "reflect.", "hash/", "crypto/", "(*os.", "flag.", "unicode/utf8.", "math/bits.", "(*strings.Reader).Len", "slices.", "maps."}

// functions whose results say something about their arguments that the analysis does not know
var vagueResults = []string{"unicode/", "math/bits.", "slices.", "maps.", "hash/", "crypto/", "math.", "(reflect.", "reflect."}

func (e *Engine) havocArgs(s *State, c *call) {
	for _, a := range c.args {
		v := a
		if v.Op == OIface {
			v = v.Args[0]
		}
		switch v.Op {
		case OSlice:
			if o, p, ok := s.objOf(v.Args[0]); ok && !o.isList && o.origin != "global" {
				w := s.wr(o.id)
				w.cells[p] = s.unknownBytes(StrLen(s.content(o, p)))
			}
		case OPtr:
			if o, _, ok := s.objOf(v); ok && o.origin == "fresh" && o.ext == "" {
				w := s.wr(o.id)
				w.cells = map[string]*Term{}
				w.lazy = Sym(s.newName("havoc"), nil, &SymInfo{NonNil: true})
			}
		}
	}
}

func unicodePred(name string, r rune) bool {
	switch name {
	case "unicode.IsSpace":
		return unicode.IsSpace(r)
	case "unicode.IsControl":
		return unicode.IsControl(r)
	case "unicode.IsPrint":
		return unicode.IsPrint(r)
	case "unicode.IsGraphic":
		return unicode.IsGraphic(r)
	case "unicode.IsDigit":
		return unicode.IsDigit(r)
	case "unicode.IsLetter":
		return unicode.IsLetter(r)
	}
	return false
}

// ---- helpers ----

func (s *State) freshErr(name string) *Term {
	return Sym(s.newName(name), errType, &SymInfo{NonNil: true, Origin: "fresherr"})
}
func (s *State) ioErr(name string) *Term {
	return Sym(s.newName(name), errType, &SymInfo{NonNil: true, Origin: "ioerr"})
}

var errType = types.Universe.Lookup("error").Type()

// str is the contents of a string or []byte argument.
func (c *call) str(s *State, i int) *Term {
	a := c.args[i]
	if isStrTerm(a) && a.Op != OApp && a.Op != OSym {
		return a
	}
	if t := c.argType(i); t != nil && isStringType(t) {
		return a
	}
	return s.bytesOf(a)
}

func (c *call) argType(i int) types.Type {
	p := c.sig.Params()
	if c.sig.Recv() != nil {
		i--
	}
	if i < 0 || i >= p.Len() {
		return nil
	}
	return p.At(i).Type()
}

// subslice returns v[lo:hi] for a string or byte slice value.
func (s *State) sub(v, content, lo, hi *Term) *Term {
	if v.Op == OSlice {
		return mkSlice(v.Args[0], Add(v.Args[1], lo), Add(v.Args[1], hi), v.Args[3])
	}
	if v.Op == ONil {
		return v
	}
	if isStringish(v, content) {
		return s.slice(content, lo, hi)
	}
	b, l, _, cp, ok := s.sliceParts(v, types.NewSlice(types.Typ[types.Uint8]))
	if !ok || b == nil {
		return s.slice(content, lo, hi)
	}
	return mkSlice(b, Add(l, lo), Add(l, hi), cp)
}

func isStringish(v, content *Term) bool { return v == content }

func (e *Engine) boolRet(s *State, c *call, b *Term) []*State { return c.ret(s, b) }

// forkRet continues with a for cond and with b otherwise.
func (e *Engine) forkOn(s *State, cond *Term, yes, no func(*State) []*State) []*State {
	y, n := e.fork2(s, cond)
	var out []*State
	if y != nil {
		out = append(out, yes(y)...)
	}
	if n != nil {
		out = append(out, no(n)...)
	}
	return out
}

func (e *Engine) fromCases(c *call, cases ...func() []*State) []*State {
	var out []*State
	for _, f := range cases {
		out = append(out, f()...)
	}
	return out
}

// byteSlice makes a new byte slice at the call.
func (c *call) newBytes(s *State, content *Term) *Term {
	return s.newBytes(s.top().ctx+"@"+fmt.Sprint(instrIndex(c.in))+c.tag, content, "fresh")
}

func (c *call) newID(s *State, suffix string) string {
	return s.top().ctx + "@" + fmt.Sprint(instrIndex(c.in)) + c.tag + suffix
}

// variadic elements of a []interface{} argument.
func (s *State) variadic(v *Term) ([]*Term, bool) {
	segs, ok := s.elemsOf(v, types.NewSlice(types.NewInterfaceType(nil, nil)))
	if !ok {
		return nil, false
	}
	var out []*Term
	for _, g := range segs {
		if g.Star != nil {
			if s.cons.entailsEq(g.Star.n) {
				continue
			}
			return nil, false
		}
		out = append(out, g.Elem)
	}
	return out, true
}

// ---- formatting ----

// format renders fmt.Sprintf(f, args...). ok is false if it can not be told.
func (e *Engine) format(s *State, f string, args []*Term) (*Term, bool) {
	var out []*Term
	k := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = append(out, Lit(f[i:]))
			break
		}
		out = append(out, Lit(f[i:i+j]))
		i += j + 1
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			out = append(out, Lit("%"))
			i++
			continue
		}
		verb := f[i]
		i++
		if !strings.ContainsRune("sdvqxXwtc", rune(verb)) {
			return nil, false
		}
		if k >= len(args) {
			out = append(out, Lit("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[k]
		k++
		p, ok := e.formatArg(s, verb, a)
		if !ok {
			return nil, false
		}
		out = append(out, p)
	}
	if k < len(args) {
		out = append(out, Lit("%!(EXTRA"), Sym(s.newName("extra"), tString, nil))
	}
	return Cat(out...), true
}

func (e *Engine) formatArg(s *State, verb byte, a *Term) (*Term, bool) {
	if a.Op == ONil {
		return Lit("%!" + string(verb) + "(<nil>)"), true
	}
	if a.Op != OIface {
		return Sym(s.newName("fmt"), tString, nil), true
	}
	v, t := a.Args[0], a.T
	if e.hasMethod(t, "Error") || e.hasMethod(t, "String") {
		if verb != 'd' {
			return Sym(s.newName("fmt"), tString, nil), true
		}
	}
	switch {
	case isStringType(t):
		switch verb {
		case 's', 'v':
			return v, true
		case 'd':
			return Cat(Lit("%!d("), Sym(s.newName("fmt"), tString, nil)), true
		}
	case isByteSlice(t):
		if verb == 's' {
			return s.bytesOf(v), true
		}
		if verb == 'v' || verb == 'd' {
			return Cat(Lit("["), Sym(s.newName("fmt"), tString, nil), Lit("]")), true
		}
	case isIntType(t):
		switch verb {
		case 'd', 'v':
			return Dec(v), true
		case 'c':
			if v.isConst() {
				return Lit(string(rune(v.N))), true
			}
			return ByteSeg(v), true
		case 's':
			return Cat(Lit("%!s("), Sym(s.newName("fmt"), tString, nil)), true
		}
	}
	return Sym(s.newName("fmt"), tString, nil), true
}

func (e *Engine) hasMethod(t types.Type, n string) bool {
	ms := e.P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == n {
			return true
		}
	}
	return false
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// sprintf handles the format and variadic arguments at positions i, i+1.
func (e *Engine) sprintf(s *State, c *call, i int) *Term {
	f, ok := constStr(c.args[i])
	args, ok2 := s.variadic(c.args[i+1])
	if ok && ok2 {
		if r, ok := e.format(s, f, args); ok {
			return r
		}
	}
	if !ok {
		// a format made of constants and values: a format string that depends on data
		e.event(s, &Event{Kind: "dynformat", Pos: c.pos, A: c.args[i], In: c.in})
	}
	return Sym(s.newName("sprintf"), tString, nil)
}

func (e *Engine) sprint(s *State, c *call, i int, ln bool) *Term {
	args, ok := s.variadic(c.args[i])
	if !ok {
		return Sym(s.newName("sprint"), tString, nil)
	}
	var out []*Term
	for k, a := range args {
		p, ok := e.formatArg(s, 'v', a)
		if !ok {
			return Sym(s.newName("sprint"), tString, nil)
		}
		if k > 0 {
			str := func(x *Term) bool { return x.Op == OIface && isStringType(x.T) }
			if ln || !str(args[k-1]) && !str(a) {
				out = append(out, Lit(" "))
			}
		}
		out = append(out, p)
	}
	if ln {
		out = append(out, Lit("\n"))
	}
	return Cat(out...)
}

// ---- string functions ----

func (e *Engine) trimEnd(s *State, c *call, suffix bool) []*State {
	v, x := c.args[0], c.str(s, 0)
	p := c.str(s, 1)
	cond := mkPrefix(x, p)
	if suffix {
		cond = mkSuffix(x, p)
	}
	return e.forkOn(s, cond, func(s *State) []*State {
		if suffix {
			return c.ret(s, s.sub(v, x, tZero, Sub2(StrLen(x), StrLen(p))))
		}
		return c.ret(s, s.sub(v, x, StrLen(p), StrLen(x)))
	}, func(s *State) []*State { return c.ret(s, v) })
}

// trimSet removes bytes of a set from the ends. Only structured ends are followed.
func (e *Engine) trimSet(s *State, c *call, set func(b byte) bool, left, right bool) []*State {
	v, x := c.args[0], c.str(s, 0)
	lo, hi := tZero, StrLen(x)
	gs := append([]*Term{}, segs(x)...)
	exact := true
	if right {
		for len(gs) > 0 {
			g := gs[len(gs)-1]
			if g.Op == OLit {
				k := len(g.S)
				for k > 0 && set(g.S[k-1]) {
					k--
				}
				hi = AddC(hi, -int64(len(g.S)-k))
				if k > 0 {
					break
				}
				gs = gs[:len(gs)-1]
				continue
			}
			may := false
			for b := 0; b < 256; b++ {
				if set(byte(b)) && s.may(g, byte(b)) {
					may = true
				}
			}
			if may || segMinLen(g) == 0 && len(gs) > 1 {
				exact = exact && !may
				if may {
					exact = false
				}
			}
			break
		}
	}
	if left {
		for len(gs) > 0 {
			g := gs[0]
			if g.Op == OLit {
				k := 0
				for k < len(g.S) && set(g.S[k]) {
					k++
				}
				lo = AddC(lo, int64(k))
				if k < len(g.S) {
					break
				}
				gs = gs[1:]
				continue
			}
			for b := 0; b < 256; b++ {
				if set(byte(b)) && s.may(g, byte(b)) {
					exact = false
				}
			}
			break
		}
	}
	if exact {
		return c.ret(s, s.sub(v, x, lo, hi))
	}
	// some unknown further bytes
	if right {
		n := Sym(s.newName("trimR"), tIntT, &SymInfo{HasLo: true})
		s.assume(Le0(Sub2(n, Sub2(hi, lo))), true)
		hi = Sub2(hi, n)
	}
	if left {
		n := Sym(s.newName("trimL"), tIntT, &SymInfo{HasLo: true})
		s.assume(Le0(Sub2(n, Sub2(hi, lo))), true)
		lo = Add(lo, n)
	}
	return c.ret(s, s.sub(v, x, lo, hi))
}

func spaceSet(b byte) bool {
	switch b {
	case ' ', '\t', '\n', '\v', '\f', '\r':
		return true
	}
	return false
}

// indexOf models Index, IndexByte, ...
func (e *Engine) indexOf(s *State, c *call, x *Term, sep *Term, cont func(*State, *Term) []*State) []*State {
	lit, ok := constStr(sep)
	if ok && len(lit) == 1 {
		if i, k := s.indexByte(x, lit[0]); k == 1 {
			return cont(s, i)
		} else if k == 0 {
			return cont(s, Int(-1))
		}
	}
	if ok && len(lit) > 0 {
		if cx, ok := constStr(x); ok {
			return cont(s, Int(int64(strings.Index(cx, lit))))
		}
		// the bytes can not all occur
		for i := 0; i < len(lit); i++ {
			if !strMayS(s, x, lit[i]) {
				return cont(s, Int(-1))
			}
		}
		// a literal part that holds it, with nothing before that could
		pos := tZero
		for _, g := range segs(x) {
			if g.Op == OLit {
				if k := strings.Index(g.S, lit); k >= 0 {
					return cont(s, AddC(pos, int64(k)))
				}
			} else if s.may(g, lit[0]) {
				break
			}
			pos = Add(pos, StrLen(g))
		}
	}
	i := App("index", x, sep)
	i = AppT("index", tIntT, x, sep)
	s.assume(Le0(lin(-1, -1, i)), true)
	s.assume(Le0(Add(Sub2(i, StrLen(x)), StrLen(sep))), true)
	has := Le0(neg(i))
	return e.forkOn(s, has, func(s *State) []*State { return cont(s, i) }, func(s *State) []*State {
		if ok && len(lit) == 1 {
			s.excludeBytes(x, func(b byte) bool { return b == lit[0] })
		}
		return cont(s, Int(-1))
	})
}

func strMayS(s *State, x *Term, b byte) bool {
	for _, g := range segs(x) {
		if s.may(g, b) {
			return true
		}
	}
	return false
}

// excludeBytes records that x has no byte of the set.
func (s *State) excludeBytes(x *Term, set func(byte) bool) {
	for _, g := range segs(x) {
		if g.Op == OLit {
			for i := 0; i < len(g.S); i++ {
				if set(g.S[i]) {
					s.dead = true
				}
			}
			continue
		}
		b := g
		if b.Op == OSub {
			continue
		}
		v := &vetInfo{n: StrLen(b)}
		if old, ok := s.vet[b]; ok && s.cons.entails(Sub2(StrLen(b), old.n)) {
			v.set = old.set
		} else {
			for c := 0; c < 256; c++ {
				v.set[c] = segMay(b, byte(c))
			}
		}
		for c := 0; c < 256; c++ {
			if set(byte(c)) {
				v.set[c] = false
			}
		}
		s.vet[b] = v
	}
}

// containsSet models ContainsAny and friends: a byte of the set occurs.
func (e *Engine) containsSet(s *State, c *call, x *Term, name string, set func(byte) bool, cont func(*State, bool) []*State) []*State {
	may := false
	for _, g := range segs(x) {
		if g.Op == OLit {
			for i := 0; i < len(g.S); i++ {
				if set(g.S[i]) {
					return cont(s, true)
				}
			}
			continue
		}
		for b := 0; b < 256; b++ {
			if set(byte(b)) && s.may(g, byte(b)) {
				may = true
			}
		}
	}
	if !may {
		return cont(s, false)
	}
	containsSets[name] = set
	a := AppT("contains:"+name, tBoolT, x)
	return e.forkOn(s, a, func(s *State) []*State {
		s.assume(Le0(AddC(neg(StrLen(x)), 1)), true)
		return cont(s, true)
	}, func(s *State) []*State {
		s.excludeBytes(x, set)
		return cont(s, false)
	})
}

// split models Split with a one-byte separator.
func (e *Engine) split(s *State, c *call, x, sep *Term, asBytes bool) []*State {
	lit, ok := constStr(sep)
	id := c.newID(s, "")
	if ok && len(lit) == 1 {
		if l, ok := s.splitPieces(x, lit[0]); ok {
			return c.ret(s, e.pieceList(s, c, l, asBytes, 1, id))
		}
	}
	// at least one piece; nothing is known about their contents but the separator
	el := types.Type(tString)
	if asBytes {
		el = types.NewSlice(types.Typ[types.Uint8])
	}
	n := AppT("pieces", tIntT, x, sep)
	s.assume(Le0(lin(1, -1, n)), true)
	s.assume(Le0(AddC(n, -(1<<40))), true) // what fits into memory
	b := Sym(s.newName("split"), types.NewSlice(el), &SymInfo{Origin: "split"})
	if ok && len(lit) == 1 && !asBytes {
		b.sym.Charset = func(b byte) bool { return b != lit[0] }
	}
	// the first piece is a start of the whole
	if f := segs(x)[0]; ok && f.Op == OLit && strings.Contains(f.S, lit) {
		p := AppT("elem", el, b, tZero)
		if asBytes {
			p = AppT("bytes", tString, p)
		}
		s.assume(mkStrEq(p, Lit(f.S[:strings.Index(f.S, lit)])), true)
	}
	if np := notPrefixes(segs(x)[0], true); len(np) > 0 {
		p := AppT("elem", el, b, tZero)
		if asBytes {
			p = AppT("bytes", tString, p)
		}
		if p.sym == nil {
			p.sym = &SymInfo{NotPrefix: np}
		}
	}
	org := ""
	if o, _, okO := s.objOf(c.args[0].Args0()); okO && c.args[0].Op == OSlice {
		org = o.origin
	}
	b.sym.Origin = org
	w := s.starSlice(id+fmt.Sprint(b.id), b, n, el)
	if o, _, ok := s.objOf(w.Args[0]); ok {
		s.wr(o.id).ghost = map[string]*Term{"nonnil": tTrue}
	}
	return c.ret(s, w)
}

// pieceList makes the slice of pieces. Pieces of a byte slice share its memory.
func (e *Engine) pieceList(s *State, c *call, l []LSeg, asBytes bool, sepLen int64, id string) *Term {
	o := s.newObj(id, nil)
	o.isList = true
	o.origin = "fresh"
	o.ghost = map[string]*Term{"nonnil": tTrue}
	if asBytes {
		base, lo, _, cp, ok := s.sliceParts(c.args[0], types.NewSlice(types.Typ[types.Uint8]))
		pos := lo
		var out []LSeg
		for _, g := range l {
			if g.Star != nil || !ok || base == nil {
				ok = false
				break
			}
			end := Add(pos, StrLen(g.Elem))
			out = append(out, LSeg{Elem: mkSlice(base, pos, end, cp)})
			pos = AddC(end, sepLen)
		}
		if ok {
			l = out
		} else {
			for i := range l {
				if l[i].Star == nil {
					l[i] = LSeg{Elem: s.newBytes(id+fmt.Sprint(".", i), l[i].Elem, "fresh")}
				}
			}
		}
	}
	s.wr(o.id).list = l
	n := listLen(l)
	return mkSlice(Ptr(Obj_(o.id), ""), tZero, n, n)
}

// fields models strings.Fields and bytes.Fields: pieces between runs of white space.
func (e *Engine) fields(s *State, c *call, asBytes bool) []*State {
	x := c.str(s, 0)
	// usable if white space occurs in literals and as join separators only
	var out []LSeg
	var cur []*Term
	ok := true
	afterStar := false
	at := tZero // of the next byte
	var from *Term
	var places [][2]*Term
	flush := func() {
		if len(cur) > 0 {
			out = append(out, LSeg{Elem: Cat(cur...)})
			places = append(places, [2]*Term{from, at})
			cur = nil
		}
		afterStar = false
	}
	grow := func(g *Term) {
		if len(cur) == 0 {
			from = at
		}
		cur = append(cur, g)
		at = Add(at, StrLen(g))
	}
	for _, g := range segs(x) {
		switch {
		case g.Op == OLit:
			fs := g.S
			for fs != "" {
				k := strings.IndexFunc(fs, unicode.IsSpace)
				switch {
				case k == 0:
					flush()
					at = AddC(at, 1)
					fs = fs[1:]
				case k < 0:
					if afterStar {
						ok = false
					}
					grow(Lit(fs))
					fs = ""
				default:
					if afterStar {
						ok = false
					}
					grow(Lit(fs[:k]))
					fs = fs[k:]
				}
			}
		case g.Op == OJoin && !asBytes && (g.Args[1] == Lit(" ")) && len(cur) == 0 && !afterStar:
			l := g.Args[0]
			if l.sym == nil || l.sym.Charset == nil || l.sym.Charset(' ') || l.sym.Charset('\r') || l.sym.Charset('\n') {
				ok = false
				break
			}
			out = append(out, LSeg{Star: &Star{id: l.S, base: l, n: lenAtom(l), off: tZero, T: tString, input: true}})
			afterStar = true
		default:
			sp := segMinLen(g) == 0 && !s.cons.entails(AddC(neg(StrLen(g)), 1))
			for _, b := range []byte(" \t\n\v\f\r\x85\xa0") {
				if b < 0x80 && s.may(g, b) {
					sp = true
				}
			}
			if sp || afterStar {
				ok = false
			}
			grow(g)
		}
		if !ok {
			break
		}
	}
	id := c.newID(s, "")
	base, lo, cp := (*Term)(nil), tZero, tZero
	if asBytes {
		base, lo, _, cp, _ = s.sliceParts(c.args[0], types.NewSlice(types.Typ[types.Uint8]))
	}
	if ok {
		flush()
		if !asBytes {
			return c.ret(s, e.pieceList(s, c, out, false, 1, id))
		}
		if base != nil || len(out) == 0 {
			for i, p := range places {
				out[i] = LSeg{Elem: mkSlice(base, Add(lo, p[0]), Add(lo, p[1]), cp)}
			}
			o := s.newObj(id, nil)
			o.isList = true
			o.origin = "fresh"
			o.ghost = map[string]*Term{"nonnil": tTrue}
			o.list = out
			n := listLen(out)
			return c.ret(s, mkSlice(Ptr(Obj_(o.id), ""), tZero, n, n))
		}
	}
	for f, v := range s.facts {
		if v && f.Op == OPrefix && f.Args[0] == x {
			if p, _ := constStr(f.Args[1]); strings.TrimSpace(p) != "" {
				s.assume(Le0(lin(1, -1, AppT("nfields", tIntT, x))), true)
			}
		}
	}
	if asBytes {
		n := AppT("nfields", tIntT, x)
		s.assume(Le0(neg(n)), true)
		s.assume(Le0(AddC(n, -(1<<40))), true)
		el := types.NewSlice(types.Typ[types.Uint8])
		b := Sym(s.newName("fields"), types.NewSlice(el), &SymInfo{})
		if o, _, okO := s.objOf(base); okO {
			b.sym.Origin = o.origin
		}
		w := s.starSlice(id+fmt.Sprint(b.id), b, n, el)
		if o, _, ok := s.objOf(w.Args[0]); ok {
			s.wr(o.id).ghost = map[string]*Term{"nonnil": tTrue}
		}
		return c.ret(s, w)
	}
	n := AppT("nfields", tIntT, x)
	s.assume(Le0(neg(n)), true)
	b := Sym(s.newName("fields"), types.NewSlice(tString), &SymInfo{Origin: "split", Charset: func(b byte) bool { return !spaceSet(b) }})
	s.assume(EqInt(lenAtom(b), n), true)
	w := s.starSlice(id+fmt.Sprint(b.id), b, n, tString)
	return c.ret(s, w)
}

// join models strings.Join / bytes.Join.
func (e *Engine) join(s *State, c *call) *Term {
	sep := c.str(s, 1)
	segsL, ok := s.elemsOf(c.args[0], c.sig.Params().At(0).Type())
	if !ok {
		return Sym(s.newName("join"), tString, nil)
	}
	isB := isByteSlice(c.sig.Params().At(0).Type().Underlying().(*types.Slice).Elem())
	var out []*Term
	for i, g := range segsL {
		if g.Star == nil {
			if i > 0 {
				out = append(out, sep)
			}
			v := g.Elem
			if isB {
				v = s.bytesOf(v)
			}
			out = append(out, v)
			continue
		}
		if isB || !g.Star.off.constIs(0) || g.Star.n != lenAtom(g.Star.base) && !s.cons.entailsEq(Sub2(g.Star.n, lenAtom(g.Star.base))) {
			if isB {
				return Sym(s.newName("join"), tString, nil)
			}
			// separator before every element but the first
			el := AppT("elem", tString, g.Star.base, Add(g.Star.off, bound))
			if i > 0 {
				out = append(out, Rep(Cat(sep, el), g.Star.n))
			} else if s.cons.entails(AddC(neg(g.Star.n), 1)) {
				out = append(out, s.starElem(g.Star, tZero), Rep(Cat(sep, AppT("elem", tString, g.Star.base, Add(AddC(g.Star.off, 1), bound))), AddC(g.Star.n, -1)))
			} else {
				return Sym(s.newName("join"), tString, nil)
			}
			continue
		}
		if i > 0 {
			out = append(out, Rep(Cat(sep, AppT("elem", tString, g.Star.base, bound)), g.Star.n))
		} else {
			out = append(out, JoinT(g.Star.base, sep))
		}
	}
	return Cat(out...)
}

// ---- numbers ----

func maxOfBits(bits int64, signed bool) (lo, hi int64, has bool) {
	if bits == 0 {
		bits = 64
	}
	if signed {
		if bits >= 64 {
			return -1 << 63, 1<<63 - 1, true
		}
		return -1 << uint(bits-1), 1<<uint(bits-1) - 1, true
	}
	if bits >= 64 {
		return 0, 0, false
	}
	return 0, 1<<uint(bits) - 1, true
}

// parseNum models ParseInt/ParseUint/Atoi with base 10.
func (e *Engine) parseNum(s *State, c *call, x *Term, base, bits *Term, signed bool, rt types.Type, cont func(s *State, v, err *Term) []*State) []*State {
	b := int64(64)
	if bits.isConst() {
		b = bits.N
	}
	lo, hi, hasHi := maxOfBits(b, signed)
	dec := base.constIs(10) || base.constIs(0)
	if cs, ok := constStr(x); ok && base.isConst() {
		if signed {
			v, err := strconv.ParseInt(cs, int(base.N), int(b))
			if err != nil {
				return cont(s, Int(v), s.freshErr("parse"))
			}
			return cont(s, Int(v), tNil)
		}
		v, err := strconv.ParseUint(cs, int(base.N), int(b))
		if err != nil {
			return cont(s, tZero, s.freshErr("parse"))
		}
		if v <= 1<<63-1 {
			return cont(s, Int(int64(v)), tNil)
		}
	}
	if dec && x.Op == ODec {
		v := x.Args[0]
		var alts []*State
		in := []*Term{}
		if lo != -1<<63 {
			in = append(in, Sub2(Int(lo), v))
		}
		if hasHi && !(hi == 1<<63-1 && noUint64(v)) {
			in = append(in, AddC(v, -hi))
		}
		bad := s.clone()
		okState := s
		for _, t := range in {
			okState.assume(Le0(t), true)
		}
		if !okState.dead {
			alts = append(alts, cont(okState, v, tNil)...)
		}
		for _, t := range in {
			n := bad.clone()
			n.assume(Le0(t), false)
			if !n.dead {
				n.note(c.pos, "%s is out of range", v)
				r := Int(hi)
				if !hasHi {
					r = AppT("parsed", rt, x)
				}
				alts = append(alts, cont(n, r, n.freshErr("range"))...)
			}
		}
		return alts
	}
	// surely not a number?
	if s.notNumber(x, signed) && dec {
		return cont(s, tZero, s.freshErr("syntax"))
	}
	bad := s.clone()
	v := AppT(fmt.Sprintf("parsed%d", b), rt, x)
	if v.sym == nil {
		v.sym = &SymInfo{HasLo: true, Lo: lo, HasHi: hasHi, Hi: hi}
		if !hasHi {
			v.sym = &SymInfo{HasLo: true, Lo: 0, Bits: 64}
		}
	}
	s.assume(Le0(Sub2(Int(lo), v)), lo != -1<<63 || true)
	if lo == -1<<63 {
		// no constraint
	}
	if hasHi && hi != 1<<63-1 {
		s.assume(Le0(AddC(v, -hi)), true)
	}
	atom := AppT("isnumber", tBoolT, x)
	s.assume(atom, true)
	bad.assume(atom, false)
	s.note(c.pos, "%s is a number", x)
	bad.note(c.pos, "%s is not a number", x)
	var out []*State
	if !s.dead {
		out = append(out, cont(s, v, tNil)...)
	}
	if !bad.dead {
		out = append(out, cont(bad, tZero, bad.freshErr("syntax"))...)
	}
	return out
}

// notNumber: the text can not be a decimal number.
func (s *State) notNumber(x *Term, signed bool) bool {
	if x == tEmpty {
		return true
	}
	// it is known not to begin with a digit or a sign
	f := segs(x)[0]
	if f.Op == OSub && f.Args[1].constIs(0) && s.cons.entails(AddC(neg(f.Args[2]), 1)) || f.Op == OSub && f.Args[1].constIs(0) && len(segs(x)) == 1 {
		f = f.Args[0]
	}
	if f.Op == OSym && f.sym != nil && len(f.sym.NotPrefix) > 0 && (len(segs(x)) == 1 || s.cons.entails(AddC(neg(StrLen(f)), 1))) {
		n := 0
		for _, p := range f.sym.NotPrefix {
			if len(p) == 1 && strings.Contains("0123456789+-", p) {
				n++
			}
		}
		if n == 12 {
			return true
		}
	}
	for _, g := range segs(x) {
		if g.Op == OLit {
			for i := 0; i < len(g.S); i++ {
				ch := g.S[i]
				if (ch < '0' || ch > '9') && ch != '-' && ch != '+' && ch != '_' {
					return true
				}
			}
		}
		if g.Op == OSym && g.sym != nil && g.sym.Charset != nil && segMinLen(g) > 0 {
			dig := false
			for ch := byte('0'); ch <= '9'; ch++ {
				if g.sym.Charset(ch) {
					dig = true
				}
			}
			if !dig {
				return true
			}
		}
	}
	return false
}

func init() {
	models = map[string]modelFn{}
	initStringModels()
	initIOModels()
	initMiscModels()
}

func initStringModels() {
	reg := func(f modelFn, names ...string) {
		for _, n := range names {
			models[n] = f
		}
	}
	both := func(n string) []string { return []string{"strings." + n, "bytes." + n} }
	reg(func(e *Engine, s *State, c *call) []*State { return c.ret(s, mkStrEq(c.str(s, 0), c.str(s, 1))) }, "bytes.Equal")
	reg(func(e *Engine, s *State, c *call) []*State { return c.ret(s, mkPrefix(c.str(s, 0), c.str(s, 1))) }, both("HasPrefix")...)
	reg(func(e *Engine, s *State, c *call) []*State { return c.ret(s, mkSuffix(c.str(s, 0), c.str(s, 1))) }, both("HasSuffix")...)
	reg(func(e *Engine, s *State, c *call) []*State { return e.trimEnd(s, c, true) }, both("TrimSuffix")...)
	reg(func(e *Engine, s *State, c *call) []*State { return e.trimEnd(s, c, false) }, both("TrimPrefix")...)
	cutEnd := func(suffix bool) modelFn {
		return func(e *Engine, s *State, c *call) []*State {
			v, x, p := c.args[0], c.str(s, 0), c.str(s, 1)
			cond := mkPrefix(x, p)
			if suffix {
				cond = mkSuffix(x, p)
			}
			return e.forkOn(s, cond, func(s *State) []*State {
				if suffix {
					return c.ret(s, Tuple(s.sub(v, x, tZero, Sub2(StrLen(x), StrLen(p))), tTrue))
				}
				return c.ret(s, Tuple(s.sub(v, x, StrLen(p), StrLen(x)), tTrue))
			}, func(s *State) []*State { return c.ret(s, Tuple(v, tFalse)) })
		}
	}
	reg(cutEnd(false), both("CutPrefix")...)
	reg(cutEnd(true), both("CutSuffix")...)
	reg(func(e *Engine, s *State, c *call) []*State { return e.trimSet(s, c, spaceSet, true, true) }, both("TrimSpace")...)
	trim := func(l, r bool) modelFn {
		return func(e *Engine, s *State, c *call) []*State {
			set, ok := constStr(c.str(s, 1))
			if !ok {
				return c.ret(s, e.unknownResult(s, c))
			}
			return e.trimSet(s, c, func(b byte) bool { return strings.IndexByte(set, b) >= 0 }, l, r)
		}
	}
	reg(trim(true, true), both("Trim")...)
	reg(trim(true, false), both("TrimLeft")...)
	reg(trim(false, true), both("TrimRight")...)
	idx := func(e *Engine, s *State, c *call) []*State {
		x := c.str(s, 0)
		sep := c.args[1]
		if isIntTerm(sep) && !isStrTerm(sep) {
			sep = ByteSeg(sep)
		} else {
			sep = c.str(s, 1)
		}
		return e.indexOf(s, c, x, sep, func(s *State, i *Term) []*State { return c.ret(s, i) })
	}
	reg(idx, both("Index")...)
	reg(idx, both("IndexByte")...)
	reg(idx, both("IndexRune")...)
	contains := func(e *Engine, s *State, c *call) []*State {
		x := c.str(s, 0)
		sep := c.args[1]
		if isIntTerm(sep) && !isStrTerm(sep) {
			sep = ByteSeg(sep)
		} else {
			sep = c.str(s, 1)
		}
		return e.indexOf(s, c, x, sep, func(s *State, i *Term) []*State {
			return c.ret(s, Le0(neg(i)))
		})
	}
	reg(contains, both("Contains")...)
	reg(contains, both("ContainsRune")...)
	reg(func(e *Engine, s *State, c *call) []*State {
		set, ok := constStr(c.str(s, 1))
		x := c.str(s, 0)
		if !ok {
			return c.ret(s, AppT("containsany", tBoolT, x, c.str(s, 1)))
		}
		return e.containsSet(s, c, x, set, func(b byte) bool { return strings.IndexByte(set, b) >= 0 }, func(s *State, b bool) []*State { return c.ret(s, Bool(b)) })
	}, both("ContainsAny")...)
	reg(func(e *Engine, s *State, c *call) []*State {
		set, ok := constStr(c.str(s, 1))
		x := c.str(s, 0)
		if !ok {
			return c.ret(s, e.unknownResult(s, c))
		}
		return e.containsSet(s, c, x, set, func(b byte) bool { return strings.IndexByte(set, b) >= 0 }, func(s *State, b bool) []*State {
			if !b {
				return c.ret(s, Int(-1))
			}
			i := Sym(s.newName("indexany"), tIntT, &SymInfo{HasLo: true})
			s.assume(Le0(AddC(Sub2(i, StrLen(x)), 1)), true)
			return c.ret(s, i)
		})
	}, both("IndexAny")...)
	funcSet := func(neg bool, bres bool) modelFn {
		return func(e *Engine, s *State, c *call) []*State {
			x := c.str(s, 0)
			set, name, ok := e.runeSet(s, c.args[1])
			if !ok {
				e.problem(s, c.pos, "predicate of %s is not understood", c.name)
				return c.ret(s, e.unknownResult(s, c))
			}
			return e.containsSet(s, c, x, name, func(b byte) bool { return set[b] != neg }, func(s *State, b bool) []*State {
				if bres {
					return c.ret(s, Bool(b))
				}
				if !b {
					return c.ret(s, Int(-1))
				}
				i := Sym(s.newName("indexfunc"), tIntT, &SymInfo{HasLo: true})
				s.assume(Le0(AddC(Sub2(i, StrLen(x)), 1)), true)
				return c.ret(s, i)
			})
		}
	}
	reg(funcSet(false, false), both("IndexFunc")...)
	reg(funcSet(false, true), both("ContainsFunc")...)
	reg(func(e *Engine, s *State, c *call) []*State {
		return e.split(s, c, c.str(s, 0), c.str(s, 1), false)
	}, "strings.Split")
	reg(func(e *Engine, s *State, c *call) []*State {
		return e.split(s, c, c.str(s, 0), c.str(s, 1), true)
	}, "bytes.Split")
	splitN := func(asB bool) modelFn {
		return func(e *Engine, s *State, c *call) []*State {
			x := c.str(s, 0)
			lit, ok := constStr(c.str(s, 1))
			if ok && len(lit) == 1 && c.args[2].isConst() {
				if c.args[2].N < 0 {
					return e.split(s, c, x, c.str(s, 1), asB)
				}
				if l, ok := s.splitPieces(x, lit[0]); ok {
					plain := true
					for _, g := range l {
						if g.Star != nil {
							plain = false
						}
					}
					n := int(c.args[2].N)
					if plain && len(l) <= n {
						return c.ret(s, e.pieceList(s, c, l, asB, 1, c.newID(s, "")))
					}
					if plain && n > 0 {
						var rest []*Term
						for i, g := range l[n-1:] {
							if i > 0 {
								rest = append(rest, Lit(lit))
							}
							rest = append(rest, g.Elem)
						}
						l2 := append(append([]LSeg{}, l[:n-1]...), LSeg{Elem: Cat(rest...)})
						return c.ret(s, e.pieceList(s, c, l2, asB, 1, c.newID(s, "")))
					}
				}
			}
			r := e.split(s, c, x, c.str(s, 1), asB)
			return r
		}
	}
	reg(splitN(false), "strings.SplitN")
	reg(splitN(true), "bytes.SplitN")
	reg(func(e *Engine, s *State, c *call) []*State { return e.fields(s, c, false) }, "strings.Fields")
	reg(func(e *Engine, s *State, c *call) []*State { return e.fields(s, c, true) }, "bytes.Fields")
	reg(func(e *Engine, s *State, c *call) []*State {
		x := c.str(s, 0)
		return e.indexOf(s, c, x, c.str(s, 1), func(s *State, i *Term) []*State {
			v := c.args[0]
			if i.constIs(-1) {
				nv := tEmpty
				if c.name == "bytes.Cut" {
					nv = tNil
				}
				return c.ret(s, Tuple(v, nv, tFalse))
			}
			return c.ret(s, Tuple(s.sub(v, x, tZero, i), s.sub(v, x, Add(i, StrLen(c.str(s, 1))), StrLen(x)), tTrue))
		})
	}, both("Cut")...)
	reg(func(e *Engine, s *State, c *call) []*State {
		x := c.str(s, 0)
		if lit, ok := constStr(c.str(s, 1)); ok && len(lit) == 1 {
			n, ok := int64(0), true
			for _, g := range segs(x) {
				if g.Op == OLit {
					n += int64(strings.Count(g.S, lit))
				} else if s.may(g, lit[0]) {
					ok = false
				}
			}
			if ok {
				return c.ret(s, Int(n))
			}
		}
		r := AppT("count", tIntT, x, c.str(s, 1))
		s.assume(Le0(neg(r)), true)
		return c.ret(s, r)
	}, both("Count")...)
	reg(func(e *Engine, s *State, c *call) []*State { return c.ret(s, e.join(s, c)) }, "strings.Join")
	reg(func(e *Engine, s *State, c *call) []*State { return c.ret(s, c.newBytes(s, e.join(s, c))) }, "bytes.Join")
	reg(func(e *Engine, s *State, c *call) []*State { return c.ret(s, c.args[0]) }, "strings.Clone")
	reg(func(e *Engine, s *State, c *call) []*State {
		x := c.str(s, 0)
		from, ok := constStr(c.str(s, 1))
		to, ok2 := constStr(c.str(s, 2))
		if !ok || !ok2 || from == "" {
			return c.ret(s, Sym(s.newName("replaced"), tString, nil))
		}
		if len(c.args) == 4 && !(c.args[3].isConst() && c.args[3].N < 0) {
			return c.ret(s, Sym(s.newName("replaced"), tString, nil))
		}
		// literals and parts that cannot contain the pattern
		first := from[0]
		plain := len(from) == 1
		var out []*Term
		for _, g := range segs(x) {
			switch {
			case g.Op == OLit && (len(from) == 1 || len(segs(x)) == 1):
				out = append(out, Lit(strings.ReplaceAll(g.S, from, to)))
			case g.Op != OLit && !s.may(g, first):
				out = append(out, g)
			case g.Op == OLit && strings.IndexByte(g.S, first) < 0:
				out = append(out, g)
			default:
				plain = false
				var set [256]bool
				for b := 0; b < 256; b++ {
					set[b] = s.may(g, byte(b)) && !(len(from) == 1 && byte(b) == first) || strings.IndexByte(to, byte(b)) >= 0
				}
				out = append(out, Sym(s.newName("replaced"), tString, &SymInfo{Charset: func(b byte) bool { return set[b] }}))
			}
		}
		if !plain && len(from) > 1 && Cat(out...) != x {
			var set [256]bool
			for b := 0; b < 256; b++ {
				set[b] = strMayS(s, x, byte(b)) || strings.IndexByte(to, byte(b)) >= 0
			}
			return c.ret(s, Sym(s.newName("replaced"), tString, &SymInfo{Charset: func(b byte) bool { return set[b] }}))
		}
		return c.ret(s, Cat(out...))
	}, "strings.ReplaceAll", "strings.Replace")
	reg(func(e *Engine, s *State, c *call) []*State {
		if c.args[0].Op == ONil {
			return c.ret(s, tNil)
		}
		return c.ret(s, c.newBytes(s, c.str(s, 0)))
	}, "bytes.Clone", "slices.Clone[[]byte byte]", "slices.Clone[[]byte,byte]")
	reg(func(e *Engine, s *State, c *call) []*State {
		x := c.str(s, 0)
		if x.Op == OLit && c.args[1].isConst() && c.args[1].N < 1000 && c.args[1].N >= 0 {
			return c.ret(s, Lit(strings.Repeat(x.S, int(c.args[1].N))))
		}
		return c.ret(s, Rep(x, c.args[1]))
	}, "strings.Repeat")
	fold := func(f func(string) string, name string) modelFn {
		return func(e *Engine, s *State, c *call) []*State {
			x := c.str(s, 0)
			if v, ok := constStr(x); ok {
				if strings.HasPrefix(c.name, "bytes.") {
					return c.ret(s, c.newBytes(s, Lit(f(v))))
				}
				return c.ret(s, Lit(f(v)))
			}
			if strings.HasPrefix(c.name, "bytes.") {
				return c.ret(s, c.newBytes(s, AppT(name, tString, x)))
			}
			return c.ret(s, AppT(name, tString, x))
		}
	}
	reg(fold(strings.ToLower, "tolower"), both("ToLower")...)
	reg(fold(strings.ToUpper, "toupper"), both("ToUpper")...)
	reg(func(e *Engine, s *State, c *call) []*State {
		a, ok1 := constStr(c.str(s, 0))
		b, ok2 := constStr(c.str(s, 1))
		if ok1 && ok2 {
			return c.ret(s, Bool(strings.EqualFold(a, b)))
		}
		x, y := c.str(s, 0), c.str(s, 1)
		if d := s.decideStrEq(x, y); d == 1 {
			return c.ret(s, tTrue)
		}
		return c.ret(s, AppT("equalfold", tBoolT, x, y))
	}, both("EqualFold")...)
	// strconv
	reg(func(e *Engine, s *State, c *call) []*State { return c.ret(s, Dec(c.args[0])) }, "strconv.Itoa")
	reg(func(e *Engine, s *State, c *call) []*State {
		if c.args[1].constIs(10) {
			return c.ret(s, Dec(c.args[0]))
		}
		return c.ret(s, AppT("formatint", tString, c.args...))
	}, "strconv.FormatInt", "strconv.FormatUint")
	reg(func(e *Engine, s *State, c *call) []*State {
		d := AppT("formatint", tString, c.args[1:]...)
		if c.args[2].constIs(10) {
			d = Dec(c.args[1])
		}
		return c.ret(s, c.newBytes(s, Cat(s.bytesOf(c.args[0]), d)))
	}, "strconv.AppendInt", "strconv.AppendUint")
	reg(func(e *Engine, s *State, c *call) []*State {
		return e.parseNum(s, c, c.args[0], Int(10), tZero, true, tIntT, func(s *State, v, err *Term) []*State { return c.ret(s, Tuple(v, err)) })
	}, "strconv.Atoi")
	reg(func(e *Engine, s *State, c *call) []*State {
		return e.parseNum(s, c, c.args[0], c.args[1], c.args[2], true, types.Typ[types.Int64], func(s *State, v, err *Term) []*State { return c.ret(s, Tuple(v, err)) })
	}, "strconv.ParseInt")
	reg(func(e *Engine, s *State, c *call) []*State {
		return e.parseNum(s, c, c.args[0], c.args[1], c.args[2], false, types.Typ[types.Uint64], func(s *State, v, err *Term) []*State { return c.ret(s, Tuple(v, err)) })
	}, "strconv.ParseUint")
	// fmt
	reg(func(e *Engine, s *State, c *call) []*State { return c.ret(s, e.sprintf(s, c, 0)) }, "fmt.Sprintf")
	reg(func(e *Engine, s *State, c *call) []*State { return c.ret(s, e.sprint(s, c, 0, false)) }, "fmt.Sprint")
	reg(func(e *Engine, s *State, c *call) []*State { return c.ret(s, e.sprint(s, c, 0, true)) }, "fmt.Sprintln")
	reg(func(e *Engine, s *State, c *call) []*State {
		return c.ret(s, c.newBytes(s, Cat(s.bytesOf(c.args[0]), e.sprintf(s, c, 1))))
	}, "fmt.Appendf")
	reg(func(e *Engine, s *State, c *call) []*State {
		f, ok := constStr(c.args[0])
		if args, ok2 := s.variadic(c.args[1]); ok && ok2 && strings.Contains(f, "%w") {
			k := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				if f[i+1] == '%' {
					i++
					continue
				}
				if f[i+1] == 'w' && k < len(args) {
					w := AppT("wraperr"+fmt.Sprint(s.fresh), errType, args[k])
					s.fresh++
					w.sym = &SymInfo{NonNil: true, Origin: "fresherr"}
					return c.ret(s, w)
				}
				k++
			}
		}
		return c.ret(s, s.freshErr("errorf"))
	}, "fmt.Errorf")
	reg(func(e *Engine, s *State, c *call) []*State {
		er := s.freshErr("error")
		return c.ret(s, er)
	}, "errors.New")
	reg(func(e *Engine, s *State, c *call) []*State { return c.ret(s, e.errorsIs(s, c.args[0], c.args[1])) }, "errors.Is")
	reg(func(e *Engine, s *State, c *call) []*State { return e.errorsAs(s, c) }, "errors.As")
	reg(func(e *Engine, s *State, c *call) []*State {
		if strings.HasPrefix(c.args[0].S, "wraperr") {
			return c.ret(s, c.args[0].Args[0])
		}
		if c.args[0].Op == ONil {
			return c.ret(s, tNil)
		}
		return c.ret(s, Sym(s.newName("unwrap"), errType, nil))
	}, "errors.Unwrap")
	for _, n := range []string{"IsSpace", "IsControl", "IsPrint", "IsGraphic", "IsDigit", "IsLetter"} {
		n := n
		reg(func(e *Engine, s *State, c *call) []*State {
			if c.args[0].isConst() {
				return c.ret(s, Bool(unicodePred("unicode."+n, rune(c.args[0].N))))
			}
			return c.ret(s, AppT("unicode."+n, tBoolT, c.args[0]))
		}, "unicode."+n)
	}
}

// errorsIs decides errors.Is as far as possible.
func (e *Engine) errorsIs(s *State, a, b *Term) *Term {
	if a.Op == ONil || b.Op == ONil {
		return mkEq(a, b)
	}
	if a.Op == OApp && strings.HasPrefix(a.S, "wraperr") {
		return e.errorsIs(s, a.Args[0], b)
	}
	return mkEq(a, b)
}

func (e *Engine) errorsAs(s *State, c *call) []*State {
	a, t := c.args[0], c.args[1]
	if a.Op == ONil {
		return c.ret(s, tFalse)
	}
	for a.Op == OApp && strings.HasPrefix(a.S, "wraperr") {
		a = a.Args[0]
	}
	if t.Op == OIface {
		pt, ok := t.T.(*types.Pointer)
		if ok {
			want := pt.Elem()
			if a.Op == OIface {
				if types.Identical(a.T, want) {
					s.store(t.Args[0], a.Args[0], want)
					return c.ret(s, tTrue)
				}
				if _, isI := want.Underlying().(*types.Interface); !isI {
					return c.ret(s, tFalse)
				}
			}
			if isFresh(a) {
				return c.ret(s, tFalse)
			}
			atom := AppT("is:"+types.TypeString(want, nil), tBoolT, a)
			return e.forkOn(s, atom, func(s *State) []*State {
				v := AppT("as:"+types.TypeString(want, nil), want, a)
				if v.sym == nil {
					v.sym = &SymInfo{NonNil: true}
				}
				s.store(t.Args[0], v, want)
				return c.ret(s, tTrue)
			}, func(s *State) []*State { return c.ret(s, tFalse) })
		}
	}
	return c.ret(s, Sym(s.newName("as"), tBoolT, nil))
}

// runeSet evaluates a predicate over all bytes (runes from 0x80 on count as bytes from 0x80 on).
func (e *Engine) runeSet(s *State, f *Term) (set [256]bool, name string, ok bool) {
	if f.Op != OFn {
		return
	}
	name = f.F.RelString(nil)
	if strings.HasPrefix(name, "unicode.") {
		for c := 0; c < 128; c++ {
			set[c] = unicodePred(name, rune(c))
		}
		return set, name, true
	}
	if !e.P.inline(f.F) || len(f.F.Blocks) == 0 {
		return
	}
	name += fmt.Sprint(f.id)
	for c := 0; c <= 128; c++ {
		sub := newEngine(e.P)
		sub.maxSteps = 5000
		st := newState(sub)
		for k, v := range s.heap {
			st.heap[k] = v
		}
		n, val := 0, -1
		sub.hooks = &initHooks{func(s *State) {
			n++
			if s.ret.isBoolConst() {
				val = int(s.ret.N)
			} else {
				val = 2
			}
		}}
		sub.Run(st, f.F, []*Term{Int(int64(c))}, f.Args)
		if n != 1 || val == 2 || val < 0 {
			if c == 128 {
				// not uniform for non-ASCII runes: may be either
				for d := 128; d < 256; d++ {
					set[d] = false
				}
				return set, name, true
			}
			return set, name, false
		}
		if c < 128 {
			set[c] = val == 1
		} else {
			for d := 128; d < 256; d++ {
				set[d] = val == 1
			}
		}
	}
	return set, name, true
}
