package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Builtins, maps, ranges, select.

func (e *Engine) builtin(s *State, c *call, name string) []*State {
	a := c.args
	at := func(i int) types.Type { return c.common.Args[i].Type() }
	switch name {
	case "len", "cap":
		switch u := at(0).Underlying().(type) {
		case *types.Basic:
			return c.ret(s, StrLen(a[0]))
		case *types.Slice:
			if a[0].Op == OSlice && name == "cap" {
				return c.ret(s, Sub2(a[0].Args[3], a[0].Args[1]))
			}
			if name == "cap" && a[0].Op != ONil {
				v := AppT("cap", types.Typ[types.Int], a[0])
				s.assume(Le0(Sub2(sliceLen(a[0]), v)), true)
				return c.ret(s, v)
			}
			n := sliceLen(a[0])
			if a[0].Op == OSlice && !n.isConst() {
				if o, _, ok := s.objOf(a[0].Args[0]); ok && o.isList {
					s.assume(Le0(AddC(n, -(1<<40))), true) // what fits into memory
				}
			}
			return c.ret(s, n)
		case *types.Array:
			return c.ret(s, Int(u.Len()))
		case *types.Pointer:
			return c.ret(s, Int(u.Elem().Underlying().(*types.Array).Len()))
		case *types.Map:
			return c.ret(s, lenAtom(AppT("maplen", nil, a[0], Int(int64(s.maps)))))
		}
		v := AppT(name, types.Typ[types.Int], a[0])
		s.assume(Le0(neg(v)), true)
		return c.ret(s, v)
	case "append":
		return e.appendOp(s, c)
	case "copy":
		return e.copyOp(s, c)
	case "close":
		ch := a[0]
		if !e.nonNil(s, c.in, c.pos, ch, "close of a nil channel") {
			return nil
		}
		e.event(s, &Event{Kind: "closechan", Pos: c.pos, A: ch, In: c.in})
		if o, _, ok := s.objOf(ch); ok {
			w := s.wr(o.id)
			if w.ghost == nil {
				w.ghost = map[string]*Term{}
			}
			if w.ghost["open"] == tFalse {
				e.oblige(s, c.in, c.pos, "close", tFalse, "close of a closed channel")
				return nil
			}
			w.ghost["open"] = tFalse
		}
		return c.ret(s, tUnit)
	case "delete":
		return e.mapDelete(s, c)
	case "panic":
		s.note(c.pos, "panic")
		if e.hooks != nil {
			e.hooks.Panic(s, c.pos, a[0])
		}
		return nil
	case "print", "println":
		return c.ret(s, tUnit)
	case "recover":
		return c.ret(s, tNil)
	case "min", "max":
		if len(a) == 2 {
			le := Le0(Sub2(a[0], a[1]))
			y, n := e.fork2(s, le)
			var out []*State
			x0, x1 := a[0], a[1]
			if name == "max" {
				x0, x1 = x1, x0
			}
			if y != nil {
				out = append(out, c.ret(y, x0)...)
			}
			if n != nil {
				out = append(out, c.ret(n, x1)...)
			}
			return out
		}
	case "ssa:wrapnilchk":
		return c.ret(s, a[0])
	case "clear":
		e.event(s, &Event{Kind: "clear", Pos: c.pos, A: a[0], In: c.in})
		if o, p, ok := s.objOf(a[0].Args0()); ok && a[0].Op == OSlice && !o.isList {
			ct := s.content(o, p)
			n, _ := s.replaceBytes(ct, a[0].Args[1], a[0].Args[2], Zeros(sliceLen(a[0])))
			s.wr(o.id).cells[p] = n
		}
		return c.ret(s, tUnit)
	}
	e.unmodelled["builtin "+name]++
	if v, ok := c.in.(ssa.Value); ok {
		return c.ret(s, Sym(s.newName(name), v.Type(), nil))
	}
	return c.ret(s, tUnit)
}

// listSlice returns the segments of o.list[lo:hi].
func (s *State) listSlice(o *Obj, lo, hi *Term) ([]LSeg, bool) {
	if lo == hi || s.cons.entailsEq(Sub2(lo, hi)) {
		return nil, true
	}
	if lo.isConst() && hi.isConst() && lo.N >= 0 && lo.N <= hi.N && hi.N <= int64(len(o.list)) && plain(o.list) {
		return o.list[lo.N:hi.N:hi.N], true
	}
	var out []LSeg
	pos := tZero
	for _, g := range o.list {
		n := tOne
		if g.Star != nil {
			n = g.Star.n
		}
		end := Add(pos, n)
		switch {
		case s.cons.entails(Sub2(end, lo)) || s.cons.entails(Sub2(hi, pos)):
			// outside
		case s.cons.entails(Sub2(lo, pos)) && s.cons.entails(Sub2(end, hi)):
			out = append(out, g)
		case g.Star != nil:
			a, b := pos, end
			if s.cons.entails(Sub2(pos, lo)) {
				a = lo
			} else if !s.cons.entails(Sub2(lo, pos)) {
				return nil, false
			}
			if s.cons.entails(Sub2(hi, end)) {
				b = hi
			} else if !s.cons.entails(Sub2(end, hi)) {
				return nil, false
			}
			st := *g.Star
			st.off = Add(st.off, Sub2(a, pos))
			st.n = Sub2(b, a)
			out = append(out, LSeg{Star: &st})
		default:
			return nil, false
		}
		pos = end
	}
	return out, true
}

// elemsOf returns the elements of a slice value.
func (s *State) elemsOf(v *Term, t types.Type) ([]LSeg, bool) {
	base, lo, hi, _, ok := s.sliceParts(v, t)
	if !ok {
		return nil, false
	}
	if base == nil {
		return nil, true
	}
	o, p, ok := s.objOf(base)
	if !ok {
		return nil, false
	}
	if !o.isList {
		// an array in a struct
		if lo.isConst() && hi.isConst() && hi.N-lo.N <= 64 {
			var out []LSeg
			el := t.Underlying().(*types.Slice).Elem()
			for i := lo.N; i < hi.N; i++ {
				out = append(out, LSeg{Elem: s.loadCell(o, joinPath(p, fmt.Sprint(i)), el)})
			}
			return out, true
		}
		return nil, false
	}
	return s.listSlice(o, lo, hi)
}

func (e *Engine) appendOp(s *State, c *call) []*State {
	t := c.common.Args[0].Type()
	el := t.Underlying().(*types.Slice).Elem()
	a, b := c.args[0], c.args[1]
	f := s.top()
	id := f.ctx + "@" + fmt.Sprint(instrIndex(c.in))
	base, lo, hi, cp, ok := s.sliceParts(a, t)
	// appending to a slice with spare capacity writes to the memory behind its length
	spare := ok && base != nil && !s.cons.entails(Sub2(cp, hi))
	var o *Obj
	if base != nil {
		o, _, _ = s.objOf(base)
	}
	e.event(s, &Event{Kind: "append", Pos: c.pos, A: a, B: b, Obj: o, S: map[bool]string{true: "spare", false: ""}[spare], In: c.in})
	if isByte(el) {
		var add *Term
		if isStringType(c.common.Args[1].Type()) {
			add = b
		} else {
			add = s.bytesOf(b)
		}
		if b.Op == ONil || add == tEmpty && a.Op != ONil {
			if b.Op == ONil {
				return c.ret(s, a)
			}
		}
		r := s.newBytes(id, Cat(s.bytesOf(a), add), "fresh")
		if spare && o != nil && o.origin == "fresh" {
			// the shared part of the store is not followed: results of two appends to the same slice may overlap
			n, _ := s.replaceSpare(o, base.path(), hi, add, cp)
			if n {
				return c.ret(s, r)
			}
		}
		return c.ret(s, r)
	}
	if b.Op == ONil {
		return c.ret(s, a)
	}
	la, ok1 := s.elemsOf(a, t)
	lb, ok2 := s.elemsOf(b, c.common.Args[1].Type())
	if !ok1 || !ok2 {
		n := Add(sliceLen(a), sliceLen(b))
		bs := Sym(s.newName("append"), t, nil)
		w := s.starSlice(bs.S, bs, n, el)
		return c.ret(s, w)
	}
	_ = lo
	no := s.newObj(id, nil)
	no.isList = true
	no.origin = "fresh"
	no.ghost = map[string]*Term{"nonnil": tTrue}
	no.list = append(append([]LSeg{}, la...), lb...)
	n := listLen(no.list)
	return c.ret(s, mkSlice(Ptr(Obj_(no.id), ""), tZero, n, n))
}

// replaceSpare: a fresh store with spare capacity is treated as if append copied it.
func (s *State) replaceSpare(o *Obj, path string, hi, add, cp *Term) (bool, bool) {
	return false, false
}

func (e *Engine) copyOp(s *State, c *call) []*State {
	d, src := c.args[0], c.args[1]
	e.event(s, &Event{Kind: "copy", Pos: c.pos, A: d, B: src, In: c.in})
	base, lo, hi, _, ok := s.sliceParts(d, c.common.Args[0].Type())
	if !ok || base == nil {
		return c.ret(s, tZero)
	}
	o, p, okO := s.objOf(base)
	var content *Term
	var n *Term
	if isStringType(c.common.Args[1].Type()) {
		content = src
		n = StrLen(src)
	} else if isByteSlice(c.common.Args[0].Type()) {
		content = s.bytesOf(src)
		n = StrLen(content)
	} else {
		n = sliceLen(src)
	}
	dl := Sub2(hi, lo)
	y, no := e.fork2(s, Le0(Sub2(n, dl)))
	var out []*State
	for i, st := range []*State{y, no} {
		if st == nil {
			continue
		}
		k := n
		if i == 1 {
			k = dl
		}
		if okO && content != nil && !o.isList {
			ct := st.content(st.obj(o.id), p)
			nc, _ := st.replaceBytes(ct, lo, Add(lo, k), st.slice(content, tZero, k))
			st.wr(o.id).cells[p] = nc
		} else if okO && o.isList {
			w := st.wr(o.id)
			ls, ok := st.elemsOf(src, c.common.Args[1].Type())
			if ok && i == 0 {
				pre, ok1 := st.listSlice(w, tZero, lo)
				post, ok2 := st.listSlice(w, Add(lo, k), listLen(w.list))
				if ok1 && ok2 {
					w.list = append(append(append([]LSeg{}, pre...), ls...), post...)
					out = append(out, c.ret(st, k)...)
					continue
				}
			}
			w.list = []LSeg{{Star: &Star{id: st.newName("list"), base: Sym(st.newName("list"), nil, nil), n: listLen(w.list), off: tZero, T: c.common.Args[0].Type().Underlying().(*types.Slice).Elem()}}}
		}
		out = append(out, c.ret(st, k)...)
	}
	return out
}

// ---- maps ----
//
// A map object holds what is known about single keys (cells "k:<term>"), in the order of the updates.
// ghost "init" is set if nothing else is in the map.

type mapEnt struct{ key, val *Term }

func mapEntries(o *Obj) []mapEnt {
	var r []mapEnt
	for i := 0; ; i++ {
		k, ok := o.cells[fmt.Sprintf("k%d", i)]
		if !ok {
			return r
		}
		r = append(r, mapEnt{k, o.cells[fmt.Sprintf("v%d", i)]})
	}
}

// eqConds are the conditions that together say that two values are equal: one for each field of a struct or element
// of an array.
func eqConds(a, b *Term, t types.Type) []*Term {
	if a.Op != OStruct || b.Op != OStruct || len(a.Args) != len(b.Args) {
		return []*Term{mkEqT(a, b, t)}
	}
	var r []*Term
	for i := range a.Args {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			r = append(r, eqConds(a.Args[i], b.Args[i], u.Field(i).Type())...)
		case *types.Array:
			r = append(r, eqConds(a.Args[i], b.Args[i], u.Elem())...)
		default:
			return []*Term{mkEq(a, b)}
		}
	}
	return r
}

// decideAll: 1 if all conditions hold, 0 if one does not, -1 and the first that is open otherwise.
func (s *State) decideAll(conds []*Term) (int, *Term) {
	r, open := 1, (*Term)(nil)
	for _, c := range conds {
		switch s.decide(c) {
		case 0:
			return 0, nil
		case -1:
			if open == nil {
				r, open = -1, c
			}
		}
	}
	return r, open
}

func (s *State) keyEq(a, b *Term, t types.Type) int {
	r, _ := s.decideAll(eqConds(a, b, t))
	return r
}

func (e *Engine) mapLookup(s *State, x *ssa.Lookup) []*State {
	m, k := e.val(s, x.X), e.val(s, x.Index)
	mt := x.X.Type().Underlying().(*types.Map)
	done := func(s *State, v *Term, ok bool) []*State {
		if x.CommaOk {
			e.set(s, x, Tuple(v, Bool(ok)))
		} else {
			e.set(s, x, v)
		}
		s.top().pc++
		return one(s)
	}
	if m.Op == ONil {
		return done(s, zeroValue(mt.Elem()), false)
	}
	o, _, okO := s.objOf(m)
	if !okO {
		e.problem(s, x.Pos(), "lookup in an unknown map")
		return done(s, Sym(s.newName("lookup"), x.Type(), nil), true)
	}
	if g, handled := e.groupLookup(s, x, o, k, mt); handled {
		return g
	}
	ents := mapEntries(o)
	for i := len(ents) - 1; i >= 0; i-- {
		switch s.keyEq(ents[i].key, k, mt.Key()) {
		case 1:
			if ents[i].val == nil {
				return done(s, zeroValue(mt.Elem()), false)
			}
			return done(s, ents[i].val, true)
		case 0:
			continue
		}
		// undecided: split
		_, open := s.decideAll(eqConds(ents[i].key, k, mt.Key()))
		y, n := e.fork2(s, open)
		var out []*State
		if y != nil {
			out = append(out, y)
		}
		if n != nil {
			out = append(out, n)
		}
		return out // the instruction is executed again
	}
	if o.lazy == nil && o.ghost["more"] == nil {
		return done(s, zeroValue(mt.Elem()), false)
	}
	if k.Op == OApp && k.S == "rangekey" && k.Args[0] == m {
		return done(s, rangeVal(mt.Elem(), m, k.Args[1]), true)
	}
	// an unknown entry
	id := AppT("mapget", mt.Elem(), m, k)
	has := AppT("maphas", types.Typ[types.Bool], m, k)
	y, n := e.fork2(s, has)
	var out []*State
	if y != nil {
		v := id
		if _, ok := mt.Elem().Underlying().(*types.Slice); ok {
			v = id
		}
		out = append(out, done(y, v, true)...)
	}
	if n != nil {
		out = append(out, done(n, zeroValue(mt.Elem()), false)...)
	}
	return out
}

func (e *Engine) mapUpdate(s *State, x *ssa.MapUpdate) []*State {
	m, k, v := e.val(s, x.Map), e.val(s, x.Key), e.val(s, x.Value)
	if !e.nonNil(s, x, x.Pos(), m, "assignment to an entry of a nil map") {
		return nil
	}
	e.event(s, &Event{Kind: "mapupdate", Pos: x.Pos(), A: m, B: k, C: v, In: x})
	mt := x.Map.Type().Underlying().(*types.Map)
	o, _, ok := s.objOf(m)
	if !ok {
		e.problem(s, x.Pos(), "update of an unknown map")
		return nil
	}
	s.maps++
	w := s.wr(o.id)
	if g, handled := e.groupUpdate(s, x, w, k, v, mt); handled {
		return g
	}
	ents := mapEntries(w)
	for i, en := range ents {
		if s.keyEq(en.key, k, mt.Key()) == 1 {
			w.cells[fmt.Sprintf("v%d", i)] = v
			s.top().pc++
			return one(s)
		}
	}
	i := len(ents)
	w.cells[fmt.Sprintf("k%d", i)] = k
	w.cells[fmt.Sprintf("v%d", i)] = v
	s.top().pc++
	return one(s)
}

func (e *Engine) mapDelete(s *State, c *call) []*State {
	m := c.args[0]
	if o, _, ok := s.objOf(m); ok {
		w := s.wr(o.id)
		w.cells = map[string]*Term{}
		if w.ghost == nil {
			w.ghost = map[string]*Term{}
		}
		w.ghost["more"] = tTrue
	}
	e.event(s, &Event{Kind: "mapdelete", Pos: c.pos, A: m, B: c.args[1], In: c.in})
	return c.ret(s, tUnit)
}

// ---- range ----

// An iterator is a heap object: cells "m" (the map or string), "i" (position).
func (e *Engine) rangeInit(s *State, x *ssa.Range) *Term {
	o := s.newObj(s.top().ctx+"@"+fmt.Sprint(instrIndex(x)), nil)
	o.ext = "iter"
	o.cells["m"] = e.val(s, x.X)
	o.cells["i"] = tZero
	return Ptr(Obj_(o.id), "")
}

func (e *Engine) next(s *State, x *ssa.Next) []*State {
	it := e.val(s, x.Iter)
	o, _, _ := s.objOf(it)
	f := s.top()
	coll := o.cells["m"]
	i := o.cells["i"]
	tt := x.Type().(*types.Tuple)
	if x.IsString {
		n := StrLen(coll)
		y, no := e.fork2(s, Le0(AddC(Sub2(i, n), 1)))
		var out []*State
		if no != nil {
			e.set(no, x, Tuple(tFalse, tZero, tZero))
			no.top().pc++
			out = append(out, no)
		}
		if y != nil {
			b := y.byteAt(coll, i)
			if b == nil {
				alts := y.bytePositions(coll, i)
				if len(alts) > 0 {
					return append(out, e.refork(y, alts)...)
				}
				b = AppT("byteat", types.Typ[types.Uint8], coll, i)
			}
			if y.dead {
				return out
			}
			i = e.markPos(y, nil, coll, i)
			y.ghost["iterlast:"+o.id] = i
			asc, multi := e.fork2(y, Le0(AddC(b, -127)))
			if asc != nil {
				asc.wr(o.id).cells["i"] = AddC(i, 1)
				e.set(asc, x, Tuple(tTrue, i, b))
				asc.top().pc++
				out = append(out, asc)
			}
			if multi != nil {
				// a multi-byte (or invalid) sequence: the rune is >= 0x80, and all its bytes are
				r := Sym(multi.newName("rune"), types.Typ[types.Int32], &SymInfo{HasLo: true, Lo: 0x80, HasHi: true, Hi: 0x10ffff})
				w := Sym(multi.newName("runelen"), types.Typ[types.Int], &SymInfo{HasLo: true, Lo: 1, HasHi: true, Hi: 4})
				multi.assume(Le0(Sub2(Add(i, w), n)), true)
				multi.wr(o.id).cells["i"] = Add(i, w)
				multi.vetRange(coll, i, Add(i, w))
				e.set(multi, x, Tuple(tTrue, i, r))
				multi.top().pc++
				out = append(out, multi)
			}
		}
		return out
	}
	// maps
	if coll.Op == ONil {
		e.set(s, x, Tuple(tFalse, zeroOf(tt.At(1).Type()), zeroOf(tt.At(2).Type())))
		f.pc++
		return one(s)
	}
	mo, _, ok := s.objOf(coll)
	if !ok {
		e.problem(s, x.Pos(), "range over an unknown map")
		return nil
	}
	if g, handled := e.groupNext(s, x, o, mo, tt); handled {
		return g
	}
	ents := mapEntries(mo)
	if mo.lazy == nil && mo.ghost["more"] == nil && len(ents) <= 16 && i.isConst() {
		// literal map: every entry in turn
		if i.N < int64(len(ents)) {
			s.wr(o.id).cells["i"] = AddC(i, 1)
			e.set(s, x, Tuple(tTrue, ents[i.N].key, ents[i.N].val))
		} else {
			e.set(s, x, Tuple(tFalse, zeroOf(tt.At(1).Type()), zeroOf(tt.At(2).Type())))
		}
		f.pc++
		return one(s)
	}
	// unknown map: entry i of n
	n := lenAtom(AppT("mapsize", nil, coll))
	y, no := e.fork2(s, Le0(AddC(Sub2(i, n), 1)))
	var out []*State
	if no != nil {
		e.event(no, &Event{Kind: "rangeend", Pos: x.Pos(), A: coll, B: i, In: x})
		e.set(no, x, Tuple(tFalse, zeroOf(tt.At(1).Type()), zeroOf(tt.At(2).Type())))
		no.top().pc++
		out = append(out, no)
	}
	if y != nil {
		y.wr(o.id).cells["i"] = AddC(i, 1)
		mt := coll.T
		kT, vT := tt.At(1).Type(), tt.At(2).Type()
		_ = mt
		if rt, ok := x.Iter.(*ssa.Range); ok {
			if m, ok := rt.X.Type().Underlying().(*types.Map); ok {
				kT, vT = m.Key(), m.Elem()
			}
		}
		k := AppT("rangekey", kT, coll, i)
		v := rangeVal(vT, coll, i)
		e.event(y, &Event{Kind: "rangenext", Pos: x.Pos(), A: coll, B: k, C: v, In: x, Args: []*Term{i}})
		e.set(y, x, Tuple(tTrue, k, v))
		y.top().pc++
		out = append(out, y)
	}
	return out
}

// rangeVal: the value of entry i of a map that a loop passes over.
func rangeVal(t types.Type, m, i *Term) *Term {
	v := AppT("rangeval", t, m, i)
	if t != nil && v.sym == nil {
		if _, ok := t.Underlying().(*types.Interface); ok {
			v.sym = &SymInfo{NonNil: true}
		}
	}
	return v
}

func zeroOf(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return tNil
	}
	return zeroValue(t)
}

// vetRange: bytes [from,to) of str are >= 0x80.
func (s *State) vetRange(str, from, to *Term) {
	v := s.vet[str]
	if v == nil {
		v = &vetInfo{n: tZero}
	}
	if !s.cons.entailsEq(Sub2(v.n, from)) {
		return
	}
	n := &vetInfo{n: to, set: v.set}
	for c := 128; c < 256; c++ {
		n.set[c] = true
	}
	s.vet[str] = n
}

// updateVet extends vetted prefixes by the bytes of which something is known.
func (s *State) updateVet() {
	type upd struct {
		str, idx, b *Term
	}
	for str, idxs := range s.elems {
		if isStringList(str.T) {
			s.vetElems(str, idxs)
			continue
		}
		if !isStrTerm(str) && !(str.Op == OApp && str.T != nil && isStringType(str.T)) {
			continue
		}
		v := s.vet[str]
		if v == nil {
			v = &vetInfo{n: tZero}
		}
		for again := true; again; {
			again = false
			for _, ix := range idxs {
				if v.n == ix || s.cons.entailsEq(Sub2(v.n, ix)) {
					b := AppT("byteat", types.Typ[types.Uint8], str, ix)
					set := s.byteSet(b)
					n := &vetInfo{n: AddC(ix, 1)}
					for c := range set {
						n.set[c] = v.set[c] || set[c]
					}
					v = n
					s.vet[str] = n
					again = true
				}
			}
		}
	}
}

func isStringList(t types.Type) bool {
	if t == nil {
		return false
	}
	l, ok := t.Underlying().(*types.Slice)
	return ok && l.Elem() != nil && isStringType(l.Elem())
}

// vetElems collects what is known about a prefix of a list of strings.
func (s *State) vetElems(base *Term, idxs []*Term) {
	key := App("elems", base)
	v := s.vet[key]
	if v == nil {
		v = &vetInfo{n: tZero}
	}
	et := base.T.Underlying().(*types.Slice).Elem()
	for again := true; again; {
		again = false
		for _, ix := range idxs {
			if v.n != ix && !s.cons.entailsEq(Sub2(v.n, ix)) {
				continue
			}
			e := AppT("elem", et, base, ix)
			n := &vetInfo{n: AddC(ix, 1), hi: 1 << 50}
			if s.cons.entails(AddC(Sub2(tZero, StrLen(e)), 1)) {
				n.lo = 1
			}
			for _, h := range []int64{250, 1 << 16} {
				if s.cons.entails(AddC(StrLen(e), -h)) {
					n.hi = h
					break
				}
			}
			for c := 0; c < 256; c++ {
				n.set[c] = v.set[c] || s.may(e, byte(c))
			}
			if v.n != tZero {
				n.lo, n.hi = min(n.lo, v.lo), max(n.hi, v.hi)
			}
			v = n
			s.vet[key] = n
			again = true
		}
	}
}

// byteSet lists the values a byte may have.
func (s *State) byteSet(b *Term) [256]bool {
	var r [256]bool
	if b.isConst() {
		if b.N >= 0 && b.N < 256 {
			r[b.N] = true
		}
		return r
	}
	// bounds by bisection, then disequalities
	lo, hi := 0, 255
	for lo < 256 && s.cons.entails(lin(int64(lo)+1, -1, b)) { // b >= lo+1
		lo++
	}
	for hi >= 0 && s.cons.entails(AddC(b, -int64(hi)+1)) { // b <= hi-1
		hi--
	}
	for c := lo; c <= hi; c++ {
		r[c] = true
	}
	for _, n := range s.cons.nes {
		row := toRow(n)
		if len(row.m) == 1 {
			if k, ok := row.m[b]; ok && (k == 1 || k == -1) {
				v := -row.c * k
				if v >= 0 && v < 256 {
					r[v] = false
				}
			}
		}
	}
	for f, v := range s.facts {
		if f.Op == OApp && strings.HasPrefix(f.S, "unicode.") && len(f.Args) == 1 && f.Args[0] == b {
			for c := 0; c < 256; c++ {
				if unicodePred(f.S, rune(c)) != v {
					r[c] = false
				}
			}
		}
	}
	return r
}

// ---- select ----

func (e *Engine) selectOp(s *State, x *ssa.Select) []*State {
	var out []*State
	n := len(x.States)
	tt := x.Type().(*types.Tuple)
	mkres := func(st *State, idx int64, recvOK *Term) {
		if recvOK == nil {
			recvOK = Sym(st.newName("recvok"), types.Typ[types.Bool], nil)
		}
		vals := []*Term{Int(idx), recvOK}
		for i := 2; i < tt.Len(); i++ {
			vals = append(vals, Sym(st.newName("recv"), tt.At(i).Type(), nil))
		}
		e.set(st, x, Tuple(vals...))
		st.top().pc++
	}
	var chans []*Term
	for _, c := range x.States {
		chans = append(chans, e.val(s, c.Chan))
	}
	for i := 0; i < n; i++ {
		st := s.clone()
		st.note(x.States[i].Pos, "select case %d", i)
		dir := "recv"
		if x.States[i].Dir == types.SendOnly {
			dir = "send"
		}
		if chans[i].Op == ONil {
			continue
		}
		ev := &Event{Kind: "select", Pos: x.States[i].Pos, A: chans[i], S: dir, In: x, Args: chans}
		e.event(st, ev)
		if st.dead {
			continue
		}
		mkres(st, int64(i), ev.B)
		out = append(out, st)
	}
	if !x.Blocking {
		st := s.clone()
		st.note(x.Pos(), "select default")
		e.event(st, &Event{Kind: "select", Pos: x.Pos(), A: tNil, S: "default", In: x, Args: chans})
		if !st.dead {
			mkres(st, -1, tFalse)
			out = append(out, st)
		}
	}
	return out
}

var _ = token.NoPos

func (e *Engine) groupLookup(s *State, x *ssa.Lookup, o *Obj, k *Term, mt *types.Map) ([]*State, bool) {
	return nil, false
}
func (e *Engine) groupUpdate(s *State, x *ssa.MapUpdate, w *Obj, k, v *Term, mt *types.Map) ([]*State, bool) {
	return nil, false
}
func (e *Engine) groupNext(s *State, x *ssa.Next, it, mo *Obj, tt *types.Tuple) ([]*State, bool) {
	return nil, false
}
