package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LSeg is a part of the contents of a list: a single element, or a run of n elements of which only
// common attributes are known (star).
type LSeg struct {
	Elem *Term // single element
	Star *Star
}

// Star describes a run of unknown elements.
type Star struct {
	id    string
	base  *Term // identity; elements are App("elem", base, idx)
	n     *Term
	off   *Term // index of the first element within base
	T     types.Type
	attrs map[string]bool // summaries of the elements appended in a loop
	facts []starFact      // facts about every element, with the element written as starVar
	input bool
}
type starFact struct {
	atom *Term
	val  bool
}

var starVar = Sym("%elem", nil, nil)

// Obj is an abstract heap object. Objects are immutable once shared; State.wr copies them.
type Obj struct {
	id     string
	T      types.Type
	lazy   *Term // contents not written yet are symbols derived from this term
	cells  map[string]*Term
	list   []LSeg // backing store of slices of other element types than byte
	isList bool
	ext    string // external kind: reader, writer, mutex, pool, map, ...
	ghost  map[string]*Term
	origin string
}

func (o *Obj) clone() *Obj {
	n := *o
	n.cells = make(map[string]*Term, len(o.cells))
	for k, v := range o.cells {
		n.cells[k] = v
	}
	n.list = o.list[:len(o.list):len(o.list)]
	if o.ghost != nil {
		n.ghost = make(map[string]*Term, len(o.ghost))
		for k, v := range o.ghost {
			n.ghost[k] = v
		}
	}
	return &n
}

type Frame struct {
	fn       *ssa.Function
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	pc       int
	env      map[ssa.Value]*Term
	defers   []deferred
	call     ssa.Instruction // instruction in the caller that is waiting (nil for entry)
	ctx      string
	loops    []*loopInst
	onRet    func(s *State, res *Term) []*State // set for calls made by models
	inDefers bool
	kind     string
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	pos  token.Pos
}

type traceNode struct {
	vague string // what was not understood on the way
	prev  *traceNode
	pos   token.Pos
	text  string
	n     int
}

type State struct {
	eng       *Engine
	frames    []*Frame
	heap      map[string]*Obj
	owned     map[string]bool // objects this state may modify in place
	cons      *Cons
	consOwn   bool
	facts     map[*Term]bool
	ghost     map[string]*Term
	vet       map[*Term]*vetInfo
	trace     *traceNode
	fresh     int
	dead      bool
	ret       *Term
	tmp       map[string]*Term // results of forks of the instruction being executed
	maps      int
	resumed   bool // has waited at the call it is about to make
	live      int  // number of objects after the last collection
	steps     int
	panicking *Term
	elems     map[*Term][]*Term // indexes at which elements of a base were read
}

// vetInfo: the bytes [0,n) of a string are all in set.
// For the elements of a list of strings (key App("elems", base)): the elements [0,n) have lengths in
// [lo,hi] and all their bytes are in set.
type vetInfo struct {
	n      *Term
	set    [256]bool
	lo, hi int64
}

func (s *State) clone() *State {
	n := &State{eng: s.eng, live: s.live, fresh: s.fresh, trace: s.trace, cons: s.cons, steps: s.steps, panicking: s.panicking}
	s.consOwn = false
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		c := *f
		c.env = make(map[ssa.Value]*Term, len(f.env)+4)
		for k, v := range f.env {
			c.env[k] = v
		}
		c.defers = f.defers[:len(f.defers):len(f.defers)]
		c.loops = f.loops[:len(f.loops):len(f.loops)]
		n.frames[i] = &c
	}
	n.heap = make(map[string]*Obj, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.owned = map[string]bool{}
	s.owned = map[string]bool{}
	n.facts = make(map[*Term]bool, len(s.facts)+4)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.ghost = make(map[string]*Term, len(s.ghost)+4)
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.vet = make(map[*Term]*vetInfo, len(s.vet))
	for k, v := range s.vet {
		n.vet[k] = v
	}
	n.tmp = make(map[string]*Term, len(s.tmp)+2)
	for k, v := range s.tmp {
		n.tmp[k] = v
	}
	n.elems = make(map[*Term][]*Term, len(s.elems))
	for k, v := range s.elems {
		n.elems[k] = v[:len(v):len(v)]
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) note(pos token.Pos, format string, a ...interface{}) {
	n := 1
	if s.trace != nil {
		n = s.trace.n + 1
	}
	v := ""
	if s.trace != nil {
		v = s.trace.vague
	}
	s.trace = &traceNode{prev: s.trace, pos: pos, text: fmt.Sprintf(format, a...), n: n, vague: v}
}

// vague: from here on the state is not what the code makes of it, since something was not understood.
// What is found wrong with it may be the fault of the analysis.
func (s *State) vague(pos token.Pos, why string) {
	if s.trace != nil && s.trace.vague != "" {
		return
	}
	n := &traceNode{prev: s.trace, pos: pos, vague: why}
	if s.trace != nil {
		n.n = s.trace.n
	}
	s.trace = n
}

func (s *State) ownCons() *Cons {
	if !s.consOwn {
		s.cons = s.cons.clone()
		s.consOwn = true
	}
	return s.cons
}

// newName makes a name that is unique in this path.
func (s *State) newName(p string) string {
	s.fresh++
	return fmt.Sprintf("%s#%s%d", p, s.eng.tag, s.fresh)
}

func (s *State) obj(id string) *Obj {
	if o, ok := s.heap[id]; ok {
		return o
	}
	if o, ok := s.eng.base[id]; ok {
		return o
	}
	return nil
}

// wr returns the object for modification.
func (s *State) wr(id string) *Obj {
	o := s.obj(id)
	if o == nil {
		return nil
	}
	if s.owned[id] {
		return s.heap[id]
	}
	o = o.clone()
	s.heap[id] = o
	s.owned[id] = true
	return o
}

func (s *State) newObj(id string, t types.Type) *Obj {
	if s.obj(id) != nil {
		for i := 2; ; i++ {
			n := fmt.Sprintf("%s~%d", id, i)
			if s.obj(n) == nil {
				id = n
				break
			}
		}
	}
	o := &Obj{id: id, T: t, cells: map[string]*Term{}}
	s.heap[id] = o
	s.owned[id] = true
	return o
}

// ---- addresses ----

func Ptr(obj *Term, path string, idx ...*Term) *Term {
	if path == "" && len(idx) == 0 && obj.Op != OObj {
		return obj
	}
	return mk(OPtr, path, 0, nil, nil, nil, append([]*Term{obj}, idx...)...)
}

// objOf returns the object a pointer points into and the path within.
func (s *State) objOf(p *Term) (*Obj, string, bool) {
	switch p.Op {
	case OPtr:
		b := p.Args[0]
		if b.Op == OObj {
			return s.obj(b.S), p.S, s.obj(b.S) != nil
		}
		return s.lazyObj(b), p.S, true
	case OSym, OApp:
		return s.lazyObj(p), "", true
	}
	return nil, "", false
}

// lazyObj returns the object a symbolic pointer points to.
func (s *State) lazyObj(p *Term) *Obj {
	id := fmt.Sprintf("*%d", p.id)
	if o := s.obj(id); o != nil {
		return o
	}
	o := s.newObj(id, nil)
	o.lazy = p
	if p.T != nil {
		if pt, ok := p.T.Underlying().(*types.Pointer); ok {
			o.T = pt.Elem()
		}
	}
	if p.sym != nil {
		o.origin = p.sym.Origin
	}
	if p.Op == OApp && p.S == "elem" {
		o.origin = "elem"
	}
	return o
}

func joinPath(p, q string) string {
	if p == "" {
		return q
	}
	return p + "/" + q
}

func isByteSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isByte(sl.Elem())
}
func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}
func isByteArray(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	return ok && isByte(a.Elem())
}

func zeroValue(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return tZero
		case u.Info()&types.IsString != 0:
			return tEmpty
		case u.Info()&types.IsFloat != 0:
			return mk(OFloat, "0", 0, nil, nil, nil)
		}
		return tNil
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroValue(u.Field(i).Type())
		}
		return mk(OStruct, "", 0, t, nil, nil, args...)
	case *types.Array:
		if isByte(u.Elem()) {
			return Zeros(Int(u.Len()))
		}
		if u.Len() > 256 {
			return App("array")
		}
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = zeroValue(u.Elem())
		}
		return mk(OStruct, "", 0, t, nil, nil, args...)
	}
	return tNil
}

// lazyVal is the unknown initial contents of a cell.
func (s *State) lazyVal(o *Obj, path string, t types.Type) *Term {
	name := "load:" + path
	switch u := t.Underlying().(type) {
	case *types.Slice:
		v := AppT(name, t, o.lazy)
		if isByte(u.Elem()) {
			c := AppT(name+".bytes", types.Typ[types.String], o.lazy)
			return s.bytesSlice(fmt.Sprintf("*%d.%s", o.lazy.id, path), c, o.origin)
		}
		return s.starSlice(fmt.Sprintf("*%d.%s", o.lazy.id, path), v, lenAtom(v), u.Elem())
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = s.loadCell(o, joinPath(path, fmt.Sprint(i)), u.Field(i).Type())
		}
		return mk(OStruct, "", 0, t, nil, nil, args...)
	case *types.Array:
		if isByte(u.Elem()) {
			c := AppT(name+".bytes", types.Typ[types.String], o.lazy)
			c.sym = &SymInfo{MinLen: u.Len(), MaxLen: u.Len()}
			return c
		}
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return mk(OApp, name, 0, t, nil, nil, o.lazy)
		}
	}
	return AppT(name, t, o.lazy)
}

func lenAtom(v *Term) *Term { return mk(OLen, "", 0, nil, nil, nil, v) }

// bytesSlice makes (or finds) an object with the given contents and returns a slice of all of it.
func (s *State) bytesSlice(id string, content *Term, origin string) *Term {
	o := s.obj(id)
	if o == nil {
		o = s.newObj(id, nil)
		o.cells[""] = content
		o.origin = origin
	}
	l := StrLen(content)
	return mk(OSlice, "", 0, nil, nil, nil, Ptr(Obj_(o.id), ""), tZero, l, l)
}

func (s *State) starSlice(id string, base *Term, n *Term, elem types.Type) *Term {
	o := s.obj(id)
	if o == nil {
		o = s.newObj(id, nil)
		o.isList = true
		o.list = []LSeg{{Star: &Star{id: id, base: base, n: n, off: tZero, T: elem, input: true}}}
	}
	return mk(OSlice, "", 0, nil, nil, nil, Ptr(Obj_(o.id), ""), tZero, n, n)
}

func (s *State) loadCell(o *Obj, path string, t types.Type) *Term {
	if v, ok := o.cells[path]; ok {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = s.loadCell(s.obj(o.id), joinPath(path, fmt.Sprint(i)), u.Field(i).Type())
		}
		return mk(OStruct, "", 0, t, nil, nil, args...)
	case *types.Array:
		if !isByte(u.Elem()) && u.Len() <= 256 {
			args := make([]*Term, u.Len())
			for i := range args {
				args[i] = s.loadCell(s.obj(o.id), joinPath(path, fmt.Sprint(i)), u.Elem())
			}
			return mk(OStruct, "", 0, t, nil, nil, args...)
		}
	}
	if o.lazy != nil {
		v := s.lazyVal(o, path, t)
		w := s.wr(o.id)
		w.cells[path] = v
		return v
	}
	return zeroValue(t)
}

func (s *State) storeCell(o *Obj, path string, v *Term, t types.Type) {
	w := s.wr(o.id)
	if v.Op == OStruct {
		var ft func(i int) types.Type
		switch u := t.Underlying().(type) {
		case *types.Struct:
			ft = func(i int) types.Type { return u.Field(i).Type() }
		case *types.Array:
			ft = func(i int) types.Type { return u.Elem() }
		}
		if ft != nil {
			for i, a := range v.Args {
				s.storeCell(w, joinPath(path, fmt.Sprint(i)), a, ft(i))
			}
			return
		}
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		// an unknown struct value
		for i := 0; i < st.NumFields(); i++ {
			s.storeCell(w, joinPath(path, fmt.Sprint(i)), projField(s, v, i, st.Field(i).Type()), st.Field(i).Type())
		}
		return
	}
	w.cells[path] = v
}

func projField(s *State, v *Term, i int, t types.Type) *Term {
	if v.Op == OStruct {
		return v.Args[i]
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		args := make([]*Term, st.NumFields())
		for j := range args {
			args[j] = projField(s, AppT(fmt.Sprintf("fld%d", i), t, v), j, st.Field(j).Type())
		}
		return mk(OStruct, "", 0, t, nil, nil, args...)
	}
	return AppT(fmt.Sprintf("fld%d", i), t, v)
}

// load reads the value of type t at address p.
func (s *State) load(p *Term, t types.Type) (*Term, bool) {
	if p.Op == OPtr && len(p.Args) == 2 {
		return s.loadElem(p.Args[0], p.S, p.Args[1], t)
	}
	o, path, ok := s.objOf(p)
	if !ok {
		return nil, false
	}
	return s.loadCell(o, path, t), true
}

// loadElem reads element idx of the backing store at (obj, path).
func (s *State) loadElem(obj *Term, path string, idx *Term, t types.Type) (*Term, bool) {
	o, _, ok := s.objOf(Ptr(obj, ""))
	if !ok {
		return nil, false
	}
	if o.isList {
		return s.listElem(o, idx)
	}
	if c, ok := o.cells[path]; ok && isByte(t) {
		b := s.byteAt(c, idx)
		return b, b != nil
	}
	if idx.isConst() {
		return s.loadCell(o, joinPath(path, fmt.Sprint(idx.N)), t), true
	}
	if isByte(t) {
		if o.lazy != nil {
			c := AppT("load:"+path+".bytes", types.Typ[types.String], o.lazy)
			s.wr(o.id).cells[path] = c
			return s.byteAt(c, idx), true
		}
		return AppT("byteat", types.Typ[types.Uint8], s.content(o, path), idx), true
	}
	return AppT("elem", t, Obj_(o.id), idx), true
}

// content is the byte contents of a backing store.
func (s *State) content(o *Obj, path string) *Term {
	if c, ok := o.cells[path]; ok {
		return c
	}
	if o.lazy != nil {
		c := AppT("load:"+path+".bytes", types.Typ[types.String], o.lazy)
		s.wr(o.id).cells[path] = c
		return c
	}
	t := typeAt(o.T, path)
	if t != nil {
		if a, ok := t.Underlying().(*types.Array); ok {
			return Zeros(Int(a.Len()))
		}
	}
	return AppT("content", types.Typ[types.String], Obj_(o.id))
}

func typeAt(t types.Type, path string) types.Type {
	if t == nil || path == "" {
		return t
	}
	for _, p := range strings.Split(path, "/") {
		var i int
		fmt.Sscanf(p, "%d", &i)
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if i >= u.NumFields() {
				return nil
			}
			t = u.Field(i).Type()
		case *types.Array:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

// listLen is the number of elements in the backing store.
// plain: a list of known elements only.
func plain(l []LSeg) bool {
	for i := range l {
		if l[i].Star != nil {
			return false
		}
	}
	return true
}

func listLen(l []LSeg) *Term {
	if plain(l) {
		return Int(int64(len(l)))
	}
	n := tZero
	for _, g := range l {
		if g.Star != nil {
			n = Add(n, g.Star.n)
		} else {
			n = AddC(n, 1)
		}
	}
	return n
}

func (st *Star) elem(k *Term) *Term {
	return AppT("elem", st.T, st.base, Add(st.off, k))
}

// listElem reads an element; false if it can not be told which segment it is in.
func (s *State) listElem(o *Obj, idx *Term) (*Term, bool) {
	pos := tZero
	for _, g := range o.list {
		if g.Star == nil {
			d := Sub2(idx, pos)
			if s.cons.entailsEq(d) {
				return g.Elem, true
			}
			pos = AddC(pos, 1)
			continue
		}
		end := Add(pos, g.Star.n)
		if s.cons.entails(Sub2(pos, idx)) && s.cons.entails(AddC(Sub2(idx, end), 1)) {
			e := s.starElem(g.Star, Sub2(idx, pos))
			return e, true
		}
		pos = end
	}
	return nil, false
}

// starElem is element k of a star. Equal indexes give the same term.
func (s *State) starElem(st *Star, k *Term) *Term {
	e := st.elem(s.canonIdx(st.base, Add(st.off, k), st.off))
	s.starInst(st, e)
	if !st.input && len(st.facts) == 0 && (len(st.attrs) == 0 || len(st.attrs) == 1 && st.attrs["nonnil"]) && strings.HasPrefix(st.base.S, "list") {
		s.vague(token.NoPos, "an element of a list that a loop put together")
	}
	if v := s.vet[App("elems", st.base)]; v != nil && (v.lo > 0 || v.hi < 1<<50) && s.cons.entails(AddC(Sub2(e.Args[1], v.n), 1)) {
		s.assume(Le0(Sub2(Int(v.lo), StrLen(e))), true)
		s.assume(Le0(AddC(StrLen(e), -v.hi)), true)
	}
	return e
}

// canonIdx returns i-off, or an index that was used before for the same position.
func (s *State) canonIdx(base, i, off *Term) *Term {
	for _, j := range s.elems[base] {
		if j == i {
			return Sub2(i, off)
		}
	}
	for _, j := range s.elems[base] {
		if s.cons.entailsEq(Sub2(i, j)) {
			return Sub2(j, off)
		}
	}
	s.elems[base] = append(s.elems[base], i)
	return Sub2(i, off)
}

// starInst asserts what is known about every element of a star for one of them.
func (s *State) starInst(st *Star, e *Term) {
	for _, f := range st.facts {
		a := subst(f.atom, map[*Term]*Term{starVar: e}, map[*Term]*Term{})
		s.assume(a, f.val)
	}
	if st.attrs["nonnil"] {
		s.assume(isNilTerm(e), false)
	}
}

// listPositions gives the constraints under which idx is in each segment.
func (s *State) listPositions(o *Obj, idx *Term) [][]*Term {
	var r [][]*Term
	pos := tZero
	for _, g := range o.list {
		var end *Term
		if g.Star == nil {
			end = AddC(pos, 1)
		} else {
			end = Add(pos, g.Star.n)
		}
		c := []*Term{Sub2(pos, idx), AddC(Sub2(idx, end), 1)}
		if s.cons.feasible(c...) {
			r = append(r, c)
		}
		pos = end
	}
	return r
}

func (s *State) store(p *Term, v *Term, t types.Type) bool {
	if p.Op == OPtr && len(p.Args) == 2 {
		o, _, ok := s.objOf(Ptr(p.Args[0], ""))
		if !ok {
			return false
		}
		idx := p.Args[1]
		if o.isList {
			w := s.wr(o.id)
			pos := tZero
			for i, g := range w.list {
				if g.Star == nil {
					if s.cons.entailsEq(Sub2(idx, pos)) {
						l := append([]LSeg{}, w.list...)
						l[i] = LSeg{Elem: v}
						w.list = l
						return true
					}
					pos = AddC(pos, 1)
				} else {
					end := Add(pos, g.Star.n)
					if s.cons.entails(Sub2(pos, idx)) && s.cons.entails(AddC(Sub2(idx, end), 1)) {
						return s.storeStar(w, i, Sub2(idx, pos), v)
					}
					pos = end
				}
			}
			// unknown position: everything may have changed
			w.list = []LSeg{{Star: &Star{id: s.newName("list"), base: Sym(s.newName("list"), nil, nil), n: listLen(w.list), off: tZero, T: t}}}
			return true
		}
		if isByte(t) {
			c := s.content(o, p.S)
			n, ok := s.replaceBytes(c, idx, AddC(idx, 1), ByteSeg(v))
			if !ok {
				n = s.unknownBytes(StrLen(c))
			}
			s.wr(o.id).cells[p.S] = n
			return true
		}
		if idx.isConst() {
			s.storeCell(o, joinPath(p.S, fmt.Sprint(idx.N)), v, t)
			return true
		}
		return false
	}
	o, path, ok := s.objOf(p)
	if !ok {
		return false
	}
	s.storeCell(o, path, v, t)
	return true
}

// storeStar writes element k of a star: the run is split around it.
func (s *State) storeStar(w *Obj, i int, k, v *Term) bool {
	st := w.list[i].Star
	var l []LSeg
	l = append(l, w.list[:i]...)
	a := *st
	a.n = k
	if !k.constIs(0) {
		l = append(l, LSeg{Star: &a})
	}
	l = append(l, LSeg{Elem: v})
	b := *st
	b.off = Add(st.off, AddC(k, 1))
	b.n = AddC(Sub2(st.n, k), -1)
	if !s.cons.entailsEq(b.n) {
		l = append(l, LSeg{Star: &b})
	}
	l = append(l, w.list[i+1:]...)
	w.list = l
	return true
}

func (s *State) unknownBytes(n *Term) *Term {
	x := Sym(s.newName("bytes"), types.Typ[types.String], nil)
	if n.isConst() {
		x.sym = &SymInfo{MinLen: n.N, MaxLen: n.N}
	}
	if n.isConst() && n.N == 0 {
		return tEmpty
	}
	s.assume(EqInt(StrLen(x), n), true)
	return x
}

// ---- booleans ----

func Le0(t *Term) *Term {
	if t.isConst() {
		return Bool(t.N <= 0)
	}
	return mk(OLe0, "", 0, nil, nil, nil, t)
}
func EqInt(a, b *Term) *Term {
	d := Sub2(a, b)
	if d.isConst() {
		return Bool(d.N == 0)
	}
	if n := neg(d); n.id < d.id {
		d = n
	}
	return mk(OEq0, "", 0, nil, nil, nil, d)
}
func Not(b *Term) *Term {
	switch b.Op {
	case OBool:
		return Bool(b.N == 0)
	case ONot:
		return b.Args[0]
	}
	return mk(ONot, "", 0, nil, nil, nil, b)
}

// assume adds a boolean fact; the state is dead if it is contradicted.
func (s *State) assume(b *Term, val bool) bool {
	if s.dead {
		return false
	}
	switch b.Op {
	case OBool:
		if (b.N == 1) != val {
			s.dead = true
		}
	case ONot:
		return s.assume(b.Args[0], !val)
	case OLe0:
		if val {
			if !s.ownCons().addLe(b.Args[0]) {
				s.dead = true
			}
		} else if !s.ownCons().addLe(lin(1, -1, b.Args[0])) {
			s.dead = true
		}
	case OEq0:
		if val {
			if !s.ownCons().addEq(b.Args[0]) {
				s.dead = true
			}
		} else if !s.ownCons().addNe(b.Args[0]) {
			s.dead = true
		}
	default:
		switch d := s.decide(b); {
		case d == 1 && !val, d == 0 && val:
			s.dead = true
			return false
		case d >= 0:
			return true
		}
		s.facts[b] = val
		s.derive(b, val)
	}
	return !s.dead
}

// derive adds the linear consequences of a fact.
func (s *State) derive(b *Term, val bool) {
	switch b.Op {
	case OApp:
		if b.S == "ge63" && !val {
			s.assume(Le0(AddC(b.Args[0], -(1<<63-1))), true)
		}
	case OStrEq:
		if val {
			s.assume(EqInt(StrLen(b.Args[0]), StrLen(b.Args[1])), true)
		}
	case OPrefix, OSuffix:
		if val {
			s.assume(Le0(Sub2(StrLen(b.Args[1]), StrLen(b.Args[0]))), true)
		}
	case OIsNil:
		if val {
			x := b.Args[0]
			if x.Op == OSlice {
				s.assume(EqInt(x.Args[1], x.Args[2]), true)
			}
			if x.Op == OApp || x.Op == OSym {
				if x.T != nil {
					if _, ok := x.T.Underlying().(*types.Slice); ok {
						s.assume(EqInt(lenAtom(x), tZero), true)
					}
				}
			}
		}
	}
}

// decide returns 1, 0 or -1 (unknown).
func (s *State) decide(b *Term) int {
	switch b.Op {
	case OBool:
		return int(b.N)
	case ONot:
		if d := s.decide(b.Args[0]); d >= 0 {
			return 1 - d
		}
		return -1
	case OLe0:
		t := b.Args[0]
		if s.cons.entails(t) {
			return 1
		}
		if s.cons.entails(lin(1, -1, t)) {
			return 0
		}
		return -1
	case OEq0:
		t := b.Args[0]
		if s.cons.entailsEq(t) {
			return 1
		}
		if s.cons.entailsNe(t) {
			return 0
		}
		return -1
	}
	if v, ok := s.facts[b]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch b.Op {
	case OIsNil:
		return s.decideNil(b.Args[0])
	case OStrEq:
		return s.decideStrEq(b.Args[0], b.Args[1])
	case OPrefix:
		return s.decidePrefix(b.Args[0], b.Args[1])
	case OSuffix:
		return s.decideSuffix(b.Args[0], b.Args[1])
	case OEq:
		return s.decideEq(b.Args[0], b.Args[1])
	}
	return -1
}

func (s *State) decideNil(x *Term) int {
	switch x.Op {
	case ONil:
		return 1
	case OPtr:
		if x.S != "" || x.Args[0].Op == OObj {
			return 0
		}
		return s.decide(IsNilT(x.Args[0]))
	case OIface, OFn, OObj:
		return 0
	case OSlice:
		if s.cons.entails(AddC(Sub2(x.Args[1], x.Args[2]), 1)) {
			return 0
		}
		if o, _, ok := s.objOf(x.Args[0]); ok && o.ghost["nonnil"] != nil {
			return 0
		}
		return -1
	case OSym, OApp:
		if x.sym != nil && x.sym.NonNil {
			return 0
		}
		if x.Op == OApp && x.S == "elem" && x.Args[0].Op == OSym {
			// an element of a list that was given
			if o := s.obj(x.Args[0].S); o != nil && o.isList {
				for _, g := range o.list {
					if g.Star == nil || !g.Star.input || g.Star.base != x.Args[0] {
						continue
					}
					for _, f := range g.Star.facts {
						if f.atom == IsNilT(starVar) {
							return b2i(f.val)
						}
					}
				}
			}
		}
	}
	return -1
}

// isNilTerm simplifies x == nil.
func isNilTerm(x *Term) *Term {
	switch x.Op {
	case ONil:
		return tTrue
	case OIface, OFn, OObj:
		return tFalse
	case OPtr:
		if x.S != "" || x.Args[0].Op == OObj {
			return tFalse
		}
		return isNilTerm(x.Args[0])
	}
	if x.sym != nil && x.sym.NonNil {
		return tFalse
	}
	return IsNilT(x)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Op == ONil {
		return isNilTerm(b)
	}
	if b.Op == ONil {
		return isNilTerm(a)
	}
	if a.Op == OIface && b.Op == OIface {
		if !types.Identical(a.T, b.T) {
			return tFalse
		}
		return mkEqT(a.Args[0], b.Args[0], a.T)
	}
	if a.Op == OIface && b.Op != OIface || a.Op != OIface && b.Op == OIface {
		if b.id < a.id {
			a, b = b, a
		}
		return mk(OEq, "", 0, nil, nil, nil, a, b)
	}
	if isAddr(a) && isAddr(b) {
		ao, bo := a, b
		if ao.Op == OPtr && bo.Op == OPtr && ao.Args[0].Op == OObj && bo.Args[0].Op == OObj && len(ao.Args) == 1 && len(bo.Args) == 1 {
			return Bool(false) // different objects or different fields
		}
	}
	if a.Op == OBool || b.Op == OBool {
		if a.Op == OBool {
			a, b = b, a
		}
		if b == tTrue {
			return a
		}
		return Not(a)
	}
	if b.id < a.id {
		a, b = b, a
	}
	return mk(OEq, "", 0, nil, nil, nil, a, b)
}

func isAddr(t *Term) bool { return t.Op == OPtr || t.Op == OObj }

func mkEqT(a, b *Term, t types.Type) *Term {
	if bt, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case bt.Info()&types.IsInteger != 0:
			return EqInt(a, b)
		case bt.Info()&types.IsString != 0:
			return mkStrEq(a, b)
		}
	}
	return mkEq(a, b)
}

func (s *State) decideEq(a, b *Term) int {
	na, nb := s.decide(isNilTerm(a)), s.decide(isNilTerm(b))
	if na >= 0 && nb >= 0 && na != nb {
		return 0
	}
	if na == 1 && nb == 1 {
		return 1
	}
	// fresh errors are different from everything that existed before
	if a != b && (isFresh(a) && !b.mentions(a) || isFresh(b) && !a.mentions(b)) {
		return 0
	}
	return -1
}

func (t *Term) mentions(x *Term) bool {
	f := false
	t.walk(func(y *Term) bool {
		if y == x {
			f = true
		}
		return !f
	})
	return f
}

func isFresh(t *Term) bool { return t.sym != nil && t.sym.Origin == "fresherr" }

// ---- reachability, for collection and comparison ----

func (s *State) sortedFacts() []*Term {
	var l []*Term
	for k := range s.facts {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}
