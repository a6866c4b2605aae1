package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops are analysed to a fixpoint: the states that arrive at a loop head (by partition) are joined, and
// the loop is analysed again from the join until nothing changes.

const peelCount = 1 // iterations that are kept apart
const maxVisits = 80

func (e *Engine) loopHead(s *State, inst *loopInst, back bool, phis []*ssa.Phi) []*State {
	f := s.top()
	if h, ok := e.hooks.(interface{ LoopHead(s *State) }); ok {
		h.LoopHead(s)
		if s.dead {
			return nil
		}
	}
	if back {
		head := map[ssa.Value]bool{}
		for _, p := range phis {
			head[p] = true
		}
		for v := range f.env {
			in, ok := v.(ssa.Instruction)
			if ok && !head[v] && inst.body[in.Block()] {
				delete(f.env, v)
			}
		}
	}
	e.pruneAt(s, inst.head)
	s.updateVet()
	if back {
		s.solvePhis(fmt.Sprintf("φ%s%d.", e.tag, inst.id))
		if s.dead {
			return nil
		}
	}
	ch, cond := e.constHead(s, inst.head)
	if !ch || len(s.heap) < 400 || len(s.heap) > 2*s.live {
		s.collect()
		s.live = len(s.heap)
	}
	if back {
		if s.dropDead(fmt.Sprintf("φ%s%d.", e.tag, inst.id)); s.dead {
			return nil
		}
	}
	if ch && (inst.unrolled == 0 || inst.cond != cond) {
		inst2 := *inst
		inst2.unrolled++
		inst2.cond = cond
		f.loops = append(f.loops[:len(f.loops)-1:len(f.loops)-1], &inst2)
		if inst2.unrolled <= 300 {
			if h, ok := e.hooks.(interface{ JoinUnrolled(s *State) bool }); ok && h.JoinUnrolled(s) {
				r, ent := e.joinAtPoint(s, fmt.Sprintf("unrolled %d", inst2.unrolled), true)
				if ent != nil {
					e.wait(ent)
					return nil
				}
				if r == nil {
					return nil
				}
				return one(r)
			}
			return one(s)
		}
	}
	n := 0
	if back {
		inst2 := *inst
		inst2.n++
		n = inst2.n
		f.loops = append(f.loops[:len(f.loops)-1:len(f.loops)-1], &inst2)
	}
	if n < peelCount {
		return one(s)
	}
	key := loopKey{inst.id, e.partition(s, phis)}
	// iterations that got one of a bounded number of replies are told apart
	if h, ok := e.hooks.(interface{ Progress(s *State) int64 }); ok {
		key.key += fmt.Sprintf(";replies=%d", h.Progress(s))
	}
	ent := e.loopTab[key]
	if ent == nil {
		if os.Getenv("GMDEBUG") == "3" {
			fmt.Fprintln(os.Stderr, "ENTRY", key.key)
			for _, p := range phis {
				fmt.Fprintln(os.Stderr, "   ", p.Name(), p.Comment, f.env[p])
			}
		}
		ent = &loopEntry{st: s, visits: 1}
		e.loopTab[key] = ent
		e.wait(ent)
		return nil
	}
	e.joins++
	ent.visits++
	if ent.changes > maxVisits || ent.visits > 40*maxVisits {
		e.problem(s, blockPos(inst.head), "the analysis of a loop in %s does not settle", f.fn)
		return nil
	}
	j := newJoiner(e, ent.st, s, inst, ent.runs > 3)
	r := j.run()
	if r == nil {
		if j.err != "" {
			if e.debug {
				fmt.Fprintln(os.Stderr, "FAILED", j.err, j.objs)
				if os.Getenv("GMDEBUG") == "3" {
					ent.st.dump()
					fmt.Fprintln(os.Stderr, "--- S")
					s.dump()
				}
			}
			e.problem(s, blockPos(inst.head), "loop in %s: %s", f.fn, j.err)
		}
		return nil
	}
	if e.debug {
		fmt.Fprintf(os.Stderr, "JOIN %s loop %d visit %d: %s\n", f.fn, inst.id, ent.visits, strings.Join(j.why, "; "))
		if os.Getenv("GMDEBUG") == "3" {
			fmt.Fprintln(os.Stderr, "PARTITION", key.key, "--- G")
			j.G.dump()
			fmt.Fprintln(os.Stderr, "--- S")
			s.dump()
		}
	}
	ent.changes++
	ent.st = r
	e.wait(ent)
	return nil
}

func blockPos(b *ssa.BasicBlock) (p token.Pos) {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return
}

// constHead: the condition of the loop head is a constant in this state; read lists what it was computed
// from. A loop that does not change what its condition reads makes no progress of that kind.
func (e *Engine) constHead(s *State, b *ssa.BasicBlock) (is bool, read string) {
	f := s.top()
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false, ""
	}
	leaf := func(t *Term) *Term {
		if t != nil && t.isConst() {
			read += t.String() + " "
		} else if t != nil && t.isBoolConst() {
			read += t.String() + " "
		}
		return t
	}
	// only phis, pure arithmetic, lengths and iterators
	var ev func(v ssa.Value, d int) *Term
	ev = func(v ssa.Value, d int) *Term {
		if d > 12 {
			return nil
		}
		switch x := v.(type) {
		case *ssa.Const:
			return constTerm(x)
		}
		in, isI := v.(ssa.Instruction)
		if !isI || in.Block() != b {
			if t, ok := f.env[v]; ok {
				return leaf(t)
			}
			return nil
		}
		switch x := v.(type) {
		case *ssa.Phi:
			return leaf(f.env[x])
		case *ssa.FieldAddr:
			if p := ev(x.X, d+1); p != nil && (p.Op == OPtr && len(p.Args) == 1 || p.Op == OObj) {
				return addrField(p, x.Field)
			}
			return nil
		case *ssa.UnOp:
			if p := ev(x.X, d+1); x.Op == token.MUL && p != nil && (p.Op == OPtr && len(p.Args) == 1 && p.Args[0].Op == OObj || p.Op == OObj) {
				if v, ok := s.load(p, x.Type()); ok {
					return leaf(v)
				}
			}
			return nil
		case *ssa.BinOp:
			a, c := ev(x.X, d+1), ev(x.Y, d+1)
			if a == nil || c == nil || !a.isConst() || !c.isConst() {
				return nil
			}
			t, _ := e.binop(s, x, a, c)
			return t
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				a := ev(x.Call.Args[0], d+1)
				if a == nil {
					return nil
				}
				switch x.Call.Args[0].Type().Underlying().(type) {
				case *types.Basic:
					return leaf(StrLen(a))
				case *types.Slice:
					return leaf(sliceLen(a))
				}
			}
		case *ssa.Extract:
			nx, ok := x.Tuple.(*ssa.Next)
			if !ok {
				return nil
			}
			it := f.env[nx.Iter]
			if it == nil {
				return nil
			}
			o, _, ok := s.objOf(it)
			if !ok || o.cells["m"] == nil {
				return nil
			}
			if nx.IsString {
				if str, ok := constStr(o.cells["m"]); ok && len(str) <= 40 && o.cells["i"].isConst() {
					leaf(o.cells["i"])
					return Bool(o.cells["i"].N < int64(len(str)))
				}
				return nil
			}
			mo, _, ok := s.objOf(o.cells["m"])
			if o.cells["m"].Op == ONil || ok && mo.lazy == nil && mo.ghost["more"] == nil && mo.ghost["group"] == nil && len(mapEntries(mo)) <= 16 && o.cells["i"].isConst() {
				leaf(o.cells["i"])
				return tTrue
			}
		}
		return nil
	}
	c := ev(iff.Cond, 0)
	return c != nil && c.isBoolConst(), read
}

// partition lists the parts of a state that are never joined.
func (e *Engine) partition(s *State, phis []*ssa.Phi) string {
	var sb strings.Builder
	nilness := func(v *Term) {
		switch {
		case v.Op == OBool:
			sb.WriteString(v.String())
		case v.Op == ONil:
			sb.WriteString("nil")
		case v.Op == OIface || v.Op == OPtr || v.Op == OSlice && s.decideNil(v) == 0:
			sb.WriteString("nn")
		}
	}
	in := e.info(s.top().fn)
	for _, p := range phis {
		v := s.top().env[p]
		if in.enum[p] {
			sb.WriteString(v.String())
		} else {
			nilness(v)
		}
		sb.WriteByte(',')
	}
	var ks []string
	for k, v := range s.ghost {
		if strings.HasPrefix(k, "n:") || strings.HasPrefix(k, "pos:") || strings.HasPrefix(k, "iterlast:") || k == "e:tok" || k == "e:msg" || strings.HasPrefix(k, "e:f:") {
			continue
		}
		if k == e.partGhost || v.Op == OBool || v.isConst() || v.Op == OLit && strings.HasPrefix(k, "e:") {
			ks = append(ks, k+"="+v.String())
		}
	}
	// local variables that live in memory
	for v, t := range s.top().env {
		if a, ok := v.(*ssa.Alloc); ok && t.Op == OPtr {
			if o := s.obj(t.Args[0].S); o != nil {
				if c, ok := o.cells[""]; ok && (c.Op == OBool || c.Op == ONil) {
					ks = append(ks, fmt.Sprintf("%s=%s", a.Name(), c))
				}
			}
		}
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ";"))
	return sb.String()
}

// ---- reachability ----

func (s *State) reach(visit func(id string)) { s.reach2(visit, func(*Term) {}) }

func (s *State) reachTerms(note func(t *Term)) { s.reach2(func(string) {}, note) }

func (s *State) reach2(visit func(id string), note func(t *Term)) map[*Term]bool {
	seen := map[string]bool{}
	var work []string
	tseen := map[*Term]bool{}
	var term func(t *Term)
	add := func(id string) {
		if !seen[id] && s.heap[id] != nil {
			seen[id] = true
			work = append(work, id)
		}
	}
	term = func(t *Term) {
		if t == nil || tseen[t] {
			return
		}
		tseen[t] = true
		switch t.Op {
		case OObj:
			add(t.S)
		case OSym, OApp:
			note(t)
			add(fmt.Sprintf("*%d", t.id))
			add(fmt.Sprintf("s%d", t.id))
		}
		for _, a := range t.Args {
			term(a)
		}
	}
	for _, f := range s.frames {
		for _, t := range f.env {
			term(t)
		}
		for _, d := range f.defers {
			term(d.fn)
			for _, a := range d.args {
				term(a)
			}
		}
	}
	for _, t := range s.ghost {
		term(t)
	}
	for _, t := range s.tmp {
		term(t)
	}
	// objects that the harness handed out and written globals stay
	for id, o := range s.heap {
		if o.origin == "root" || strings.HasPrefix(id, "g:") || s.eng.base[id] != nil {
			add(id)
		}
	}
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		visit(id)
		o := s.heap[id]
		for _, c := range o.cells {
			term(c)
		}
		for _, c := range o.ghost {
			term(c)
		}
		if o.lazy != nil {
			term(o.lazy)
		}
		for _, g := range o.list {
			if g.Elem != nil {
				term(g.Elem)
			} else {
				term(g.Star.base)
				term(g.Star.n)
				term(g.Star.off)
			}
		}
	}
	return tseen
}

// collect drops unreachable objects.
func (s *State) collect() {
	live := map[string]bool{}
	terms := s.reach2(func(id string) { live[id] = true }, func(*Term) {})
	for k := range s.ghost {
		for _, p := range []string{"mark:", "pos:"} {
			if strings.HasPrefix(k, p) {
				if n, err := strconv.Atoi(k[len(p):]); err == nil && !terms[allTerms[n-1]] {
					delete(s.ghost, k)
				}
			}
		}
	}
	for id := range s.heap {
		if !live[id] {
			delete(s.heap, id)
			delete(s.owned, id)
		}
	}
}

// ---- join ----

type pairKey struct{ a, b *Term }

type joiner struct {
	e       *Engine
	G, s, J *State
	inst    *loopInst
	widen   bool
	memo    map[pairKey]*Term
	phiA    map[*Term]*Term
	phiB    map[*Term]*Term
	phis    []*Term
	objs    map[string]string // id in G -> id in s
	rev     map[string]string
	queue   []string
	changed bool
	why     []string
	err     string
	pre     string
	ownMemo map[*Term]bool
	live    map[*Term]bool
}

func newJoiner(e *Engine, g, s *State, inst *loopInst, widen bool) *joiner {
	return &joiner{e: e, G: g.clone(), s: s, inst: inst, widen: widen, memo: map[pairKey]*Term{}, phiA: map[*Term]*Term{}, phiB: map[*Term]*Term{},
		objs: map[string]string{}, rev: map[string]string{}, pre: fmt.Sprintf("φ%s%d.", e.tag, inst.id), ownMemo: map[*Term]bool{}}
}

func (j *joiner) change(format string, a ...interface{}) {
	j.changed = true
	if len(j.why) < 12 {
		j.why = append(j.why, fmt.Sprintf(format, a...))
	}
}

func (j *joiner) own(t *Term) bool {
	if v, ok := j.ownMemo[t]; ok {
		return v
	}
	r := false
	if t.Op == OSym && strings.HasPrefix(t.S, j.pre) {
		r = true
	}
	for _, a := range t.Args {
		if j.own(a) {
			r = true
		}
	}
	j.ownMemo[t] = r
	return r
}
func (j *joiner) isPhi(t *Term) bool { return t.Op == OSym && strings.HasPrefix(t.S, j.pre) }

func (j *joiner) newPhi(a, b *Term, t types.Type) *Term {
	if t == nil {
		t = a.T
	}
	if t == nil {
		t = b.T
	}
	if t == nil && isStrTerm(a) {
		t = types.Typ[types.String]
	}
	j.e.phiN++
	x := Sym(fmt.Sprintf("%s%d", j.pre, j.e.phiN), t, nil)
	info := &SymInfo{}
	if !isStrTerm(a) {
		la, oka, ha, okha := termRange(a)
		lb, okb, hb, okhb := termRange(b)
		if oka && okb && !j.widen {
			if lb < la {
				la = lb
			}
			if la >= 0 {
				info.HasLo, info.Lo = true, 0
			}
		}
		_, _, _, _ = ha, okha, hb, okhb
	}
	if !isStrTerm(a) && !isIntTerm(a) && j.G.decideNil(a) == 0 && j.s.decideNil(b) == 0 {
		info.NonNil = true
	}
	x.sym = info
	j.phiA[x] = a
	j.phiB[x] = b
	j.phis = append(j.phis, x)
	j.memo[pairKey{a, b}] = x
	j.change("new %s for %s / %s", x, a, b)
	return x
}

// bind uses the loop variable a again for the new value b.
func (j *joiner) bind(a, b *Term) bool {
	if v, ok := j.phiB[a]; ok {
		return v == b
	}
	// a known range of the variable must hold for the new value
	if a.sym != nil && a.sym.HasLo && !j.s.cons.entails(Sub2(Int(a.sym.Lo), b)) {
		return false
	}
	if a.sym != nil && a.sym.NonNil && j.s.decideNil(b) != 0 {
		return false
	}
	j.phiA[a] = a
	j.phiB[a] = b
	j.phis = append(j.phis, a)
	j.memo[pairKey{a, b}] = a
	return true
}

func (j *joiner) jt(a, b *Term, t types.Type) *Term {
	if a == nil || b == nil {
		return nil
	}
	if r, ok := j.memo[pairKey{a, b}]; ok {
		return r
	}
	if a == b && !j.own(a) {
		j.pairAll(a)
		return a
	}
	r := j.jt2(a, b, t)
	j.memo[pairKey{a, b}] = r
	return r
}

// pairAll pairs the objects a common term mentions with themselves.
func (j *joiner) pairAll(t *Term) {
	t.walk(func(x *Term) bool {
		switch x.Op {
		case OObj:
			if !j.pair(x.S, x.S) {
				j.fail("object %s", x.S)
			}
		case OSym, OApp:
			for _, id := range []string{fmt.Sprintf("*%d", x.id), fmt.Sprintf("s%d", x.id)} {
				if j.G.heap[id] != nil || j.s.heap[id] != nil {
					j.pair(id, id)
				}
			}
		}
		return true
	})
}

func (j *joiner) fail(format string, a ...interface{}) {
	if j.err == "" {
		j.err = fmt.Sprintf(format, a...)
	}
}

func (j *joiner) pair(a, b string) bool {
	if x, ok := j.objs[a]; ok {
		return x == b
	}
	if _, ok := j.rev[b]; ok {
		return false
	}
	j.objs[a] = b
	j.rev[b] = a
	j.queue = append(j.queue, a)
	return true
}

func (j *joiner) jt2(a, b *Term, t types.Type) *Term {
	if j.isPhi(a) && !isListy(b) {
		if j.bind(a, b) {
			j.pairAll2(a, b)
			return a
		}
	}
	if a.Op == OObj && b.Op == OObj {
		if j.pair(a.S, b.S) {
			return a
		}
		return j.newPhi(a, b, t)
	}
	if isStrTerm(a) && isStrTerm(b) {
		return j.joinStr(a, b)
	}
	if isIntTerm(a) && isIntTerm(b) {
		if a.Op == OInt && b.Op == OInt && a.N == b.N && len(a.Args) == len(b.Args) && len(a.Args) > 0 {
			same := true
			for i := range a.Args {
				if a.Coef[i] != b.Coef[i] || a.Args[i] != b.Args[i] && !j.isPhi(a.Args[i]) {
					same = false
				}
			}
			if same {
				var l linAcc
				l.c = a.N
				for i := range a.Args {
					l.add(j.jt(a.Args[i], b.Args[i], nil), a.Coef[i])
				}
				if x := l.term(); x != nil {
					return x
				}
			}
		}
		// a known combination of loop variables
		if !a.isConst() || !b.isConst() {
			for _, x := range j.phis {
				va, vb := j.phiA[x], j.phiB[x]
				if !isIntTerm(va) || !isIntTerm(vb) || isStrTerm(va) {
					continue
				}
				da, db := Sub2(a, va), Sub2(b, vb)
				if da == db && !j.own(da) {
					return Add(x, da)
				}
			}
		}
		// the value that the joined form has in s
		if j.bound(a) && j.subA(a) == a {
			if v := j.subB(a); v == b || j.s.cons.entailsEq(Sub2(v, b)) {
				return a
			}
		}
		return j.newPhi(a, b, intType(t, a, b))
	}
	if a.Op == OSlice || b.Op == OSlice {
		if r := j.joinSlice(a, b, t); r != nil {
			return r
		}
		return j.newPhi(a, b, t)
	}
	if a.Op == b.Op && a.S == b.S && a.N == b.N && a.F == b.F && len(a.Args) == len(b.Args) && len(a.Args) > 0 && typeID(a.T) == typeID(b.T) {
		switch a.Op {
		case OPtr:
			if a.Args[0].Op == OObj && b.Args[0].Op == OObj && len(a.Args) == 1 {
				if !j.pair(a.Args[0].S, b.Args[0].S) {
					return j.newPhi(a, b, t)
				}
				return a
			}
			fallthrough
		case OIface, OFn, OTuple, OStruct, OApp, OLen, OWrap, ODec:
			args := make([]*Term, len(a.Args))
			for i := range args {
				args[i] = j.jt(a.Args[i], b.Args[i], nil)
			}
			return rebuild(a, args)
		}
	}
	return j.newPhi(a, b, t)
}

// bound: every loop variable in t has its new value.
func (j *joiner) bound(t *Term) bool {
	ok, any := true, false
	t.walk(func(x *Term) bool {
		if j.isPhi(x) {
			any = true
			if _, has := j.phiB[x]; !has {
				ok = false
			}
		}
		return ok
	})
	return ok && any
}

func isListy(t *Term) bool { return t.Op == OSlice }

func (j *joiner) pairAll2(a, b *Term) {}

func intType(t types.Type, a, b *Term) types.Type {
	for _, x := range []types.Type{t, a.T, b.T} {
		if x != nil {
			if bt, ok := x.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				return x
			}
		}
	}
	return types.Typ[types.Int]
}

// rebuild makes a term like t with other arguments.
func rebuild(t *Term, args []*Term) *Term {
	m := map[*Term]*Term{}
	same := true
	for i := range args {
		if args[i] != t.Args[i] {
			same = false
		}
	}
	if same {
		return t
	}
	_ = m
	switch t.Op {
	case ODec, OBE, OLE, OByte, OZeros, ORep:
		return Cat(mk(t.Op, t.S, t.N, t.T, t.F, nil, args...))
	case OLen:
		if isStrTerm(args[0]) {
			return StrLen(args[0])
		}
	}
	return mk(t.Op, t.S, t.N, t.T, t.F, t.Coef, args...)
}

func isIntTerm(t *Term) bool {
	switch t.Op {
	case OInt, OLen, OWrap:
		return true
	case OSym, OApp:
		if t.T == nil {
			return false
		}
		b, ok := t.T.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	return false
}

// joinStr: b may extend a.
func (j *joiner) joinStr(a, b *Term) *Term {
	sa, sb := segs(a), segs(b)
	// the same shape
	if len(sa) == len(sb) && len(sa) > 0 {
		ok := true
		for i := range sa {
			x, y := sa[i], sb[i]
			if x == y && !j.own(x) {
				continue
			}
			if x.Op != y.Op || x.N != y.N || x.S != y.S || x.Op == OSym && !j.isPhi(x) || x.Op == OLit || x.Op == ORep && x.Args[0] != y.Args[0] || x.Op == OApp || x.Op == OSub {
				ok = false
			}
		}
		if ok {
			out := make([]*Term, len(sa))
			for i := range sa {
				x, y := sa[i], sb[i]
				switch {
				case x == y && !j.own(x):
					j.pairAll(x)
					out[i] = x
				case j.isPhi(x):
					if !j.bind(x, y) {
						return j.newPhi(a, b, types.Typ[types.String])
					}
					out[i] = x
				default:
					args := make([]*Term, len(x.Args))
					for k := range args {
						args[k] = j.jt(x.Args[k], y.Args[k], nil)
					}
					out[i] = rebuild(x, args)
				}
			}
			return Cat(out...)
		}
	}
	// growth at the end
	if r := j.grow(a, b); r != nil {
		return r
	}
	return j.newPhi(a, b, types.Typ[types.String])
}

// strip takes the prefix p off b.
func stripPrefix(p, b *Term) (*Term, bool) {
	sp, sb := segs(p), segs(b)
	if len(sp) > len(sb) {
		return nil, false
	}
	for i, x := range sp {
		if x == sb[i] {
			continue
		}
		if i == len(sp)-1 && x.Op == OLit && sb[i].Op == OLit && strings.HasPrefix(sb[i].S, x.S) {
			return Cat(append([]*Term{Lit(sb[i].S[len(x.S):])}, sb[i+1:]...)...), true
		}
		return nil, false
	}
	return Cat(sb[len(sp):]...), true
}

var bound = Sym("%i", types.Typ[types.Int], nil)

func (j *joiner) grow(a, b *Term) *Term {
	x, ok := stripPrefix(a, b)
	if !ok || x == tEmpty {
		return nil
	}
	sa := segs(a)
	if n := len(sa); n > 0 && sa[n-1].Op == ORep && j.isPhi(sa[n-1].Args[1]) {
		// P·Rep(D,φ)·X where X is D for the next index
		d, cnt := sa[n-1].Args[0], sa[n-1].Args[1]
		next := subst(d, map[*Term]*Term{bound: cnt}, map[*Term]*Term{})
		if j.sameStr(next, x) {
			if j.bind(cnt, AddC(cnt, 1)) {
				return a
			}
		}
		return nil
	}
	// first growth: X belongs to a constant index
	d, ok := generalise(x)
	if !ok {
		return nil
	}
	// the number of pieces
	cnt := j.newPhi(tZero, tOne, types.Typ[types.Int])
	return Cat(a, Rep(d, cnt))
}

// sameStr: equal up to equalities of indexes that s knows.
func (j *joiner) sameStr(x, y *Term) bool {
	if x == y {
		return true
	}
	if x.Op != y.Op || x.S != y.S || x.N != y.N || typeID(x.T) != typeID(y.T) {
		if isIntTerm(x) && isIntTerm(y) && !isStrTerm(x) && !isStrTerm(y) {
			return j.s.cons.entailsEq(Sub2(x, y))
		}
		return false
	}
	if isIntTerm(x) && !isStrTerm(x) {
		if j.s.cons.entailsEq(Sub2(x, y)) {
			return true
		}
	}
	if len(x.Args) != len(y.Args) || len(x.Args) == 0 || x.Op == OInt {
		return false
	}
	for i := range x.Args {
		if !j.sameStr(x.Args[i], y.Args[i]) {
			return false
		}
	}
	return true
}

// generalise replaces the constant index of elements by the bound variable.
func generalise(x *Term) (*Term, bool) {
	var base *Term
	var idx int64
	ok := true
	x.walk(func(t *Term) bool {
		if t.Op == OApp && t.S == "elem" && len(t.Args) == 2 {
			if !t.Args[1].isConst() {
				ok = false
				return false
			}
			if base != nil && (idx != t.Args[1].N) {
				ok = false
			}
			base, idx = t.Args[0], t.Args[1].N
			return false
		}
		return true
	})
	if !ok {
		return nil, false
	}
	if base == nil {
		// the same piece every time
		return x, len(segs(x)) > 0 && onlyConst(x)
	}
	m := map[*Term]*Term{}
	x.walk(func(t *Term) bool {
		if t.Op == OApp && t.S == "elem" && len(t.Args) == 2 {
			m[t] = AppT("elem", t.T, t.Args[0], AddC(bound, idx))
		}
		return true
	})
	return subst(x, m, map[*Term]*Term{}), true
}

func onlyConst(x *Term) bool {
	for _, g := range segs(x) {
		if g.Op != OLit {
			return false
		}
	}
	return true
}

// joinSlice joins slice values.
func (j *joiner) joinSlice(a, b *Term, t types.Type) *Term {
	if a.Op == OSlice && b.Op == OSlice {
		ao, bo := a.Args[0].Args0(), b.Args[0].Args0()
		if a.Args[0].path() == b.Args[0].path() && ao.Op == OObj && bo.Op == OObj {
			oa, ob := j.G.obj(ao.S), j.s.obj(bo.S)
			if oa != nil && ob != nil && oa.isList == ob.isList && oa.ext == ob.ext && j.pair(ao.S, bo.S) {
				// the contents first, so that the bounds can be their lengths
				if ca, cb := oa.cells[""], ob.cells[""]; !oa.isList && ca != nil && cb != nil {
					j.jt(ca, cb, types.Typ[types.String])
				}
				return mkSlice(a.Args[0], j.jt(a.Args[1], b.Args[1], nil), j.jt(a.Args[2], b.Args[2], nil), j.jt(a.Args[3], b.Args[3], nil))
			}
		}
	}
	// different stores: a new one with the elements of both
	if t == nil {
		t = a.T
	}
	if t == nil {
		t = b.T
	}
	ta, tb := t, t
	isB := false
	for _, x := range []struct {
		s *State
		v *Term
	}{{j.G, a}, {j.s, b}} {
		if x.v.Op == OSlice {
			if o, _, ok := x.s.objOf(x.v.Args[0]); ok {
				if !o.isList {
					isB = true
				}
			}
		}
	}
	id := j.freshObj("join")
	o := &Obj{id: id, cells: map[string]*Term{}, origin: "fresh"}
	if isB {
		ca, cb := j.G.bytesOf(a), j.s.bytesOf(b)
		c := j.jt(ca, cb, types.Typ[types.String])
		n := StrLen(c)
		o.cells[""] = c
		if a.Op == OSlice && a.Args[0].Args0().Op == OObj && a.Args[0].path() == "" && a.Args[1] == tZero && a.Args[2] == n && a.Args[3] == n {
			// the store of an earlier join
			old := a.Args[0].Args0().S
			if oa := j.G.obj(old); oa != nil && strings.HasPrefix(old, j.pre+"join") && oa.cells[""] == c && len(oa.ghost) == 0 && j.objs[old] == "" && j.J.heap[old] == nil {
				o.id = old
				j.objs[old] = "!"
				j.put(o)
				return a
			}
		}
		j.put(o)
		j.change("byte slices %s / %s", a, b)
		return mkSlice(Ptr(Obj_(id), ""), tZero, n, n)
	}
	if t == nil {
		return nil
	}
	la, ok1 := j.G.elemsOf(a, ta)
	lb, ok2 := j.s.elemsOf(b, tb)
	if !ok1 || !ok2 {
		return nil
	}
	if j.G.decideNil(a) == 0 && j.s.decideNil(b) == 0 {
		o.ghost = map[string]*Term{"nonnil": tTrue}
	}
	o.isList = true
	o.list = j.joinList(la, lb, id, t.Underlying().(*types.Slice).Elem())
	j.put(o)
	j.change("slices %s / %s", a, b)
	n := listLen(o.list)
	return mkSlice(Ptr(Obj_(id), ""), tZero, n, n)
}

func (j *joiner) freshObj(p string) string {
	for i := 0; ; i++ {
		id := fmt.Sprintf("%s%s%d", j.pre, p, i)
		if j.G.obj(id) == nil && j.s.obj(id) == nil && j.J.obj(id) == nil {
			return id
		}
	}
}

func (j *joiner) put(o *Obj) {
	j.J.heap[o.id] = o
}

func (j *joiner) joinList(la, lb []LSeg, id string, et types.Type) []LSeg {
	shape := func(la, lb []LSeg) bool {
		same := len(la) == len(lb)
		for i := 0; same && i < len(la); i++ {
			same = (la[i].Star == nil) == (lb[i].Star == nil) && (la[i].Star == nil || la[i].Star.base == lb[i].Star.base && la[i].Star.off == lb[i].Star.off)
		}
		return same
	}
	if !shape(la, lb) {
		if ra, rb := runs(j.G, la), runs(j.s, lb); len(ra) > 0 && shape(ra, rb) {
			la, lb = ra, rb
		}
	}
	if len(la) == len(lb) {
		same := true
		for i := range la {
			if (la[i].Star == nil) != (lb[i].Star == nil) || la[i].Star != nil && (la[i].Star.base != lb[i].Star.base || la[i].Star.off != lb[i].Star.off) {
				same = false
			}
		}
		if same {
			out := make([]LSeg, len(la))
			stars := 0
			for i := range la {
				if la[i].Star != nil {
					stars++
				}
			}
			for i := range la {
				if stars == 1 && la[i].Star != nil {
					st := *la[i].Star
					st.n = Sub2(j.jt(listLen(la), listLen(lb), types.Typ[types.Int]), Int(int64(len(la)-1)))
					st.attrs = j.meet(st.attrs, lb[i].Star.attrs)
					out[i] = LSeg{Star: &st}
				} else if la[i].Star == nil {
					out[i] = LSeg{Elem: j.jt(la[i].Elem, lb[i].Elem, et)}
				} else {
					st := *la[i].Star
					st.n = j.jt(la[i].Star.n, lb[i].Star.n, nil)
					st.attrs = j.meet(st.attrs, lb[i].Star.attrs)
					out[i] = LSeg{Star: &st}
				}
			}
			return out
		}
	}
	// a common prefix, then a run
	k := 0
	for k < len(la) && k < len(lb) && la[k].Star == nil && lb[k].Star == nil && la[k].Elem == lb[k].Elem && !j.own(la[k].Elem) {
		j.pairAll(la[k].Elem)
		k++
	}
	out := append([]LSeg{}, la[:k]...)
	n := Sub2(j.jt(listLen(la), listLen(lb), types.Typ[types.Int]), Int(int64(k)))
	la, lb = la[k:], lb[k:]
	st := Star{id: id, T: et, off: tZero, n: n}
	if len(la) == 1 && la[0].Star != nil && (strings.HasPrefix(la[0].Star.id, j.pre) || strings.HasPrefix(la[0].Star.base.S, fmt.Sprintf("list%d.", j.inst.id))) {
		st.id, st.base, st.attrs = la[0].Star.id, la[0].Star.base, la[0].Star.attrs
	} else {
		j.e.phiN++
		st.base = Sym(fmt.Sprintf("list%d.%d", j.inst.id, j.e.phiN), types.NewSlice(et), nil)
		j.change("list of %s", et)
		first := true
		for _, g := range la {
			at := j.attrs(j.G, g)
			if first {
				st.attrs = at
				first = false
			} else {
				st.attrs = j.meet(st.attrs, at)
			}
		}
		if first {
			st.attrs = nil
			for _, g := range lb {
				at := j.attrs(j.s, g)
				if st.attrs == nil {
					st.attrs = at
				} else {
					st.attrs = j.meet(st.attrs, at)
				}
			}
			return append(out, LSeg{Star: &st})
		}
	}
	for _, g := range lb {
		if g.Star != nil && g.Star.base == st.base {
			continue
		}
		st.attrs = j.meet(st.attrs, j.attrs(j.s, g))
	}
	return append(out, LSeg{Star: &st})
}

// runs writes consecutive elements of a list that was given as a part of it.
func runs(s *State, l []LSeg) []LSeg {
	var out []LSeg
	for _, g := range l {
		st := g.Star
		if st == nil && g.Elem != nil && g.Elem.Op == OApp && g.Elem.S == "elem" && g.Elem.Args[0].Op == OSym {
			b := g.Elem.Args[0]
			if o := s.obj(b.S); o != nil && o.isList {
				for _, x := range o.list {
					if x.Star != nil && x.Star.input && x.Star.base == b {
						c := *x.Star
						c.off, c.n = g.Elem.Args[1], Int(1)
						st = &c
					}
				}
			}
		}
		if st == nil {
			out = append(out, g)
			continue
		}
		if n := len(out); n > 0 && out[n-1].Star != nil && out[n-1].Star.base == st.base && st.input && s.cons.entailsEq(Sub2(st.off, Add(out[n-1].Star.off, out[n-1].Star.n))) {
			c := *out[n-1].Star
			c.n = Add(c.n, st.n)
			out[n-1] = LSeg{Star: &c}
			continue
		}
		out = append(out, LSeg{Star: st})
	}
	return out
}

func (j *joiner) attrs(s *State, g LSeg) map[string]bool {
	if g.Star != nil {
		return g.Star.attrs
	}
	m := map[string]bool{}
	if g.Elem != nil && (g.Elem.Op == OPtr || g.Elem.Op == OIface) {
		m["nonnil"] = true
	}
	if h, ok := j.e.hooks.(interface {
		Attrs(s *State, elem *Term) []string
	}); ok {
		j.e.joinAt = j.G
		for _, a := range h.Attrs(s, g.Elem) {
			m[a] = true
		}
	}
	return m
}

func (j *joiner) meet(a, b map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k := range a {
		if b[k] {
			r[k] = true
		} else {
			j.change("attribute %s", k)
		}
	}
	return r
}

// run returns the joined state, or nil if s is covered by G.
func (j *joiner) run() *State {
	G, s := j.G, j.s
	J := newState(j.e)
	j.J = J
	if len(G.frames) != len(s.frames) {
		j.fail("different call stacks")
		return nil
	}
	J.trace = s.trace
	if G.trace != nil && G.trace.vague != "" {
		J.vague(token.NoPos, G.trace.vague)
	}
	J.fresh = s.fresh
	if G.fresh > J.fresh {
		J.fresh = G.fresh
	}
	J.maps = s.maps
	J.steps = s.steps
	// environment; the phis of the head first
	type slot struct {
		fi int
		v  ssa.Value
	}
	var slots []slot
	for i, f := range s.frames {
		gf := G.frames[i]
		if gf.fn != f.fn || gf.block != f.block || gf.pc != f.pc {
			j.fail("different positions")
			return nil
		}
		nf := *f
		nf.env = map[ssa.Value]*Term{}
		nf.defers = nil
		for k, d := range f.defers {
			if k >= len(gf.defers) || len(gf.defers[k].args) != len(d.args) || len(gf.defers) != len(f.defers) {
				j.fail("different deferred calls")
				return nil
			}
			nd := d
			nd.fn = d.fn
			nd.args = append([]*Term{}, d.args...)
			nf.defers = append(nf.defers, nd)
		}
		J.frames = append(J.frames, &nf)
		for v := range f.env {
			if _, ok := gf.env[v]; ok {
				slots = append(slots, slot{i, v})
			}
		}
	}
	prio := func(x slot) int {
		if _, ok := x.v.(*ssa.Phi); ok && x.fi == len(s.frames)-1 {
			return 0
		}
		return 1
	}
	sort.Slice(slots, func(a, b int) bool {
		x, y := slots[a], slots[b]
		if prio(x) != prio(y) {
			return prio(x) < prio(y)
		}
		if x.fi != y.fi {
			return x.fi > y.fi
		}
		return x.v.Name() < y.v.Name()
	})
	for _, x := range slots {
		J.frames[x.fi].env[x.v] = j.jt(G.frames[x.fi].env[x.v], s.frames[x.fi].env[x.v], x.v.Type())
	}
	for i, f := range J.frames {
		for k := range f.defers {
			d := &f.defers[k]
			d.fn = j.jt(G.frames[i].defers[k].fn, d.fn, nil)
			for m := range d.args {
				d.args[m] = j.jt(G.frames[i].defers[k].args[m], d.args[m], nil)
			}
		}
	}
	// ghosts
	var gk []string
	for k := range s.ghost {
		if G.ghost[k] != nil {
			gk = append(gk, k)
		}
	}
	for k := range G.ghost {
		if s.ghost[k] == nil && !strings.HasPrefix(k, "iterlast:") && !strings.HasPrefix(k, "pos:") {
			j.change("ghost %s is gone", k)
		}
	}
	sort.Strings(gk)
	for _, k := range gk {
		J.ghost[k] = j.jt(G.ghost[k], s.ghost[k], nil)
	}
	for k, v := range G.tmp {
		if s.tmp[k] == v {
			J.tmp[k] = v
		}
	}
	// heap
	for id, o := range s.heap {
		if o.origin == "root" || strings.HasPrefix(id, "g:") || j.e.base[id] != nil {
			if G.obj(id) != nil {
				j.pair(id, id)
			}
		}
	}
	for id := range G.heap {
		if strings.HasPrefix(id, "g:") || j.e.base[id] != nil {
			j.pair(id, id)
		}
	}
	for len(j.queue) > 0 {
		id := j.queue[0]
		j.queue = j.queue[1:]
		j.joinObj(id, j.objs[id])
		if j.err != "" {
			return nil
		}
	}
	if j.err != "" {
		return nil
	}
	j.joinFacts()
	j.joinCons()
	if j.err != "" {
		return nil
	}
	if !j.changed {
		return nil
	}
	J.consOwn = true
	return J
}

func (j *joiner) joinObj(ga, sb string) {
	oa, ob := j.G.obj(ga), j.s.obj(sb)
	if oa == nil || ob == nil {
		if oa == nil && ob == nil {
			return
		}
		// lazily created on one side only: recreate
		if oa == nil && ob.lazy != nil || ob == nil && oa.lazy != nil {
			o := oa
			st := j.s
			if o == nil {
				o = ob
				st = j.G
			}
			n := &Obj{id: o.id, T: o.T, lazy: o.lazy, cells: map[string]*Term{}, origin: o.origin, ext: o.ext}
			st.heap[o.id] = n
			oa, ob = j.G.obj(ga), j.s.obj(sb)
		} else {
			// made by a slice view of a symbol: drop (it is made again)
			o := oa
			if o == nil {
				o = ob
			}
			j.J.heap[o.id] = o.clone()
			return
		}
	}
	if oa == ob && ga == sb {
		// untouched: the contents may still mention objects
		if j.G.heap[ga] != nil || j.s.heap[sb] != nil {
			n := oa.clone()
			j.J.heap[ga] = n
			for _, c := range oa.cells {
				j.jt(c, c, nil)
			}
			for _, c := range oa.ghost {
				j.jt(c, c, nil)
			}
			for _, g := range oa.list {
				if g.Elem != nil {
					j.jt(g.Elem, g.Elem, nil)
				}
			}
		}
		return
	}
	if oa.ext != ob.ext || oa.isList != ob.isList {
		if oa.isList != ob.isList {
			j.fail("object %s has two shapes", ga)
			return
		}
		j.fail("object %s is of two kinds (%s, %s)", ga, oa.ext, ob.ext)
		return
	}
	n := oa.clone()
	n.cells = map[string]*Term{}
	j.J.heap[ga] = n
	if oa.isList {
		et := types.Type(nil)
		for _, l := range [][]LSeg{oa.list, ob.list} {
			for _, g := range l {
				if g.Star != nil {
					et = g.Star.T
				} else if g.Elem.T != nil {
					et = g.Elem.T
				}
			}
		}
		n.list = j.joinList(oa.list, ob.list, ga, et)
	}
	if oa.ext == "map" {
		j.joinMap(n, oa, ob)
	} else {
		var ks []string
		seen := map[string]bool{}
		for k := range oa.cells {
			ks = append(ks, k)
			seen[k] = true
		}
		for k := range ob.cells {
			if !seen[k] {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			va, ok1 := oa.cells[k]
			vb, ok2 := ob.cells[k]
			t := typeAt(oa.T, k)
			if !ok1 || !ok2 {
				if t == nil || hasSub(oa.cells, k) || hasSub(ob.cells, k) {
					if oa.lazy != nil {
						// not read on the other side: the initial contents
						if ok1 {
							vb = va
						} else {
							va = vb
						}
						if va != vb {
							j.fail("cell %s of %s", k, ga)
							return
						}
						n.cells[k] = j.jt(va, vb, t)
						continue
					}
					j.fail("cell %q of %s", k, ga)
					return
				}
				if !ok1 {
					va = j.G.loadCell(j.G.obj(ga), k, t)
				}
				if !ok2 {
					vb = j.s.loadCell(j.s.obj(sb), k, t)
				}
			}
			n.cells[k] = j.jt(va, vb, t)
		}
	}
	more := n.ghost["more"] != nil && oa.ext == "map"
	n.ghost = nil
	if more {
		n.ghost = map[string]*Term{"more": tTrue}
	}
	for k, v := range oa.ghost {
		if w, ok := ob.ghost[k]; ok {
			if n.ghost == nil {
				n.ghost = map[string]*Term{}
			}
			n.ghost[k] = j.jt(v, w, nil)
		} else if k != "more" || !more {
			j.change("ghost %s of %s", k, ga)
		}
	}
	if ob.ghost["more"] != nil && oa.ghost["more"] == nil && !more {
		if n.ghost == nil {
			n.ghost = map[string]*Term{}
		}
		n.ghost["more"] = tTrue
		j.change("map %s", ga)
	}
	if oa.origin != ob.origin && n.origin == "fresh" {
		n.origin = ob.origin
	}
}

func hasSub(m map[string]*Term, k string) bool {
	for x := range m {
		if strings.HasPrefix(x, k+"/") {
			return true
		}
	}
	return false
}

func (j *joiner) joinMap(n, oa, ob *Obj) {
	ea, eb := mapEntries(oa), mapEntries(ob)
	same := len(ea) == len(eb)
	if same {
		for i := range ea {
			if ea[i].key != eb[i].key {
				same = false
			}
		}
	}
	if !same {
		if n.ghost == nil {
			n.ghost = map[string]*Term{}
		}
		if oa.ghost["more"] == nil {
			j.change("map with unknown entries")
		}
		// nothing is known about the entries any more
		if len(ea) > 0 {
			j.change("map entries")
		}
		n.ghost["more"] = tTrue
		return
	}
	for i := range ea {
		n.cells[fmt.Sprintf("k%d", i)] = j.jt(ea[i].key, eb[i].key, nil)
		n.cells[fmt.Sprintf("v%d", i)] = j.jt(ea[i].val, eb[i].val, nil)
	}
}

func (j *joiner) subB(t *Term) *Term { return subst(t, j.phiB, map[*Term]*Term{}) }
func (j *joiner) subA(t *Term) *Term { return subst(t, j.phiA, map[*Term]*Term{}) }

func (j *joiner) joinFacts() {
	G, s, J := j.G, j.s, j.J
	keep := func(f *Term, v bool) {
		d := s.decideQuiet(j.subB(f))
		if d == b2i(v) {
			J.facts[f] = v
		} else if !j.stale(f) {
			j.change("fact %s", f)
		}
	}
	for _, f := range G.sortedFacts() {
		keep(f, G.facts[f])
	}
	// facts about new variables
	for _, x := range j.phis {
		a, b := j.phiA[x], j.phiB[x]
		if a == x || isStrTerm(x) || isIntTerm(x) {
			continue
		}
		da, db := G.decideNil(a), s.decideNil(b)
		if da >= 0 && da == db {
			J.facts[IsNilT(x)] = da == 1
		}
	}
	for k, v := range G.vet {
		w := s.vet[k]
		if j.own(k) {
			continue
		}
		if w == nil {
			w = &vetInfo{n: tZero}
		}
		nv := &vetInfo{n: j.jt(v.n, w.n, types.Typ[types.Int]), lo: v.lo, hi: v.hi}
		for c := range nv.set {
			nv.set[c] = v.set[c] || w.set[c]
			if nv.set[c] && !v.set[c] && !w.n.constIs(0) {
				j.changed = true
			}
		}
		if w.lo < nv.lo && !w.n.constIs(0) {
			nv.lo = w.lo
			j.change("lengths")
		}
		if w.hi > nv.hi && !w.n.constIs(0) {
			nv.hi = w.hi
			j.change("lengths")
		}
		J.vet[k] = nv
	}
	for k, w := range s.vet {
		if G.vet[k] != nil || j.own(k) || j.onlyS(k) {
			continue
		}
		nv := *w
		nv.n = j.jt(tZero, w.n, types.Typ[types.Int])
		J.vet[k] = &nv
	}
	for b, l := range G.elems {
		if j.own(b) {
			continue
		}
		for _, i := range l {
			if !j.own(i) && hasTerm(s.elems[b], i) {
				J.elems[b] = append(J.elems[b], i)
			}
		}
	}
}

// onlyS: the string is something of the iteration that was just done.
func (j *joiner) onlyS(k *Term) bool {
	f := false
	k.walk(func(t *Term) bool {
		if t.Op == OSym && strings.Contains(t.S, "#") {
			f = true
		}
		return !f
	})
	if !f {
		return false
	}
	// does G know it?
	known := false
	for x := range j.G.facts {
		if x.mentions(k) {
			known = true
		}
	}
	return !known
}

// stale facts speak about values that are not part of the joined state any more.
func (j *joiner) stale(f *Term) bool {
	if j.live == nil {
		j.live = map[*Term]bool{}
		J := j.J
		mark := func(t *Term) {
			if t == nil {
				return
			}
			t.walk(func(x *Term) bool {
				if j.live[x] {
					return false
				}
				j.live[x] = true
				return true
			})
		}
		for _, fr := range J.frames {
			for _, t := range fr.env {
				mark(t)
			}
			for _, d := range fr.defers {
				for _, a := range d.args {
					mark(a)
				}
			}
		}
		for _, t := range J.ghost {
			mark(t)
		}
		for _, o := range J.heap {
			for _, c := range o.cells {
				mark(c)
			}
			if o.lazy != nil {
				mark(o.lazy)
			}
			for _, g := range o.list {
				if g.Elem != nil {
					mark(g.Elem)
				} else {
					mark(g.Star.base)
				}
			}
		}
	}
	// every symbol with a fresh name must be live
	st := false
	f.walk(func(x *Term) bool {
		if x.Op == OSym && strings.Contains(x.S, "#") && !j.live[x] {
			st = true
		}
		if x.Op == OApp && (x.S == "elem" || x.S == "byteat") && !j.live[x] {
			st = true
		}
		return !st
	})
	return st
}

func (s *State) decideQuiet(b *Term) int { return s.decide(b) }

func (j *joiner) joinCons() {
	G, s, J := j.G, j.s, j.J
	seen := map[*Term]bool{}
	hold := func(t *Term, eq bool) bool { // t over joined terms
		if seen[t] {
			return false
		}
		a, b := j.subA(t), j.subB(t)
		if eq {
			return G.cons.entailsEq(a) && s.cons.entailsEq(b)
		}
		return G.cons.entails(a) && s.cons.entails(b)
	}
	var lost []*Term
	addC := func(t *Term, eq bool, old bool) {
		if t == nil || t.isConst() {
			return
		}
		if hold(t, eq) {
			seen[t] = true
			if eq {
				J.ownCons().addEq(t)
			} else {
				J.ownCons().addLe(t)
			}
		} else if old && !seen[t] {
			lost = append(lost, t)
			if !j.stale(t) {
				j.change("constraint %s", t)
			}
		}
	}
	J.consOwn = true
	// constraints of G
	for _, t := range G.cons.eqs {
		addC(t, true, true)
		if !seen[t] {
			addC(t, false, false)
			addC(neg(t), false, false)
		}
	}
	for _, t := range G.cons.les {
		addC(t, false, true)
	}
	for _, t := range G.cons.nes {
		b := j.subB(t)
		if s.cons.entailsNe(b) && G.cons.entailsNe(j.subA(t)) {
			if len(toRow(t).m) > 0 {
				J.ownCons().addNe(t)
			}
		} else if !j.stale(t) {
			j.change("constraint %s != 0", t)
		}
	}
	// candidates about new variables
	var ints []*Term
	for _, x := range j.phis {
		if isStrTerm(x) {
			ints = append(ints, StrLen(x))
		} else if isIntTerm(x) {
			ints = append(ints, x)
		}
	}
	fresh := map[*Term]bool{}
	for _, x := range j.phis {
		if j.phiA[x] != x {
			fresh[x] = true
			if isStrTerm(x) {
				fresh[StrLen(x)] = true
			}
		}
	}
	// what a lost constraint implied, together with others, may still hold
	for _, t := range lost {
		for _, x := range ints {
			if toRow(t).m[x] != 0 {
				fresh[x] = true
			}
		}
	}
	// a lost constraint of an old quantity, restated for the variable that stands for it now
	for _, x := range ints {
		if !fresh[x] {
			continue
		}
		r := toRow(j.subA(x))
		if len(r.m) != 1 {
			continue
		}
		for a, k := range r.m {
			if k != 1 {
				continue
			}
			for _, t := range lost {
				if toRow(t).m[a] != 0 {
					addC(subst(t, map[*Term]*Term{a: AddC(x, -r.c)}, map[*Term]*Term{}), false, false)
				}
			}
		}
	}
	if len(fresh) == 0 {
		return
	}
	val := func(x *Term) (*Term, *Term) { return j.subA(x), j.subB(x) }
	for i, x := range ints {
		if !fresh[x] {
			continue
		}
		xa, xb := val(x)
		if addC(neg(x), false, false); !seen[neg(x)] {
			addC(lin(-1, -1, x), false, false)
		}
		for k, y := range ints {
			if k == i || fresh[y] && k < i {
				continue
			}
			ya, yb := val(y)
			d := Sub2(xa, ya)
			if db := Sub2(xb, yb); d != db && d.isConst() && db.isConst() {
				// monotone difference
				addC(AddC(Sub2(x, y), -max64(d.N, db.N)), false, false)
				addC(AddC(Sub2(y, x), min64(d.N, db.N)), false, false)
				continue
			}
			if !j.own(d) {
				addC(Sub2(Sub2(x, y), d), true, false)
			}
			for _, q := range []*Term{Sub2(x, y), Sub2(y, x)} {
				if addC(q, false, false); !seen[q] {
					addC(AddC(q, -1), false, false)
				}
			}
		}
		// a bound of G that moves with the variable
		if xa.isConst() && isIntTerm(x) {
			for _, t := range G.cons.les {
				if m := toRow(t).m; len(m) == 1 && m[x] == 0 {
					addC(Add(t, AddC(x, -xa.N)), false, false)
				}
			}
		}
		// relation with quantities of the state
		for _, w := range j.atoms(xa, xb) {
			if !seen[Sub2(x, w)] {
				addC(Sub2(x, w), true, false)
			}
			if !seen[Sub2(x, w)] {
				addC(AddC(Sub2(x, w), 1), false, false)
				if !seen[AddC(Sub2(x, w), 1)] {
					addC(Sub2(x, w), false, false)
				}
				addC(Sub2(w, x), false, false)
				if !seen[Sub2(x, w)] && !seen[AddC(Sub2(x, w), 1)] {
					addC(AddC(Sub2(x, w), -1), false, false)
				}
			}
		}
	}
	// constant bounds come last: a relation that they imply must not be lost with them
	for _, x := range ints {
		if !fresh[x] {
			continue
		}
		xa, xb := val(x)
		if !xa.isConst() || !xb.isConst() {
			for _, c := range []int64{255, 1<<31 - 1, 1<<32 - 1} {
				if addC(lin(-c, 1, x), false, false); seen[lin(-c, 1, x)] {
					break
				}
			}
			if !seen[neg(x)] {
				addC(lin(-1<<31, -1, x), false, false)
			}
		}
		if !j.widen {
			// constant bounds
			if xa.isConst() {
				addC(lin(xa.N, -1, x), false, false) // x >= c
				addC(lin(-xa.N, 1, x), false, false)
			}
			if xb.isConst() {
				addC(lin(xb.N, -1, x), false, false)
				addC(lin(-xb.N, 1, x), false, false)
			}
		}
	}
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// atoms are unchanged integer quantities that occur in constraints together with the values of a variable.
func (j *joiner) atoms(xa, xb *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	add := func(t *Term) {
		for a := range toRow(t).m {
			if seen[a] || j.own(a) || a.Op == OSym && strings.HasPrefix(a.S, j.pre) {
				continue
			}
			seen[a] = true
			if a.Op != OLen && a.Op != OSym {
				continue
			}
			if j.stale(a) {
				continue
			}
			out = append(out, a)
		}
	}
	for _, l := range [][]*Term{j.s.cons.les, j.s.cons.eqs, j.G.cons.les} {
		for _, t := range l {
			add(t)
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a].id < out[b].id })
	if len(out) > 25 {
		out = out[:25]
	}
	return out
}
