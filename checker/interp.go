package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	mbig "math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInst struct {
	head     *ssa.BasicBlock
	body     map[*ssa.BasicBlock]bool
	id       int
	n        int // arrivals at the head
	unrolled int
	cond     string // what the condition of an unrolled loop was computed from
}

type loopKey struct {
	id  int
	key string
}
type loopEntry struct {
	st              *State
	visits, changes int
	runs            int  // times the code after the head was analysed
	call            bool // at a call, not at a loop
	queued          bool // the state has changed since
}

// Oblig is a run-time check (index, nil, type assertion, ...) of an instruction.
type Oblig struct {
	fn    string
	kind  string
	pos   token.Pos
	text  string
	ok    int
	bad   int
	trace *traceNode
	why   string
}

type Hooks interface {
	// Return is called when the entry function returns.
	Return(s *State, res *Term)
	// Panic is called when the entry function panics explicitly.
	Panic(s *State, pos token.Pos, v *Term)
	// Event is called for I/O, locks, stores and so on. It may modify s.
	Event(s *State, ev *Event)
}

type Event struct {
	Kind    string
	Pos     token.Pos
	Fn      *ssa.Function
	A, B, C *Term
	Args    []*Term
	Obj     *Obj
	Path    string
	S       string
	T       types.Type
	In      ssa.Instruction
}

type Engine struct {
	P          *Program
	base       map[string]*Obj
	hooks      Hooks
	loopTab    map[loopKey]*loopEntry
	loopN      int
	work       []*State
	finals     int
	obligs     map[string]*Oblig
	problems   map[string]*traceNode
	probPos    map[string]token.Pos
	steps      int
	maxSteps   int
	stepsOf    map[string]int
	paths      int
	infos      map[*ssa.Function]*fnInfo
	phiN       int
	debug      bool
	aborted    string
	env        *Env
	joins      int
	tag        string // makes the names of symbols unique
	ctxTag     string // makes the names of objects unique
	joinAt     *State // loop head that is being joined with
	fns        map[string]bool
	unmodelled map[string]int
	inInit     bool
	started    bool
	partGhost  string // states that differ in this ghost are not joined
	callHooks  map[string]func(e *Engine, s *State, c *call) []*State
	lives      map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	waiting    []*loopEntry
	orders     map[*ssa.Function]map[*ssa.BasicBlock]int
	livePts    map[livePoint]map[ssa.Value]bool
	points     map[string]*loopInst
	deadline   int64
	prof       map[string]int
	profAt     int
}

type fnInfo struct {
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	enum  map[*ssa.Phi]bool
}

var engines int

func newEngine(p *Program) *Engine {
	engines++
	e := &Engine{P: p, tag: fmt.Sprintf("%d.", engines), base: p.base, loopTab: map[loopKey]*loopEntry{}, obligs: map[string]*Oblig{}, problems: map[string]*traceNode{}, probPos: map[string]token.Pos{},
		infos: map[*ssa.Function]*fnInfo{}, maxSteps: 3000000, fns: map[string]bool{}, unmodelled: map[string]int{}, debug: os.Getenv("GMDEBUG") != ""}
	if n, err := strconv.Atoi(os.Getenv("GM_PROF")); err == nil && n > 0 {
		e.prof, e.profAt = map[string]int{}, n
	}
	return e
}

func newState(e *Engine) *State {
	return &State{eng: e, heap: map[string]*Obj{}, owned: map[string]bool{}, cons: newCons(), consOwn: true, facts: map[*Term]bool{}, ghost: map[string]*Term{},
		vet: map[*Term]*vetInfo{}, tmp: map[string]*Term{}, elems: map[*Term][]*Term{}}
}

// problem records something the analysis could not decide.
func (e *Engine) problem(s *State, pos token.Pos, format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	if _, ok := e.problems[m]; !ok {
		e.problems[m] = s.trace
		e.probPos[m] = pos
	}
	s.vague(pos, m)
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	in := &fnInfo{loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, enum: map[*ssa.Phi]bool{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := in.loops[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					in.loops[h] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !body[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	// phis that only take constant values
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			seen := map[ssa.Value]bool{}
			var okv func(v ssa.Value) bool
			okv = func(v ssa.Value) bool {
				if seen[v] {
					return true
				}
				seen[v] = true
				switch x := v.(type) {
				case *ssa.Const:
					return true
				case *ssa.Phi:
					for _, e := range x.Edges {
						if !okv(e) {
							return false
						}
					}
					return true
				}
				return false
			}
			in.enum[ph] = okv(ph)
		}
	}
	e.infos[fn] = in
	return in
}

// Run analyses fn from the given state until no work is left.
func (e *Engine) Run(s *State, fn *ssa.Function, args []*Term, bindings []*Term) {
	e.started = true
	e.push(s, fn, args, bindings, nil, nil, "")
	e.work = append(e.work, s)
	for len(e.work) > 0 || e.nextLoop() {
		s := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		if s.dead {
			continue
		}
		for {
			e.steps++
			if os.Getenv("GMPROG") != "" && e.steps%500 == 0 {
				fmt.Fprintln(os.Stderr, "PROG", e.steps, s.top().fn, len(s.cons.eqs), len(s.cons.les), len(s.cons.nes), len(s.heap), len(s.elems), e.joins)
			}
			if e.prof != nil {
				e.profile(s)
			}
			if e.steps > e.maxSteps {
				e.aborted = fmt.Sprintf("step limit of %d exceeded", e.maxSteps)
				e.problem(s, token.NoPos, "%s", e.aborted)
				e.work, e.waiting = nil, nil
				return
			}
			next := e.step(s)
			if len(next) == 0 {
				break
			}
			k := 0
			var cont *State
			for _, n := range next {
				if n.dead {
					continue
				}
				k++
				if cont == nil {
					cont = n
				} else {
					e.work = append(e.work, n)
				}
			}
			if cont == nil {
				break
			}
			s = cont
		}
	}
}

func (e *Engine) push(s *State, fn *ssa.Function, args, bindings []*Term, call ssa.Instruction, onRet func(*State, *Term) []*State, tag string) bool {
	depth := 0
	for _, f := range s.frames {
		if f.fn == fn {
			depth++
		}
	}
	if depth > 2 || len(s.frames) > 40 {
		e.problem(s, fn.Pos(), "recursion of %s is not analysed", fn)
		s.dead = true
		return false
	}
	ctx := e.ctxTag + fn.RelString(nil)
	if len(s.frames) > 0 {
		p := s.top()
		site := 0
		if call != nil {
			site = instrIndex(call)
		}
		ctx = p.ctx + ">" + fmt.Sprintf("%d.%s%s", site, fn.Name(), tag)
	}
	f := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]*Term{}, call: call, ctx: ctx, onRet: onRet}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		f.env[v] = bindings[i]
	}
	s.frames = append(s.frames[:len(s.frames):len(s.frames)], f)
	e.fns[fn.RelString(nil)] = true
	return true
}

func instrIndex(in ssa.Instruction) int {
	b := in.Block()
	if b == nil {
		return -1
	}
	for i, x := range b.Instrs {
		if x == in {
			return b.Index*1000 + i
		}
	}
	return -1
}

// val evaluates an operand.
func (e *Engine) val(s *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return e.globalPtr(x)
	case *ssa.Function:
		return mk(OFn, "", 0, nil, x, nil)
	case *ssa.Builtin:
		return App("builtin:" + x.Name())
	}
	f := s.top()
	if t, ok := f.env[v]; ok {
		return t
	}
	e.problem(s, v.Pos(), "no value for %s in %s", v.Name(), f.fn)
	t := Sym(s.newName("undef"), v.Type(), nil)
	f.env[v] = t
	return t
}

func (e *Engine) globalPtr(g *ssa.Global) *Term {
	id := "g:" + g.String()
	if _, ok := e.base[id]; !ok {
		o := &Obj{id: id, T: g.Type().(*types.Pointer).Elem(), cells: map[string]*Term{}, origin: "global"}
		if !e.P.isModule(g.Pkg) {
			o.lazy = Sym("&"+g.String(), g.Type(), &SymInfo{NonNil: true, Origin: "extglobal"})
		}
		e.base[id] = o
	}
	return Ptr(Obj_(id), "")
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if n, ok := constant.Int64Val(v); ok {
				return Int(n)
			}
			return AppT("bigconst:"+v.ExactString(), c.Type())
		case u.Info()&types.IsString != 0:
			return Lit(constant.StringVal(c.Value))
		case u.Info()&types.IsFloat != 0:
			return mk(OFloat, c.Value.ExactString(), 0, nil, nil, nil)
		}
	}
	return AppT("const:"+c.String(), c.Type())
}

func typeLimits(t types.Type) (lo, hi int64, hasHi bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, math.MaxUint32, true
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32, types.UntypedRune:
		return math.MinInt32, math.MaxInt32, true
	case types.Int, types.Int64, types.UntypedInt:
		return math.MinInt64, math.MaxInt64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 0, false
	}
	return math.MinInt64, math.MaxInt64, true
}

// wrap reduces an integer to type t: it stays as it is if it is known to fit.
func (s *State) wrap(x *Term, t types.Type) *Term {
	lo, hi, hasHi := typeLimits(t)
	if x.Op == OWrap && typeBytes(t) <= typeBytes(x.T) {
		return s.wrap2(x.Args[0], t, lo, hi, hasHi)
	}
	return s.wrap2(x, t, lo, hi, hasHi)
}
func (s *State) wrap2(x *Term, t types.Type, lo, hi int64, hasHi bool) *Term {
	l, okl, h, okh := termRange(x)
	okLo := okl && l >= lo || lo == math.MinInt64 && (okl || noUint64(x))
	okHi := !hasHi || okh && h <= hi
	if !okLo && lo != math.MinInt64 {
		okLo = s.cons.entails(Sub2(Int(lo), x))
	}
	if !okHi && hasHi {
		if hi == math.MaxInt64 {
			okHi = noUint64(x) && len(x.Args) == 0 || s.boundedAbove(x)
		} else {
			okHi = s.cons.entails(AddC(x, -hi))
		}
	}
	if lo == math.MinInt64 && !okLo {
		okLo = s.boundedBelow(x)
	}
	if okLo && okHi {
		return x
	}
	if v, ok := bigVal(x); ok && x.Op == OApp {
		u := v.Uint64()
		switch n := typeBytes(t); {
		case n == 8 && lo < 0:
			return Int(int64(u))
		case n == 8:
			return x
		case n > 0:
			u &= 1<<uint(8*n) - 1
			if lo < 0 && int64(u) > hi {
				return Int(int64(u) - 1<<uint(8*n))
			}
			return Int(int64(u))
		}
	}
	if x.isConst() {
		// reduce
		n := typeBytes(t) * 8
		if n == 64 && lo == 0 && x.N < 0 {
			return bigConst(uint64(x.N), types.Typ[types.Uint64])
		}
		if n > 0 && n < 64 {
			m := x.N & (1<<uint(n) - 1)
			if lo < 0 && m > hi {
				m -= 1 << uint(n)
			}
			return Int(m)
		}
	}
	return mk(OWrap, "", 0, canonInt(t), nil, nil, x)
}

// noUint64: x is an atom of a type whose values all fit int64.
func noUint64(x *Term) bool {
	switch x.Op {
	case OInt:
		return len(x.Args) == 0
	case OSym, OApp, OWrap:
		if x.sym != nil && x.sym.Bits == 64 {
			return false
		}
		if x.T == nil {
			return true
		}
		if b, ok := x.T.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint, types.Uint64, types.Uintptr:
				return x.sym != nil && x.sym.HasHi
			}
		}
		return true
	}
	return true
}

const big = int64(1) << 61

func (s *State) boundedAbove(x *Term) bool {
	if _, _, h, ok := termRange(x); ok && h <= math.MaxInt64-1 {
		return true
	}
	return s.cons.entails(AddC(x, -big)) || s.cons.entails(AddC(x, -(math.MaxInt64-1)))
}
func (s *State) boundedBelow(x *Term) bool {
	if l, ok, _, _ := termRange(x); ok && l > math.MinInt64 {
		return true
	}
	return s.cons.entails(lin(-big, -1, x))
}

var canonInts = map[types.BasicKind]types.Type{}

func canonInt(t types.Type) types.Type {
	if b, ok := t.Underlying().(*types.Basic); ok {
		k := b.Kind()
		switch k {
		case types.Int:
			k = types.Int64
		case types.Uint, types.Uintptr:
			k = types.Uint64
		}
		return types.Typ[k]
	}
	return t
}

func (e *Engine) set(s *State, v ssa.Value, t *Term) {
	s.top().env[v] = t
}

// fork2 clones s for both values of a condition.
func (e *Engine) fork2(s *State, cond *Term) (yes, no *State) {
	switch s.decide(cond) {
	case 1:
		return s, nil
	case 0:
		return nil, s
	}
	no = s.clone()
	yes = s
	yes.assume(cond, true)
	no.assume(cond, false)
	if yes.dead {
		yes = nil
	}
	if no.dead {
		no = nil
	}
	return
}

// refork makes one clone per alternative set of constraints; the instruction is executed again in each.
func (e *Engine) refork(s *State, alts [][]*Term) []*State {
	var out []*State
	for i, a := range alts {
		c := s
		if i < len(alts)-1 {
			c = s.clone()
		}
		for _, t := range a {
			c.assume(Le0(t), true)
		}
		if len(a) == 2 && a[1] == neg(a[0]) && !c.dead {
			c.explicitEq(a[0])
		}
		if !c.dead {
			out = append(out, c)
		}
	}
	return out
}

// oblige records a run-time check and assumes that it succeeds.
func (e *Engine) oblige(s *State, in ssa.Instruction, pos token.Pos, kind string, cond *Term, text string) bool {
	fn := s.top().fn
	k := fmt.Sprintf("%s|%s|%d|%d", fn.RelString(nil), kind, instrIndex(in), pos)
	o := e.obligs[k]
	if o == nil {
		o = &Oblig{fn: fn.RelString(nil), kind: kind, pos: pos, text: text}
		e.obligs[k] = o
	}
	d := s.decide(cond)
	if d == 1 {
		o.ok++
		return true
	}
	if d < 0 && s.infeasible() {
		s.dead = true
		return false
	}
	o.bad++
	if o.trace == nil {
		o.trace = s.trace
		o.why = cond.String()
		if e.debug {
			fmt.Fprintf(os.Stderr, "OBLIG %s %s at %s: %s\n", kind, fn, e.P.pos(pos), cond)
			s.dump()
		}
	}
	s.assume(cond, true)
	return !s.dead
}

func (s *State) infeasible() bool { return !s.cons.feasible() }

func (s *State) dump() {
	for _, t := range s.cons.eqs {
		fmt.Fprintf(os.Stderr, "   %s = 0\n", t)
	}
	for _, t := range s.cons.les {
		fmt.Fprintf(os.Stderr, "   %s <= 0\n", t)
	}
	for _, t := range s.cons.nes {
		fmt.Fprintf(os.Stderr, "   %s != 0\n", t)
	}
	for _, f := range s.sortedFacts() {
		fmt.Fprintf(os.Stderr, "   %s : %v\n", f, s.facts[f])
	}
	var gs []string
	for k := range s.ghost {
		gs = append(gs, k)
	}
	sort.Strings(gs)
	for _, k := range gs {
		fmt.Fprintf(os.Stderr, "   ghost %s = %s\n", k, s.ghost[k])
	}
}

func (e *Engine) event(s *State, ev *Event) {
	if e.hooks != nil && !e.inInit {
		if ev.Fn == nil && len(s.frames) > 0 {
			ev.Fn = s.top().fn
		}
		e.hooks.Event(s, ev)
	}
}

func (e *Engine) step(s *State) []*State {
	f := s.top()
	if f.pc >= len(f.block.Instrs) {
		e.problem(s, f.fn.Pos(), "fell off block in %s", f.fn)
		return nil
	}
	in := f.block.Instrs[f.pc]
	if e.debug && os.Getenv("GMDEBUG") == "2" {
		fmt.Fprintf(os.Stderr, "%s b%d.%d %T %v\n", f.fn.Name(), f.block.Index, f.pc, in, in)
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.pc++
		return one(s)
	case *ssa.Alloc:
		id := f.ctx + "@" + fmt.Sprint(instrIndex(x))
		o := s.newObj(id, x.Type().(*types.Pointer).Elem())
		o.origin = "fresh"
		e.set(s, x, Ptr(Obj_(o.id), ""))
	case *ssa.Phi:
		// done at block entry
	case *ssa.BinOp:
		t, alts := e.binop(s, x, e.val(s, x.X), e.val(s, x.Y))
		if alts != nil {
			return alts
		}
		e.set(s, x, t)
	case *ssa.UnOp:
		return e.unop(s, x)
	case *ssa.FieldAddr:
		p := e.val(s, x.X)
		if !e.nonNil(s, x, x.Pos(), p, "field of a nil pointer") {
			return nil
		}
		e.set(s, x, addrField(p, x.Field))
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		e.set(s, x, projField(s, e.val(s, x.X), x.Field, st.Field(x.Field).Type()))
	case *ssa.IndexAddr:
		return e.indexAddr(s, x)
	case *ssa.Index:
		return e.index(s, x, x.X, x.Index, x.Pos())
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return e.mapLookup(s, x)
		}
		return e.index(s, x, x.X, x.Index, x.Pos())
	case *ssa.Slice:
		return e.sliceOp(s, x)
	case *ssa.Store:
		a, v := e.val(s, x.Addr), e.val(s, x.Val)
		if !e.nonNil(s, x, x.Pos(), a, "store through a nil pointer") {
			return nil
		}
		t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		if a.Op == OPtr && len(a.Args) == 2 {
			if o, _, ok := s.objOf(Ptr(a.Args[0], "")); ok && o.isList {
				if alts := s.listPositions(o, a.Args[1]); len(alts) > 1 && len(alts) < 8 {
					return e.refork(s, alts)
				}
			}
		}
		e.event(s, &Event{Kind: "store", Pos: x.Pos(), A: a, B: v, T: t, In: x})
		if !s.store(a, v, t) {
			e.problem(s, x.Pos(), "store to an unknown address in %s", f.fn)
		}
	case *ssa.Jump:
		return e.enter(s, f.block.Succs[0])
	case *ssa.If:
		c := e.val(s, x.Cond)
		switch s.decide(c) {
		case 1:
			return e.enter(s, f.block.Succs[0])
		case 0:
			return e.enter(s, f.block.Succs[1])
		}
		no := s.clone()
		pos := condPos(x)
		succs := f.block.Succs
		s.note(pos, "%s", c)
		no.note(pos, "%s", Not(c))
		s.assume(c, true)
		no.assume(c, false)
		if h, ok := e.hooks.(interface{ Branch(s *State, cond *Term) }); ok {
			h.Branch(s, c)
			h.Branch(no, c)
		}
		var out []*State
		if !s.dead {
			out = append(out, e.enter(s, succs[0])...)
		}
		if !no.dead {
			out = append(out, e.enter(no, succs[1])...)
		}
		return out
	case *ssa.Return:
		var res *Term
		switch len(x.Results) {
		case 0:
			res = tUnit
		case 1:
			res = e.val(s, x.Results[0])
		default:
			a := make([]*Term, len(x.Results))
			for i, r := range x.Results {
				a[i] = e.val(s, r)
			}
			res = Tuple(a...)
		}
		return e.doReturn(s, res, x.Pos())
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			return one(s)
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return e.invoke(s, &call{e: e, in: x, common: d.call, fnv: d.fn, args: d.args, pos: d.pos, deferred: true, tag: fmt.Sprintf("d%d", len(f.defers))})
	case *ssa.Panic:
		v := e.val(s, x.X)
		s.note(x.Pos(), "panic(%s)", v)
		k := fmt.Sprintf("%s|panic|%d", f.fn.RelString(nil), instrIndex(x))
		o := e.obligs[k]
		if o == nil {
			o = &Oblig{fn: f.fn.RelString(nil), kind: "panic", pos: x.Pos(), text: "explicit panic"}
			e.obligs[k] = o
		}
		o.bad++
		if o.trace == nil {
			o.trace = s.trace
		}
		if e.hooks != nil {
			e.hooks.Panic(s, x.Pos(), v)
		}
		return nil
	case *ssa.Call:
		if s.resumed {
			s.resumed = false
		} else if h, ok := e.hooks.(interface {
			JoinCall(s *State, c *ssa.Call) bool
		}); ok && h.JoinCall(s, x) {
			return e.joinCall(s)
		}
		return e.callInstr(s, x, &x.Call)
	case *ssa.Go:
		c := e.mkCall(s, x, &x.Call, x.Pos())
		if c == nil {
			return nil
		}
		e.event(s, &Event{Kind: "go", Pos: x.Pos(), A: c.fnv, Args: c.args, In: x})
	case *ssa.Defer:
		c := e.mkCall(s, x, &x.Call, x.Pos())
		if c == nil {
			return nil
		}
		f.defers = append(f.defers, deferred{call: &x.Call, fn: c.fnv, args: c.args, pos: x.Pos()})
	case *ssa.MakeInterface:
		e.set(s, x, mk(OIface, "", 0, x.X.Type(), nil, nil, e.val(s, x.X)))
	case *ssa.ChangeInterface:
		e.set(s, x, e.val(s, x.X))
	case *ssa.ChangeType:
		e.set(s, x, e.val(s, x.X))
	case *ssa.Convert:
		e.set(s, x, e.convert(s, x, e.val(s, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		e.set(s, x, e.convert(s, x, e.val(s, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeClosure:
		b := make([]*Term, len(x.Bindings))
		for i, v := range x.Bindings {
			b[i] = e.val(s, v)
		}
		e.set(s, x, mk(OFn, "", 0, nil, x.Fn.(*ssa.Function), nil, b...))
	case *ssa.MakeSlice:
		n, c := e.val(s, x.Len), e.val(s, x.Cap)
		if !e.oblige(s, x, x.Pos(), "makeslice", Le0(neg(n)), "make with a negative length") {
			return nil
		}
		if !e.oblige(s, x, x.Pos(), "makeslice", Le0(AddC(n, -(1<<40))), "make with a huge length") {
			return nil
		}
		if c != n && !e.oblige(s, x, x.Pos(), "makeslice", Le0(Sub2(n, c)), "make with a capacity below the length") {
			return nil
		}
		e.set(s, x, e.makeSlice(s, f.ctx+"@"+fmt.Sprint(instrIndex(x)), x.Type(), n, c))
	case *ssa.MakeMap:
		o := s.newObj(f.ctx+"@"+fmt.Sprint(instrIndex(x)), x.Type())
		o.ext = "map"
		e.set(s, x, Ptr(Obj_(o.id), ""))
	case *ssa.MakeChan:
		o := s.newObj(f.ctx+"@"+fmt.Sprint(instrIndex(x)), x.Type())
		o.ext = "chan"
		o.ghost = map[string]*Term{"open": tTrue}
		e.set(s, x, Ptr(Obj_(o.id), ""))
	case *ssa.MapUpdate:
		return e.mapUpdate(s, x)
	case *ssa.Range:
		e.set(s, x, e.rangeInit(s, x))
	case *ssa.Next:
		return e.next(s, x)
	case *ssa.Extract:
		t := e.val(s, x.Tuple)
		if t.Op == OTuple && x.Index < len(t.Args) {
			e.set(s, x, t.Args[x.Index])
		} else {
			e.set(s, x, AppT(fmt.Sprintf("res%d", x.Index), x.Type(), t))
		}
	case *ssa.TypeAssert:
		return e.typeAssert(s, x)
	case *ssa.Select:
		return e.selectOp(s, x)
	case *ssa.Send:
		e.event(s, &Event{Kind: "send", Pos: x.Pos(), A: e.val(s, x.Chan), B: e.val(s, x.X), In: x})
	case *ssa.SliceToArrayPointer:
		e.set(s, x, AppT("toarray", x.Type(), e.val(s, x.X)))
	default:
		e.problem(s, in.Pos(), "instruction %T is not supported", in)
		return nil
	}
	if s.dead {
		return nil
	}
	f.pc++
	return one(s)
}

func one(s *State) []*State { return []*State{s} }

func condPos(x *ssa.If) token.Pos {
	if p := x.Cond.Pos(); p.IsValid() {
		return p
	}
	for i := len(x.Block().Instrs) - 1; i >= 0; i-- {
		if p := x.Block().Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return token.NoPos
}

func addrField(p *Term, i int) *Term {
	if p.Op == OPtr && len(p.Args) == 1 {
		return Ptr(p.Args[0], joinPath(p.S, fmt.Sprint(i)))
	}
	if p.Op == OPtr {
		// element of a list of structs
		return Ptr(AppT("elemaddr"+p.S, nil, p.Args...), fmt.Sprint(i))
	}
	return Ptr(p, fmt.Sprint(i))
}

func (e *Engine) nonNil(s *State, in ssa.Instruction, pos token.Pos, p *Term, what string) bool {
	if p.Op == OPtr && (p.Args[0].Op == OObj || p.S != "") {
		return true
	}
	if p.Op == OIface || p.Op == OFn {
		return true
	}
	return e.oblige(s, in, pos, "nil", Not(isNilTerm(p)), what)
}

func (e *Engine) doReturn(s *State, res *Term, pos token.Pos) []*State {
	f := s.top()
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		e.paths++
		s.ret = res
		s.note(pos, "return %s", res)
		if e.hooks != nil {
			e.hooks.Return(s, res)
		}
		return nil
	}
	if f.onRet != nil {
		return f.onRet(s, res)
	}
	p := s.top()
	if f.call != nil {
		if v, ok := f.call.(ssa.Value); ok {
			p.env[v] = res
		}
		p.pc++
	}
	return one(s)
}

// enter moves to a block: phis are evaluated, loop heads are joined.
func (e *Engine) enter(s *State, b *ssa.BasicBlock) []*State {
	f := s.top()
	from := f.block
	// phis
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range b.Preds {
			if p == from {
				vals = append(vals, e.val(s, ph.Edges[i]))
				break
			}
		}
		phis = append(phis, ph)
	}
	for i, ph := range phis {
		f.env[ph] = vals[i]
	}
	f.prev, f.block, f.pc = from, b, len(phis)
	// leave loops
	for len(f.loops) > 0 {
		l := f.loops[len(f.loops)-1]
		if l.body[b] {
			break
		}
		f.loops = f.loops[:len(f.loops)-1]
	}
	body, isHead := e.info(f.fn).loops[b]
	if !isHead {
		return one(s)
	}
	var inst *loopInst
	back := false
	if len(f.loops) > 0 && f.loops[len(f.loops)-1].head == b {
		inst = f.loops[len(f.loops)-1]
		back = true
	} else {
		e.loopN++
		inst = &loopInst{head: b, body: body, id: e.loopN}
		f.loops = append(f.loops, inst)
	}
	return e.loopHead(s, inst, back, phis)
}

func (e *Engine) makeSlice(s *State, id string, t types.Type, n, c *Term) *Term {
	el := t.Underlying().(*types.Slice).Elem()
	o := s.newObj(id, nil)
	o.origin = "fresh"
	o.ghost = map[string]*Term{"nonnil": tTrue}
	if isByte(el) {
		o.cells[""] = Zeros(c)
	} else {
		o.isList = true
		if !c.isConst() || c.N > 64 {
			if !n.constIs(0) {
				o.list = []LSeg{{Star: &Star{id: o.id, base: App("zero:" + o.id), n: n, off: tZero, T: el}}}
			}
		} else {
			for i := int64(0); i < n.N; i++ {
				o.list = append(o.list, LSeg{Elem: zeroValue(el)})
			}
		}
		if n.isConst() && n.N <= 64 {
			o.list = nil
			for i := int64(0); i < n.N; i++ {
				o.list = append(o.list, LSeg{Elem: zeroValue(el)})
			}
		}
	}
	return mk(OSlice, "", 0, nil, nil, nil, Ptr(Obj_(o.id), ""), tZero, n, c)
}

// bigVal is the value of a constant, also of one beyond int64.
func bigVal(t *Term) (*mbig.Int, bool) {
	if t.isConst() {
		return mbig.NewInt(t.N), true
	}
	if t.Op == OApp && strings.HasPrefix(t.S, "bigconst:") {
		return new(mbig.Int).SetString(t.S[len("bigconst:"):], 10)
	}
	return nil, false
}

func bigConst(v uint64, t types.Type) *Term {
	if v < 1<<63 {
		return Int(int64(v))
	}
	return AppT("bigconst:"+strconv.FormatUint(v, 10), t)
}

// compare63 makes the comparison of a number with 2^63, which the arithmetic of terms cannot express: a fact
// of its own.
func (e *Engine) compare63(s *State, op token.Token, a, b *Term) *Term {
	half := new(mbig.Int).Lsh(mbig.NewInt(1), 63)
	below := new(mbig.Int).Sub(half, mbig.NewInt(1))
	x, c := a, b
	if v, ok := bigVal(a); ok && (v.Cmp(half) == 0 || v.Cmp(below) == 0) {
		x, c = b, a
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	v, ok := bigVal(c)
	if !ok {
		return nil
	}
	var ge bool
	switch {
	case v.Cmp(half) == 0 && (op == token.GEQ || op == token.LSS):
		ge = op == token.GEQ
	case v.Cmp(below) == 0 && (op == token.GTR || op == token.LEQ):
		ge = op == token.GTR
	default:
		return nil
	}
	var t *Term
	if _, ok := bigVal(x); !ok && (s.boundedAbove(x) || s.cons.entails(AddC(x, -(1<<63-1)))) {
		t = tFalse
	} else {
		t = AppT("ge63", types.Typ[types.Bool], x)
	}
	if !ge {
		t = Not(t)
	}
	return t
}

func (e *Engine) binop(s *State, x *ssa.BinOp, a, b *Term) (*Term, []*State) {
	t := x.X.Type()
	bt, _ := t.Underlying().(*types.Basic)
	isInt := bt != nil && bt.Info()&types.IsInteger != 0
	isStr := bt != nil && bt.Info()&types.IsString != 0
	switch x.Op {
	case token.EQL, token.NEQ:
		var c *Term
		switch {
		case isInt:
			c = EqInt(a, b)
		case isStr:
			c = mkStrEq(a, b)
		case a.Op == OStruct && b.Op == OStruct && len(a.Args) == len(b.Args):
			r, open := s.decideAll(eqConds(a, b, t))
			if r < 0 {
				y, n := e.fork2(s, open)
				var alts []*State
				for _, q := range []*State{y, n} {
					if q != nil {
						alts = append(alts, q)
					}
				}
				return tZero, alts // the instruction is executed again
			}
			c = Bool(r == 1)
		default:
			c = mkEq(a, b)
		}
		if x.Op == token.NEQ {
			c = Not(c)
		}
		return c, nil
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStr {
			ca, ok1 := constStr(a)
			cb, ok2 := constStr(b)
			if ok1 && ok2 {
				switch x.Op {
				case token.LSS:
					return Bool(ca < cb), nil
				case token.LEQ:
					return Bool(ca <= cb), nil
				case token.GTR:
					return Bool(ca > cb), nil
				}
				return Bool(ca >= cb), nil
			}
			return AppT("strcmp"+x.Op.String(), types.Typ[types.Bool], a, b), nil
		}
		if !isInt {
			return AppT("cmp"+x.Op.String(), types.Typ[types.Bool], a, b), nil
		}
		if va, ok := bigVal(a); ok {
			if vb, ok := bigVal(b); ok {
				d := va.Cmp(vb)
				return Bool(x.Op == token.LSS && d < 0 || x.Op == token.LEQ && d <= 0 || x.Op == token.GTR && d > 0 || x.Op == token.GEQ && d >= 0), nil
			}
		}
		if c := e.compare63(s, x.Op, a, b); c != nil {
			return c, nil
		}
		switch x.Op {
		case token.LSS: // a < b
			return Le0(AddC(Sub2(a, b), 1)), nil
		case token.LEQ:
			return Le0(Sub2(a, b)), nil
		case token.GTR:
			return Le0(AddC(Sub2(b, a), 1)), nil
		}
		return Le0(Sub2(b, a)), nil
	case token.ADD:
		if isStr {
			return Cat(a, b), nil
		}
		if isInt {
			r := Add(a, b)
			if r != nil && r.Op == OInt && r.N == 0 && len(r.Args) > 1 {
				shifted := false
				for i, x := range r.Args {
					shifted = shifted || x.Op == OApp && strings.HasPrefix(x.S, "<<")
					if r.Coef[i] != 1 {
						shifted = false
						break
					}
				}
				if shifted {
					if c := combineBytes(s, t, r.Args...); c != nil {
						return c, nil
					}
				}
			}
			return s.wrap(r, t), nil
		}
	case token.SUB:
		if isInt {
			return s.wrap(Sub2(a, b), t), nil
		}
	case token.MUL:
		if isInt {
			if a.isConst() || b.isConst() {
				if b.isConst() {
					a, b = b, a
				}
				var l linAcc
				l.add(b, a.N)
				if r := l.term(); r != nil {
					return s.wrap(r, t), nil
				}
			}
			return AppT("mul", t, a, b), nil
		}
	case token.QUO, token.REM:
		if isInt {
			if !e.oblige(s, x, x.Pos(), "div", Not(EqInt(b, tZero)), "division by zero") {
				return tZero, []*State{}
			}
			if a.isConst() && b.isConst() && b.N != 0 {
				if x.Op == token.QUO {
					return Int(a.N / b.N), nil
				}
				return Int(a.N % b.N), nil
			}
			if q := s.divide(a, b, t); q != nil {
				if x.Op == token.QUO {
					return q, nil
				}
				return neg(r0(a, q, b.N)), nil
			}
			return AppT("arith"+x.Op.String(), t, a, b), nil
		}
	case token.AND:
		if isInt {
			if a.isConst() && b.isConst() {
				return Int(a.N & b.N), nil
			}
			if a.isConst() {
				a, b = b, a
			}
			if b.isConst() && b.N == 0xff {
				return s.wrap(a, types.Typ[types.Uint8]), nil
			}
			if b.isConst() && b.N == 0xffff {
				return s.wrap(a, types.Typ[types.Uint16]), nil
			}
			if b.isConst() && b.N == 0xffffffff {
				return s.wrap(a, types.Typ[types.Uint32]), nil
			}
			r := AppT("and", t, a, b)
			if b.isConst() && b.N >= 0 {
				s.assume(Le0(neg(r)), true)
				s.assume(Le0(AddC(r, -b.N)), true)
			}
			return r, nil
		}
	case token.OR, token.XOR, token.AND_NOT:
		if isInt {
			if a.isConst() && b.isConst() {
				switch x.Op {
				case token.OR:
					return Int(a.N | b.N), nil
				case token.XOR:
					return Int(a.N ^ b.N), nil
				}
				return Int(a.N &^ b.N), nil
			}
			if x.Op == token.OR {
				if a.constIs(0) {
					return b, nil
				}
				if b.constIs(0) {
					return a, nil
				}
				if r := combineBytes(s, t, a, b); r != nil {
					return r, nil
				}
			}
			return AppT("arith"+x.Op.String(), t, a, b), nil
		}
		if bt != nil && bt.Info()&types.IsBoolean != 0 {
			return mkEq(a, Not(b)), nil
		}
	case token.SHL, token.SHR:
		if isInt && a.isConst() && b.isConst() && b.N >= 0 && b.N < 63 {
			if x.Op == token.SHL {
				return s.wrap(Int(a.N<<uint(b.N)), t), nil
			}
			return Int(a.N >> uint(b.N)), nil
		}
		if isInt && b.isConst() {
			if x.Op == token.SHR && b.N >= 0 && b.N < 62 {
				if q := s.divide(a, Int(1<<uint(b.N)), t); q != nil {
					return q, nil
				}
			}
			return AppT(fmt.Sprintf("%s%d", x.Op, b.N), t, a), nil
		}
		return AppT("arith"+x.Op.String(), t, a, b), nil
	}
	return AppT("op"+x.Op.String(), x.Type(), a, b), nil
}

// divide: a is known not to be negative, b is a positive constant.
func (s *State) divide(a, b *Term, t types.Type) *Term {
	if !b.isConst() || b.N <= 0 || !s.cons.entails(neg(a)) {
		return nil
	}
	if d := a; d.Op == OApp && d.S == "div" && d.Args[1].isConst() && d.Args[1].N > 0 && d.Args[1].N < 1<<31 && b.N < 1<<31 {
		return s.divide(d.Args[0], Int(d.Args[1].N*b.N), t)
	}
	q := AppT("div", t, a, b)
	// b*q <= a <= b*q + b-1
	var l linAcc
	l.add(q, b.N)
	l.add(a, -1)
	if r := l.term(); r != nil {
		s.assume(Le0(r), true)
		s.assume(Le0(lin(-(b.N-1), -1, r)), true)
	}
	s.assume(Le0(neg(q)), true)
	s.assume(Le0(Sub2(q, a)), true)
	return q
}

func r0(a, q *Term, n int64) *Term {
	var l linAcc
	l.add(q, n)
	l.add(a, -1)
	return l.term()
}

func (e *Engine) unop(s *State, x *ssa.UnOp) []*State {
	f := s.top()
	a := e.val(s, x.X)
	switch x.Op {
	case token.MUL:
		if !e.nonNil(s, x, x.Pos(), a, "load through a nil pointer") {
			return nil
		}
		if a.Op == OPtr && len(a.Args) == 2 {
			if alts := e.elemAlts(s, a.Args[0], a.S, a.Args[1], x.Type()); alts != nil {
				return e.refork(s, alts)
			}
		}
		e.event(s, &Event{Kind: "load", Pos: x.Pos(), A: a, T: x.Type(), In: x})
		v, ok := s.load(a, x.Type())
		if !ok {
			v = Sym(s.newName("load"), x.Type(), nil)
		}
		e.set(s, x, v)
	case token.NOT:
		e.set(s, x, Not(a))
	case token.SUB:
		e.set(s, x, s.wrap(neg(a), x.Type()))
	case token.XOR:
		if a.isConst() {
			e.set(s, x, s.wrap(Int(^a.N), x.Type()))
		} else {
			e.set(s, x, AppT("not", x.Type(), a))
		}
	case token.ARROW:
		ev := &Event{Kind: "recv", Pos: x.Pos(), A: a, In: x}
		e.event(s, ev)
		v := Sym(s.newName("recv"), x.Type(), nil)
		if x.CommaOk {
			tt := x.Type().(*types.Tuple)
			ok := Sym(s.newName("recvok"), types.Typ[types.Bool], nil)
			if a.Op == OApp && (a.S == "ticker" || a.S == "timer") {
				ok = tTrue // never closed
			} else if ev.B != nil {
				ok = ev.B
			}
			e.set(s, x, Tuple(Sym(s.newName("recv"), tt.At(0).Type(), nil), ok))
		} else {
			e.set(s, x, v)
		}
	}
	if s.dead {
		return nil
	}
	f.pc++
	return one(s)
}

// elemAlts returns alternatives if it is not known which part of the backing store an index is in.
func (e *Engine) elemAlts(s *State, obj *Term, path string, idx *Term, t types.Type) [][]*Term {
	o, _, ok := s.objOf(Ptr(obj, ""))
	if !ok {
		return nil
	}
	if o.isList {
		if _, ok := s.listElem(o, idx); ok {
			return nil
		}
		alts := s.listPositions(o, idx)
		if len(alts) <= 1 {
			return nil
		}
		return alts
	}
	if c, ok := o.cells[path]; ok && isByte(t) {
		if s.byteAt(c, idx) == nil {
			alts := s.bytePositions(c, idx)
			if len(alts) > 1 {
				return alts
			}
			if len(alts) == 1 {
				return alts
			}
		}
	}
	return nil
}

func (e *Engine) markPos(s *State, from ssa.Value, str, idx *Term) *Term {
	ps := positions(str)
	if len(ps) < 2 || str.Op == OLit && idx.isConst() {
		return idx
	}
	for i, p := range ps {
		if s.cons.entails(Sub2(p.start, idx)) && s.cons.entails(AddC(Sub2(idx, p.end), 1)) {
			k := 0
			if p.seg.Op == OLit {
				for j := range p.seg.S {
					if d := Sub2(idx, AddC(p.start, int64(j))); s.cons.entailsEq(d) {
						s.pinIndex(from, idx, AddC(p.start, int64(j)))
						idx = AddC(p.start, int64(j))
						k = j
						break
					}
				}
			}
			if idx.isConst() {
				return idx
			}
			s.ghost[fmt.Sprintf("mark:%d", str.id)] = Int(int64(i*1000 + k))
			s.ghost[fmt.Sprintf("pos:%d", str.id)] = idx
			return idx
		}
	}
	return idx
}

func (e *Engine) index(s *State, x ssa.Value, base, index ssa.Value, pos token.Pos) []*State {
	in := x.(ssa.Instruction)
	b, i := e.val(s, base), e.val(s, index)
	n := StrLen(b)
	if at, ok := base.Type().Underlying().(*types.Array); ok {
		n = Int(at.Len())
	}
	if !e.oblige(s, in, pos, "index", Le0(neg(i)), "index below 0") || !e.oblige(s, in, pos, "index", Le0(AddC(Sub2(i, n), 1)), "index out of range") {
		return nil
	}
	if b.Op == OStruct && i.isConst() {
		e.set(s, x, b.Args[i.N])
	} else if isStrTerm(b) || isByteArray(base.Type()) || isStringType(base.Type()) {
		v := s.byteAt(b, i)
		if v == nil {
			alts := s.bytePositions(b, i)
			if len(alts) > 0 {
				return e.refork(s, alts)
			}
			v = AppT("byteat", types.Typ[types.Uint8], b, i)
		}
		if e.markPos(s, index, b, i); s.dead {
			return nil
		}
		e.set(s, x, v)
	} else {
		e.set(s, x, AppT("elem", x.Type(), b, i))
	}
	if s.dead {
		return nil
	}
	s.top().pc++
	return one(s)
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// sliceParts normalises a slice value: base address, lo, hi, cap.
func (s *State) sliceParts(v *Term, t types.Type) (base, lo, hi, cp *Term, ok bool) {
	switch v.Op {
	case OSlice:
		return v.Args[0], v.Args[1], v.Args[2], v.Args[3], true
	case ONil:
		return nil, tZero, tZero, tZero, true
	case OSym, OApp:
		if t == nil {
			t = v.T
		}
		if t == nil {
			return nil, nil, nil, nil, false
		}
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return nil, nil, nil, nil, false
		}
		var w *Term
		org := ""
		if v.sym != nil {
			org = v.sym.Origin
		}
		if isByte(sl.Elem()) {
			c := AppT("bytes", types.Typ[types.String], v)
			w = s.bytesSlice(fmt.Sprintf("s%d", v.id), c, org)
			s.assume(EqInt(StrLen(c), lenAtom(v)), true)
		} else {
			w = s.starSlice(fmt.Sprintf("s%d", v.id), v, lenAtom(v), sl.Elem())
		}
		return w.Args[0], w.Args[1], w.Args[2], w.Args[3], true
	}
	return nil, nil, nil, nil, false
}

func mkSlice(base, lo, hi, cp *Term) *Term { return mk(OSlice, "", 0, nil, nil, nil, base, lo, hi, cp) }

func sliceLen(v *Term) *Term {
	switch v.Op {
	case OSlice:
		return Sub2(v.Args[2], v.Args[1])
	case ONil:
		return tZero
	}
	return lenAtom(v)
}

func (e *Engine) indexAddr(s *State, x *ssa.IndexAddr) []*State {
	b, i := e.val(s, x.X), e.val(s, x.Index)
	f := s.top()
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		if !e.nonNil(s, x, x.Pos(), b, "index of a nil array") {
			return nil
		}
		if !e.oblige(s, x, x.Pos(), "index", Le0(neg(i)), "index below 0") || !e.oblige(s, x, x.Pos(), "index", Le0(AddC(Sub2(i, Int(at.Len())), 1)), "index out of range") {
			return nil
		}
		if b.Op != OPtr {
			b = mk(OPtr, "", 0, nil, nil, nil, b)
		}
		if isByte(at.Elem()) {
			if o, _, ok := s.objOf(b); ok {
				s.content(o, b.S)
				if _, has := o.cells[b.S]; !has {
					s.wr(o.id).cells[b.S] = s.content(o, b.S)
				}
			}
			e.set(s, x, mk(OPtr, b.S, 0, nil, nil, nil, b.Args[0], i))
		} else if i.isConst() {
			e.set(s, x, Ptr(b.Args[0], joinPath(b.S, fmt.Sprint(i.N))))
		} else {
			e.set(s, x, mk(OPtr, b.S, 0, nil, nil, nil, b.Args[0], i))
		}
		f.pc++
		return one(s)
	}
	base, lo, hi, _, ok := s.sliceParts(b, x.X.Type())
	if !ok {
		e.set(s, x, AppT("elemaddr", x.Type(), b, i))
		f.pc++
		return one(s)
	}
	if !e.oblige(s, x, x.Pos(), "index", Le0(neg(i)), "index below 0") || !e.oblige(s, x, x.Pos(), "index", Le0(AddC(Sub2(Add(lo, i), hi), 1)), "index out of range") {
		return nil
	}
	if base == nil {
		return nil
	}
	idx := Add(lo, i)
	// find the part of the store the index is in
	el := x.X.Type().Underlying().(*types.Slice).Elem()
	o, path, okO := s.objOf(base)
	if okO {
		if alts := e.elemAlts(s, base.Args0(), base.path(), idx, el); alts != nil {
			return e.refork(s, alts)
		}
		if isByte(el) {
			c := s.content(o, path)
			if idx = e.markPos(s, x.Index, c, idx); s.dead {
				return nil
			}
		}
		if !o.isList && !isByte(el) && idx.isConst() {
			e.set(s, x, Ptr(base.Args0(), joinPath(path, fmt.Sprint(idx.N))))
			f.pc++
			return one(s)
		}
	}
	e.set(s, x, mk(OPtr, base.path(), 0, nil, nil, nil, base.Args0(), idx))
	f.pc++
	return one(s)
}

// Args0 and path take an address apart.
func (t *Term) Args0() *Term {
	if t.Op == OPtr {
		return t.Args[0]
	}
	return t
}
func (t *Term) path() string {
	if t.Op == OPtr {
		return t.S
	}
	return ""
}

func (e *Engine) sliceOp(s *State, x *ssa.Slice) []*State {
	f := s.top()
	b := e.val(s, x.X)
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return e.val(s, v)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic: // string
		n := StrLen(b)
		lo, hi := get(x.Low, tZero), get(x.High, n)
		if !e.oblige(s, x, x.Pos(), "slice", Le0(neg(lo)), "slice bound below 0") || !e.oblige(s, x, x.Pos(), "slice", Le0(Sub2(lo, hi)), "slice bounds out of order") || !e.oblige(s, x, x.Pos(), "slice", Le0(Sub2(hi, n)), "slice bound out of range") {
			return nil
		}
		e.set(s, x, s.slice(b, lo, hi))
	case *types.Pointer: // array
		at := u.Elem().Underlying().(*types.Array)
		n := Int(at.Len())
		lo, hi := get(x.Low, tZero), get(x.High, n)
		if !e.nonNil(s, x, x.Pos(), b, "slice of a nil array") {
			return nil
		}
		if !e.oblige(s, x, x.Pos(), "slice", Le0(neg(lo)), "slice bound below 0") || !e.oblige(s, x, x.Pos(), "slice", Le0(Sub2(lo, hi)), "slice bounds out of order") || !e.oblige(s, x, x.Pos(), "slice", Le0(Sub2(hi, n)), "slice bound out of range") {
			return nil
		}
		if b.Op != OPtr {
			b = mk(OPtr, "", 0, nil, nil, nil, b)
		}
		if isByte(at.Elem()) {
			if o, p, ok := s.objOf(b); ok {
				if _, has := o.cells[p]; !has {
					c := s.content(o, p)
					s.wr(o.id).cells[p] = c
				}
			}
		} else if o, p, ok := s.objOf(b); ok && p == "" && !o.isList && at.Len() <= 256 {
			// the array becomes the backing store of a slice
			w := s.wr(o.id)
			w.isList = true
			w.list = nil
			for i := int64(0); i < at.Len(); i++ {
				w.list = append(w.list, LSeg{Elem: s.loadCell(w, fmt.Sprint(i), at.Elem())})
			}
			w.ghost = map[string]*Term{"nonnil": tTrue}
		}
		e.set(s, x, mkSlice(b, lo, hi, get(x.Max, n)))
	case *types.Slice:
		base, l0, h0, c0, ok := s.sliceParts(b, x.X.Type())
		if !ok {
			e.set(s, x, AppT("slice", x.Type(), b, get(x.Low, tZero)))
			break
		}
		lo, hi := get(x.Low, tZero), get(x.High, Sub2(h0, l0))
		mx := get(x.Max, Sub2(c0, l0))
		if !e.oblige(s, x, x.Pos(), "slice", Le0(neg(lo)), "slice bound below 0") || !e.oblige(s, x, x.Pos(), "slice", Le0(Sub2(lo, hi)), "slice bounds out of order") {
			return nil
		}
		if x.High != nil {
			if !e.oblige(s, x, x.Pos(), "slice", Le0(Sub2(hi, mx)), "slice bound out of range") {
				return nil
			}
		}
		if base == nil {
			e.set(s, x, tNil)
		} else {
			e.set(s, x, mkSlice(base, Add(l0, lo), Add(l0, hi), Add(l0, mx)))
		}
	default:
		e.set(s, x, AppT("slice", x.Type(), b))
	}
	if s.dead {
		return nil
	}
	f.pc++
	return one(s)
}

// bytesOf returns the contents of a byte slice value.
func (s *State) bytesOf(v *Term) *Term {
	if isStrTerm(v) && v.Op != OSym && v.Op != OApp {
		return v
	}
	switch v.Op {
	case ONil:
		return tEmpty
	case OSlice, OSym, OApp:
		if isStrTerm(v) {
			return v
		}
		base, lo, hi, _, ok := s.sliceParts(v, types.NewSlice(types.Typ[types.Uint8]))
		if !ok || base == nil {
			return AppT("bytes", types.Typ[types.String], v)
		}
		o, p, ok := s.objOf(base)
		if !ok {
			return AppT("bytes", types.Typ[types.String], v)
		}
		if o.isList {
			return AppT("bytes", types.Typ[types.String], v)
		}
		return s.slice(s.content(o, p), lo, hi)
	}
	return AppT("bytes", types.Typ[types.String], v)
}

// newBytes makes a fresh byte slice with the given contents.
func (s *State) newBytes(id string, content *Term, origin string) *Term {
	o := s.newObj(id, nil)
	o.cells[""] = content
	o.origin = origin
	o.ghost = map[string]*Term{"nonnil": tTrue}
	n := StrLen(content)
	return mkSlice(Ptr(Obj_(o.id), ""), tZero, n, n)
}

func (e *Engine) convert(s *State, in ssa.Instruction, v *Term, from, to types.Type) *Term {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return s.wrap(v, to)
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		if v.isConst() && v.N >= 0 && v.N < 0x110000 {
			return Lit(string(rune(v.N)))
		}
		if s.cons.entails(AddC(v, -127)) && s.cons.entails(neg(v)) {
			return ByteSeg(v)
		}
		return AppT("runestr", types.Typ[types.String], v)
	case fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case tb != nil && tb.Info()&types.IsString != 0 && isByteSlice(from):
		return s.bytesOf(v)
	case fb != nil && fb.Info()&types.IsString != 0 && isByteSlice(to):
		f := s.top()
		return s.newBytes(f.ctx+"@"+fmt.Sprint(instrIndex(in)), v, "fresh")
	case isByteSlice(from) && isByteSlice(to):
		return v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return AppT("conv:"+to.String(), to, v)
}

func (e *Engine) typeAssert(s *State, x *ssa.TypeAssert) []*State {
	v := e.val(s, x.X)
	var ok, val *Term
	at := x.AssertedType
	_, toIface := at.Underlying().(*types.Interface)
	switch {
	case v.Op == OIface:
		if toIface {
			ok = Bool(types.Implements(v.T, at.Underlying().(*types.Interface)))
			val = v
		} else {
			ok = Bool(types.Identical(v.T, at))
			val = v.Args[0]
		}
	case v.Op == ONil:
		ok = tFalse
	default:
		if toIface && x.X.Type() != nil && types.Implements(x.X.Type(), at.Underlying().(*types.Interface)) {
			ok = Not(isNilTerm(v))
			val = v
		} else {
			ok = AppT("is:"+types.TypeString(at, nil), types.Typ[types.Bool], v)
			if toIface {
				val = v
			} else {
				val = AppT("as:"+types.TypeString(at, nil), at, v)
				if val.sym == nil {
					val.sym = &SymInfo{NonNil: true}
				}
				if sv, isSl := e.concreteAs(s, val, at); isSl {
					val = sv
				}
			}
		}
	}
	f := s.top()
	if !x.CommaOk {
		if !e.oblige(s, x, x.Pos(), "assert", ok, "type assertion") {
			return nil
		}
		e.set(s, x, val)
		f.pc++
		return one(s)
	}
	y, n := e.fork2(s, ok)
	var out []*State
	if y != nil {
		if ok.Op == OApp {
			y.assume(isNilTerm(v), false)
		}
		e.set(y, x, Tuple(val, tTrue))
		y.top().pc++
		out = append(out, y)
	}
	if n != nil {
		e.set(n, x, Tuple(zeroValue(at), tFalse))
		n.top().pc++
		out = append(out, n)
	}
	return out
}

func (e *Engine) concreteAs(s *State, v *Term, t types.Type) (*Term, bool) { return nil, false }

// ---- calls ----

type call struct {
	e        *Engine
	in       ssa.Instruction
	common   *ssa.CallCommon
	fnv      *Term
	args     []*Term
	pos      token.Pos
	deferred bool
	tag      string
	name     string
	sig      *types.Signature
}

func (e *Engine) mkCall(s *State, in ssa.Instruction, cc *ssa.CallCommon, pos token.Pos) *call {
	c := &call{e: e, in: in, common: cc, pos: pos}
	if cc.IsInvoke() {
		c.args = append(c.args, e.val(s, cc.Value))
		c.fnv = App("invoke")
	} else {
		c.fnv = e.val(s, cc.Value)
	}
	for _, a := range cc.Args {
		c.args = append(c.args, e.val(s, a))
	}
	return c
}

func (e *Engine) callInstr(s *State, in ssa.Instruction, cc *ssa.CallCommon) []*State {
	return e.invoke(s, e.mkCall(s, in, cc, in.Pos()))
}

// resultType of the call.
func (c *call) resultType() types.Type {
	r := c.sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return r.At(0).Type()
	}
	return r
}

// ret finishes a modelled call.
func (c *call) ret(s *State, v *Term) []*State {
	if s.dead {
		return nil
	}
	f := s.top()
	if !c.deferred {
		if val, ok := c.in.(ssa.Value); ok {
			f.env[val] = v
		}
		f.pc++
	}
	return one(s)
}

// callFn calls a module function (or closure) from a model; then continues with k.
func (e *Engine) callFn(s *State, c *call, fn *Term, args []*Term, tag string, k func(*State, *Term) []*State) []*State {
	if fn.Op != OFn {
		e.problem(s, c.pos, "call of an unknown function value in %s", s.top().fn)
		return k(s, Sym(s.newName("res"), nil, nil))
	}
	if len(fn.F.Blocks) == 0 || !e.P.inline(fn.F) {
		c2 := &call{e: e, in: c.in, common: nil, fnv: fn, args: args, pos: c.pos, deferred: true, tag: tag, sig: fn.F.Signature}
		return e.external(s, c2, k)
	}
	if !e.push(s, fn.F, args, fn.Args, c.in, k, tag) {
		return nil
	}
	return one(s)
}

func (e *Engine) invoke(s *State, c *call) []*State {
	if c.common != nil {
		c.sig = c.common.Signature()
	}
	if c.common != nil && c.common.IsInvoke() {
		recv := c.args[0]
		m := c.common.Method
		if recv.Op == ONil {
			e.oblige(s, c.in, c.pos, "nil", tFalse, "method call on a nil interface")
			return nil
		}
		if recv.Op == OIface {
			fn := e.P.method(recv.T, m)
			if fn == nil {
				e.problem(s, c.pos, "method %s of %s not found", m.Name(), recv.T)
				return nil
			}
			args := append([]*Term{recv.Args[0]}, c.args[1:]...)
			return e.static(s, c, fn, nil, args)
		}
		if !e.oblige(s, c.in, c.pos, "nil", Not(isNilTerm(recv)), "method call on a nil interface") {
			return nil
		}
		it := c.common.Value.Type()
		c.name = "invoke:" + types.TypeString(it, nil) + "." + m.Name()
		return e.model(s, c)
	}
	fn := c.fnv
	switch fn.Op {
	case OFn:
		return e.static(s, c, fn.F, fn.Args, c.args)
	case OApp:
		if strings.HasPrefix(fn.S, "builtin:") {
			return e.builtin(s, c, fn.S[len("builtin:"):])
		}
	case ONil:
		e.oblige(s, c.in, c.pos, "nil", tFalse, "call of a nil function")
		return nil
	}
	if !e.oblige(s, c.in, c.pos, "nil", Not(isNilTerm(fn)), "call of a nil function") {
		return nil
	}
	c.name = "call:value"
	return e.model(s, c)
}

func (e *Engine) static(s *State, c *call, fn *ssa.Function, bindings, args []*Term) []*State {
	c.args = args
	c.sig = fn.Signature
	c.name = fn.RelString(nil)
	if o := fn.Origin(); o != nil && o != fn {
		c.name = o.RelString(nil)
	}
	if h, ok := e.callHooks[c.name]; ok {
		return h(e, s, c)
	}
	if len(fn.Blocks) > 0 && e.P.inline(fn) {
		var onRet func(*State, *Term) []*State
		if c.deferred {
			onRet = func(s *State, _ *Term) []*State { return one(s) }
		}
		if !e.push(s, fn, args, bindings, c.in, onRet, c.tag) {
			return nil
		}
		return one(s)
	}
	return e.model(s, c)
}

// external runs a model with a continuation.
func (e *Engine) external(s *State, c *call, k func(*State, *Term) []*State) []*State {
	c.name = c.fnv.F.RelString(nil)
	c.sig = c.fnv.F.Signature
	e.problem(s, c.pos, "callback %s is not analysed", c.name)
	return k(s, e.unknownResult(s, c))
}

func (e *Engine) unknownResult(s *State, c *call) *Term {
	r := c.sig.Results()
	mkv := func(t types.Type) *Term { return s.unknownOf(c.name, t) }
	switch r.Len() {
	case 0:
		return tUnit
	case 1:
		return mkv(r.At(0).Type())
	}
	a := make([]*Term, r.Len())
	for i := range a {
		a[i] = mkv(r.At(i).Type())
	}
	return Tuple(a...)
}

// unknownOf makes an unknown value of a type.
func (s *State) unknownOf(name string, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isByte(u.Elem()) {
			c := Sym(s.newName(name+".bytes"), types.Typ[types.String], nil)
			return s.bytesSlice(s.newName(name), c, "unknown")
		}
		b := Sym(s.newName(name), t, nil)
		return s.starSlice(b.S, b, lenAtom(b), u.Elem())
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = s.unknownOf(name, u.Field(i).Type())
		}
		return mk(OStruct, "", 0, t, nil, nil, args...)
	case *types.Array:
		if isByte(u.Elem()) {
			return Sym(s.newName(name), types.Typ[types.String], &SymInfo{MinLen: u.Len(), MaxLen: u.Len()})
		}
	}
	return Sym(s.newName(name), t, nil)
}
