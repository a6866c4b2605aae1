package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func lockKey(p *Term) string { return fmt.Sprintf("lock:%d", p.id) }

func initMiscModels() {
	reg := func(f modelFn, names ...string) {
		for _, n := range names {
			models[n] = f
		}
	}
	lock := func(mode string) modelFn {
		return func(e *Engine, s *State, c *call) []*State {
			p := c.args[0]
			k := lockKey(p)
			st := s.ghost[k]
			held := st != nil && !st.constIs(0)
			if held && !(mode == "RLock" && st.N >= 2) {
				e.event(s, &Event{Kind: "relock", Pos: c.pos, A: p, In: c.in})
				return nil
			}
			e.event(s, &Event{Kind: "lock", Pos: c.pos, A: p, S: mode, In: c.in})
			if s.dead {
				return nil
			}
			if mode == "Lock" {
				s.ghost[k] = Int(1)
			} else {
				n := int64(2)
				if held {
					n = st.N + 1
				}
				s.ghost[k] = Int(n)
			}
			return c.ret(s, tUnit)
		}
	}
	unlock := func(mode string) modelFn {
		return func(e *Engine, s *State, c *call) []*State {
			p := c.args[0]
			k := lockKey(p)
			st := s.ghost[k]
			if st == nil || st.constIs(0) || mode == "Unlock" && st.N != 1 || mode == "RUnlock" && st.N < 2 {
				e.event(s, &Event{Kind: "badunlock", Pos: c.pos, A: p, In: c.in})
				return nil
			}
			e.event(s, &Event{Kind: "unlock", Pos: c.pos, A: p, S: mode, In: c.in})
			if mode == "RUnlock" && st.N > 2 {
				s.ghost[k] = Int(st.N - 1)
			} else {
				s.ghost[k] = tZero
			}
			return c.ret(s, tUnit)
		}
	}
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		reg(lock("Lock"), t+".Lock")
		reg(unlock("Unlock"), t+".Unlock")
		reg(func(e *Engine, s *State, c *call) []*State {
			no := s.clone()
			k := lockKey(c.args[0])
			var out []*State
			if st := s.ghost[k]; st == nil || st.constIs(0) {
				e.event(s, &Event{Kind: "lock", Pos: c.pos, A: c.args[0], S: "Lock", In: c.in})
				s.ghost[k] = Int(1)
				out = append(out, c.ret(s, tTrue)...)
			}
			return append(out, c.ret(no, tFalse)...)
		}, t+".TryLock")
	}
	reg(lock("RLock"), "(*sync.RWMutex).RLock")
	reg(unlock("RUnlock"), "(*sync.RWMutex).RUnlock")
	for _, m := range []string{"Lock", "Unlock"} {
		m := m
		reg(func(e *Engine, s *State, c *call) []*State {
			e.problem(s, c.pos, "sync.Locker of unknown identity")
			return c.ret(s, tUnit)
		}, "invoke:sync.Locker."+m)
	}
	reg(func(e *Engine, s *State, c *call) []*State {
		k := fmt.Sprintf("once:%d", c.args[0].id)
		if s.ghost[k] == tTrue {
			return c.ret(s, tUnit)
		}
		var out []*State
		o, _, ok := s.objOf(c.args[0])
		if ok && o.lazy != nil || s.ghost["once:any"] == tTrue {
			// it may have run before
			d := s.clone()
			d.ghost[k] = tTrue
			out = append(out, c.ret(d, tUnit)...)
		}
		s.ghost[k] = tTrue
		s.ghost["once:in"] = tTrue
		return append(out, e.callFn(s, c, c.args[1], nil, ".once", func(s *State, _ *Term) []*State {
			delete(s.ghost, "once:in")
			return c.ret(s, tUnit)
		})...)
	}, "(*sync.Once).Do")
	reg(func(e *Engine, s *State, c *call) []*State {
		return e.search(s, c, c.args[0], func(i *Term) []*Term { return []*Term{i} }, func(v *Term) *Term { return v }, nil)
	}, "sort.Search")
	reg(func(e *Engine, s *State, c *call) []*State {
		return e.search(s, c, c.args[0], func(i *Term) []*Term { return []*Term{i} }, Le0, func(v *Term) *Term { return EqInt(v, tZero) })
	}, "sort.Find")
	// pools
	reg(func(e *Engine, s *State, c *call) []*State {
		p := c.args[0]
		o, path, ok := s.objOf(p)
		if !ok {
			return c.ret(s, e.unknownResult(s, c))
		}
		ni := -1
		if st := poolStruct(e); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "New" {
					ni = i
				}
			}
		}
		var nf *Term
		if ni >= 0 {
			nf = s.loadCell(o, joinPath(path, fmt.Sprint(ni)), types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.NewInterfaceType(nil, nil))), false))
		}
		if nf == nil || nf.Op != OFn {
			e.problem(s, c.pos, "pool without a known New function")
			return c.ret(s, e.unknownResult(s, c))
		}
		return e.callFn(s, c, nf, nil, ".poolnew", func(s *State, v *Term) []*State {
			e.stalePool(s, v)
			e.event(s, &Event{Kind: "poolget", Pos: c.pos, A: p, B: v, In: c.in})
			return c.ret(s, v)
		})
	}, "(*sync.Pool).Get")
	reg(func(e *Engine, s *State, c *call) []*State {
		e.event(s, &Event{Kind: "poolput", Pos: c.pos, A: c.args[0], B: c.args[1], In: c.in})
		return c.ret(s, tUnit)
	}, "(*sync.Pool).Put")
	reg(func(e *Engine, s *State, c *call) []*State {
		e.event(s, &Event{Kind: "wg", Pos: c.pos, A: c.args[0], S: c.name, In: c.in})
		return c.ret(s, tUnit)
	}, "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait")
	reg(func(e *Engine, s *State, c *call) []*State {
		e.event(s, &Event{Kind: "go", Pos: c.pos, A: c.args[1], In: c.in})
		return c.ret(s, tUnit)
	}, "(*sync.WaitGroup).Go")
	// time
	reg(func(e *Engine, s *State, c *call) []*State {
		return c.ret(s, AppT(s.newName("now"), c.sig.Results().At(0).Type()))
	}, "time.Now")
	reg(func(e *Engine, s *State, c *call) []*State {
		return c.ret(s, AppT("timeadd", c.sig.Results().At(0).Type(), c.args[0], c.args[1]))
	}, "(time.Time).Add")
	reg(func(e *Engine, s *State, c *call) []*State {
		return c.ret(s, AppT("timeunix", types.Typ[types.Int64], c.args[0]))
	}, "(time.Time).Unix")
	timer := func(kind string) modelFn {
		return func(e *Engine, s *State, c *call) []*State {
			if !e.oblige(s, c.in, c.pos, "ticker", Le0(lin(1, -1, c.args[0])), "ticker with an interval that is not positive") && kind == "ticker" {
				return nil
			}
			rt := c.sig.Results().At(0).Type()
			ch := AppT(kind, nil, c.args[0], Int(int64(s.fresh)))
			s.fresh++
			ch.sym = &SymInfo{NonNil: true}
			e.event(s, &Event{Kind: "timer", Pos: c.pos, A: ch, B: c.args[0], S: kind, In: c.in})
			if pt, ok := rt.(*types.Pointer); ok {
				o := s.newObj(c.newID(s, ""), pt.Elem())
				o.origin = "fresh"
				o.ext = kind
				if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if st.Field(i).Name() == "C" {
							o.cells[fmt.Sprint(i)] = ch
						}
					}
				}
				return c.ret(s, Ptr(Obj_(o.id), ""))
			}
			return c.ret(s, ch)
		}
	}
	reg(timer("ticker"), "time.NewTicker", "time.Tick")
	reg(timer("timer"), "time.NewTimer", "time.After")
	reg(func(e *Engine, s *State, c *call) []*State {
		e.event(s, &Event{Kind: "timerstop", Pos: c.pos, A: c.args[0], In: c.in})
		return c.ret(s, c.stopResult(s))
	}, "(*time.Ticker).Stop", "(*time.Timer).Stop")
	reg(func(e *Engine, s *State, c *call) []*State {
		e.event(s, &Event{Kind: "timerreset", Pos: c.pos, A: c.args[0], B: c.args[1], In: c.in})
		return c.ret(s, c.stopResult(s))
	}, "(*time.Ticker).Reset", "(*time.Timer).Reset")
	reg(func(e *Engine, s *State, c *call) []*State {
		e.event(s, &Event{Kind: "sleep", Pos: c.pos, A: c.args[0], In: c.in})
		return c.ret(s, tUnit)
	}, "time.Sleep")
	reg(func(e *Engine, s *State, c *call) []*State {
		return c.ret(s, Sym("ctx:"+c.name, c.resultType(), &SymInfo{NonNil: true}))
	}, "context.Background", "context.TODO")
	reg(func(e *Engine, s *State, c *call) []*State {
		f := Sym(s.newName("cancel"), nil, &SymInfo{NonNil: true, Origin: "cancel"})
		return c.ret(s, Tuple(Sym(s.newName("ctx"), nil, &SymInfo{NonNil: true}), f))
	}, "context.WithCancel", "context.WithTimeout", "context.WithDeadline")
	// atomics
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		reg(func(e *Engine, s *State, c *call) []*State {
			v, ok := s.load(c.args[0], c.sig.Results().At(0).Type())
			if !ok {
				v = e.unknownResult(s, c)
			}
			return c.ret(s, v)
		}, "sync/atomic.Load"+n)
		reg(func(e *Engine, s *State, c *call) []*State {
			s.store(c.args[0], c.args[1], c.sig.Params().At(1).Type())
			return c.ret(s, tUnit)
		}, "sync/atomic.Store"+n)
		reg(func(e *Engine, s *State, c *call) []*State {
			t := c.sig.Params().At(1).Type()
			v, ok := s.load(c.args[0], t)
			if !ok {
				return c.ret(s, e.unknownResult(s, c))
			}
			v = s.wrap(Add(v, c.args[1]), t)
			s.store(c.args[0], v, t)
			return c.ret(s, v)
		}, "sync/atomic.Add"+n)
	}
	at := func(name string, f func(e *Engine, s *State, c *call) []*State) {
		for _, t := range []string{"Bool", "Int32", "Int64", "Uint32", "Uint64"} {
			reg(f, "(*sync/atomic."+t+")."+name)
		}
	}
	vt := func(c *call) types.Type {
		if c.sig.Results().Len() > 0 {
			return c.sig.Results().At(0).Type()
		}
		return c.sig.Params().At(0).Type()
	}
	cell := func(p *Term) *Term { return addrField(p, 1) }
	at("Load", func(e *Engine, s *State, c *call) []*State {
		v, ok := s.load(cell(c.args[0]), vt(c))
		if !ok {
			v = e.unknownResult(s, c)
		}
		return c.ret(s, v)
	})
	at("Store", func(e *Engine, s *State, c *call) []*State {
		s.store(cell(c.args[0]), c.args[1], vt(c))
		return c.ret(s, tUnit)
	})
	// checksums are functions of their input
	reg(func(e *Engine, s *State, c *call) []*State {
		return c.ret(s, AppT("crc32", types.Typ[types.Uint32], s.bytesOf(c.args[0])))
	}, "hash/crc32.ChecksumIEEE")
	reg(func(e *Engine, s *State, c *call) []*State {
		v := AppT("sha1", tString, s.bytesOf(c.args[0]))
		if v.sym == nil {
			v.sym = &SymInfo{MinLen: 20, MaxLen: 20}
		}
		s.assume(EqInt(StrLen(v), Int(20)), true)
		return c.ret(s, v)
	}, "crypto/sha1.Sum")
	reg(func(e *Engine, s *State, c *call) []*State {
		v := AppT("md5", tString, s.bytesOf(c.args[0]))
		s.assume(EqInt(StrLen(v), Int(16)), true)
		return c.ret(s, v)
	}, "crypto/md5.Sum")
}

func (c *call) stopResult(s *State) *Term {
	if c.sig.Results().Len() == 0 {
		return tUnit
	}
	return Sym(s.newName("stopped"), tBoolT, nil)
}

func poolStruct(e *Engine) *types.Struct {
	for _, p := range e.P.prog.AllPackages() {
		if p.Pkg.Path() == "sync" {
			if o := p.Pkg.Scope().Lookup("Pool"); o != nil {
				st, _ := o.Type().Underlying().(*types.Struct)
				return st
			}
		}
	}
	return nil
}

// stalePool forgets what is in an object that comes out of a pool, except for the fields that are never
// written after the object has been made.
func (e *Engine) stalePool(s *State, v *Term) {
	if v.Op == OIface {
		v = v.Args[0]
	}
	switch v.Op {
	case OPtr:
		o, _, ok := s.objOf(v)
		if !ok || o.T == nil {
			return
		}
		e.staleObj(s, o, "")
	case OSlice:
		if o, p, ok := s.objOf(v.Args[0]); ok && !o.isList {
			w := s.wr(o.id)
			w.cells[p] = s.staleBytes(StrLen(w.cells[p]))
		}
	}
}

func (s *State) staleBytes(n *Term) *Term {
	if n.constIs(0) {
		return tEmpty
	}
	x := Sym(s.newName("stale"), tString, &SymInfo{Origin: "stale"})
	if n.isConst() {
		x.sym = &SymInfo{Origin: "stale", MinLen: n.N, MaxLen: n.N}
	}
	s.assume(EqInt(StrLen(x), n), true)
	return x
}

func (e *Engine) staleObj(s *State, o *Obj, path string) {
	t := typeAt(o.T, path)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			p := joinPath(path, fmt.Sprint(i))
			if !e.P.fieldWritten(t, i) {
				// a buffer that is only filled through its elements
				switch f := ft.Underlying().(type) {
				case *types.Slice:
					if isByte(f.Elem()) {
						v := s.loadCell(s.obj(o.id), p, ft)
						e.stalePool(s, v)
					}
					continue
				case *types.Array:
				default:
					continue
				}
			}
			switch f := ft.Underlying().(type) {
			case *types.Basic:
				x := Sym(s.newName("stale"), ft, &SymInfo{Origin: "stale"})
				s.wr(o.id).cells[p] = x
			case *types.Array:
				if isByte(f.Elem()) {
					s.wr(o.id).cells[p] = s.staleBytes(Int(f.Len()))
				}
			case *types.Slice:
				if isByte(f.Elem()) {
					n := Sym(s.newName("stalelen"), tIntT, &SymInfo{HasLo: true, HasHi: true, Hi: 1 << 40})
					b := s.staleBytes(n)
					s.wr(o.id).cells[p] = s.newBytes(o.id+".stale."+p, b, "fresh")
				}
			case *types.Struct:
				e.staleObj(s, s.obj(o.id), p)
			}
		}
	case *types.Basic:
		s.wr(o.id).cells[path] = Sym(s.newName("stale"), t, &SymInfo{Origin: "stale"})
	case *types.Array:
		if isByte(u.Elem()) {
			s.wr(o.id).cells[path] = s.staleBytes(Int(u.Len()))
		}
	}
}

// fieldWritten: some function stores to field i of an existing struct of type t.
func (p *Program) fieldWritten(t types.Type, i int) bool {
	if p.written == nil {
		p.written = map[string]bool{}
		for fn := range p.allFuncs() {
			for _, b := range fn.Blocks {
				for n, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						// a struct that is being made, or a field that gets what it held
						if _, ok := fa.X.(*ssa.Alloc); ok || ownValue(st.Val, fa.X, fa.Field) {
							continue
						}
						bt := fa.X.Type().Underlying().(*types.Pointer).Elem()
						p.written[fmt.Sprintf("%s.%d", types.TypeString(bt, nil), fa.Field)] = true
					} else if _, ok := st.Addr.(*ssa.Alloc); !ok {
						// whole struct
						bt := st.Addr.Type().Underlying().(*types.Pointer).Elem()
						if sT, ok := bt.Underlying().(*types.Struct); ok {
							for k := 0; k < sT.NumFields(); k++ {
								if !keepsField(st, b.Instrs[n+1:], k) {
									p.written[fmt.Sprintf("%s.%d", types.TypeString(bt, nil), k)] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return p.written[fmt.Sprintf("%s.%d", types.TypeString(t, nil), i)]
}

// ownValue: v has been read from field k of what x points to.
func ownValue(v, x ssa.Value, k int) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	return ok && fa.X == x && fa.Field == k
}

// keepsField: the store of a whole struct leaves field k as it was, because the new value has it from
// there, or because the instructions that follow put it back.
func keepsField(st *ssa.Store, rest []ssa.Instruction, k int) bool {
	for _, in := range rest {
		if s2, ok := in.(*ssa.Store); ok {
			if fa, ok := s2.Addr.(*ssa.FieldAddr); ok && fa.X == st.Addr && fa.Field == k && ownValue(s2.Val, st.Addr, k) {
				return true
			}
		}
	}
	ld, ok := st.Val.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			for _, rr := range *r.Referrers() {
				s2, ok := rr.(*ssa.Store)
				if r.Field != k {
					continue
				}
				if !ok || s2.Addr != r || !ownValue(s2.Val, st.Addr, k) {
					return false
				}
				n++
			}
		case *ssa.Store:
			// made from another whole value: it may be an earlier copy of the same struct
			src, ok := r.Val.(*ssa.UnOp)
			if !ok || src.Op != token.MUL || src.X != st.Addr {
				return false
			}
			n++
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return n > 0
}

func (p *Program) allFuncs() map[*ssa.Function]bool {
	if p.funcs != nil {
		return p.funcs
	}
	p.funcs = map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || p.funcs[f] {
			return
		}
		p.funcs[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range p.pkgs {
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg != nil && p.mod[f.Pkg] {
							add(f)
						}
					}
				}
			}
		}
	}
	return p.funcs
}

// search: the binary searches of the standard library. Whatever the function says, the result is a place
// i of [0,n] such that it was false of i-1 (or i is 0) and true of i (or i is n); goal makes the truth of
// its results, and found, if given, whether the result says that it is the very place.
func (e *Engine) search(s *State, c *call, n *Term, args func(i *Term) []*Term, goal func(v *Term) *Term, found func(v *Term) *Term) []*State {
	f := c.args[len(c.args)-1]
	if f.Op != OFn {
		e.problem(s, c.pos, "call of an unknown function value in %s", s.top().fn)
		return c.ret(s, e.unknownResult(s, c))
	}
	ask := func(s *State, i *Term, want bool, tag string, k func(*State, *Term) []*State) []*State {
		return e.callFn(s, c, f, args(i), tag, func(s *State, v *Term) []*State {
			g := goal(v)
			s.assume(g, want)
			if h, ok := e.hooks.(interface{ Branch(s *State, cond *Term) }); ok {
				h.Branch(s, g)
			}
			if s.dead {
				return nil
			}
			return k(s, v)
		})
	}
	ret := func(s *State, i *Term, v *Term) []*State {
		if found == nil {
			return c.ret(s, i)
		}
		if v == nil {
			return c.ret(s, Tuple(i, tFalse))
		}
		return c.ret(s, Tuple(i, found(v)))
	}
	var out []*State
	none := s.clone()
	none.assume(Le0(n), true)
	if !none.dead {
		out = append(out, ret(none, tZero, nil)...)
	}
	s.assume(Le0(AddC(neg(n), 1)), true)
	if s.dead {
		return out
	}
	first, last := s.clone(), s.clone()
	first.note(c.pos, "%s gives the first place", c.name)
	out = append(out, ask(first, tZero, true, ".first", func(s *State, v *Term) []*State { return ret(s, tZero, v) })...)
	last.note(c.pos, "%s gives no place", c.name)
	out = append(out, ask(last, AddC(n, -1), false, ".last", func(s *State, _ *Term) []*State { return ret(s, n, nil) })...)
	i := Sym(s.newName("place"), tIntT, nil)
	s.note(c.pos, "%s gives place %s", c.name, i)
	s.assume(Le0(AddC(neg(i), 1)), true)
	s.assume(Le0(AddC(Sub2(i, n), 1)), true)
	if !s.dead {
		out = append(out, ask(s, AddC(i, -1), false, ".below", func(s *State, _ *Term) []*State {
			return ask(s, i, true, ".at", func(s *State, v *Term) []*State { return ret(s, i, v) })
		})...)
	}
	return out
}
