package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Memory that commands running at the same time have in common.

// memSet is the memory that is reachable from what commands are given in common, as it was before the command.
type memSet struct {
	obj   map[string]bool
	terms map[int]bool
}

// commonMem is all the memory of s.
func commonMem(s *State) *memSet {
	m := &memSet{obj: map[string]bool{}, terms: map[int]bool{}}
	s.heapIDs(func(id string) {
		m.obj[id] = true
		m.addTerms(s.obj(id))
	})
	return m
}

func (m *memSet) addTerms(o *Obj) {
	if o == nil {
		return
	}
	add := func(t *Term) {
		if t != nil {
			t.walk(func(x *Term) bool {
				m.terms[x.id] = true
				return true
			})
		}
	}
	for _, v := range o.cells {
		add(v)
	}
	for _, g := range o.list {
		add(g.Elem)
	}
}

// has: the object is common memory; an object found behind a pointer is if the pointer lies in common memory.
func (m *memSet) has(s *State, o *Obj) bool {
	if o == nil {
		return false
	}
	if s.isGlobal(o) || m.obj[o.id] {
		return true
	}
	return o.lazy != nil && m.terms[o.lazy.id]
}

// written is the object an event writes to, or nil.
func written(s *State, ev *Event) *Obj {
	switch ev.Kind {
	case "store", "mapupdate", "mapdelete", "copy", "fillbuf", "clear":
	case "append":
		if ev.S != "spare" {
			return nil
		}
		return ev.Obj
	default:
		return nil
	}
	p := ev.A
	if p == nil {
		return ev.Obj
	}
	if p.Op == OSlice && len(p.Args) > 0 {
		p = p.Args[0]
	}
	o, _, _ := s.objOf(p)
	return o
}

// noteLock remembers the locks that commands have in common.
func (m *memSet) noteLock(s *State, ev *Event) {
	if ev.Kind == "lock" {
		if o, _, ok := s.objOf(ev.A); ok && m.has(s, o) {
			s.ghost["m:common:"+lockKey(ev.A)] = tTrue
		}
	}
}

// guarded: a lock that commands have in common is held exclusively.
func guarded(s *State) bool {
	if s.ghost["once:in"] != nil {
		return true
	}
	for k, excl := range heldLocks(s) {
		if excl && s.ghost["m:common:"+k] != nil {
			return true
		}
	}
	return false
}

// separate: commands running at the same time do not write to what they have in common (X05).
func (m *memSet) separate(s *State, ev *Event, rep *Report, name string) {
	if m == nil {
		return
	}
	m.noteLock(s, ev)
	if ev.Kind == "send" || ev.Kind == "recv" || ev.Kind == "select" {
		s.ghost["m:common:chan"] = tTrue // possibly used as a lock
	}
	if ev.Kind == "poolput" {
		s.reach2ids(ev.B, func(id string) {
			if o := s.obj(id); !m.has(s, o) {
				s.ghost["m:put:"+id] = tTrue
			}
		})
		return
	}
	o := written(s, ev)
	if o != nil && s.ghost["m:put:"+o.id] != nil {
		m.put(s, ev.Pos, o.id, rep, name)
		return
	}
	if o == nil || !m.has(s, o) || guarded(s) {
		return
	}
	if s.ghost["m:common:chan"] != nil {
		s.vague(ev.Pos, "memory in common is written and channels are used")
	} else {
		s.dead = true
	}
	rep.bad("X05", "nothing-in-common", name, ev.Pos, s, "writes to %s, which all commands have in common, without holding a lock they have in common", o.id)
}

func (m *memSet) put(s *State, pos token.Pos, id string, rep *Report, name string) {
	rep.bad("X05", "nothing-in-common", name, pos, s, "uses %s, which has been given back to its pool, so another command may use it too", id)
	s.dead = true
}

// uses: the values are used by someone else from here on; nothing they lead to has been given back to a pool.
func (m *memSet) uses(s *State, pos token.Pos, rep *Report, name string, vals ...*Term) {
	for _, v := range vals {
		if v == nil {
			continue
		}
		s.reach2ids(v, func(id string) {
			if s.ghost["m:put:"+id] != nil {
				m.put(s, pos, id, rep, name)
			}
		})
	}
}

// maybeNil: field k of t is compared with nil and written by methods of t only, as what is made when it is first needed.
func (p *Program) maybeNil(t *types.Named, k int) bool {
	compared := false
	for fn := range p.allFuncs() {
		if fn.Pkg == nil || fn.Pkg.Pkg != t.Obj().Pkg() {
			continue
		}
		rc := fn.Signature.Recv()
		method := rc != nil && isPtrTo(rc.Type(), t)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && !method && fa.Field == k && isPtrTo(fa.X.Type(), t) {
						return false
					}
				case *ssa.BinOp:
					if x.Op != token.EQL && x.Op != token.NEQ {
						continue
					}
					for _, v := range []ssa.Value{x.X, x.Y} {
						if u, ok := v.(*ssa.UnOp); ok {
							if fa, ok := u.X.(*ssa.FieldAddr); ok && fa.Field == k && isPtrTo(fa.X.Type(), t) {
								compared = true
							}
						}
					}
				}
			}
		}
	}
	return compared
}

func isPtrTo(p types.Type, t *types.Named) bool {
	q, ok := p.(*types.Pointer)
	return ok && types.Identical(q.Elem(), t)
}
