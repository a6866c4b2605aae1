package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// liveIn are the values that a function may still use at the start of each block.
func (e *Engine) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := e.lives[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		l[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			now := e.liveAt(l, b, 0)
			if len(now) != len(l[b]) {
				l[b] = now
				changed = true
			}
		}
	}
	if e.lives == nil {
		e.lives = map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}
	}
	e.lives[fn] = l
	return l
}

// liveAt are the values that may be used by instruction pc of a block or later.
func (e *Engine) liveAt(l map[*ssa.BasicBlock]map[ssa.Value]bool, b *ssa.BasicBlock, pc int) map[ssa.Value]bool {
	now := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range l[s] {
			now[v] = true
		}
		at := -1
		for i, p := range s.Preds {
			if p == b {
				at = i
			}
		}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range s.Preds {
				if p == b && (i == at || len(ph.Edges) > i) {
					now[ph.Edges[i]] = true
				}
			}
		}
	}
	var rands []*ssa.Value
	for i := len(b.Instrs) - 1; i >= pc; i-- {
		in := b.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			delete(now, v)
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		for _, r := range in.Operands(rands[:0]) {
			if *r != nil {
				now[*r] = true
			}
		}
	}
	return now
}

// prune forgets the values of variables that are not used any more.
func (e *Engine) prune(s *State) { e.pruneAt(s, nil) }

// pruneAt is prune for a state whose innermost function is about to enter the block head; its phis are set.
func (e *Engine) pruneAt(s *State, head *ssa.BasicBlock) {
	for _, f := range s.frames {
		if f.block == nil || f.inDefers {
			continue
		}
		b, pc := f.block, f.pc
		if head != nil && f == s.top() {
			b, pc = head, 0
		}
		k := livePoint{b, pc}
		live, ok := e.livePts[k]
		if !ok {
			live = e.liveAt(e.liveIn(f.fn), b, pc)
			if head != nil && f == s.top() {
				// liveAt leaves the phis out that are set before the block starts
				for _, in := range b.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					live[ph] = true
				}
			}
			if e.livePts == nil {
				e.livePts = map[livePoint]map[ssa.Value]bool{}
			}
			e.livePts[k] = live
		}
		for v := range f.env {
			switch v.(type) {
			case *ssa.Parameter, *ssa.FreeVar, *ssa.Alloc:
				if !live[v] {
					if _, ok := v.(*ssa.Alloc); !ok || f.fn.Recover == nil || !e.liveIn(f.fn)[f.fn.Recover][v] {
						delete(f.env, v)
					}
				}
			default:
				if !live[v] {
					delete(f.env, v)
				}
			}
		}
	}
}

type livePoint struct {
	b  *ssa.BasicBlock
	pc int
}

// joinCall joins the states that are about to make a call. The states wait until the code before has been analysed.
func (e *Engine) joinCall(s *State) []*State {
	r, ent := e.joinAtPoint(s, "call", true)
	if ent == nil {
		if r != nil {
			r.resumed = true
			return one(r)
		}
		return nil
	}
	ent.call = true
	e.wait(ent)
	return nil
}

// joinHere joins the states that arrive at one point of the program, in the middle of an instruction. It returns
// nil if s is covered by the states that have been there.
func (e *Engine) joinHere(s *State, why string) *State {
	r, _ := e.joinAtPoint(s, why, false)
	return r
}

// joinAtPoint returns the joined state, and the entry if it is to be analysed later.
func (e *Engine) joinAtPoint(s *State, why string, later bool) (*State, *loopEntry) {
	sig := why
	for _, f := range s.frames {
		if f.onRet != nil {
			return s, nil
		}
		sig += fmt.Sprintf("|%p.%d.%d", f.fn, f.block.Index, f.pc)
	}
	top := s.top()
	if len(top.block.Instrs) <= top.pc {
		return s, nil
	}
	inst := e.points[sig]
	if inst == nil {
		if e.points == nil {
			e.points = map[string]*loopInst{}
		}
		e.loopN++
		inst = &loopInst{head: top.block, body: map[*ssa.BasicBlock]bool{}, id: e.loopN}
		e.points[sig] = inst
	}
	pre := fmt.Sprintf("φ%s%d.", e.tag, inst.id)
	e.prune(s)
	s.updateVet()
	if s.solvePhis(pre); s.dead {
		return nil, nil
	}
	// a text that has been looked at as a whole
	for k, w := range s.vet {
		if isStrTerm(k) && w.n != StrLen(k) && s.cons.entails(Sub2(StrLen(k), w.n)) {
			c := *w
			c.n = StrLen(k)
			s.vet[k] = &c
		}
	}
	s.collect()
	if s.dropDead("φ"); s.dead {
		return nil, nil
	}
	key := loopKey{inst.id, e.partition(s, nil)}
	ent := e.loopTab[key]
	if ent == nil {
		ent = &loopEntry{st: s.clone(), visits: 1}
		e.loopTab[key] = ent
		return s, ent
	}
	ent.visits++
	if ent.changes > maxVisits {
		return s, nil
	}
	n := ent.visits - 1
	if later {
		n = ent.runs
	}
	j := newJoiner(e, ent.st, s, inst, n > 3)
	r := j.run()
	if j.err != "" {
		return s, nil // goes on alone
	}
	if e.debug {
		fmt.Fprintf(os.Stderr, "JOIN %s point %d visit %d covered=%v: %s\n", top.fn, inst.id, ent.visits, r == nil, strings.Join(j.why, "; "))
	}
	if r == nil {
		return nil, nil
	}
	// what the instruction is working with must not have changed
	for _, o := range top.block.Instrs[top.pc].Operands(nil) {
		if later {
			break
		}
		if v, ok := top.env[*o]; ok && r.top().env[*o] != v {
			return s, nil
		}
	}
	ent.changes++
	ent.st = r.clone()
	return r, ent
}
