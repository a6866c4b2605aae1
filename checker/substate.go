package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// solvePhis replaces loop variables that an equality determines by what they are equal to, so that
// states that arrive at a loop head with the same value have it in the same form.
func (s *State) solvePhis(pre string) {
	for round := 0; round < 20; round++ {
		var x, v, x2, v2 *Term
		for _, t := range s.cons.eqs {
			r := toRow(t)
			var own *Term
			n := 0
			for a := range r.m {
				if mentionsPre(a, pre) {
					n++
					if own == nil || a.id > own.id {
						own = a
					}
				}
			}
			if n > 1 && n == len(r.m) && x2 == nil && own.Op == OSym && !isStrTerm(own) && (r.m[own] == 1 || r.m[own] == -1) {
				// among loop variables: the later one by the others
				e := Add(lin(0, int(-r.m[own]), t), own)
				ok := true
				for a := range r.m {
					if a.Op != OSym {
						ok = false
					}
				}
				if e != nil && ok {
					x2, v2 = own, e
				}
			}
			if n != 1 || own.Op != OSym || isStrTerm(own) || r.m[own] != 1 && r.m[own] != -1 {
				continue
			}
			// own = expr
			e := lin(0, int(-r.m[own]), t) // -k*t = -own - k*rest  (k = +-1)
			e = Add(e, own)
			if e == nil || mentionsPre(e, pre) {
				continue
			}
			x, v = own, e
			break
		}
		if x == nil {
			x, v = x2, v2
		}
		if x == nil {
			return
		}
		s.replaceTerm(x, v)
		if x.sym != nil && x.sym.HasLo && !s.dead {
			if r := Sub2(Int(x.sym.Lo), v); r != nil && !r.isConst() {
				s.assume(Le0(r), true)
			}
		}
		if s.dead {
			return
		}
	}
}

func mentionsPre(t *Term, pre string) bool {
	f := false
	t.walk(func(x *Term) bool {
		if x.Op == OSym && strings.HasPrefix(x.S, pre) {
			f = true
		}
		return !f
	})
	return f
}

// replaceTerm replaces x by v in the whole state.
func (s *State) replaceTerm(x, v *Term) {
	m := map[*Term]*Term{x: v}
	memo := map[*Term]*Term{}
	sub := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return subst(t, m, memo)
	}
	for _, f := range s.frames {
		for k, t := range f.env {
			if n := sub(t); n != t {
				f.env[k] = n
			}
		}
		for i := range f.defers {
			d := f.defers[i]
			ch := false
			args := make([]*Term, len(d.args))
			for k, a := range d.args {
				args[k] = sub(a)
				ch = ch || args[k] != a
			}
			fn := sub(d.fn)
			if ch || fn != d.fn {
				l := append([]deferred{}, f.defers...)
				l[i].args, l[i].fn = args, fn
				f.defers = l
			}
		}
	}
	for k, t := range s.ghost {
		if n := sub(t); n != t {
			s.ghost[k] = n
		}
	}
	for k, t := range s.tmp {
		if n := sub(t); n != t {
			s.tmp[k] = n
		}
	}
	for id, o := range s.heap {
		ch := false
		for _, c := range o.cells {
			ch = ch || sub(c) != c
		}
		for _, c := range o.ghost {
			ch = ch || sub(c) != c
		}
		for _, g := range o.list {
			if g.Elem != nil {
				ch = ch || sub(g.Elem) != g.Elem
			} else {
				ch = ch || sub(g.Star.n) != g.Star.n || sub(g.Star.off) != g.Star.off || sub(g.Star.base) != g.Star.base
			}
		}
		if !ch {
			continue
		}
		w := s.wr(id)
		for k, c := range w.cells {
			w.cells[k] = sub(c)
		}
		for k, c := range w.ghost {
			w.ghost[k] = sub(c)
		}
		l := make([]LSeg, len(w.list))
		for i, g := range w.list {
			if g.Elem != nil {
				l[i] = LSeg{Elem: sub(g.Elem)}
			} else {
				st := *g.Star
				st.n, st.off, st.base = sub(st.n), sub(st.off), sub(st.base)
				l[i] = LSeg{Star: &st}
			}
		}
		w.list = l
	}
	nf := map[*Term]bool{}
	for f, b := range s.facts {
		nf[sub(f)] = b
	}
	s.facts = nf
	nv := map[*Term]*vetInfo{}
	for k, w := range s.vet {
		c := *w
		c.n = sub(w.n)
		nv[sub(k)] = &c
	}
	s.vet = nv
	ne := map[*Term][]*Term{}
	for k, l := range s.elems {
		var q []*Term
		for _, i := range l {
			if n := sub(i); !hasTerm(q, n) {
				q = append(q, n)
			}
		}
		ne[sub(k)] = q
	}
	s.elems = ne
	old := s.cons
	s.cons, s.consOwn = newCons(), true
	ok := true
	for _, t := range old.eqs {
		if n := sub(t); !n.isConst() || n.N != 0 {
			ok = ok && s.cons.addEq(n)
		}
	}
	for _, t := range old.les {
		ok = ok && s.cons.addLe(sub(t))
	}
	for _, t := range old.nes {
		ok = ok && s.cons.addNe(sub(t))
	}
	if !ok {
		s.dead = true
	}
}

// explicitEq records t = 0 as an equality even if it follows already.
func (s *State) explicitEq(t *Term) {
	if t.isConst() || hasTerm(s.cons.eqs, t) || hasTerm(s.cons.eqs, neg(t)) {
		return
	}
	c := s.ownCons()
	c.eqs = append(c.eqs, t)
	c.memo = map[*Term]int8{}
}

// pinIndex uses v in place of x, which is known to be equal to v.
func (s *State) pinIndex(from ssa.Value, x, v *Term) {
	if x == v {
		return
	}
	r := toRow(x)
	for a, k := range r.m {
		if len(r.m) == 1 && k == 1 && a.Op == OSym && strings.HasPrefix(a.S, "φ") {
			n := Add(Sub2(v, x), a)
			if n != nil && !mentionsPre(n, "φ") {
				s.replaceTerm(a, n)
				return
			}
		}
	}
	// the index and what it was computed from
	f := s.top()
	for from != nil {
		t := f.env[from]
		if t == nil || !isIntTerm(t) {
			return
		}
		d := Sub2(t, x)
		if !d.isConst() {
			return
		}
		f.env[from] = Add(v, d)
		bo, ok := from.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD && bo.Op != token.SUB {
			return
		}
		if _, c := bo.Y.(*ssa.Const); c {
			from = bo.X
		} else if _, c := bo.X.(*ssa.Const); c && bo.Op == token.ADD {
			from = bo.Y
		} else {
			return
		}
	}
}

// dropDead forgets what is known about loop variables that nothing refers to any more.
func (s *State) dropDead(pre string) {
	dead := func(t *Term) bool { return false }
	any := false
	scan := func(l []*Term) {
		for _, t := range l {
			any = any || mentionsPre(t, pre)
		}
	}
	scan(s.cons.eqs)
	scan(s.cons.les)
	scan(s.cons.nes)
	for f := range s.facts {
		any = any || mentionsPre(f, pre)
	}
	if !any {
		return
	}
	live := map[*Term]bool{}
	note := func(t *Term) {
		t.walk(func(x *Term) bool {
			if x.Op == OSym && strings.HasPrefix(x.S, pre) {
				live[x] = true
			}
			return true
		})
	}
	s.reachTerms(note)
	for k, w := range s.vet {
		note(k)
		note(w.n)
	}
	for k := range s.elems {
		note(k)
	}
	dead = func(t *Term) bool {
		d := false
		t.walk(func(x *Term) bool {
			if x.Op == OSym && strings.HasPrefix(x.S, pre) && !live[x] {
				d = true
			}
			return !d
		})
		return d
	}
	// bytes at places that nothing speaks of any more
	for k, l := range s.elems {
		gone := false
		for _, i := range l {
			gone = gone || dead(i)
		}
		if gone {
			var r []*Term
			for _, i := range l {
				if !dead(i) {
					r = append(r, i)
				}
			}
			s.elems[k] = r
		}
	}
	// project: a dead variable is replaced by what it is equal to, or its bounds are combined
	deadAtom := func(l []*Term) *Term {
		var b *Term
		for _, t := range l {
			for a := range toRow(t).m {
				if a.Op == OSym && dead(a) && (b == nil || a.id < b.id) {
					b = a
				}
			}
		}
		return b
	}
	for n := 0; n < 20; n++ {
		old := s.cons
		x := deadAtom(old.eqs)
		if x == nil {
			x = deadAtom(old.les)
		}
		if x == nil {
			break
		}
		if x.sym != nil && x.sym.HasLo {
			old = old.clone()
			old.les = append(old.les, Sub2(Int(x.sym.Lo), x))
		}
		nc := newCons()
		ok := true
		var def *Term // x = def
		for _, t := range old.eqs {
			if k := toRow(t).m[x]; k == 1 || k == -1 {
				def = Add(lin(0, int(-k), t), x)
				break
			}
		}
		if def != nil {
			memo := map[*Term]*Term{}
			m := map[*Term]*Term{x: def}
			for _, t := range old.eqs {
				if u := subst(t, m, memo); !u.isConst() || u.N != 0 {
					ok = ok && nc.addEq(u)
				}
			}
			for _, t := range old.les {
				ok = ok && nc.addLe(subst(t, m, memo))
			}
			for _, t := range old.nes {
				ok = ok && nc.addNe(subst(t, m, memo))
			}
		} else {
			var up, lo []*Term
			for _, t := range old.eqs {
				if !mentions(t, x) {
					nc.addEq(t)
				}
			}
			for _, t := range old.nes {
				if !mentions(t, x) {
					nc.addNe(t)
				}
			}
			for _, t := range old.les {
				switch k := toRow(t).m[x]; {
				case k == 1:
					up = append(up, t)
				case k == -1:
					lo = append(lo, t)
				case k == 0 && !mentions(t, x):
					ok = ok && nc.addLe(t)
				}
			}
			if x.sym != nil && x.sym.HasLo {
				lo = append(lo, Sub2(Int(x.sym.Lo), x))
			}
			if len(up)*len(lo) <= 12 {
				for _, a := range up {
					for _, b := range lo {
						if c := Add(a, b); c != nil && !nc.entails(c) {
							ok = ok && nc.addLe(c)
						}
					}
				}
			}
		}
		if !ok {
			s.dead = true
			return
		}
		s.cons, s.consOwn = nc, true
	}
	keep := func(l []*Term) []*Term {
		var r []*Term
		for _, t := range l {
			if !dead(t) {
				r = append(r, t)
			}
		}
		return r
	}
	old := s.cons
	nc := newCons()
	nc.eqs, nc.les, nc.nes = keep(old.eqs), keep(old.les), keep(old.nes)
	s.cons, s.consOwn = nc, true
	for f := range s.facts {
		if dead(f) {
			nf := map[*Term]bool{}
			for g, b := range s.facts {
				if !dead(g) {
					nf[g] = b
				}
			}
			s.facts = nf
			break
		}
	}
}

func mentions(t, x *Term) bool {
	f := false
	t.walk(func(y *Term) bool {
		f = f || y == x
		return !f
	})
	return f
}
