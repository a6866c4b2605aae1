package main

import (
	"fmt"
	"os"
	"sort"
)

// Cons is a conjunction of linear constraints over integer atoms: eqs (t = 0) and les (t <= 0),
// plus disequalities (t != 0). It is copied on write.
type Cons struct {
	eqs, les, nes []*Term
	shared        bool
	memo          map[*Term]int8
	older         *olderMemo // what was known before constraints were added
}

type olderMemo struct {
	memo map[*Term]int8
	next *olderMemo
}

// changed forgets what does not follow; what follows still does when constraints are added.
func (c *Cons) changed() {
	if len(c.memo) > 0 {
		c.older = &olderMemo{c.memo, c.older}
		n := 0
		for o := c.older; o != nil; o = o.next {
			if n++; n > 8 {
				o.next = nil
			}
		}
	}
	c.memo = map[*Term]int8{}
}

func newCons() *Cons { return &Cons{memo: map[*Term]int8{}} }

func (c *Cons) clone() *Cons {
	return &Cons{eqs: c.eqs[:len(c.eqs):len(c.eqs)], les: c.les[:len(c.les):len(c.les)], nes: c.nes[:len(c.nes):len(c.nes)], memo: map[*Term]int8{}, older: &olderMemo{c.memo, c.older}}
}

func hasTerm(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

func neg(t *Term) *Term { return lin(0, -1, t) }

// row is a linear form.
type row struct {
	c int64
	m map[*Term]int64
}

func toRow(t *Term) row {
	r := row{m: map[*Term]int64{}}
	if t.Op == OInt {
		r.c = t.N
		for i, a := range t.Args {
			r.m[a] = t.Coef[i]
		}
	} else {
		r.m[t] = 1
	}
	return r
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// rowAtoms are the unknowns of a linear term.
func rowAtoms(t *Term) []*Term {
	if t.Op == OInt {
		return t.Args
	}
	t.self[0] = t
	return t.self[:]
}

// marks of atoms; a mark is set if it has the number of the current round.
var marks []int32
var round int32

func mark(a *Term) bool {
	for a.id >= len(marks) {
		marks = append(marks, make([]int32, len(marks)+1024)...)
	}
	if marks[a.id] == round {
		return false
	}
	marks[a.id] = round
	return true
}

func marked(a *Term) bool { return a.id < len(marks) && marks[a.id] == round }

// tighten divides an inequality row (<= 0) by the gcd of its coefficients.
func (r *row) tighten() {
	var g int64
	for _, k := range r.m {
		g = gcd(g, k)
	}
	if g > 1 {
		for a := range r.m {
			r.m[a] /= g
		}
		// sum <= -c  =>  sum/g <= floor(-c/g)
		r.c = -floorDiv(-r.c, g)
	}
}

// comb returns ka*a + kb*b, false on overflow.
func comb(a row, ka int64, b row, kb int64) (row, bool) {
	r := row{m: map[*Term]int64{}}
	p, ok := mulOv(a.c, ka)
	q, ok2 := mulOv(b.c, kb)
	s, ok3 := addOv(p, q)
	if !ok || !ok2 || !ok3 {
		return r, false
	}
	r.c = s
	for t, k := range a.m {
		p, ok := mulOv(k, ka)
		if !ok {
			return r, false
		}
		r.m[t] = p
	}
	for t, k := range b.m {
		p, ok := mulOv(k, kb)
		if !ok {
			return r, false
		}
		s, ok := addOv(r.m[t], p)
		if !ok {
			return r, false
		}
		if s == 0 {
			delete(r.m, t)
		} else {
			r.m[t] = s
		}
	}
	return r, true
}

// feasible reports whether the constraints together with the extra inequalities may have a solution.
func (c *Cons) feasible(extra ...*Term) bool {
	// atoms connected to the extra constraints (or all if none)
	var eqs, les []row
	var seen []*Term
	round++
	add := func(t *Term) {
		for _, a := range rowAtoms(t) {
			if mark(a) {
				seen = append(seen, a)
			}
		}
	}
	for _, t := range extra {
		les = append(les, toRow(t))
		add(t)
	}
	// rows that share no atom with the extra constraints, directly or not, do not matter
	restE, restL := append([]*Term{}, c.eqs...), append([]*Term{}, c.les...)
	pick := func(ts []*Term, eq bool) (left []*Term) {
		left = ts[:0]
		for _, t := range ts {
			as := rowAtoms(t)
			hit := len(as) == 0 || len(extra) == 0
			for _, a := range as {
				if hit || marked(a) {
					hit = true
					break
				}
			}
			if !hit {
				left = append(left, t)
				continue
			}
			if eq {
				eqs = append(eqs, toRow(t))
			} else {
				les = append(les, toRow(t))
			}
			add(t)
		}
		return
	}
	for n := -1; n != len(restE)+len(restL); {
		n = len(restE) + len(restL)
		restE = pick(restE, true)
		restL = pick(restL, false)
	}
	// implicit bounds
	for _, a := range seen {
		lo, okLo, hi, okHi := termRange(a)
		if okLo && lo != -1<<63 {
			les = append(les, row{c: lo, m: map[*Term]int64{a: -1}})
		}
		if okHi {
			les = append(les, row{c: -hi, m: map[*Term]int64{a: 1}})
		}
	}
	// Gaussian elimination of equalities with a unit coefficient
	for len(eqs) > 0 {
		pi := -1
		var pa *Term
		for i, e := range eqs {
			for a, k := range e.m {
				if k == 1 || k == -1 {
					if pa == nil || a.id < pa.id {
						pi, pa = i, a
					}
				}
			}
			if pa != nil {
				break
			}
		}
		if pi < 0 {
			break
		}
		e := eqs[pi]
		eqs = append(eqs[:pi:pi], eqs[pi+1:]...)
		k := e.m[pa]
		sub := func(r row) (row, bool) {
			kr, ok := r.m[pa]
			if !ok {
				return r, true
			}
			return comb(r, 1, e, -kr*k)
		}
		var ne []row
		for _, r := range eqs {
			r2, ok := sub(r)
			if !ok {
				continue
			}
			if len(r2.m) == 0 {
				if r2.c != 0 {
					return false
				}
				continue
			}
			ne = append(ne, r2)
		}
		eqs = ne
		var nl []row
		for _, r := range les {
			r2, ok := sub(r)
			if !ok {
				continue
			}
			nl = append(nl, r2)
		}
		les = nl
	}
	for _, e := range eqs {
		var g int64
		for _, k := range e.m {
			g = gcd(g, k)
		}
		if g != 0 && e.c%g != 0 {
			return false
		}
		n, _ := comb(e, -1, row{}, 0)
		les = append(les, e, n)
	}
	// Fourier-Motzkin
	for {
		var cur []row
		cnt := map[*Term][2]int{}
		dedup := map[string]int{}
		for _, r := range les {
			r.tighten()
			if len(r.m) == 0 {
				if r.c > 0 {
					return false
				}
				continue
			}
			// of constraints with the same left side the strongest is kept
			key := rowKey(r)
			if i, ok := dedup[key]; ok {
				if cur[i].c < r.c {
					cur[i].c = r.c
				}
				continue
			}
			dedup[key] = len(cur)
			cur = append(cur, r)
			for a, k := range r.m {
				x := cnt[a]
				if k > 0 {
					x[0]++
				} else {
					x[1]++
				}
				cnt[a] = x
			}
		}
		if len(cnt) == 0 {
			return true
		}
		var best *Term
		bc := 1 << 60
		for a, x := range cnt {
			cost := x[0]*x[1] - x[0] - x[1]
			if cost < bc || (cost == bc && a.id < best.id) {
				best, bc = a, cost
			}
		}
		if bc > 300 || len(cur) > 600 {
			if os.Getenv("GMDEBUG") != "" {
				fmt.Fprintln(os.Stderr, "LIN gives up:", len(cur), "rows", len(cnt), "atoms")
			}
			return true
		}
		var pos, ng, rest []row
		for _, r := range cur {
			switch k := r.m[best]; {
			case k > 0:
				pos = append(pos, r)
			case k < 0:
				ng = append(ng, r)
			default:
				rest = append(rest, r)
			}
		}
		for _, p := range pos {
			for _, n := range ng {
				kn, kp := -n.m[best], p.m[best]
				g := gcd(kn, kp)
				r, ok := comb(p, kn/g, n, kp/g)
				if ok {
					rest = append(rest, r)
				}
			}
		}
		les = rest
	}
}

func rowKey(r row) string {
	ids := make([]int, 0, len(r.m))
	for a := range r.m {
		ids = append(ids, a.id)
	}
	sort.Ints(ids)
	b := make([]byte, 0, 64)
	for _, id := range ids {
		b = appendInt(b, int64(id))
		b = appendInt(b, r.m[allTerms[id-1]])
	}
	return string(b)
}
func appendInt(b []byte, n int64) []byte {
	for i := 0; i < 8; i++ {
		b = append(b, byte(n>>(8*i)))
	}
	return b
}

// entails reports whether t <= 0 follows.
func (c *Cons) entails(t *Term) bool {
	if t.isConst() {
		return t.N <= 0
	}
	if v, ok := c.memo[t]; ok {
		return v == 1
	}
	for o := c.older; o != nil; o = o.next {
		if o.memo[t] == 1 {
			return true
		}
	}
	r := false
	if _, _, hi, ok := termRange(t); ok && hi <= 0 {
		r = true
	} else if hasTerm(c.les, t) || hasTerm(c.eqs, t) {
		r = true
	} else {
		// not (t <= 0)  <=>  1 - t <= 0
		r = !c.feasible(lin(1, -1, t))
	}
	if r {
		c.memo[t] = 1
	} else {
		c.memo[t] = 0
	}
	return r
}

func (c *Cons) entailsEq(t *Term) bool {
	if t.isConst() {
		return t.N == 0
	}
	if hasTerm(c.eqs, t) {
		return true
	}
	return c.entails(t) && c.entails(neg(t))
}

func (c *Cons) entailsNe(t *Term) bool {
	if t.isConst() {
		return t.N != 0
	}
	for _, n := range c.nes {
		if n == t || n == neg(t) {
			return true
		}
	}
	// t <= -1 or t >= 1
	if c.entails(lin(1, 1, t)) || c.entails(lin(1, -1, t)) {
		return true
	}
	for _, n := range c.nes {
		// same up to equalities
		if c.entailsEq(Sub2(n, t)) || c.entailsEq(Add(n, t)) {
			return true
		}
	}
	return false
}

// The add functions return false if the constraints became infeasible. They modify c, which must not be shared.
func (c *Cons) addLe(t *Term) bool {
	if t.isConst() {
		return t.N <= 0
	}
	if c.entails(t) {
		return true
	}
	c.changed()
	c.les = append(c.les, t)
	if !c.feasible(t) {
		return false
	}
	// t <= 0 and t != 0 give t <= -1
	for _, n := range c.nes {
		if n == t || neg(n) == t {
			return c.addLe(AddC(t, 1))
		}
	}
	// turn opposite inequalities into equalities
	if hasTerm(c.les, neg(t)) {
		c.eqs = append(c.eqs, t)
	}
	return c.recheckNes(t)
}

// recheckNes draws the conclusions from the disequalities that a new constraint may matter to.
func (c *Cons) recheckNes(t *Term) bool {
	for _, n := range c.linked(t) {
		if c.entails(n) { // n <= 0 and n != 0
			s := AddC(n, 1)
			if !c.entails(s) {
				c.changed()
				c.les = append(c.les, s)
				if !c.feasible(s) {
					return false
				}
			}
		} else if c.entails(neg(n)) {
			s := lin(1, -1, n)
			if !c.entails(s) {
				c.changed()
				c.les = append(c.les, s)
				if !c.feasible(s) {
					return false
				}
			}
		}
	}
	return true
}

// linked are the disequalities that share unknowns with t, directly or through other constraints.
func (c *Cons) linked(t *Term) []*Term {
	if len(c.nes) == 0 {
		return nil
	}
	round++
	for _, a := range rowAtoms(t) {
		mark(a)
	}
	var out []*Term
	all := [3][]*Term{append([]*Term{}, c.nes...), append([]*Term{}, c.les...), append([]*Term{}, c.eqs...)}
	for more := true; more; {
		more = false
		for k, l := range all {
			left := l[:0]
			for _, x := range l {
				hit := false
				for _, a := range rowAtoms(x) {
					if marked(a) {
						hit = true
						break
					}
				}
				if !hit {
					left = append(left, x)
					continue
				}
				if k == 0 {
					out = append(out, x)
				}
				for _, a := range rowAtoms(x) {
					if mark(a) {
						more = true
					}
				}
			}
			all[k] = left
		}
	}
	return out
}

func (c *Cons) addEq(t *Term) bool {
	if t.isConst() {
		return t.N == 0
	}
	if c.entailsEq(t) {
		return true
	}
	if hasTerm(c.nes, t) || hasTerm(c.nes, neg(t)) {
		return false
	}
	c.changed()
	c.eqs = append(c.eqs, t)
	if !c.feasible(t, neg(t)) {
		return false
	}
	return c.recheckNes(t)
}

func (c *Cons) addNe(t *Term) bool {
	if t.isConst() {
		return t.N != 0
	}
	if hasTerm(c.nes, t) {
		return true
	}
	if c.entailsEq(t) {
		return false
	}
	c.nes = append(c.nes[:len(c.nes):len(c.nes)], t)
	c.changed()
	return c.recheckNes(t)
}

// bounds returns constant bounds of t that follow.
func (c *Cons) upper(t *Term, limit int64) (int64, bool) {
	// is t <= limit?
	return limit, c.entails(AddC(t, -limit))
}
