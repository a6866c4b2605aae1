package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The ring: construction with concrete numbers of servers (their names are unknown), and each of its methods
// on a ring about which nothing is known except that it has at least one node.

type RingRun struct {
	mem    *memSet
	rep    *Report
	e      *Engine
	name   string
	fn     *ssa.Function
	ring   *types.Named
	srv    types.Type
	build  int // number of servers, 0 = a method
	nodes  []*Term
	first  map[int]map[*Term]bool // hashes of server 0 by number of servers
	what   string
	sorted map[string]int // sorted lists and their lengths
}

func (r *RingRun) Panic(s *State, pos token.Pos, v *Term) {
	if r.build == 0 {
		r.rep.bad("P08", "no-panic", r.name, pos, s, "explicit panic is reachable")
	}
}

var impure = []string{"time.", "(time.", "math/rand", "(*math/rand", "os.", "(*os.", "runtime.", "crypto/rand", "hash/maphash", "(*hash/maphash", "net.", "(*net.", "sync/atomic", "(*sync/atomic", "(*sync.Map)", "unique."}

func (r *RingRun) Event(s *State, ev *Event) {
	r.mem.separate(s, ev, r.rep, r.name)
	placing := r.build > 0 || r.what == "Pick" || r.what == "Find"
	switch ev.Kind {
	case "extcall":
		if !placing {
			return
		}
		if v, ok := ev.In.(*ssa.Call); ok && strings.Contains(ev.S, "sync/atomic") && v.Referrers() != nil && len(*v.Referrers()) == 0 {
			return // counted, but not looked at
		}
		for _, p := range impure {
			if strings.HasPrefix(ev.S, p) {
				r.rep.bad("P03", "depends-on-names-only", r.name, ev.Pos, s, "%s is called: which server owns a key may differ from process to process or from time to time", ev.S)
			}
		}
	case "store", "mapupdate", "mapdelete", "append", "copy":
		o, _, ok := s.objOf(ev.A)
		if !ok && ev.A.Op == OSlice {
			o, _, ok = s.objOf(ev.A.Args[0])
		}
		if !ok || ev.Kind == "append" {
			return
		}
		delete(s.ghost, "c:sorted:"+o.id)
		if r.build == 0 && o.origin != "recv" && !partOf(r.ring, o.T) {
			return
		}
		if r.build == 0 && (o.origin == "recv" || o.origin == "elem" || o.lazy != nil && o.origin != "fresh") {
			if b, ok := ev.T.(*types.Basic); ok && ev.Kind == "store" && b.Info()&types.IsInteger != 0 && guarded(s) {
				s.vague(ev.Pos, "a counter of the ring is changed under a lock")
				return
			}
			r.rep.bad("P03", "ring-never-changes", r.name, ev.Pos, s, "the ring is modified after it has been built")
		}
		if o.origin == "global" {
			r.rep.bad("P03", "ring-never-changes", r.name, ev.Pos, s, "a package-level variable is written")
		}
	case "load":
		if !placing {
			return
		}
		if o, _, ok := s.objOf(ev.A); ok && o.origin == "global" && r.rep.P.globalWritten(o.id) {
			r.rep.bad("P03", "depends-on-names-only", r.name, ev.Pos, s, "%s is read, which is written elsewhere", o.id)
		}
	}
}

func (r *RingRun) Unknown(e *Engine, s *State, c *call) ([]*State, bool) {
	if c.name == "call:value" && r.what == "Each" {
		v := Sym(s.newName("err"), errType, nil)
		return c.ret(s, v), true
	}
	if !strings.HasPrefix(c.name, "invoke:"+modPath) {
		return nil, false
	}
	m := c.name[strings.LastIndexByte(c.name, '.')+1:]
	if m == "Name" {
		return c.ret(s, AppT("name", tString, c.args[0])), true
	}
	if r.build > 0 || r.what == "Pick" || r.what == "Find" {
		r.rep.bad("P03", "depends-on-names-only", r.name, c.pos, s, "%s of a server is called: the owner of a key depends on more than the names", m)
	}
	return c.ret(s, e.unknownResult(s, c)), true
}

// sorts: the order is the one of the points.
func (r *RingRun) sorts(e *Engine, s *State, c *call) []*State {
	x := c.args[0]
	var less *ssa.Function
	var bind []*Term
	byIndex := true
	recv := (*Term)(nil)
	t := c.argType(0)
	if x.Op == OIface {
		t, x = x.T, x.Args[0]
	}
	switch c.name {
	case "sort.Sort", "sort.Stable":
		less = r.rep.P.methodByName(t, "Less")
		recv = x
	default:
		if len(c.args) > 1 && c.args[1].Op == OFn {
			less, bind = c.args[1].F, c.args[1].Args
		}
		byIndex = !strings.HasPrefix(c.name, "slices.")
	}
	l, ok := s.elemsOf(x, t)
	sl, isSl := t.Underlying().(*types.Slice)
	if !ok || !isSl || less == nil || len(less.Blocks) == 0 {
		e.problem(s, c.pos, "the order that %s makes is not understood", c.name)
		return c.ret(s, tUnit)
	}
	for _, g := range l {
		if g.Star != nil {
			e.problem(s, c.pos, "what %s sorts is not known", c.name)
			return c.ret(s, tUnit)
		}
	}
	o, _, ok := s.objOf(x.Args[0])
	if !ok || r.build == 0 {
		return c.ret(s, tUnit)
	}
	if len(l) < 2 {
		return c.ret(s, tUnit)
	}
	sorted := true
	_, h0 := r.nodeOf(s, l[0].Elem, sl.Elem())
	_, h1 := r.nodeOf(s, l[1].Elem, sl.Elem())
	if h0 == nil || h1 == nil {
		return c.ret(s, tUnit) // something else is sorted
	}
	// try compares the first two nodes, the place of the first being the smaller or the larger one. Places
	// are unknown, or the given numbers.
	try := func(smaller bool, p0, p1 int64) (wrong, unsure bool) {
		sub := newEngine(r.rep.P)
		sub.callHooks = map[string]func(e *Engine, s *State, c *call) []*State{"cmp.Compare": cmpCompare}
		st := newState(sub)
		for k, v := range s.heap {
			st.heap[k] = v
		}
		el := []*Term{l[0].Elem, l[1].Elem}
		switch {
		case p0 != p1:
			ob, _, _ := st.objOf(x.Args[0])
			w := st.wr(ob.id)
			nl := append([]LSeg{}, w.list...)
			for i, v := range []int64{p0, p1} {
				el[i] = r.withPlace(st, el[i], sl.Elem(), Int(v))
				if el[i] == nil {
					return false, true
				}
				nl[i].Elem = el[i]
			}
			w.list = nl
		case smaller:
			st.assume(Le0(AddC(Sub2(h0, h1), 1)), true)
		default:
			st.assume(Le0(AddC(Sub2(h1, h0), 1)), true)
		}
		args := []*Term{Int(0), Int(1)}
		if !byIndex {
			args = el
		}
		if recv != nil {
			args = append([]*Term{recv}, args...)
		}
		n := 0
		sub.hooks = &initHooks{func(s *State) {
			n++
			v := s.ret
			d := -1
			if byIndex {
				d = s.decide(v)
			} else {
				switch {
				case s.cons.entails(AddC(v, 1)):
					d = 1
				case s.cons.entails(neg(v)):
					d = 0
				}
			}
			if d < 0 {
				unsure = true
			} else if (d == 1) != smaller {
				wrong = true
			}
		}}
		sub.Run(st, less, args, bind)
		return wrong, n == 0 || unsure || sub.aborted != ""
	}
	for _, smaller := range []bool{true, false} {
		wrong, unsure := try(smaller, 0, 0)
		how := ""
		if unsure && !wrong {
			// an order that is wrong somewhere is wrong at the places where signs and widths change
			cut := []int64{0, 1, 1<<15 - 1, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1}
			for i := 0; i < len(cut) && !wrong; i++ {
				for j := i + 1; j < len(cut) && !wrong; j++ {
					a, b := cut[i], cut[j]
					if !smaller {
						a, b = b, a
					}
					if wrong, _ = try(smaller, a, b); wrong {
						how = fmt.Sprintf(" (places %d and %d)", a, b)
					}
				}
			}
		}
		switch {
		case wrong:
			r.rep.bad("P09", "points-in-order", r.name, c.pos, s, "the nodes are not sorted by ascending place: of a node with a smaller place and one with a larger place, the one with the larger may come first%s", how)
			sorted = false
		case unsure:
			e.problem(s, c.pos, "the order that %s makes is not understood", c.name)
		}
	}
	if sorted {
		s.ghost["c:sorted:"+o.id] = tTrue
		r.sorted[o.id] = len(l)
	}
	return c.ret(s, tUnit)
}

// cmpCompare is the three-way comparison of the cmp package.
func cmpCompare(e *Engine, s *State, c *call) []*State {
	a, b := c.args[0], c.args[1]
	if !isIntTerm(a) {
		return c.ret(s, e.unknownResult(s, c))
	}
	var out []*State
	for i, t := range []*Term{Le0(AddC(Sub2(a, b), 1)), EqInt(a, b), Le0(AddC(Sub2(b, a), 1))} {
		n := s.clone()
		if n.assume(t, true); !n.dead {
			out = append(out, c.ret(n, Int(int64(i-1)))...)
		}
	}
	return out
}

// Branch keeps what comparisons of the hash of the key with the places of nodes say: n:below is the last
// node that is known not to lie above the key, n:above the first one that is known to.
func (r *RingRun) Branch(s *State, cond *Term) {
	if r.what != "Pick" || s.dead {
		return
	}
	for cond.Op == ONot {
		cond = cond.Args[0]
	}
	if len(cond.Args) == 0 {
		return
	}
	var at, h *Term
	ok := true
	cond.walk(func(x *Term) bool {
		if x.Op != OApp && x.Op != OSym {
			return true
		}
		if x.Op == OApp && strings.HasPrefix(x.S, "load:") && x.Args[0].Op == OApp && x.Args[0].S == "elem" {
			ok = ok && at == nil
			at = x
			return false
		}
		ok = ok && h == nil
		h = x
		return false
	})
	if !ok || at == nil || h == nil || len(r.nodes) == 0 || at.Args[0].Args[0] != r.nodes[0] {
		return
	}
	if old := s.ghost["v:H"]; old != nil && old != h {
		return
	}
	s.ghost["v:H"] = h
	idx := at.Args[0].Args[1]
	switch {
	case s.cons.entailsEq(Sub2(at, h)):
		s.ghost["n:eq"] = idx
	case s.cons.entails(AddC(Sub2(h, at), 1)):
		s.ghost["n:above"] = idx
	case s.cons.entails(Sub2(at, h)):
		s.ghost["n:below"] = idx
	}
}

// nearest: node i is the last one that does not lie above the key, or the first one if all of them do.
func (r *RingRun) nearest(s *State, i *Term) bool {
	if q := s.ghost["n:eq"]; q != nil && s.cons.entailsEq(Sub2(q, i)) {
		return true
	}
	lo, hi := s.ghost["n:below"], s.ghost["n:above"]
	if lo == nil || hi == nil || !s.cons.entailsEq(AddC(Sub2(hi, lo), -1)) {
		return false
	}
	return s.cons.entailsEq(Sub2(i, lo)) || s.cons.entailsEq(i) && s.cons.entailsEq(AddC(lo, 1))
}

func unitRing(p *Program, rep *Report, res *unitResult) {
	ring, srv := p.typ("client", "Ring"), p.typ("client", "Server")
	if ring == nil || srv == nil {
		return
	}
	fns := map[string]bool{}
	done := func(r *RingRun) {
		e := r.e
		res.Steps += e.steps
		res.Joins += e.joins
		for f := range e.fns {
			fns[short(f)] = true
		}
		for u := range e.unmodelled {
			res.Unmod = append(res.Unmod, u)
		}
		for m := range e.problems {
			rep.bad("P03", "followed", r.name, e.probPos[m], &State{trace: e.problems[m]}, "the analysis could not follow the code: %s", m)
		}
	}
	first := map[int]map[*Term]bool{}
	sizes := []int{1, 2, 3}
	if os.Getenv("GM_TIER") == "thorough" {
		sizes = append(sizes, 6)
	}
	for _, m := range sortedMembers(p.pkgs["client"]) {
		f, ok := m.(*ssa.Function)
		if !ok || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 0 || !types.Identical(rs.At(0).Type(), types.NewPointer(ring)) {
			continue
		}
		ns := append([]int{}, sizes...)
		// larger rings are built where the code tells numbers of servers apart
		limit := int64(64)
		if os.Getenv("GM_TIER") == "thorough" {
			limit = 128
		}
		for i, c := range sizeConstants(p, f, 4, limit, nil) {
			if i < 3 {
				ns = append(ns, int(c)+1)
			}
		}
		for _, n := range ns {
			r := &RingRun{rep: rep, name: "client." + f.Name(), fn: f, ring: ring, srv: srv, build: n, first: first}
			r.start()
			s := newState(r.e)
			o := s.newObj("caller.servers", nil)
			o.isList, o.origin = true, "caller"
			for i := 0; i < n; i++ {
				x := Sym(fmt.Sprintf("srv%d", i), srv, &SymInfo{NonNil: true})
				o.list = append(o.list, LSeg{Elem: x})
			}
			var args []*Term
			bad := false
			for i := 0; i < f.Signature.Params().Len(); i++ {
				t := f.Signature.Params().At(i).Type()
				if sl, ok := t.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), srv) {
					args = append(args, mkSlice(Ptr(Obj_(o.id), ""), tZero, Int(int64(n)), Int(int64(n))))
				} else {
					bad = true
				}
			}
			if bad {
				continue
			}
			r.e.Run(s, f, args, nil)
			done(r)
		}
	}
	ms := types.NewMethodSet(types.NewPointer(ring))
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj()
		if !m.Exported() {
			continue
		}
		r := &RingRun{rep: rep, name: "(*client.Ring)." + m.Name(), fn: p.methodByName(types.NewPointer(ring), m.Name()), ring: ring, srv: srv, what: m.Name()}
		r.start()
		s := newState(r.e)
		args := []*Term{r.anyRing(s)}
		r.mem = commonMem(s)
		for i := 0; i < r.fn.Signature.Params().Len(); i++ {
			args = append(args, s.unknownOf("arg", r.fn.Signature.Params().At(i).Type()))
			if _, ok := r.fn.Signature.Params().At(i).Type().Underlying().(*types.Signature); ok {
				args[len(args)-1].sym = &SymInfo{NonNil: true}
			}
		}
		if r.what == "Pick" && len(r.nodes) > 0 {
			s.ghost["n:below"], s.ghost["n:above"] = Int(-1), lenAtom(r.nodes[0])
		}
		r.e.Run(s, r.fn, args, nil)
		for _, o := range r.e.obligs {
			if r.what != "Pick" {
				continue
			}
			if o.bad > 0 {
				rep.bad("P08", "no-panic", r.name+" "+o.kind, o.pos, &State{trace: o.trace}, "%s: %s is not established", o.text, o.why)
			} else {
				rep.ok("P08", "no-panic", r.name+" "+o.kind)
			}
		}
		done(r)
	}
	// the name of a server stays what it was configured to be
	cts, _ := clientTypes(p)
	for _, ct := range cts {
		sts, recvs, _ := ct.construct()
		fn := ct.method("Name")
		nm := "(*client." + ct.T.Obj().Name() + ").Name"
		if fn == nil || len(sts) == 0 {
			rep.bad("P03", "followed", nm, token.NoPos, nil, "the constructor could not be followed")
			continue
		}
		cr := &ClientRun{ct: ct, rep: rep, op: "Name", fn: fn, name: nm, mode: "T"}
		e := newEngine(p)
		h := &ctorRun{}
		e.hooks = h
		cr.e = e
		for _, s := range cr.setup(sts[len(sts)-1], recvs[len(recvs)-1]) {
			e.Run(s, fn, []*Term{cr.recv}, nil)
		}
		for _, s := range h.rets {
			good := true
			n := 0
			s.ret.walk(func(x *Term) bool {
				if x.Op == OSym {
					n++
					good = good && strings.HasPrefix(x.S, "arg.") && x.T != nil && isStringType(x.T)
				}
				return good
			})
			rep.check("P03", "name-is-fixed", nm, good && n == 1, fn.Pos(), s, "the name of a server is %s, not what its constructor was given", s.ret)
		}
	}
	res.Funcs = keysOf(fns)
}

func sortedMembers(sp *ssa.Package) []ssa.Member {
	var ns []string
	for n := range sp.Members {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var l []ssa.Member
	for _, n := range ns {
		l = append(l, sp.Members[n])
	}
	return l
}

func (r *RingRun) start() {
	e := newEngine(r.rep.P)
	e.hooks = r
	r.sorted = map[string]int{}
	e.env = &Env{}
	e.callHooks = map[string]func(e *Engine, s *State, c *call) []*State{}
	for _, n := range []string{"sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.SortFunc", "slices.SortStableFunc"} {
		e.callHooks[n] = r.sorts
	}
	r.e = e
}

// anyRing is a ring with at least one node.
func (r *RingRun) anyRing(s *State) *Term {
	ro := s.newObj("ring", r.ring)
	ro.origin = "recv"
	st := r.ring.Underlying().(*types.Struct)
	for k := 0; k < st.NumFields(); k++ {
		f := st.Field(k)
		switch u := f.Type().Underlying().(type) {
		case *types.Map:
			if r.rep.P.maybeNil(r.ring, k) {
				ro.cells[fmt.Sprint(k)] = s.unknownOf("ring."+f.Name(), f.Type())
				continue
			}
			mo := s.newObj("servers:"+f.Name(), f.Type())
			mo.origin = "recv"
			mo.lazy = Sym(mo.id, f.Type(), &SymInfo{NonNil: true})
			mo.ghost = map[string]*Term{"more": tTrue}
			ro.cells[fmt.Sprint(k)] = Ptr(Obj_(mo.id), "")
		case *types.Slice:
			if isByte(u.Elem()) {
				ro.cells[fmt.Sprint(k)] = s.unknownOf("ring."+f.Name(), f.Type())
				continue
			}
			b := Sym("ring."+f.Name(), f.Type(), nil)
			v := s.starSlice(b.S, b, lenAtom(b), u.Elem())
			s.assume(Le0(AddC(neg(lenAtom(b)), 1)), true)
			o := s.obj(b.S)
			o.origin = "recv"
			if _, ok := u.Elem().Underlying().(*types.Pointer); ok {
				o.list[0].Star.facts = []starFact{{atom: isNilTerm(starVar), val: false}}
			}
			ro.cells[fmt.Sprint(k)] = v
			r.nodes = append(r.nodes, b)
		default:
			ro.cells[fmt.Sprint(k)] = s.unknownOf("ring."+f.Name(), f.Type())
		}
	}
	return Ptr(Obj_("ring"), "")
}

func (r *RingRun) Return(s *State, res *Term) {
	r.rep.paths[r.name]++
	pos := r.fn.Pos()
	if r.build == 0 && r.mem != nil {
		r.rep.ok("X05", "nothing-in-common", r.name)
	}
	if r.build > 0 {
		r.built(s, res, pos)
		return
	}
	switch r.what {
	case "Pick":
		node, known := false, false
		var at *Term
		res.walk(func(x *Term) bool {
			if x.Op == OApp && (x.S == "elem" || strings.HasPrefix(x.S, "rangeval") || strings.HasPrefix(x.S, "mapget")) {
				known = true
				if x.S == "elem" && len(r.nodes) > 0 && x.Args[0] == r.nodes[0] {
					node = true
					at = x.Args[1]
				}
			}
			return true
		})
		r.rep.check("P08", "owner-is-configured", r.name, known, pos, s, "the owner of a key may be %s, which is no configured server", res)
		r.rep.check("P03", "owner-by-hash", r.name, node || !known, pos, s, "the owner of a key is %s, which is not found by the hash of the key", res)
		if node {
			r.rep.check("P09", "nearest-node", r.name, r.nearest(s, at), pos, s, "the owner of a key may be the server of node %s, which is not known to be the nearest node that does not lie above the hash of the key (nodes up to %s do not, nodes from %s on do)", at, s.ghost["n:below"], s.ghost["n:above"])
		}
	case "Find":
		if len(r.fn.Params) < 2 {
			return
		}
		arg := s.frames
		_ = arg
		ok := res.Op == ONil
		res.walk(func(x *Term) bool {
			if x.Op == OApp && x.S == "mapget" && x.Args[1].Op == OSym && strings.HasPrefix(x.Args[1].S, "arg") {
				ok = true
			}
			return true
		})
		r.rep.check("P02", "find-by-name", r.name, ok, pos, s, "looking up a name gives %s", res)
	}
}

// built: every server has its points on the ring, which depend on its name only, and is known by its name.
func (r *RingRun) built(s *State, res *Term, pos token.Pos) {
	ptr := res
	if res.Op == OTuple {
		ptr = res.Args[0]
		if s.decide(isNilTerm(ptr)) == 1 {
			return
		}
	}
	o, _, ok := s.objOf(ptr)
	if !ok {
		r.rep.bad("P08", "followed", r.name, pos, s, "the ring is not known")
		return
	}
	st := r.ring.Underlying().(*types.Struct)
	pts := map[string]map[*Term]bool{}
	for k := 0; k < st.NumFields(); k++ {
		f := st.Field(k)
		v := s.loadCell(s.obj(o.id), fmt.Sprint(k), f.Type())
		switch u := f.Type().Underlying().(type) {
		case *types.Slice:
			segs, ok := s.elemsOf(v, f.Type())
			if !ok {
				r.rep.bad("P08", "followed", r.name, pos, s, "the nodes of the ring are not known")
				return
			}
			if len(segs) == 0 || v.Op != OSlice {
				continue
			}
			if so, _, ok := s.objOf(v.Args[0]); ok {
				if _, h := r.nodeOf(s, segs[0].Elem, u.Elem()); h != nil && len(segs) > 1 {
					r.rep.check("P09", "points-in-order", r.name, s.ghost["c:sorted:"+so.id] != nil && r.sorted[so.id] == len(segs), pos, s, "the nodes of the ring are not sorted by their places when the ring is used")
				}
			}
			for _, g := range segs {
				if g.Star != nil {
					r.rep.bad("P08", "followed", r.name, pos, s, "the nodes of the ring are not known")
					return
				}
				sv, h := r.nodeOf(s, g.Elem, u.Elem())
				if sv == nil {
					continue
				}
				good := sv.Op == OSym && strings.HasPrefix(sv.S, "srv")
				r.rep.check("P08", "nodes-have-servers", r.name, good, pos, s, "a node of the ring belongs to %s", sv)
				if !good {
					continue
				}
				if pts[sv.S] == nil {
					pts[sv.S] = map[*Term]bool{}
				}
				if h != nil {
					okh := true
					h.walk(func(x *Term) bool {
						if x.Op == OSym && x != sv {
							okh = false
						}
						if x == sv {
							return true
						}
						return okh
					})
					r.rep.check("P03", "depends-on-names-only", r.name, okh, pos, s, "the place of a node is %s, which depends on more than the name of its server", h)
					pts[sv.S][subst(h, map[*Term]*Term{sv: Sym("srv", r.srv, nil)}, map[*Term]*Term{})] = true
				}
			}
		case *types.Map:
			mo, _, ok := s.objOf(v)
			if !ok {
				continue
			}
			for i := 0; i < r.build; i++ {
				sv := Sym(fmt.Sprintf("srv%d", i), r.srv, nil)
				found := false
				for _, en := range mapEntries(mo) {
					if en.key == AppT("name", tString, sv) && en.val == sv {
						found = true
					}
				}
				for j := 0; j < r.build; j++ {
					if found {
						break
					}
					// another server of that name
					x := Sym(fmt.Sprintf("srv%d", j), r.srv, nil)
					if j != i && s.decide(mkStrEq(AppT("name", tString, x), AppT("name", tString, sv))) == 1 {
						found = true
					}
				}
				r.rep.check("P02", "find-by-name", r.name, found || mo.ghost["more"] != nil, pos, s, "server %d is not known by its name", i)
				r.rep.check("P04", "every-server", r.name, found || mo.ghost["more"] != nil, pos, s, "server %d is not among the servers of the ring", i)
			}
		}
	}
	for i := 0; i < r.build; i++ {
		l := pts[fmt.Sprintf("srv%d", i)]
		r.rep.check("P08", "every-server-has-nodes", r.name, len(l) > 0, pos, s, "server %d has no node on the ring", i)
		if r.first[1] == nil {
			r.first[1] = l
		}
		same := len(l) == len(r.first[1])
		for t := range l {
			same = same && r.first[1][t]
		}
		r.rep.check("P09", "same-points-at-any-position", r.name, same, pos, s, "the points of a server depend on its position among the servers, or on their number")
		r.rep.check("P03", "same-points-at-any-position", r.name, same, pos, s, "the points of a server depend on its position among the servers, or on their number")
	}
}

// nodeOf: the server and the place of a node.
func (r *RingRun) nodeOf(s *State, el *Term, t types.Type) (srv, h *Term) {
	var st *types.Struct
	var get func(i int, ft types.Type) *Term
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		st, ok = pt.Elem().Underlying().(*types.Struct)
		if !ok {
			return
		}
		o, p, ok := s.objOf(el)
		if !ok {
			return
		}
		get = func(i int, ft types.Type) *Term { return s.loadCell(s.obj(o.id), joinPath(p, fmt.Sprint(i)), ft) }
	} else {
		var ok bool
		st, ok = t.Underlying().(*types.Struct)
		if !ok || el.Op != OStruct {
			return
		}
		get = func(i int, ft types.Type) *Term { return el.Args[i] }
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		switch {
		case types.Identical(ft, r.srv):
			srv = get(i, ft)
		case isIntType(ft):
			h = get(i, ft)
		}
	}
	return
}

// withPlace gives a node another place.
func (r *RingRun) withPlace(s *State, el *Term, t types.Type, h *Term) *Term {
	pt, ok := t.Underlying().(*types.Pointer)
	if ok {
		st, ok := pt.Elem().Underlying().(*types.Struct)
		o, p, ok2 := s.objOf(el)
		if !ok || !ok2 {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			if isIntType(st.Field(i).Type()) {
				s.wr(o.id).cells[joinPath(p, fmt.Sprint(i))] = h
			}
		}
		return el
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || el.Op != OStruct {
		return nil
	}
	args := append([]*Term{}, el.Args...)
	for i := 0; i < st.NumFields(); i++ {
		if isIntType(st.Field(i).Type()) {
			args[i] = h
		}
	}
	return mk(OStruct, "", 0, el.T, nil, nil, args...)
}

// globalWritten: a package-level variable is stored to outside of the package initialisers.
func (p *Program) globalWritten(id string) bool {
	if p.gwritten == nil {
		p.gwritten = map[string]bool{}
		for f := range p.allFuncs() {
			if !p.isModule(f.Package()) {
				continue
			}
			if f.Synthetic != "" && f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if g, ok := st.Addr.(*ssa.Global); ok {
							p.gwritten["g:"+g.String()] = true
						}
					}
				}
			}
		}
	}
	return p.gwritten[id]
}

// partOf: a value of type t can hold values of type x, or pointers to them.
func partOf(t, x types.Type) bool {
	if t == nil || x == nil {
		return true
	}
	seen := map[string]bool{}
	var in func(t types.Type) bool
	in = func(t types.Type) bool {
		if types.Identical(t, x) {
			return true
		}
		k := types.TypeString(t, nil)
		if seen[k] {
			return false
		}
		seen[k] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return in(u.Elem())
		case *types.Slice:
			return in(u.Elem())
		case *types.Array:
			return in(u.Elem())
		case *types.Map:
			return in(u.Key()) || in(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if in(u.Field(i).Type()) {
					return true
				}
			}
		}
		return false
	}
	return in(t)
}
