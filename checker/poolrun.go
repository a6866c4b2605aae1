package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Pools: every operation of a pool is analysed with the ring's lookup and the operations of the servers
// left uninterpreted (a call of an operation either succeeds with unknown results or fails with an unknown
// error), and the calls made on each path are compared with those the operation stands for.

type PoolRun struct {
	mem    *memSet
	rep    *Report
	e      *Engine
	T      *types.Named // pool type
	op     string
	name   string
	fn     *ssa.Function
	rings  []string // field names of the rings, the first one is the primary
	item   *itemArg
	key    *Term
	ints   map[string]*Term
	keys   []*Term // bounded key list
	one    bool    // all keys have the same owner
	calls  []*poolCall
	ring   *types.Named
	server types.Type
	caller map[string]*Obj
}

// poolCall is a call of an operation of a server, with what it was given and what it returned.
type poolCall struct {
	op      string
	srv     *Term
	args    []*Term
	results []*Term
	failed  bool
	base    *Term // identity of the list of items it returned
}

var ringMethods = []string{"Pick", "Find"}

// poolTypes finds the pools: exported struct types with fields of type *client.Ring.
func poolTypes(p *Program) (out []*types.Named) {
	ring := p.typ("client", "Ring")
	if ring == nil {
		return nil
	}
	for _, pk := range []string{"client", "cluster"} {
		sp := p.pkgs[pk]
		if sp == nil {
			continue
		}
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || !tn.Exported() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if len(ringFields(nt, ring)) > 0 {
				out = append(out, nt)
			}
		}
	}
	return out
}

func ringFields(t *types.Named, ring *types.Named) []string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var l []string
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), types.NewPointer(ring)) {
			l = append(l, st.Field(i).Name())
		}
	}
	return l
}

func (r *PoolRun) Panic(s *State, pos token.Pos, v *Term) {}

func (r *PoolRun) bad(prop, rule string, pos token.Pos, s *State, format string, a ...interface{}) {
	r.rep.bad(prop, rule, r.name, pos, s, format, a...)
}
func (r *PoolRun) ok(prop, rule string) { r.rep.ok(prop, rule, r.name) }

// callsOf returns the calls made on the path to s.
func (r *PoolRun) callsOf(s *State) []*poolCall {
	t := s.ghost["m:ops"]
	var l []*poolCall
	if t != nil {
		for _, a := range t.Args {
			l = append(l, r.calls[a.N])
		}
	}
	return l
}

func (r *PoolRun) addCall(s *State, c *poolCall) {
	var args []*Term
	if t := s.ghost["m:ops"]; t != nil {
		args = append(args, t.Args...)
	}
	r.calls = append(r.calls, c)
	s.ghost["m:ops"] = App("ops", append(args, Int(int64(len(r.calls)-1)))...)
}

// bytesVal is the contents of a byte slice; nil and empty are the same on the wire.
func bytesVal(s *State, v *Term) *Term {
	if v == nil {
		return nil
	}
	if v.Op == ONil {
		return tEmpty
	}
	return s.bytesOf(v)
}

// itemVal describes what an item says at this moment.
func itemVal(s *State, p *Term) *Term {
	o, path, ok := s.objOf(p)
	if !ok || o.T == nil {
		return App("noitem", p)
	}
	st, ok := o.T.Underlying().(*types.Struct)
	if !ok {
		return App("noitem", p)
	}
	f := map[string]*Term{}
	for i := 0; i < st.NumFields(); i++ {
		v := s.loadCell(s.obj(o.id), joinPath(path, fmt.Sprint(i)), st.Field(i).Type())
		if isByteSlice(st.Field(i).Type()) {
			v = bytesVal(s, v)
		}
		f[st.Field(i).Name()] = v
	}
	var l []*Term
	for _, n := range []string{"Key", "Value", "Flags", "Expiration", "Cas"} {
		v := f[n]
		if v == nil {
			v = App("nofield")
		}
		l = append(l, v)
	}
	return App("item", l...)
}

func (r *PoolRun) Unknown(e *Engine, s *State, c *call) ([]*State, bool) {
	if !strings.HasPrefix(c.name, "invoke:"+modPath) {
		return nil, false
	}
	m := c.name[strings.LastIndexByte(c.name, '.')+1:]
	srv := c.args[0]
	if m == "Name" {
		return c.ret(s, AppT("name", tString, srv)), true
	}
	pc := &poolCall{op: m, srv: srv}
	for i, a := range c.args[1:] {
		t := c.sig.Params().At(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			pc.args = append(pc.args, itemVal(s, a))
		case *types.Slice:
			if isByte(u.Elem()) {
				pc.args = append(pc.args, bytesVal(s, a))
				break
			}
			l, ok := s.elemsOf(a, t)
			es := []*Term{}
			for _, g := range l {
				if g.Elem == nil {
					ok = false
					break
				}
				es = append(es, g.Elem)
			}
			if !ok {
				pc.args = append(pc.args, App("unknownlist", a))
			} else {
				pc.args = append(pc.args, App("list", es...))
			}
		default:
			pc.args = append(pc.args, a)
		}
	}
	n := len(r.calls)
	var out []*State
	for _, fail := range []bool{false, true} {
		st := s
		if !fail {
			st = s.clone()
		}
		k := *pc
		k.failed = fail
		for i := 0; i < c.sig.Results().Len(); i++ {
			t := c.sig.Results().At(i).Type()
			var v *Term
			switch u := t.Underlying().(type) {
			case *types.Interface:
				if fail {
					v = Sym(fmt.Sprintf("err#%d", n), t, &SymInfo{NonNil: true})
				} else {
					v = tNil
				}
			case *types.Pointer:
				v = tNil
				if !fail {
					lz := Sym(fmt.Sprintf("got#%d", n), t, &SymInfo{NonNil: true})
					v = lz
				}
			case *types.Slice:
				v = tNil
				if !fail {
					b := Sym(fmt.Sprintf("items#%d", n), t, nil)
					v = st.starSlice(b.S, b, lenAtom(b), u.Elem())
					k.base = b
				}
			default:
				v = Sym(fmt.Sprintf("res#%d.%v", n, fail), t, nil)
			}
			k.results = append(k.results, v)
		}
		st.note(c.pos, "%s of %s %s", m, srv, map[bool]string{true: "fails", false: "succeeds"}[fail])
		r.mem.uses(st, c.pos, r.rep, r.name, c.args...)
		r.onCall(st, &k, c.pos)
		r.addCall(st, &k)
		var v *Term
		switch len(k.results) {
		case 0:
			v = tUnit
		case 1:
			v = k.results[0]
		default:
			v = Tuple(k.results...)
		}
		out = append(out, c.ret(st, v)...)
		if c.sig.Results().Len() == 0 {
			break
		}
	}
	return out, true
}

// onCall: an operation on every server is being carried out.
func (r *PoolRun) onCall(s *State, c *poolCall, pos token.Pos) {
	if !r.wide() {
		return
	}
	if c.op != r.op {
		r.bad("P04", "only-its-own-operation", pos, s, "%s of a server is called by %s", c.op, r.op)
		return
	}
	if s.ghost["v:cur"] == c.srv {
		s.ghost["m:called"] = tTrue
		s.ghost["v:res"] = c.results[0]
		delete(s.ghost, "m:stored")
	}
	if c.failed {
		s.ghost["m:failed"] = tTrue
		s.ghost["m:curfailed"] = tTrue
	} else {
		delete(s.ghost, "m:curfailed")
	}
	// the calls of earlier servers need not be told apart
	delete(s.ghost, "m:ops")
}

func (r *PoolRun) wide() bool { return r.op == "Flush" || r.op == "Version" || r.op == "Close" }

func (r *PoolRun) pick(e *Engine, s *State, c *call) []*State {
	o, _, ok := s.objOf(c.args[0])
	if !ok {
		return nil
	}
	return c.ret(s, r.pickTerm(o.id, c.args[1]))
}

func (r *PoolRun) pickTerm(ring string, key *Term) *Term {
	if r.one {
		key = r.keys[0]
	}
	v := AppT("pick", r.server, Obj_(ring), key)
	if v.sym == nil {
		v.sym = &SymInfo{NonNil: true}
	}
	return v
}

// find: the ring knows its servers by name.
func (r *PoolRun) find(e *Engine, s *State, c *call) []*State {
	o, _, ok := s.objOf(c.args[0])
	if !ok {
		return nil
	}
	if n := c.args[1]; n.Op == OApp && n.S == "name" && n.Args[0].Op == OApp && n.Args[0].S == "pick" && n.Args[0].Args[0] == Obj_(o.id) {
		return c.ret(s, n.Args[0])
	}
	return c.ret(s, AppT("find", r.server, Obj_(o.id), c.args[1]))
}

func (r *PoolRun) Event(s *State, ev *Event) {
	r.mem.separate(s, ev, r.rep, r.name)
	switch ev.Kind {
	case "store":
		if ev.A.Op == OPtr && ev.A.Args[0].Op == OObj {
			if o := s.obj(ev.A.Args[0].S); o != nil && o.origin == "caller" {
				r.bad("C08", "caller-memory-unchanged", ev.Pos, s, "a pool writes to memory of its caller (%s)", o.id)
			}
		}
		if r.wide() && s.ghost["v:cur"] != nil {
			if o, _, ok := s.objOf(ev.A); ok && o.origin == "recv" {
				r.bad("P03", "ring-never-changes", ev.Pos, s, "the ring or the pool is modified by %s", r.op)
			}
		}
	case "mapupdate":
		if r.wide() {
			cur := s.ghost["v:cur"]
			if cur != nil && ev.B == AppT("name", tString, cur) && ev.C == s.ghost["v:res"] {
				s.ghost["m:stored"] = tTrue
				s.ghost["v:map"] = ev.A
			}
		}
		if o, _, ok := s.objOf(ev.A); ok && o.origin == "recv" {
			r.bad("P03", "ring-never-changes", ev.Pos, s, "the ring is modified by %s", r.op)
		}
	case "mapdelete":
		if o, _, ok := s.objOf(ev.A); ok && o.origin == "recv" {
			r.bad("P03", "ring-never-changes", ev.Pos, s, "the ring is modified by %s", r.op)
		}
	case "rangenext":
		if r.wide() && r.isServers(s, ev.A) {
			r.served(s, ev.Pos)
			s.ghost["v:cur"] = ev.C
			s.ghost["m:in"] = tTrue
			delete(s.ghost, "m:called")
		}
	case "rangeend":
		if r.wide() && r.isServers(s, ev.A) {
			r.served(s, ev.Pos)
			s.ghost["m:end"] = tTrue
			delete(s.ghost, "v:cur")
		}
	}
}

func (r *PoolRun) isServers(s *State, coll *Term) bool {
	o, _, ok := s.objOf(coll)
	return ok && strings.HasPrefix(o.id, "servers:"+r.rings[0])
}

// served: the server before this one has been addressed.
func (r *PoolRun) served(s *State, pos token.Pos) {
	if s.ghost["m:in"] == nil {
		return
	}
	if s.ghost["m:called"] == nil {
		r.bad("P04", "every-server", pos, s, "%s passes over a server", r.op)
	} else {
		r.ok("P04", "every-server")
	}
	if r.op == "Version" && s.ghost["m:curfailed"] == nil {
		r.rep.check("P04", "version-of-each", r.name, s.ghost["m:stored"] != nil, pos, s, "the version of a server is not put under its name")
	}
}

func (r *PoolRun) roles() string { return strings.Join(r.rings, ",") }

// run analyses the operation.
func (r *PoolRun) run() {
	p := r.rep.P
	r.ring = p.typ("client", "Ring")
	si := p.typ("client", "Server")
	if r.ring == nil || si == nil {
		return
	}
	r.server = si
	r.fn = p.methodByName(types.NewPointer(r.T), r.op)
	if r.fn == nil {
		return
	}
	r.rings = r.ringRoles()
	counts := []int{-1}
	if r.op == "GetMulti" {
		counts = []int{0, 1, 2, 3}
		if os.Getenv("GM_TIER") == "thorough" {
			counts = append(counts, 4)
		}
	}
	// longer lists are looked at where the code tells lengths apart, with one owner for all keys
	if r.op == "GetMulti" {
		counts = append(counts, 20)
		for _, c := range sizeConstants(p, r.fn, 4, 400, func(f *ssa.Function) bool {
			return f.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), types.NewPointer(r.ring))
		}) {
			counts = append(counts, int(c), int(c)+1)
			if c <= 150 {
				counts = append(counts, 2*int(c), 2*int(c)+1)
			}
		}
	}
	for _, n := range counts {
		r.one = n > 4
		e := newEngine(p)
		r.e = e
		e.hooks = r
		if r.op == "GetMulti" {
			e.partGhost = "m:ops"
		}
		e.callHooks = map[string]func(e *Engine, s *State, c *call) []*State{}
		pre := "(*" + modPath + "/client.Ring)."
		e.callHooks[pre+"Pick"] = r.pick
		e.callHooks[pre+"Find"] = r.find
		e.env = &Env{}
		s := newState(e)
		args, ok := r.setup(s, n)
		if !ok {
			r.rep.bad("P01", "followed", r.name, r.fn.Pos(), nil, "parameters of an unknown type")
			return
		}
		e.Run(s, r.fn, args, nil)
		r.finish()
	}
}

func (r *PoolRun) finish() {
	var ms []string
	for m := range r.e.problems {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		r.rep.bad("P01", "followed", r.name, r.e.probPos[m], &State{trace: r.e.problems[m]}, "the analysis could not follow the code: %s", m)
	}
	for _, o := range r.e.obligs {
		if o.bad > 0 {
			// a pool may be built without servers, a server may return items that are nil: not decided here
			continue
		}
	}
}

func (r *PoolRun) setup(s *State, nkeys int) ([]*Term, bool) {
	r.caller = map[string]*Obj{}
	r.ints = map[string]*Term{}
	r.keys = nil
	po := s.newObj("pool", r.T)
	po.origin = "recv"
	st := r.T.Underlying().(*types.Struct)
	rst := r.ring.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !types.Identical(f.Type(), types.NewPointer(r.ring)) {
			po.cells[fmt.Sprint(i)] = s.unknownOf("pool."+f.Name(), f.Type())
			continue
		}
		ro := s.newObj("ring:"+f.Name(), r.ring)
		ro.origin = "recv"
		for k := 0; k < rst.NumFields(); k++ {
			rf := rst.Field(k)
			switch u := rf.Type().Underlying().(type) {
			case *types.Map:
				if r.rep.P.maybeNil(r.ring, k) {
					ro.cells[fmt.Sprint(k)] = s.unknownOf("ring."+rf.Name(), rf.Type())
					continue
				}
				mo := s.newObj("servers:"+f.Name()+":"+rf.Name(), rf.Type())
				mo.origin = "recv"
				mo.lazy = Sym(mo.id, rf.Type(), &SymInfo{NonNil: true})
				mo.ghost = map[string]*Term{"more": tTrue}
				ro.cells[fmt.Sprint(k)] = Ptr(Obj_(mo.id), "")
			case *types.Slice:
				if isByte(u.Elem()) {
					ro.cells[fmt.Sprint(k)] = s.unknownOf("ring."+rf.Name(), rf.Type())
					continue
				}
				b := Sym("ring."+f.Name()+"."+rf.Name(), rf.Type(), nil)
				ro.cells[fmt.Sprint(k)] = s.starSlice(b.S, b, lenAtom(b), u.Elem())
			default:
				ro.cells[fmt.Sprint(k)] = s.unknownOf("ring."+rf.Name(), rf.Type())
			}
		}
		po.cells[fmt.Sprint(i)] = Ptr(Obj_(ro.id), "")
	}
	r.mem = commonMem(s)
	args := []*Term{Ptr(Obj_("pool"), "")}
	ps := r.fn.Signature.Params()
	ni := 0
	cr := &ClientRun{init: r.caller}
	for i := 0; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				r.key = Sym("key", tString, nil)
				args = append(args, r.key)
			} else {
				n := "delta"
				if r.op == "Touch" || ni == 1 {
					n = "exp"
				}
				ni++
				r.ints[n] = Sym("arg."+n, t, nil)
				args = append(args, r.ints[n])
			}
		case *types.Slice:
			o := s.newObj("caller.keys", nil)
			o.isList = true
			o.origin = "caller"
			for k := 0; k < nkeys; k++ {
				x := Sym(fmt.Sprintf("key%d", k), tString, nil)
				if r.one {
					x = Lit(fmt.Sprintf("key%d", k))
				}
				r.keys = append(r.keys, x)
				o.list = append(o.list, LSeg{Elem: x})
			}
			n := Int(int64(nkeys))
			args = append(args, mkSlice(Ptr(Obj_(o.id), ""), tZero, n, n))
		case *types.Pointer:
			args = append(args, cr.callerItem(s, u.Elem(), true))
			r.item = cr.item
			r.key = cr.key
		default:
			return nil, false
		}
	}
	return args, true
}

// ringRoles orders the ring fields: the primary first. A field's role is that of the constructor's parameter
// from which its servers come.
func (r *PoolRun) ringRoles() []string {
	l := ringFields(r.T, r.ring)
	if len(l) < 2 {
		return l
	}
	p := r.rep.P
	for _, m := range p.pkgs[strings.TrimPrefix(r.T.Obj().Pkg().Path(), modPath+"/")].Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Signature.Recv() != nil || f.Signature.Results().Len() == 0 || !types.Identical(f.Signature.Results().At(0).Type(), types.NewPointer(r.T)) {
			continue
		}
		by := map[int][]string{}
		for i := range l {
			ps, plain := fieldOrigin(f, r.T, l[i])
			if len(ps) == 1 {
				by[ps[0]] = append(by[ps[0]], l[i])
			} else if len(ps) == 0 || !plain {
				r.rep.bad("P05", "followed", short(f.RelString(nil)), f.Pos(), nil, "cannot tell from which parameter the ring %s is built", l[i])
				return l
			} else {
				r.rep.bad("P05", "roles", short(f.RelString(nil)), f.Pos(), nil, "the ring %s is built from the servers of %d parameters", l[i], len(ps))
			}
		}
		var out []string
		for i := range f.Params {
			out = append(out, by[i]...)
		}
		if len(out) == len(l) && len(by) == len(l) {
			r.rep.ok("P05", "roles", short(f.RelString(nil)))
			return out
		}
		r.rep.bad("P05", "roles", short(f.RelString(nil)), f.Pos(), nil, "the rings are not built each from its own servers")
	}
	return l
}

// fieldOrigin: the parameters whose values may reach the field of the value a constructor returns; plain: the
// constructor leaves the work to nobody else, so that no two of its values share a variable of a helper.
func fieldOrigin(f *ssa.Function, t *types.Named, field string) (params []int, plain bool) {
	st := t.Underlying().(*types.Struct)
	cone := []*ssa.Function{f}
	in := map[*ssa.Function]bool{f: true}
	made := map[*ssa.Function]*ssa.MakeClosure{}
	calls := map[*ssa.Function][]*ssa.Call{}
	target := func(c *ssa.Call) *ssa.Function {
		switch x := c.Call.Value.(type) {
		case *ssa.Function:
			return x
		case *ssa.MakeClosure:
			return x.Fn.(*ssa.Function)
		}
		return nil
	}
	for i := 0; i < len(cone); i++ {
		add := func(g *ssa.Function) {
			if g != nil && !in[g] && g.Blocks != nil && g.Pkg == f.Pkg {
				in[g] = true
				cone = append(cone, g)
			}
		}
		for _, b := range cone[i].Blocks {
			for _, x := range b.Instrs {
				switch x := x.(type) {
				case *ssa.MakeClosure:
					made[x.Fn.(*ssa.Function)] = x
					add(x.Fn.(*ssa.Function))
				case *ssa.Call:
					g := target(x)
					add(g)
					if g != nil && in[g] {
						calls[g] = append(calls[g], x)
					}
				}
			}
		}
	}
	found := map[int]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	mem := func(v ssa.Value) {
		// what is stored into the memory v points to
		if v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.IndexAddr:
				if x.X == v {
					walk(x)
				}
			case *ssa.FieldAddr:
				if x.X == v {
					walk(x)
				}
			case *ssa.Slice:
				if x.X == v {
					walk(x)
				}
			case *ssa.Store:
				if x.Addr == v {
					walk(x.Val)
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if g := x.Fn.(*ssa.Function); b == v && i < len(g.FreeVars) {
						walk(g.FreeVars[i])
					}
				}
			}
		}
	}
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			for i, p := range x.Parent().Params {
				if p == x && x.Parent() == f {
					found[i] = true
				} else if p == x {
					for _, c := range calls[x.Parent()] {
						if i < len(c.Call.Args) {
							walk(c.Call.Args[i])
						}
					}
				}
			}
			return
		case *ssa.FreeVar:
			mem(v)
			if m := made[x.Parent()]; m != nil {
				for i, fv := range x.Parent().FreeVars {
					if fv == x && i < len(m.Bindings) {
						walk(m.Bindings[i])
					}
				}
			}
			return
		case *ssa.Alloc, *ssa.MakeSlice:
			mem(v)
			return
		case *ssa.IndexAddr:
			walk(x.X)
			mem(v)
			return
		case *ssa.FieldAddr:
			walk(x.X)
			mem(v)
			return
		case *ssa.Call:
			for _, a := range x.Call.Args {
				walk(a)
			}
			if g := target(x); g != nil && in[g] {
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, v := range ret.Results {
							walk(v)
						}
					}
				}
			}
			return
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
			return
		case ssa.Instruction:
			var ops [12]*ssa.Value
			for _, o := range x.Operands(ops[:0]) {
				if *o != nil {
					walk(*o)
				}
			}
		}
	}
	for _, g := range cone {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(pt.Elem(), t) || st.Field(fa.Field).Name() != field {
					continue
				}
				walk(s.Val)
			}
		}
	}
	for i := range found {
		params = append(params, i)
	}
	sort.Ints(params)
	return params, len(cone) == 1
}

// ---- what the calls on a path must be ----

func (r *PoolRun) Return(s *State, res *Term) {
	r.rep.paths[r.name]++
	r.mem.uses(s, r.fn.Pos(), r.rep, r.name, res)
	r.rep.ok("X05", "nothing-in-common", r.name)
	pos := r.fn.Pos()
	if s.trace != nil && s.trace.pos.IsValid() {
		pos = s.trace.pos
	}
	var vals []*Term
	if res != nil && res.Op == OTuple {
		vals = res.Args
	} else if res != nil {
		vals = []*Term{res}
	}
	if len(vals) == 0 {
		return
	}
	errv := vals[len(vals)-1]
	d := s.decide(isNilTerm(errv))
	if d < 0 {
		r.rep.bad("P01", "followed", r.name, pos, s, "it is not known whether %s is nil", errv)
		return
	}
	isNil := d == 1
	switch {
	case r.wide():
		r.returnedWide(s, vals, isNil, pos)
	case r.op == "GetMulti":
		r.returnedMulti(s, vals, errv, isNil, pos)
	case len(r.rings) == 1 || r.op == "Get" || r.op == "Version":
		r.returnedSingle(s, vals, errv, isNil, pos)
	default:
		r.returnedReplica(s, vals, errv, isNil, pos)
	}
}

func (r *PoolRun) returnedWide(s *State, vals []*Term, isNil bool, pos token.Pos) {
	end := s.ghost["m:end"] != nil
	failed := s.ghost["m:failed"] != nil
	if isNil {
		r.rep.check("P04", "success-only-if-all-succeeded", r.name, !failed, pos, s, "success is reported although a server failed")
		r.rep.check("P04", "every-server", r.name, end, pos, s, "returns success before every server has been addressed")
		if r.op == "Version" && s.ghost["v:map"] != nil {
			r.rep.check("P04", "version-of-each", r.name, vals[0] == s.ghost["v:map"], pos, s, "does not return the versions it collected")
		}
	} else {
		r.rep.check("P04", "error-only-if-one-failed", r.name, failed, pos, s, "an error is returned although no server failed")
	}
	if r.op == "Close" {
		r.rep.check("P04", "close-every-server", r.name, end, pos, s, "returns before every server has been closed")
	}
}

// wanted: the call of the pool's operation with the arguments of its caller.
func (r *PoolRun) ownArgs(c *poolCall) bool {
	var want []*Term
	if r.item != nil {
		it := r.item
		want = []*Term{App("item", it.key, it.value, it.flags, it.exp, it.cas)}
	} else {
		want = []*Term{r.key}
		ps := r.fn.Signature.Params()
		for i := 1; i < ps.Len(); i++ {
			n := "delta"
			if r.op == "Touch" || i == 2 {
				n = "exp"
			}
			want = append(want, r.ints[n])
		}
	}
	if len(want) != len(c.args) {
		return false
	}
	for i := range want {
		if want[i] != c.args[i] {
			return false
		}
	}
	return true
}

func (r *PoolRun) describe(l []*poolCall) string {
	var o []string
	for _, c := range l {
		a := []string{}
		for _, x := range c.args {
			a = append(a, x.String())
		}
		o = append(o, fmt.Sprintf("%s.%s(%s)", c.srv, c.op, strings.Join(a, ", ")))
	}
	if len(o) == 0 {
		return "nothing"
	}
	return strings.Join(o, "; ")
}

// passed: the results of the call are returned as they are.
func (r *PoolRun) passed(c *poolCall, vals []*Term, errv *Term, isNil bool) bool {
	if c.failed {
		return errv == c.results[len(c.results)-1]
	}
	if !isNil {
		return false
	}
	for i, v := range vals[:len(vals)-1] {
		if v != c.results[i] {
			return false
		}
	}
	return true
}

func (r *PoolRun) returnedSingle(s *State, vals []*Term, errv *Term, isNil bool, pos token.Pos) {
	l := r.callsOf(s)
	props := []string{"P01"}
	if len(r.rings) > 1 {
		props = append(props, "P07")
	}
	for _, p := range props {
		if len(l) != 1 {
			r.bad(p, "one-call", pos, s, "%s makes the calls %s", r.op, r.describe(l))
			continue
		}
		c := l[0]
		r.rep.check(p, "one-call", r.name, c.op == r.op, pos, s, "%s is carried out as %s", r.op, c.op)
		r.rep.check(p, "on-the-owner", r.name, c.srv == r.pickTerm("ring:"+r.rings[0], r.key), pos, s, "the operation goes to %s and not to the owner of the key", c.srv)
		r.rep.check(p, "own-arguments", r.name, r.ownArgs(c), pos, s, "the server is asked for %s", r.describe(l))
		r.rep.check(p, "result-unchanged", r.name, r.passed(c, vals, errv, isNil), pos, s, "the result of the server is not what the pool returns (%v)", vals)
	}
}

// returnedReplica: a write goes to the primary, then to the secondary.
func (r *PoolRun) returnedReplica(s *State, vals []*Term, errv *Term, isNil bool, pos token.Pos) {
	l := r.callsOf(s)
	prim := r.pickTerm("ring:"+r.rings[0], r.key)
	sec := r.pickTerm("ring:"+r.rings[1], r.key)
	if len(l) == 0 {
		r.bad("P05", "primary-first", pos, s, "%s returns without a call of the primary", r.op)
		r.bad("P01", "one-call", pos, s, "%s returns without a call of the primary", r.op)
		return
	}
	c := l[0]
	ok := c.op == r.op && c.srv == prim
	r.rep.check("P05", "primary-first", r.name, ok, pos, s, "the first call of %s is not that of the key's owner among the primaries: %s", r.op, r.describe(l))
	r.rep.check("P01", "one-call", r.name, c.op == r.op, pos, s, "%s is carried out as %s", r.op, c.op)
	r.rep.check("P01", "on-the-owner", r.name, c.srv == prim, pos, s, "the operation goes to %s", c.srv)
	r.rep.check("P01", "own-arguments", r.name, r.ownArgs(c), pos, s, "the primary is told to do %s", r.describe(l[:1]))
	r.rep.check("P07", "only-its-operations", r.name, ok, pos, s, "%s begins with %s", r.op, r.describe(l[:1]))
	if c.failed {
		r.rep.check("P05", "secondary-after-primary", r.name, len(l) == 1, pos, s, "after the primary has failed: %s", r.describe(l[1:]))
		r.rep.check("P05", "acknowledged-by-both", r.name, !isNil, pos, s, "success is returned although the primary failed")
		r.rep.check("P01", "result-unchanged", r.name, errv == c.results[len(c.results)-1], pos, s, "the error of the primary is not returned unchanged")
		return
	}
	// reads of the primary in between
	var got *Term
	k := 1
	for k < len(l) && l[k].op == "Get" && (r.op == "Increment" || r.op == "Decrement") {
		r.rep.check("P07", "only-its-operations", r.name, l[k].srv == prim && l[k].args[0] == r.key && k == 1, pos, s, "%s calls %s", r.op, r.describe(l[k:k+1]))
		if l[k].srv != prim || l[k].args[0] != r.key {
			r.bad("P06", "what-the-primary-holds", pos, s, "the counter is read by %s", r.describe(l[k:k+1]))
		}
		if l[k].failed {
			r.rep.check("P05", "acknowledged-by-both", r.name, !isNil, pos, s, "success is returned although the secondary was not written")
			r.rep.check("P05", "secondary-after-primary", r.name, len(l) == k+1, pos, s, "after reading from the primary has failed: %s", r.describe(l[k+1:]))
			return
		}
		got = l[k].results[0]
		k++
	}
	if k >= len(l) {
		r.rep.check("P05", "acknowledged-by-both", r.name, !isNil, pos, s, "success is returned although the secondary has not been written")
		r.bad("P06", "mirrored", pos, s, "the secondary is not told about %s", r.op)
		return
	}
	m := l[k]
	onSec := m.srv == sec
	for _, p := range []string{"P05", "P06"} {
		r.rep.check(p, "on-the-secondary", r.name, onSec, pos, s, "the mirrored write goes to %s", m.srv)
	}
	if r.op == "Delete" {
		r.rep.check("P06", "mirrored", r.name, m.op == "Delete" && len(m.args) == 1 && m.args[0] == r.key, pos, s, "the deletion is mirrored by %s", r.describe(l[k:k+1]))
	} else {
		r.mirror(s, m, got, pos, l[k:k+1])
	}
	r.rep.check("P07", "only-its-operations", r.name, len(l) == k+1, pos, s, "%s also calls %s", r.op, r.describe(l[k+1:]))
	// the result
	if m.failed {
		r.rep.check("P05", "acknowledged-by-both", r.name, !isNil, pos, s, "success is returned although the secondary failed")
		return
	}
	r.rep.check("P01", "result-unchanged", r.name, isNil, pos, s, "an error is returned although both sides succeeded")
	if isNil {
		r.ok("P05", "acknowledged-by-both")
		for i, v := range vals[:len(vals)-1] {
			r.rep.check("P01", "result-unchanged", r.name, v == c.results[i], pos, s, "the result of the primary is not what the pool returns")
		}
	}
}

// mirror: the secondary stores what the primary holds, unconditionally.
func (r *PoolRun) mirror(s *State, m *poolCall, got *Term, pos token.Pos, l []*poolCall) {
	if m.op != "Set" || len(m.args) != 1 || m.args[0].S != "item" {
		r.bad("P06", "mirrored", pos, s, "%s is mirrored by %s", r.op, r.describe(l))
		return
	}
	r.ok("P06", "mirrored")
	var want *Term
	if r.item != nil {
		it := r.item
		want = App("item", it.key, it.value, it.flags, it.exp, tZero)
	} else if got != nil {
		g := itemVal(s, got)
		if g.S != "item" {
			r.bad("P06", "what-the-primary-holds", pos, s, "the item of the primary is not known")
			return
		}
		want = App("item", r.key, g.Args[1], g.Args[2], g.Args[3], tZero)
	} else {
		r.bad("P06", "what-the-primary-holds", pos, s, "the secondary is written without a look at what the primary holds")
		return
	}
	names := []string{"key", "value", "flags", "expiration", "CAS value"}
	for i, w := range want.Args {
		r.rep.check("P06", "what-the-primary-holds", r.name, m.args[0].Args[i] == w, pos, s, "the %s the secondary is given is %s, not %s", names[i], m.args[0].Args[i], w)
	}
}

func (r *PoolRun) returnedMulti(s *State, vals []*Term, errv *Term, isNil bool, pos token.Pos) {
	l := r.callsOf(s)
	failed := false
	asked := map[int]int{}
	var items []*Term
	for _, c := range l {
		if c.op != "GetMulti" && c.op != "Get" {
			r.bad("P02", "asks-the-owners", pos, s, "%s of a server is called", c.op)
			r.bad("P07", "only-its-operations", pos, s, "%s of a server is called", c.op)
			continue
		}
		var ks []*Term
		if c.op == "Get" {
			ks = c.args
		} else if len(c.args) == 1 && c.args[0].S == "list" {
			ks = c.args[0].Args
		} else {
			r.rep.bad("P02", "followed", r.name, pos, s, "the keys asked for are not known")
			return
		}
		for _, k := range ks {
			idx := -1
			for i, w := range r.keys {
				if k == w {
					idx = i
				}
			}
			if idx < 0 {
				r.bad("P02", "asks-the-owners", pos, s, "%s is asked for, which is none of the keys", k)
				continue
			}
			asked[idx]++
			own := r.pickTerm("ring:"+r.rings[0], k)
			same := c.srv == own || s.decide(mkEq(c.srv, own)) == 1 || s.decide(mkStrEq(AppT("name", tString, c.srv), AppT("name", tString, own))) == 1
			r.rep.check("P02", "asks-the-owners", r.name, same, pos, s, "%s is asked for %s, which is another server's", c.srv, k)
			if len(r.rings) > 1 {
				r.rep.check("P07", "on-the-primaries", r.name, same, pos, s, "%s is asked for %s, which is another server's", c.srv, k)
			}
		}
		if c.failed {
			failed = true
		} else if c.op == "GetMulti" {
			items = append(items, c.base)
		}
	}
	if failed {
		r.rep.check("P02", "failure-is-reported", r.name, !isNil, pos, s, "items are returned although a server failed")
		if !isNil {
			found := false
			for _, c := range l {
				found = found || c.failed && c.results[len(c.results)-1] == errv
			}
			r.rep.check("P02", "failure-is-reported", r.name, found, pos, s, "the error is not that of a server")
		}
		return
	}
	if !isNil {
		r.bad("P02", "no-spurious-error", pos, s, "an error is returned although no server failed")
		return
	}
	for i, k := range r.keys {
		n := asked[i]
		for j, k2 := range r.keys {
			// the same key may be asked for once
			if n == 0 && j != i && s.decide(mkStrEq(k, k2)) == 1 {
				n = asked[j]
			}
		}
		r.rep.check("P02", "every-key-is-asked-for", r.name, n == 1, pos, s, "%s is asked for %d times", k, asked[i])
	}
	// the result holds the items of all answers
	el := r.fn.Signature.Results().At(0).Type()
	segs, ok := s.elemsOf(vals[0], el)
	if !ok {
		r.rep.bad("P02", "followed", r.name, pos, s, "the result is not known")
		return
	}
	have := map[string]int{}
	var base, end *Term // a part of the items of one server, and where it ends
	part := func() bool {
		return base == nil || s.cons.entailsEq(Sub2(end, lenAtom(base)))
	}
	for _, g := range segs {
		b, off, n := (*Term)(nil), (*Term)(nil), Int(1)
		switch {
		case g.Star != nil:
			b, off, n = g.Star.base, g.Star.off, g.Star.n
		case g.Elem.Op == OApp && g.Elem.S == "elem":
			b, off = g.Elem.Args[0], g.Elem.Args[1]
		default:
			r.bad("P02", "all-items-are-returned", pos, s, "the result holds %s, which no server returned", g.Elem)
			return
		}
		if s.cons.entails(n) {
			continue
		}
		if b == base && s.cons.entailsEq(Sub2(off, end)) {
			end = Add(end, n)
			continue
		}
		if !part() || !s.cons.entailsEq(off) {
			r.bad("P02", "all-items-are-returned", pos, s, "the result holds a part of the items of a server")
			return
		}
		base, end = b, n
		have[b.S]++
	}
	if !part() {
		r.bad("P02", "all-items-are-returned", pos, s, "the result holds a part of the items of a server")
		return
	}
	for _, it := range items {
		b := it
		if b == nil {
			continue
		}
		if have[b.S] == 0 && s.cons.entailsEq(lenAtom(b)) {
			continue
		}
		r.rep.check("P02", "all-items-are-returned", r.name, have[b.S] == 1, pos, s, "the items of a server are returned %d times", have[b.S])
		delete(have, b.S)
	}
	r.rep.check("P02", "all-items-are-returned", r.name, len(have) == 0, pos, s, "the result holds other items than those of the servers")
}

// unitPools analyses all operations of a pool.
func unitPool(p *Program, rep *Report, res *unitResult, tname string) {
	for _, t := range poolTypes(p) {
		if t.Obj().Name() != tname {
			continue
		}
		ms := types.NewMethodSet(types.NewPointer(t))
		fns := map[string]bool{}
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj()
			if !m.Exported() {
				continue
			}
			r := &PoolRun{rep: rep, T: t, op: m.Name(), name: "(*" + t.Obj().Pkg().Name() + "." + t.Obj().Name() + ")." + m.Name()}
			r.run()
			if r.e != nil {
				res.Steps += r.e.steps
				res.Joins += r.e.joins
				for f := range r.e.fns {
					fns[short(f)] = true
				}
				for u := range r.e.unmodelled {
					res.Unmod = append(res.Unmod, u)
				}
			}
		}
		res.Funcs = keysOf(fns)
	}
}
