package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The replica proxy: its handler is analysed for every kind of request with the operations of the pool left
// uninterpreted, and what it asks of the pool and answers is compared with the request and the pool's answer.

type ProxyRun struct {
	mem   *memSet
	rep   *Report
	e     *Engine
	name  string
	fn    *ssa.Function
	kind  string // get, gets, set, other
	op    *Term
	n     int
	req   map[string]*Term
	set   map[string]*Term
	calls []*poolCall
	keys  []*Term
	items map[string]map[string]*Term // fields of the items the pool returned, by object
	merr  string
	errN  int
}

func unitProxy(p *Program, rep *Report, res *unitResult) {
	sp := p.pkgs["proxy"]
	srv := p.pkgs["server"]
	if sp == nil || srv == nil {
		return
	}
	h, _ := srv.Pkg.Scope().Lookup("Handler").(*types.TypeName)
	if h == nil {
		rep.bad("X01", "followed", "server.Handler", token.NoPos, nil, "the interface of handlers is not found")
		return
	}
	hi, _ := h.Type().Underlying().(*types.Interface)
	fns := map[string]bool{}
	for _, n := range sp.Pkg.Scope().Names() {
		tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || hi == nil {
			continue
		}
		t := types.Type(types.NewPointer(tn.Type()))
		if _, ok := tn.Type().Underlying().(*types.Struct); !ok || !types.Implements(t, hi) {
			continue
		}
		for i := 0; i < hi.NumMethods(); i++ {
			fn := p.methodByName(t, hi.Method(i).Name())
			if fn == nil {
				continue
			}
			type kind struct {
				kind string
				n    int
			}
			kinds := []kind{{"get", 0}, {"gets", 1}, {"gets", 2}, {"gets", 3}, {"gets", 20}, {"set", 0}, {"other", 0}}
			// longer lists are looked at where the code tells lengths apart
			for _, c := range sizeConstants(p, fn, 4, 400, nil) {
				kinds = append(kinds, kind{"gets", int(c) + 1})
			}
			for _, k := range kinds {
				r := &ProxyRun{rep: rep, fn: fn, kind: k.kind, n: k.n, name: "(*proxy." + n + ")." + fn.Name(), items: map[string]map[string]*Term{}}
				r.run(tn.Type())
				res.Steps += r.e.steps
				res.Joins += r.e.joins
				for f := range r.e.fns {
					fns[short(f)] = true
				}
				for u := range r.e.unmodelled {
					res.Unmod = append(res.Unmod, u)
				}
				for m := range r.e.problems {
					rep.bad("X01", "followed", r.name, r.e.probPos[m], &State{trace: r.e.problems[m]}, "the analysis could not follow the code: %s", m)
				}
			}
		}
	}
	res.Funcs = keysOf(fns)
}

func constOf(sp *ssa.Package, name string) *Term {
	if c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok {
		if n, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
			return Int(n)
		}
	}
	return nil
}

// newStruct makes an object of a struct type; fields that are not given are unknown.
func (s *State) newStruct(id string, t types.Type, f map[string]*Term, origin string) *Term {
	o := s.newObj(id, t)
	o.origin = origin
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		v := f[n]
		if v == nil {
			v = s.unknownOf(id+"."+n, st.Field(i).Type())
			f[n] = v
		}
		o.cells[fmt.Sprint(i)] = v
	}
	return Ptr(Obj_(id), "")
}

func (r *ProxyRun) run(T types.Type) {
	p := r.rep.P
	e := newEngine(p)
	r.e = e
	e.hooks = r
	e.env = &Env{}
	e.callHooks = map[string]func(e *Engine, s *State, c *call) []*State{}
	for _, pt := range poolTypes(p) {
		t := types.NewPointer(pt)
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj()
			if m.Exported() {
				m := m.Name()
				e.callHooks["(*"+pt.Obj().Pkg().Path()+"."+pt.Obj().Name()+")."+m] = func(e *Engine, s *State, c *call) []*State { return r.poolOp(e, s, c, m) }
			}
		}
	}
	if tn := p.typ("errors", "MemcachedError"); tn != nil {
		r.merr = types.TypeString(types.NewPointer(tn), nil)
	}
	s := newState(e)
	recv := s.newStruct("proxy", T, map[string]*Term{}, "recv")
	st := T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Map:
			s.wr("proxy").cells[fmt.Sprint(i)] = Sym("proxy."+st.Field(i).Name(), st.Field(i).Type(), &SymInfo{NonNil: true})
		}
	}
	r.mem = commonMem(s)
	if r.fn.Signature.Params().Len() != 1 {
		return
	}
	rt := r.fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
	rst, ok := rt.Underlying().(*types.Struct)
	if !ok {
		return
	}
	sp := p.pkgs["server"]
	opT := types.Type(types.Typ[types.Byte])
	f := map[string]*Term{}
	for i := 0; i < rst.NumFields(); i++ {
		ft := rst.Field(i).Type()
		n := rst.Field(i).Name()
		switch n {
		case "Opcode":
			opT = ft
		case "Key":
			f[n] = Sym("req.key", tString, nil)
		case "Value", "Flags":
			f[n] = s.newBytes("req."+n, Sym("req."+n+"!", tString, &SymInfo{MaxLen: maxValue}), "caller")
		case "Keys":
			f[n] = tNil
			if r.kind == "gets" {
				o := s.newObj("req.keys", nil)
				o.isList, o.origin = true, "caller"
				for k := 0; k < r.n; k++ {
					x := Sym(fmt.Sprintf("req.key%d", k), tString, nil)
					r.keys = append(r.keys, x)
					o.list = append(o.list, LSeg{Elem: x})
				}
				f[n] = mkSlice(Ptr(Obj_(o.id), ""), tZero, Int(int64(r.n)), Int(int64(r.n)))
			}
		case "SetOpt":
			if r.kind == "set" {
				r.set = map[string]*Term{}
				f[n] = s.newStruct("req.setopt", ft.Underlying().(*types.Pointer).Elem(), r.set, "caller")
			}
		}
	}
	get, set := constOf(sp, "OpcodeGet"), constOf(sp, "OpcodeSet")
	if get == nil || set == nil {
		r.rep.bad("X01", "followed", r.name, r.fn.Pos(), nil, "the opcodes are not found")
		return
	}
	switch r.kind {
	case "get", "gets":
		f["Opcode"] = get
	case "set":
		f["Opcode"] = set
	default:
		x := Sym("req.opcode", opT, nil)
		f["Opcode"] = x
		s.assume(EqInt(x, get), false)
		s.assume(EqInt(x, set), false)
	}
	r.req = f
	req := s.newStruct("req", rt, f, "caller")
	e.Run(s, r.fn, []*Term{recv, req}, nil)
	for _, o := range e.obligs {
		if o.bad > 0 {
			r.rep.bad("X01", "no-panic", r.name+" "+r.kind+" "+o.kind, o.pos, &State{trace: o.trace}, "%s: %s is not established", o.text, o.why)
		}
	}
}

// poolOp: an operation of the pool succeeds with any result or fails with any error.
func (r *ProxyRun) poolOp(e *Engine, s *State, c *call, op string) []*State {
	r.mem.uses(s, c.pos, r.rep, r.name, c.args...)
	pc := &poolCall{op: op, srv: c.args[0]}
	for i, a := range c.args[1:] {
		t := c.sig.Params().At(i).Type()
		switch t.Underlying().(type) {
		case *types.Pointer:
			pc.args = append(pc.args, itemVal(s, a))
		case *types.Slice:
			l, ok := s.elemsOf(a, t)
			var es []*Term
			for _, g := range l {
				ok = ok && g.Elem != nil
				es = append(es, g.Elem)
			}
			if !ok {
				pc.args = append(pc.args, App("unknownlist", a))
			} else {
				pc.args = append(pc.args, App("list", es...))
			}
		default:
			pc.args = append(pc.args, a)
		}
	}
	n := len(r.calls)
	var out []*State
	ways := []int{-1, 0}
	if op == "GetMulti" {
		ways = []int{-1, 0, 1, 2, 3}
		if r.n > 3 {
			ways = []int{-1, r.n}
		}
	}
	for i, w := range ways {
		st := s
		if i < len(ways)-1 {
			st = s.clone()
		}
		k := *pc
		k.failed = w < 0
		for j := 0; j < c.sig.Results().Len(); j++ {
			t := c.sig.Results().At(j).Type()
			v := tNil
			switch u := t.Underlying().(type) {
			case *types.Interface:
				if k.failed {
					v = Sym(fmt.Sprintf("err#%d", n), t, &SymInfo{NonNil: true})
				}
			case *types.Pointer:
				if !k.failed {
					v = r.item(st, fmt.Sprintf("got#%d", n), u.Elem(), false)
				}
			case *types.Slice:
				if !k.failed {
					o := st.newObj(fmt.Sprintf("items#%d.%d", n, w), nil)
					o.isList = true
					o.origin = "fresh"
					var l []*Term
					if pt, ok := u.Elem().Underlying().(*types.Pointer); ok {
						for q := 0; q < w; q++ {
							l = append(l, r.item(st, fmt.Sprintf("got#%d.%d.%d", n, w, q), pt.Elem(), q < w-3))
						}
					}
					wo := st.wr(o.id)
					for _, x := range l {
						wo.list = append(wo.list, LSeg{Elem: x})
					}
					v = mkSlice(Ptr(Obj_(o.id), ""), tZero, Int(int64(len(l))), Int(int64(len(l))))
					for _, x := range l {
						k.args = append(k.args, x)
					}
				}
			default:
				v = Sym(fmt.Sprintf("res#%d", n), t, nil)
			}
			k.results = append(k.results, v)
		}
		how := "fails"
		if w >= 0 {
			how = "succeeds"
			if op == "GetMulti" {
				how = fmt.Sprintf("returns %d items", w)
			}
		}
		st.note(c.pos, "%s of the pool %s", op, how)
		r.calls = append(r.calls, &k)
		var ids []*Term
		if t := st.ghost["m:ops"]; t != nil {
			ids = append(ids, t.Args...)
		}
		st.ghost["m:ops"] = App("ops", append(ids, Int(int64(len(r.calls)-1)))...)
		v := tUnit
		switch len(k.results) {
		case 0:
		case 1:
			v = k.results[0]
		default:
			v = Tuple(k.results...)
		}
		out = append(out, c.ret(st, v)...)
	}
	return out
}

func (r *ProxyRun) item(s *State, id string, t types.Type, given bool) *Term {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return Sym(id, types.NewPointer(t), &SymInfo{NonNil: true})
	}
	f := map[string]*Term{}
	for i := 0; i < st.NumFields(); i++ {
		n, ft := st.Field(i).Name(), st.Field(i).Type()
		switch {
		case given && isByteSlice(ft):
			f[n] = s.newBytes(id+"."+n, Lit((id + n)[len(id+n)-4:]), "pool")
		case given && isStringType(ft):
			f[n] = Lit(id)
		case given && isIntType(ft):
			f[n] = Int(int64(7 + i))
		case isByteSlice(ft):
			f[n] = s.newBytes(id+"."+n, Sym(id+"."+n+"!", tString, &SymInfo{MaxLen: maxValue}), "pool")
		case n == "Cas":
			f[n] = Sym(id+"."+n, ft, &SymInfo{HasLo: true, Bits: 64})
		default:
			f[n] = Sym(id+"."+n, ft, nil)
		}
	}
	p := s.newStruct(id, t, f, "pool")
	r.items[id] = f
	return p
}

func (r *ProxyRun) Panic(s *State, pos token.Pos, v *Term) {
	r.rep.bad("X01", "no-panic", r.name+" "+r.kind, pos, s, "explicit panic is reachable")
}
func (r *ProxyRun) Event(s *State, ev *Event) { r.mem.separate(s, ev, r.rep, r.name) }
func (r *ProxyRun) Unknown(e *Engine, s *State, c *call) ([]*State, bool) {
	if !strings.HasPrefix(c.name, "invoke:"+modPath) {
		return nil, false
	}
	return r.poolOp(e, s, c, c.name[strings.LastIndexByte(c.name, '.')+1:]), true
}

func (r *ProxyRun) fields(s *State, p *Term) map[string]*Term { return (&ClientRun{}).fieldsOf(s, p) }

func (r *ProxyRun) Return(s *State, res *Term) {
	nm := r.name + " " + r.kind
	r.rep.paths[nm]++
	r.mem.uses(s, r.fn.Pos(), r.rep, r.name, res)
	r.rep.ok("X05", "nothing-in-common", r.name)
	pos := r.fn.Pos()
	if res.Op != OTuple || len(res.Args) != 2 {
		return
	}
	resp, err := res.Args[0], res.Args[1]
	isErr := s.decide(isNilTerm(err))
	var calls []*poolCall
	if t := s.ghost["m:ops"]; t != nil {
		for _, a := range t.Args {
			calls = append(calls, r.calls[a.N])
		}
	}
	var list []map[string]*Term
	known := true
	if isErr != 0 {
		segs, ok := s.elemsOf(resp, r.fn.Signature.Results().At(0).Type())
		known = ok
		for _, g := range segs {
			var f map[string]*Term
			if g.Elem != nil {
				f = r.fields(s, g.Elem)
			}
			if f == nil {
				known = false
				break
			}
			list = append(list, f)
		}
	}
	if !known {
		r.rep.bad("X01", "followed", nm, pos, s, "the responses are not known")
		return
	}
	ck := func(rule string, ok bool, format string, a ...interface{}) {
		r.rep.check("X01", rule, nm, ok, pos, s, format, a...)
	}
	if r.kind == "other" {
		ck("others-are-refused", len(calls) == 0, "%d operations of the pool are called for a request that is neither a get nor a set", len(calls))
		refused := isErr == 0
		for _, f := range list {
			if f["Error"] != nil && s.decide(isNilTerm(f["Error"])) == 0 {
				refused = true
			}
		}
		ck("others-are-refused", refused, "a request that is neither a get nor a set is not refused")
		return
	}
	want := map[string]string{"get": "Get", "gets": "GetMulti", "set": "Set"}[r.kind]
	ck("asks-the-pool", len(calls) == 1 && calls[0].op == want, "%d operations of the pool are called, %s of it once is expected", len(calls), want)
	if len(calls) != 1 || calls[0].op != want {
		return
	}
	c := calls[0]
	switch r.kind {
	case "get":
		ck("own-operands", s.sameStr(c.args[0], r.req["Key"]), "the pool is asked for %s instead of the key of the request", c.args[0])
	case "gets":
		ck("own-operands", c.args[0] == App("list", r.keys...), "the pool is asked for %s instead of the keys of the request", c.args[0])
	case "set":
		it := c.args[0]
		if it.S != "item" {
			r.rep.bad("X01", "followed", nm, pos, s, "the item that is stored is not known")
			return
		}
		ck("own-operands", s.sameStr(it.Args[0], r.req["Key"]), "the key stored is %s", it.Args[0])
		ck("own-operands", s.sameStr(it.Args[1], s.bytesOf(r.req["Value"])), "the value stored is %s", it.Args[1])
		ck("own-operands", s.sameInt(it.Args[3], r.set["Expiration"]), "the expiration is %s", it.Args[3])
		ck("own-operands", s.sameInt(it.Args[4], r.set["CasValue"]), "the CAS value is %s", it.Args[4])
		d := s.decide(r.set["Meta"])
		if d != 1 {
			ck("own-operands", s.sameStr(it.Args[2], s.bytesOf(r.req["Flags"])), "the flags stored for a text or binary set are %s", it.Args[2])
		}
		if d != 0 {
			fl := s.wrap(r.set["Flag"], uint32T)
			ck("own-operands", s.sameStr(it.Args[2], BE(4, fl)), "the flags stored for a meta set are %s, not the four bytes of %s", it.Args[2], fl)
		}
	}
	if c.failed {
		errv := c.results[len(c.results)-1]
		memc := s.decide(AppT("is:"+r.merr, tBoolT, errv))
		isResp := isErr == 1 && len(list) == 1 && (list[0]["Error"] == errv || list[0]["Error"].Op == OIface && list[0]["Error"].Args[0].Op == OApp && list[0]["Error"].Args[0].Args[0] == errv)
		switch memc {
		case 1:
			ck("memcached-errors-are-responses", isResp, "a memcached error is not answered as an error response")
		case 0:
			ck("failures-are-failures", isErr == 0, "a failure of the pool is not returned as a failure")
		default:
			ck("failures-are-failures", false, "memcached errors and other failures are not told apart")
		}
		return
	}
	if isErr != 1 {
		ck("success-is-success", false, "an error is returned although the pool succeeded")
		return
	}
	n := 1
	if r.kind == "gets" {
		n = len(c.args) - 1
	}
	ck("one-response-each", len(list) == n, "%d responses are given, %d are expected", len(list), n)
	if len(list) != n {
		return
	}
	for i, f := range list {
		ck("success-is-success", f["Error"] == nil || f["Error"].Op == ONil, "the response carries an error although the pool succeeded")
		if r.kind == "set" {
			continue
		}
		ip := c.results[0]
		if r.kind == "gets" {
			ip = c.args[1+i]
		}
		it := r.items[ip.Args[0].S]
		same := func(a, b *Term) bool {
			return a != nil && b != nil && (a == b || s.sameStr(bytesVal(s, a), bytesVal(s, b)))
		}
		ck("answers-with-the-item", same(f["Value"], it["Value"]), "the value of the response is %s", f["Value"])
		ck("answers-with-the-item", same(f["Flags"], it["Flags"]), "the flags of the response are %s", f["Flags"])
		k := f["Key"]
		ck("answers-with-the-item", k != nil && (s.sameStr(k, it["Key"]) || r.kind == "get" && s.sameStr(k, r.req["Key"])), "the key of the response is %s", k)
		cas := f["Cas"]
		ck("answers-with-the-item", cas != nil && (cas == it["Cas"] || s.sameInt(cas, s.wrap(it["Cas"], types.Typ[types.Int64]))), "the CAS value of the response is %s", cas)
		ttl, exp := f["TTL"], it["Expiration"]
		okT := ttl != nil && exp != nil
		if okT {
			for _, never := range []bool{true, false} {
				n := s.clone()
				n.assume(EqInt(exp, tZero), never)
				if n.dead || n.infeasible() {
					continue
				}
				if never {
					okT = okT && n.sameInt(ttl, Int(-1))
				} else {
					okT = okT && n.sameInt(ttl, exp)
				}
			}
		}
		ck("answers-with-the-item", okT, "the time to live of the response is %s", ttl)
	}
}
