package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The router: main is followed for configurations of any content with a few servers of either role, with the
// connections, the pool, the proxy and the server left uninterpreted; what they are given is compared with the
// configuration. ListenAndServe of the server is followed on its own.

type RouterRun struct {
	rep    *Report
	e      *Engine
	fn     *ssa.Function
	name   string
	mode   string // main, listen
	np, ns int
	conf   map[string]map[string]*Term // "primary0" -> name, host, port
	conns  map[string][3]*Term         // by id of the connection
	served int
}

func unitRouter(p *Program, rep *Report, res *unitResult) {
	fns := map[string]bool{}
	run := func(r *RouterRun, start func(s *State) []*Term) {
		r.rep = rep
		e := newEngine(p)
		r.e = e
		e.hooks = r
		e.env = &Env{}
		e.callHooks = map[string]func(e *Engine, s *State, c *call) []*State{}
		r.hooks(p)
		s := newState(e)
		e.Run(s, r.fn, start(s), nil)
		res.Steps += e.steps
		res.Joins += e.joins
		for f := range e.fns {
			fns[short(f)] = true
		}
		for u := range e.unmodelled {
			res.Unmod = append(res.Unmod, u)
		}
		for m := range e.problems {
			rep.bad("X04", "followed", r.name, e.probPos[m], &State{trace: e.problems[m]}, "the analysis could not follow the code: %s", m)
		}
	}
	for _, sp := range p.pkgs {
		if sp == nil || sp.Pkg.Name() != "main" || !usesPkg(sp.Pkg, modPath+"/cluster") || sp.Func("main") == nil {
			continue
		}
		ns := [][2]int{{0, 0}, {1, 1}, {2, 1}, {1, 2}, {3, 3}}
		for _, c := range sizeConstants(p, sp.Func("main"), 2, 40, nil) {
			ns = append(ns, [2]int{int(c) + 1, int(c) + 1})
		}
		for _, n := range ns {
			r := &RouterRun{fn: sp.Func("main"), mode: "main", name: short(sp.Func("main").RelString(nil)), np: n[0], ns: n[1], conf: map[string]map[string]*Term{}, conns: map[string][3]*Term{}}
			run(r, func(s *State) []*Term { return nil })
			if r.served == 0 {
				rep.bad("X04", "followed", r.name, r.fn.Pos(), nil, "no path of main serves anything")
			}
		}
	}
	if tn := p.typ("server", "Server"); tn != nil {
		if fn := p.methodByName(types.NewPointer(tn), "ListenAndServe"); fn != nil {
			r := &RouterRun{fn: fn, mode: "listen", name: short(fn.RelString(nil))}
			run(r, func(s *State) []*Term {
				f := map[string]*Term{}
				return []*Term{s.newStruct("server", tn, f, "recv")}
			})
		}
	}
	res.Funcs = keysOf(fns)
}

func usesPkg(p *types.Package, path string) bool {
	for _, i := range p.Imports() {
		if i.Path() == path {
			return true
		}
	}
	return false
}

// fails forks a call into one that fails, with an error, and one that succeeds with the value given.
func (r *RouterRun) fails(s *State, c *call, what string, good func(s *State) *Term) []*State {
	bad := s.clone()
	bad.note(c.pos, "%s fails", what)
	if what != "connecting" { // a connection that failed is missing in the pool
		bad.ghost["e:failed"] = Lit(what)
	}
	er := Sym(bad.newName("err"), errType, &SymInfo{NonNil: true})
	n := c.sig.Results().Len()
	v := er
	if n > 1 {
		l := make([]*Term, n)
		for i := 0; i < n-1; i++ {
			l[i] = zeroValue(c.sig.Results().At(i).Type())
		}
		l[n-1] = er
		v = Tuple(l...)
	}
	out := c.ret(bad, v)
	s.note(c.pos, "%s succeeds", what)
	return append(out, c.ret(s, good(s))...)
}

func (r *RouterRun) hooks(p *Program) {
	h := r.e.callHooks
	unit := func(e *Engine, s *State, c *call) []*State {
		if c.sig.Results().Len() == 0 {
			return c.ret(s, tUnit)
		}
		var l []*Term
		for i := 0; i < c.sig.Results().Len(); i++ {
			l = append(l, s.unknownOf(s.newName("flag"), c.sig.Results().At(i).Type()))
		}
		if len(l) == 1 {
			return c.ret(s, l[0])
		}
		return c.ret(s, Tuple(l...))
	}
	end := func(e *Engine, s *State, c *call) []*State { return nil } // the process ends
	stored := func(e *Engine, s *State, c *call) []*State {
		if o, path, ok := s.objOf(c.args[0]); ok && o.T != nil {
			s.wr(o.id).cells[path] = Sym(s.newName("flag"), tString, nil)
		}
		return c.ret(s, tUnit)
	}
	for _, n := range []string{"Parse", "Usage", "PrintDefaults", "Args", "NArg", "Arg", "Parsed"} {
		h["flag."+n] = unit
	}
	h["flag.StringVar"] = stored
	h["flag.String"] = func(e *Engine, s *State, c *call) []*State {
		o := s.newObj(s.newName("flag"), tString)
		o.cells[""] = Sym(s.newName("flag"), tString, nil)
		return c.ret(s, Ptr(Obj_(o.id), ""))
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "os.Exit"} {
		h[n] = end
	}
	for _, n := range []string{"log.Print", "log.Printf", "log.Println", "log.SetFlags", "log.SetPrefix"} {
		h[n] = unit
	}
	read := func(e *Engine, s *State, c *call) []*State {
		return r.fails(s, c, "reading the configuration", func(s *State) *Term {
			return Tuple(s.newBytes(s.newName("file"), Sym(s.newName("file!"), tString, &SymInfo{MaxLen: 1 << 30}), "file"), tNil)
		})
	}
	h["os.ReadFile"], h["io/ioutil.ReadFile"] = read, read
	h["gopkg.in/yaml.v3.Unmarshal"] = func(e *Engine, s *State, c *call) []*State {
		return r.fails(s, c, "parsing the configuration", func(s *State) *Term {
			r.fill(s, c)
			return tNil
		})
	}
	h["net.JoinHostPort"] = func(e *Engine, s *State, c *call) []*State { return c.ret(s, cat(c.args[0], ":", c.args[1])) }
	if cl := p.pkgs["client"]; cl != nil {
		for _, m := range cl.Members {
			f, ok := m.(*ssa.Function)
			if !ok || !strings.HasPrefix(f.Name(), "NewServerWith") || len(f.Params) < 4 || f.Signature.Results().Len() != 2 {
				continue
			}
			h[f.RelString(nil)] = func(e *Engine, s *State, c *call) []*State {
				return r.fails(s, c, "connecting", func(s *State) *Term {
					v := Sym(s.newName("conn"), c.sig.Results().At(0).Type(), &SymInfo{NonNil: true})
					r.conns[v.S] = [3]*Term{c.args[1], c.args[2], c.args[3]}
					s.ghost["n:conns"] = AddC(r.count(s, "n:conns"), 1)
					return Tuple(v, tNil)
				})
			}
		}
	}
	if cp := p.pkgs["cluster"]; cp != nil {
		if f := cp.Func("NewReplicaPool"); f != nil {
			h[f.RelString(nil)] = func(e *Engine, s *State, c *call) []*State {
				for i, role := range []string{"primary", "secondary"} {
					if i < len(c.args) {
						r.checkRole(s, c, role, c.args[i])
					}
				}
				s.ghost["n:pools"] = AddC(r.count(s, "n:pools"), 1)
				return c.ret(s, Sym(s.newName("pool"), c.sig.Results().At(0).Type(), &SymInfo{NonNil: true}))
			}
		}
	}
	if pp := p.pkgs["proxy"]; pp != nil {
		if f := pp.Func("NewReplicaProxy"); f != nil {
			h[f.RelString(nil)] = func(e *Engine, s *State, c *call) []*State {
				if len(c.args) == 1 && c.args[0].Op == OSym && strings.HasPrefix(c.args[0].S, "pool") {
					s.ghost["m:proxy"] = tTrue
				}
				return c.ret(s, Sym(s.newName("proxy"), c.sig.Results().At(0).Type(), &SymInfo{NonNil: true}))
			}
		}
	}
	serve := func(e *Engine, s *State, c *call) []*State {
		return r.serve(s, c)
	}
	pre := "(*" + modPath + "/server.Server)."
	h[pre+"Serve"] = serve
	if r.mode == "main" {
		h[pre+"ListenAndServe"] = serve
	}
	h["net.Listen"] = func(e *Engine, s *State, c *call) []*State {
		if r.mode == "listen" {
			f := (&ClientRun{}).fieldsOf(s, Ptr(Obj_("server"), ""))
			if a := f["Addr"]; a != nil {
				if c.args[0] == Lit("tcp") && s.sameStr(c.args[1], a) {
					r.rep.ok("X04", "listens-where-configured", r.name)
				} else {
					r.rep.bad("X04", "listens-where-configured", r.name, c.pos, s, "listens on %s %s, not on tcp at the address configured", c.args[0], c.args[1])
				}
			}
		}
		return r.fails(s, c, "listening", func(s *State) *Term {
			return Tuple(Sym(s.newName("listener"), c.sig.Results().At(0).Type(), &SymInfo{NonNil: true}), tNil)
		})
	}
}

func (r *RouterRun) count(s *State, g string) *Term {
	if t := s.ghost[g]; t != nil {
		return t
	}
	return tZero
}

func (r *RouterRun) bad(rule string, pos token.Pos, s *State, format string, a ...interface{}) {
	r.rep.bad("X04", rule, r.name, pos, s, format, a...)
}

// fill gives the configuration any content with the numbers of servers looked at.
func (r *RouterRun) fill(s *State, c *call) {
	p := c.args[1]
	for p.Op == OIface {
		p = p.Args[0]
	}
	o, path, ok := s.objOf(p)
	var t types.Type
	if ok && o != nil && o.T != nil {
		t = typeAt(o.T, path)
	}
	if t == nil {
		r.bad("followed", c.pos, s, "the type of the configuration is not known")
		return
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		r.bad("followed", c.pos, s, "the configuration is no struct")
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		role := yamlName(st, i)
		n := map[string]int{"primary": r.np, "secondary": r.ns}[role]
		sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
		if !ok || role != "primary" && role != "secondary" {
			s.wr(o.id).cells[joinPath(path, fmt.Sprint(i))] = s.unknownOf("conf."+role, st.Field(i).Type())
			continue
		}
		el := sl.Elem()
		pt, isPtr := el.Underlying().(*types.Pointer)
		if isPtr {
			el = pt.Elem()
		}
		es, ok := el.Underlying().(*types.Struct)
		if !ok {
			r.bad("followed", c.pos, s, "the servers of the configuration are no structs")
			return
		}
		lo := s.newObj("conf."+role, types.NewArray(sl.Elem(), int64(n)))
		lo.origin = "fresh"
		for k := 0; k < n; k++ {
			id := fmt.Sprintf("%s%d", role, k)
			f := map[string]*Term{}
			var fs []*Term
			for j := 0; j < es.NumFields(); j++ {
				v := s.unknownOf(id+"."+yamlName(es, j), es.Field(j).Type())
				f[yamlName(es, j)] = v
				fs = append(fs, v)
			}
			r.conf[id] = f
			at := s.wr(lo.id)
			if isPtr {
				eo := s.newObj("conf."+id, el)
				at.cells[fmt.Sprint(k)] = Ptr(Obj_(eo.id), "")
				at = s.wr(eo.id)
			}
			for j := range fs {
				if isPtr {
					at.cells[fmt.Sprint(j)] = fs[j]
				} else {
					at.cells[joinPath(fmt.Sprint(k), fmt.Sprint(j))] = fs[j]
				}
			}
		}
		ln := Int(int64(n))
		s.wr(o.id).cells[joinPath(path, fmt.Sprint(i))] = mkSlice(Ptr(Obj_(lo.id), ""), tZero, ln, ln)
	}
}

func yamlName(st *types.Struct, i int) string {
	n := reflect.StructTag(st.Tag(i)).Get("yaml")
	if k := strings.IndexByte(n, ','); k >= 0 {
		n = n[:k]
	}
	if n == "" {
		n = strings.ToLower(st.Field(i).Name())
	}
	return n
}

// checkRole: the servers of a role are the connections to the servers configured for it.
func (r *RouterRun) checkRole(s *State, c *call, role string, v *Term) {
	n := map[string]int{"primary": r.np, "secondary": r.ns}[role]
	nm := r.name + " " + role
	var l []LSeg
	ok := true
	if s.decide(isNilTerm(v)) != 1 {
		l, ok = s.elemsOf(v, c.sig.Params().At(0).Type())
	}
	used := map[string]bool{}
	for _, g := range l {
		ok = ok && g.Elem != nil
	}
	if !ok {
		r.rep.bad("X04", "followed", nm, c.pos, s, "the list of %s servers is not known", role)
		return
	}
	for i, g := range l {
		cn, ok := r.conns[g.Elem.S]
		if !ok || g.Elem.Op != OSym {
			r.rep.bad("X04", "own-servers", nm, c.pos, s, "server %d given as %s is %s, no connection that was made", i, role, g.Elem)
			return
		}
		id := ""
		for k := 0; k < n; k++ {
			x := fmt.Sprintf("%s%d", role, k)
			if f := r.conf[x]; f != nil && !used[x] && s.sameStr(cn[0], f["name"]) {
				id = x
				break
			}
		}
		if id == "" {
			r.rep.bad("X04", "own-servers", nm, c.pos, s, "server %d given as %s has the name %s, not that of a server configured as %s", i, role, cn[0], role)
			return
		}
		used[id] = true
		f := r.conf[id]
		want := cat(f["host"], ":", Dec(f["port"]))
		if !s.sameStr(cn[1], Lit("tcp")) || !s.sameStr(cn[2], want) {
			r.rep.bad("X04", "own-address", nm, c.pos, s, "server %s is connected at %s %s, not at tcp %s", f["name"], cn[1], cn[2], want)
			return
		}
		r.rep.ok("X04", "own-address", nm)
	}
	if len(used) != n {
		r.rep.bad("X04", "own-servers", nm, c.pos, s, "%d of the %d servers configured as %s are given to the pool", len(used), n, role)
		return
	}
	r.rep.ok("X04", "own-servers", nm)
}

func (r *RouterRun) serve(s *State, c *call) []*State {
	if r.mode == "listen" {
		s.ghost["m:served"] = tTrue
		if a := c.args[1]; a.Op == OSym && strings.HasPrefix(a.S, "listener") {
			r.rep.ok("X04", "serves-the-listener", r.name)
		} else {
			r.bad("serves-the-listener", c.pos, s, "serves %s, not the listener", a)
		}
		return c.ret(s, Sym(s.newName("serveerr"), errType, &SymInfo{NonNil: true}))
	}
	r.served++
	if f := s.ghost["e:failed"]; f != nil {
		r.bad("starts-only-if-all-is-well", c.pos, s, "serves although %s has failed", strings.Trim(f.S, `"`))
	} else {
		r.rep.ok("X04", "starts-only-if-all-is-well", r.name)
	}
	if n := r.count(s, "n:pools"); n != Int(1) {
		r.bad("serves-the-pool", c.pos, s, "%s pools have been made", n)
		return nil
	}
	if n := r.count(s, "n:conns"); n != Int(int64(r.np+r.ns)) {
		r.bad("one-connection-each", c.pos, s, "%s connections have been made to %d configured servers", n, r.np+r.ns)
	} else {
		r.rep.ok("X04", "one-connection-each", r.name)
	}
	f := (&ClientRun{}).fieldsOf(s, c.args[0])
	h := f["Handler"]
	for h != nil && h.Op == OIface {
		h = h.Args[0]
	}
	if h != nil && h.Op == OSym && strings.HasPrefix(h.S, "proxy") && s.ghost["m:proxy"] != nil {
		r.rep.ok("X04", "serves-the-pool", r.name)
	} else if f == nil {
		r.bad("followed", c.pos, s, "the server is not known")
	} else {
		r.bad("serves-the-pool", c.pos, s, "requests are handled by %s, not by the proxy of the pool", h)
	}
	return c.ret(s, Sym(s.newName("serveerr"), errType, &SymInfo{NonNil: true}))
}

func (r *RouterRun) Panic(s *State, pos token.Pos, v *Term) {}

func (r *RouterRun) Event(s *State, ev *Event) {
	if ev.Kind == "go" {
		s.vague(ev.Pos, "what a goroutine does is not followed")
	}
}

func (r *RouterRun) Return(s *State, res *Term) {
	r.rep.paths[r.name]++
	if r.mode != "listen" || res == nil {
		return
	}
	failed := s.ghost["e:failed"] != nil
	nilErr := s.decide(isNilTerm(res))
	if failed && nilErr != 0 {
		r.bad("failure-is-returned", r.fn.Pos(), s, "returns %s although listening has failed", res)
	} else if failed && s.ghost["m:served"] != nil {
		r.bad("failure-is-returned", r.fn.Pos(), s, "serves although listening has failed")
	} else if !failed && s.ghost["m:served"] == nil {
		r.bad("serves-the-listener", r.fn.Pos(), s, "returns without serving the listener")
	} else {
		r.rep.ok("X04", "failure-is-returned", r.name)
	}
}
