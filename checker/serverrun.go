package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The server: Serve is analysed with a listener that accepts any number of connections; then the goroutine it
// starts for a connection, with a handler of which nothing is known but its type. In mode T the input is a
// sequence of requests, each drawn from the forms of the protocol (valid and not); the request handed to the
// handler and the reply to each of its answers are compared with what the protocol demands. In mode U the
// input is any bytes and the handler answers with any number of responses of any content.

type ServerRun struct {
	rep    *Report
	e      *Engine
	proto  string // text, meta, binary, any
	mode   string
	name   string
	fn     *ssa.Function
	many   []int // numbers of responses to look at besides up to two
	T      *types.Named
	forms  map[string]*srvForm
	order  []*srvForm
	ops    map[string]*Term // opcode constants of the server by their protocol name
	respT  types.Type
	goes   map[ssa.Instruction]*goRun
	merr   types.Type
	vocab  map[string]bool
	res    *unitResult
	shared map[string]bool
	done   map[string]bool
}

type goRun struct {
	st   *State
	fn   *Term
	args []*Term
	pos  token.Pos
}

const srvConn = "accepted"

func (r *ServerRun) bad(prop, rule string, pos token.Pos, s *State, format string, a ...interface{}) {
	r.rep.bad(prop, rule, r.construct(s), pos, s, format, a...)
}
func (r *ServerRun) ok(prop, rule string, s *State) { r.rep.ok(prop, rule, r.construct(s)) }
func (r *ServerRun) check(prop, rule string, ok bool, pos token.Pos, s *State, format string, a ...interface{}) {
	if ok {
		r.ok(prop, rule, s)
	} else {
		r.bad(prop, rule, pos, s, format, a...)
	}
}

// construct names the request that is being served.
func (r *ServerRun) construct(s *State) string {
	if s != nil {
		if f := gstr(s, "e:form"); f != "" {
			return r.name + " " + f
		}
	}
	return r.name
}

func serverType(p *Program) *types.Named {
	sp := p.pkgs["server"]
	if sp == nil {
		return nil
	}
	for _, n := range sp.Pkg.Scope().Names() {
		tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		t, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if fn := p.methodByName(types.NewPointer(t), "Serve"); fn != nil && fn.Signature.Params().Len() == 1 {
			if types.TypeString(fn.Signature.Params().At(0).Type(), nil) == "net.Listener" {
				return t
			}
		}
	}
	return nil
}

func unitServer(p *Program, rep *Report, res *unitResult, proto, mode string) {
	t := serverType(p)
	if t == nil {
		rep.bad("S07", "followed", "server", token.NoPos, nil, "no server type with a method Serve(net.Listener) is found")
		return
	}
	r := &ServerRun{rep: rep, proto: proto, mode: mode, T: t, res: res, name: "server." + t.Obj().Name() + " " + proto, fn: p.methodByName(types.NewPointer(t), "Serve")}
	r.run()
	res.Steps += r.e.steps
	res.Joins += r.e.joins
	for f := range r.e.fns {
		res.Funcs = append(res.Funcs, short(f))
	}
	for u := range r.e.unmodelled {
		res.Unmod = append(res.Unmod, u)
	}
	for v := range r.vocab {
		f := strings.SplitN(v, " ", 3)
		res.Vocab = append(res.Vocab, vocabRec{Side: "server", Proto: f[0], Op: f[1], Verb: f[2]})
	}
}

func (r *ServerRun) run() {
	p := r.rep.P
	r.e = newEngine(p)
	r.e.hooks = r
	r.e.env = &Env{io: r, dropOut: r.mode != "T"}
	r.goes = map[ssa.Instruction]*goRun{}
	r.vocab = map[string]bool{}
	r.shared = map[string]bool{}
	r.done = map[string]bool{}
	if tn := p.typ("errors", "MemcachedError"); tn != nil {
		r.merr = types.NewPointer(tn)
	}
	r.e.callHooks = map[string]func(e *Engine, s *State, c *call) []*State{
		"invoke:net.Listener.Accept": r.accept,
		"invoke:net.Listener.Close": func(e *Engine, s *State, c *call) []*State {
			s.ghost["m:lclosed"] = tTrue
			return c.ret(s, Sym(s.newName("lcloseerr"), errType, &SymInfo{Origin: "ioerr"}))
		},
	}
	r.makeOps()
	r.makeForms()
	s := newState(r.e)
	st := r.T.Underlying().(*types.Struct)
	f := map[string]*Term{}
	for i := 0; i < st.NumFields(); i++ {
		if it, ok := st.Field(i).Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
			f[st.Field(i).Name()] = Sym("srv."+st.Field(i).Name(), st.Field(i).Type(), &SymInfo{NonNil: true})
		}
	}
	recv := s.newStruct("srv", r.T, f, "recv")
	l := Sym("listener", r.fn.Signature.Params().At(0).Type(), &SymInfo{NonNil: true})
	r.e.Run(s, r.fn, []*Term{recv, l}, nil)
	if len(r.goes) == 0 {
		r.rep.bad("S07", "own-goroutine", r.name, r.fn.Pos(), nil, "no goroutine is started for a connection")
	}
	r.many = []int{3}
	for _, g := range r.goes {
		if r.proto == "text" && r.mode == "T" && g.fn.Op == OFn {
			// more responses are looked at where the code tells their number apart
			for _, c := range sizeConstants(p, g.fn.F, 3, 300, nil, func(t types.Type) bool {
				_, ok := t.Underlying().(*types.Pointer)
				return ok
			}) {
				r.many = append(r.many, int(c)+1)
			}
		}
		if g.fn.Op != OFn {
			r.rep.bad("S07", "followed", r.name, g.pos, g.st, "the function of the goroutine is not known")
			continue
		}
		n := g.st
		n.frames = nil
		n.ghost["m:in"] = tTrue
		n.ghost["m:first"] = tTrue
		n.heapIDs(func(id string) { r.shared[id] = r.shared[id] })
		r.e.Run(n, g.fn.F, g.args, g.fn.Args)
	}
	r.finish()
}

func (s *State) heapIDs(f func(id string)) {
	for id := range s.heap {
		f(id)
	}
}

func (r *ServerRun) finish() {
	for _, o := range r.e.obligs {
		if o.bad > 0 {
			r.rep.bad("S01", "no-panic", r.name+" "+short(o.fn)+" "+o.kind, o.pos, &State{trace: o.trace}, "%s: %s is not established", o.text, o.why)
		} else {
			r.rep.ok("S01", "no-panic", r.name+" "+short(o.fn)+" "+o.kind)
		}
	}
	for m := range r.e.problems {
		pr := "S03"
		if r.mode != "T" {
			pr = "S01"
		}
		r.rep.bad(pr, "followed", r.name, r.e.probPos[m], &State{trace: r.e.problems[m]}, "the analysis could not follow the code: %s", m)
	}
}

// ---- accepting ----

func (r *ServerRun) accept(e *Engine, s *State, c *call) []*State {
	if s.ghost["m:accepted"] != nil && s.ghost["closed:"+srvConn] == nil {
		r.bad("S07", "own-goroutine", c.pos, s, "the next connection is awaited before the last one has been handed to a goroutine or closed")
	}
	if s.ghost["m:lclosed"] != nil {
		r.bad("S07", "listener-closed-at-end", c.pos, s, "waits for a connection on a listener that has been closed")
	}
	bad := s.clone()
	delete(s.ghost, "closed:"+srvConn)
	s.ghost["m:accepted"] = tTrue
	s.note(c.pos, "a connection is accepted")
	out := c.ret(s, Tuple(connSym(srvConn), tNil))
	bad.note(c.pos, "accepting fails")
	bad.ghost["m:aerr"] = tTrue
	return append(out, c.ret(bad, Tuple(tNil, bad.ioErr("accept")))...)
}

// started: a goroutine is started while connections are accepted.
func (r *ServerRun) started(s *State, ev *Event) {
	has := connOf(s, ev.A) == srvConn
	for _, a := range ev.Args {
		has = has || connOf(s, a) == srvConn
	}
	if !has {
		return
	}
	if s.ghost["m:accepted"] == nil {
		r.bad("S07", "own-goroutine", ev.Pos, s, "a connection is handed to more than one goroutine")
	} else {
		r.ok("S07", "own-goroutine", s)
	}
	delete(s.ghost, "m:accepted")
	r.captured(s, ev)
	// objects of the accept loop that more than one goroutine gets
	t := s.clone()
	t.frames, t.ghost, t.tmp = nil, map[string]*Term{"x": App("x", append([]*Term{ev.A}, ev.Args...)...)}, nil
	t.reach(func(id string) {
		o := s.obj(id)
		if o == nil || o.origin == "recv" || o.origin == "global" || s.eng.base[id] != nil {
			return
		}
		if o.ghost["go"] != nil {
			r.shared[id] = true
		}
		w := s.wr(id)
		g := map[string]*Term{"go": tTrue}
		for k, v := range w.ghost {
			g[k] = v
		}
		w.ghost = g
	})
	if r.goes[ev.In] == nil {
		n := s.clone()
		r.goes[ev.In] = &goRun{st: n, fn: ev.A, args: ev.Args, pos: ev.Pos}
	}
}

// captured: no variable the goroutine uses is written to again by the loop that started it.
func (r *ServerRun) captured(s *State, ev *Event) {
	g, ok := ev.In.(*ssa.Go)
	if !ok {
		return
	}
	var vals []ssa.Value
	vals = append(vals, g.Call.Args...)
	if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
		vals = append(vals, mc.Bindings...)
	}
	for _, v := range vals {
		a, ok := v.(*ssa.Alloc)
		if !ok {
			continue
		}
		if st := writeAfter(g, a); st != nil {
			r.bad("S07", "own-state", st.Pos(), s, "the variable %s, which the goroutine of a connection uses, is written to after the goroutine has been started", a.Comment)
		} else {
			r.ok("S07", "own-state", s)
		}
	}
}

// writeAfter finds a store to a variable that can be reached from an instruction without passing the place
// where the variable is created.
func writeAfter(from ssa.Instruction, a *ssa.Alloc) ssa.Instruction {
	writes := map[ssa.Instruction]bool{}
	var uses func(v ssa.Value)
	uses = func(v ssa.Value) {
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Store:
				if x.Addr == v {
					writes[x] = true
				}
			case *ssa.FieldAddr:
				uses(x)
			case *ssa.IndexAddr:
				if x.X == v {
					uses(x)
				}
			}
		}
	}
	uses(a)
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) ssa.Instruction
	walk = func(b *ssa.BasicBlock, i int) ssa.Instruction {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if in == ssa.Instruction(a) {
				return nil
			}
			if writes[in] {
				return in
			}
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				if w := walk(n, 0); w != nil {
					return w
				}
			}
		}
		return nil
	}
	return walk(from.Block(), instrIndex(from)+1)
}

// ---- input ----

func (r *ServerRun) Arbitrary() bool { return r.mode == "U" }

func (r *ServerRun) Pull(e *Engine, s *State, conn string) []*State {
	if conn != srvConn {
		return nil
	}
	if s.ghost["m:handled"] != nil {
		return nil // reported when the read began; or, in mode R, the answer is complete
	}
	if r.mode == "R" && (s.ghost["e:form"] != nil && r.forms[gstr(s, "e:form")].bad == "") {
		return nil
	}
	if f := r.forms[gstr(s, "e:form")]; f != nil {
		if f.bad == "" {
			r.bad("S02", "one-request-at-a-time", token.NoPos, s, "waits for bytes beyond the end of the request %s before it is handed to the handler", s.ghost["e:tok"])
			return nil
		}
		if s.ghost["m:tail"] != nil {
			return nil
		}
		// whatever the client sends next
		s.ghost["m:tail"] = tTrue
		tail := Sym(s.newName("tail"), tString, &SymInfo{MinLen: 1 << 40, MaxLen: 1 << 40})
		s.ghost["in:"+conn] = Cat(s.connIn(conn), tail)
		return one(s)
	}
	var out []*State
	first := s.ghost["m:first"] != nil
	if r.mode == "T" && !first {
		j := e.joinHere(s, "request")
		if j == nil {
			s.dead = true
			return one(s)
		}
		s = j
	}
	for _, f := range r.order {
		if f.later && first || r.mode == "R" && f.bad != "" {
			continue
		}
		n := s.clone()
		tok := f.mk(r, n)
		if n.dead {
			continue
		}
		n.ghost["e:form"] = Lit(f.id)
		n.ghost["e:tok"] = tok
		n.ghost["in:"+conn] = Cat(n.connIn(conn), tok)
		inLoops(n)
		n.note(token.NoPos, "the client sends %s", tok)
		out = append(out, n)
	}
	return out
}

// ---- events ----

func (r *ServerRun) Panic(s *State, pos token.Pos, v *Term) {
	r.bad("S01", "no-panic", pos, s, "explicit panic is reachable: %s", v)
}

func (r *ServerRun) Event(s *State, ev *Event) {
	in := s.ghost["m:in"] != nil
	switch ev.Kind {
	case "go":
		if !in {
			r.started(s, ev)
		}
	case "connread", "bufread":
		if !in {
			if ev.Kind == "connread" && isConn(ev.A) {
				r.bad("S07", "no-io-while-accepting", ev.Pos, s, "reads from a connection before its goroutine is started")
			}
			return
		}
		r.own(s, ev)
		if ev.Kind == "connread" && s.ghost["m:rfail"] != nil {
			r.bad("S07", "serving-ends", ev.Pos, s, "reads from the connection again after reading has failed")
			s.dead = true
			return
		}
		if ev.Kind == "connread" && ev.S == "fail" {
			s.ghost["m:rfail"] = tTrue
		}
		r.boundary(s, ev.Pos)
	case "connwrite", "bufwrite", "flush":
		if !in {
			if ev.Kind == "connwrite" && isConn(ev.A) {
				r.bad("S07", "no-io-while-accepting", ev.Pos, s, "writes to a connection before its goroutine is started")
			}
			return
		}
		r.own(s, ev)
		if ev.Kind == "connwrite" && ev.S == "fail" {
			s.ghost["m:wfail"] = tTrue
		}
		if ev.Kind == "connwrite" && ev.S != "fail" && s.ghost["e:form"] == nil && s.ghost["m:settled"] != nil && ev.B != tEmpty && r.mode == "T" {
			r.bad("S04", "one-reply", ev.Pos, s, "writes %s after the reply to the last request was complete", ev.B)
		}
	case "store", "mapupdate", "mapdelete":
		if in {
			r.own(s, ev)
		}
	case "misread":
		if f := r.forms[gstr(s, "e:form")]; f != nil && r.mode == "T" {
			if f.bad == "" {
				r.bad("S02", "one-request-at-a-time", ev.Pos, s, "looks for the end of a line in the data block of %s", s.ghost["e:tok"])
			} else {
				r.bad("S02", "bad-requests-refused", ev.Pos, s, "goes on reading requests after %s (%s) without having refused it", s.ghost["e:tok"], f.bad)
			}
		}
	}
}

// own: the goroutine of a connection writes to nothing that others can see without holding a lock.
func (r *ServerRun) own(s *State, ev *Event) {
	if len(heldLocks(s)) > 0 {
		return
	}
	var o *Obj
	switch ev.Kind {
	case "store", "mapupdate", "mapdelete":
		if ev.A == nil {
			return
		}
		o, _, _ = s.objOf(ev.A)
	default:
		o = ev.Obj
	}
	if o == nil {
		return
	}
	if o.origin == "recv" || o.origin == "global" || r.shared[o.id] || s.eng.base[o.id] != nil {
		r.bad("S07", "own-state", ev.Pos, s, "serving a connection changes %s, which all connections share, without holding a lock", o.id)
	} else if ev.Kind != "store" {
		r.ok("S07", "own-state", s)
	}
}

// boundary: something is read. If a request has been answered this is the next one.
func (r *ServerRun) boundary(s *State, pos token.Pos) {
	if r.mode != "T" {
		return
	}
	if s.ghost["m:wfail"] != nil {
		r.bad("S04", "failure-ends-connection", pos, s, "reads on after a reply could not be written")
		s.dead = true
		return
	}
	f := r.forms[gstr(s, "e:form")]
	if f == nil {
		return
	}
	if s.ghost["m:handled"] == nil {
		if f.bad == "" {
			return
		}
		r.answered(s) // perhaps refused by an error reply
		return
	}
	if strings.HasPrefix(gstr(s, "e:out"), "err") {
		r.bad("S04", "failure-ends-connection", pos, s, "reads on after the handler has failed")
		s.dead = true
		return
	}
	if r.settle(s) {
		return
	}
	r.wrongReply(s, pos)
	s.dead = true
}

// outBytes is what has been sent, pending what sits in buffers.
func (r *ServerRun) outBytes(s *State) (out, pending *Term) {
	out = s.ghost["out:"+srvConn]
	if out == nil {
		out = tEmpty
	}
	pending = tEmpty
	s.reach(func(id string) {
		if o := s.obj(id); o != nil && o.ext == "bufw" && o.cells["buf"] != nil {
			pending = Cat(pending, o.cells["buf"])
		}
	})
	return
}

func (r *ServerRun) reset(s *State) {
	for k := range s.ghost {
		if strings.HasPrefix(k, "e:") || strings.HasPrefix(k, "mark:") || strings.HasPrefix(k, "pos:") || strings.HasPrefix(k, "iterlast:") {
			delete(s.ghost, k)
		}
	}
	delete(s.ghost, "m:handled")
	delete(s.ghost, "m:loops")
	delete(s.ghost, "m:first")
	delete(s.ghost, "m:tail")
	s.ghost["m:settled"] = tTrue
	s.ghost["out:"+srvConn] = tEmpty
}

// settle: the reply is complete and has been flushed.
func (r *ServerRun) settle(s *State) bool {
	out, pending := r.outBytes(s)
	if pending != tEmpty {
		return false
	}
	good, _, _ := r.replyOK(s, out)
	if good {
		f := r.forms[gstr(s, "e:form")]
		r.ok("S04", "one-reply", s)
		r.ok("S05", "errors-are-errors", s)
		if f.get && out != tEmpty {
			r.ok("S06", "declares-what-it-carries", s)
		}
		r.reset(s)
	}
	return good
}

// inLoops notes the loops that are being run: a request is over when one of them begins its next turn.
func inLoops(s *State) {
	l := ","
	for _, f := range s.frames {
		for _, i := range f.loops {
			l += fmt.Sprint(i.id) + ","
		}
	}
	s.ghost["m:loops"] = Lit(l)
}

// LoopHead is called at the head of every loop, before states are joined.
func (r *ServerRun) LoopHead(s *State) {
	if r.mode != "T" || s.ghost["m:in"] == nil {
		return
	}
	if f := s.top(); len(f.loops) == 0 || !strings.Contains(gstr(s, "m:loops"), fmt.Sprintf(",%d,", f.loops[len(f.loops)-1].id)) {
		return
	}
	r.answered(s)
}

// answered: if the reply to the request is complete, the request is over.
func (r *ServerRun) answered(s *State) {
	f := r.forms[gstr(s, "e:form")]
	if f == nil {
		return
	}
	if s.ghost["m:handled"] != nil {
		if s.ghost["m:wfail"] == nil && !strings.HasPrefix(gstr(s, "e:out"), "err") {
			r.settle(s)
		}
		return
	}
	if f.bad != "" && f.line && s.connIn(srvConn) == tEmpty {
		out, pending := r.outBytes(s)
		if pending == tEmpty && out != tEmpty && errorLine(s, out) {
			r.ok("S03", "no-request-made-up", s)
			r.reset(s)
		}
	}
}

func (r *ServerRun) wrongReply(s *State, pos token.Pos) {
	out, pending := r.outBytes(s)
	if pending != tEmpty {
		r.bad("S04", "one-reply", pos, s, "reads on while %s has not been flushed", pending)
		return
	}
	_, props, why := r.replyOK(s, out)
	for _, p := range props {
		rule := map[string]string{"S04": "one-reply", "S05": "errors-are-errors", "S06": "declares-what-it-carries"}[p]
		r.bad(p, rule, pos, s, "the reply to %s, for which the handler returned %s, is %s: %s", s.ghost["e:tok"], gstr(s, "e:out"), out, why)
	}
}

// ---- end of serving ----

func (r *ServerRun) Return(s *State, res *Term) {
	r.rep.paths[r.construct(s)]++
	pos := r.fn.Pos()
	if s.trace != nil && s.trace.pos.IsValid() {
		pos = s.trace.pos
	}
	if s.ghost["m:in"] == nil {
		r.check("S07", "listener-closed-at-end", s.ghost["m:lclosed"] != nil, pos, s, "Serve returns while the listener is still open")
		r.check("S07", "accepts-until-failure", s.ghost["m:aerr"] != nil, pos, s, "Serve returns although accepting has not failed")
		if s.ghost["m:accepted"] != nil && s.ghost["closed:"+srvConn] == nil {
			r.bad("S07", "own-goroutine", pos, s, "Serve returns without having handed over the connection it accepted")
		}
		return
	}
	r.check("S07", "closed-at-end", s.ghost["closed:"+srvConn] == tTrue, pos, s, "the goroutine of a connection ends without closing the connection")
	if r.mode != "T" {
		return
	}
	f := r.forms[gstr(s, "e:form")]
	if f == nil {
		return
	}
	if s.ghost["failed:"+srvConn] != nil {
		return
	}
	out, _ := r.outBytes(s)
	if s.ghost["m:handled"] == nil {
		if f.bad == "" {
			r.check("S03", "valid-requests-accepted", false, pos, s, "refuses the valid request %s", s.ghost["e:tok"])
		} else if out != tEmpty && !errorLine(s, out) && r.proto != "binary" {
			r.bad("S05", "errors-are-errors", pos, s, "answers %s (%s) with %s", s.ghost["e:tok"], f.bad, out)
		} else {
			r.ok("S03", "no-request-made-up", s)
		}
		return
	}
	if out == tEmpty || strings.HasPrefix(gstr(s, "e:out"), "err") && (r.proto == "binary" || errorLine(s, out)) {
		r.ok("S04", "one-reply", s)
		return
	}
	if good, _, _ := r.replyOK(s, out); good {
		r.ok("S04", "one-reply", s)
		return
	}
	r.wrongReply(s, pos)
}

// errorLine: the bytes are one line that reports an error.
func errorLine(s *State, out *Term) bool {
	g := segs(out)
	if len(g) == 0 || g[0].Op != OLit {
		return false
	}
	ok := false
	for _, p := range []string{"SERVER_ERROR ", "CLIENT_ERROR ", "ERROR\r\n"} {
		if strings.HasPrefix(g[0].S, p) {
			ok = true
		}
	}
	if !ok || g[len(g)-1].Op != OLit || !strings.HasSuffix(g[len(g)-1].S, "\r\n") {
		return false
	}
	for i, x := range g {
		if x.Op == OLit {
			l := x.S
			if i == len(g)-1 {
				l = strings.TrimSuffix(l, "\r\n")
			}
			if strings.ContainsAny(l, "\r\n") {
				return false
			}
			continue
		}
		if strMayS(s, x, '\n') {
			return false
		}
	}
	return true
}
