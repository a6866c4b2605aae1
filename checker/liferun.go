package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The life of a client connection: the constructor, Reconnect, Close, failing transports, and the goroutine
// that probes it.
//
// Every sequence of closing, reconnecting (successful or not) and failing is looked at: starting from the
// state the constructor returns, each operation is analysed in every state (up to the names of objects) that
// a sequence of operations leads to.

type LifeRun struct {
	*ClientRun
	ctor     string
	fields   []int // of the receiver, that lead to the connection
	shapes   map[int]string
	closes   map[string]bool // places of the channels that Close closes
	acquires map[string]bool // locks Reconnect and Close take
	phase    string          // "new", "op", "beat"
	before   *lifeState
	next     []*lifeState
	runs     int
	seen     map[string]bool
	starts   []*beat
	started  int
	probes   int
	waits    bool
	nopts    int
	newP     [3]*Term         // name, network and address given to the constructor
	ended1   map[string]*beat // channels that Reconnect has closed
	left     map[string]*beat // channels that a Close has left open
	waited   map[string]bool
	held     map[string]bool   // objects of the channels of the connection
	closing  map[string]string // objects of the channels that Close closes
	auto     *Term
	interval *Term
	pfx      string
}

// lifeState is a state between two operations.
type lifeState struct {
	s    *State
	how  string
	conn string
	recv *Term
	n    int
}

// beat is a goroutine that the constructor started.
type beat struct {
	s              *State
	fn             *Term
	args           []*Term
	interval, auto *Term
	pos            token.Pos
}

func unitLife(p *Program, rep *Report, res *unitResult, proto string) {
	cts, probs := clientTypes(p)
	for _, m := range probs {
		rep.bad("C15", "anchor", m, token.NoPos, nil, "%s", m)
	}
	for _, ct := range cts {
		if ct.Proto != proto {
			continue
		}
		tn := ct.T.Obj().Name()
		r := &LifeRun{ClientRun: &ClientRun{ct: ct, rep: rep, acc: newAccessLog(ct), mode: "U"},
			ctor: "client." + ct.New.Name(), closes: map[string]bool{}, acquires: map[string]bool{}, seen: map[string]bool{}, shapes: map[int]string{}, left: map[string]*beat{}, ended1: map[string]*beat{}, waited: map[string]bool{}}
		for _, n := range []int{0, 1, 2} {
			r.create(n)
		}
		sub := func(name string) {
			r.collect(res)
			r.acc = newAccessLog(ct)
			_ = name
		}
		r.op = ct.New.Name()
		sub("")
		for _, op := range []string{"Close", "Reconnect"} {
			r.op = op
			r.name = "(*client." + tn + ")." + op
		}
		r.history(sub)
		r.op = "heartbeat"
		r.name = "heartbeat of client." + tn
		r.beats()
		sub("")
	}
	if proto == "text" {
		r := &optionRun{rep: rep, p: p}
		r.run()
	}
}

func (r *LifeRun) engine() *Engine {
	e := newEngine(r.ct.P)
	e.hooks = r
	e.env = &Env{io: r}
	r.runs++
	e.ctxTag = fmt.Sprintf("%d:", r.runs)
	r.e = e
	return e
}

// ---- the constructor ----

func (r *LifeRun) create(nopts int) {
	r.phase, r.nopts = "new", nopts
	r.name = r.ctor
	e := r.engine()
	e.callHooks = map[string]func(e *Engine, s *State, c *call) []*State{"call:value": r.option}
	s := newState(e)
	var args []*Term
	str := 0
	for _, p := range r.ct.New.Params {
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			v := Sym("arg."+p.Name(), p.Type(), nil)
			if u.Info()&types.IsString != 0 && str < 3 {
				r.newP[str] = v
				str++
			}
			args = append(args, v)
		case *types.Slice:
			o := s.newObj("caller.opts", nil)
			o.isList = true
			o.origin = "caller"
			for k := 0; k < nopts; k++ {
				o.list = append(o.list, LSeg{Elem: Sym(fmt.Sprintf("opt%d", k), u.Elem(), &SymInfo{NonNil: true})})
			}
			n := Int(int64(nopts))
			args = append(args, mkSlice(Ptr(Obj_(o.id), ""), tZero, n, n))
		default:
			args = append(args, s.unknownOf("arg."+p.Name(), p.Type()))
		}
	}
	s.ghost["m:opts"] = tZero
	e.Run(s, r.ct.New, args, nil)
	r.finish()
}

// option is a call of an option given to the constructor: it may set the options to anything.
func (r *LifeRun) option(e *Engine, s *State, c *call) []*State {
	f := c.fnv
	if r.phase != "new" || f == nil || f.Op != OSym || !strings.HasPrefix(f.S, "opt") || len(c.args) != 1 {
		s.vague(c.pos, "a call of an unknown function")
		return c.ret(s, e.unknownResult(s, c))
	}
	n := s.ghost["m:opts"]
	r.rep.check("C14", "options-applied", r.name, f.S == fmt.Sprintf("opt%d", n.N), c.pos, s, "option %s is applied after %d options", strings.TrimPrefix(f.S, "opt"), n.N)
	s.ghost["m:opts"] = AddC(n, 1)
	o, pre, ok := s.objOf(c.args[0])
	st, isSt := typeOfParam(c).Underlying().(*types.Struct)
	if !ok || !isSt {
		s.vague(c.pos, "the options are not a structure")
		return c.ret(s, tUnit)
	}
	w := s.wr(o.id)
	for i := 0; i < st.NumFields(); i++ {
		p := fmt.Sprint(i)
		if pre != "" {
			p = pre + "/" + p
		}
		v := s.unknownOf(f.S+"."+st.Field(i).Name(), st.Field(i).Type())
		w.cells[p] = v
		switch st.Field(i).Name() {
		case "HeartbeatInterval":
			s.ghost["e:interval"] = v
		case "EnableAutoReconnect":
			s.ghost["e:auto"] = v
		}
	}
	return c.ret(s, tUnit)
}

func typeOfParam(c *call) types.Type {
	if c.sig != nil && c.sig.Params().Len() == 1 {
		if p, ok := c.sig.Params().At(0).Type().Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return types.Typ[types.Invalid]
}

func optOf(s *State, k string) *Term {
	if v := s.ghost["e:"+k]; v != nil {
		return v
	}
	if k == "auto" {
		return tFalse
	}
	return tZero
}

// created: the constructor returns.
func (r *LifeRun) created(s *State, res *Term, pos token.Pos) {
	r.rep.paths[r.name]++
	if res.Op != OTuple || len(res.Args) != 2 {
		return
	}
	isErr := s.decide(isNilTerm(res.Args[1]))
	if isErr < 0 {
		t := s.clone()
		t.assume(isNilTerm(res.Args[1]), true)
		if !t.dead {
			r.created(t, res, pos)
		}
		s.assume(isNilTerm(res.Args[1]), false)
		if s.dead {
			return
		}
		isErr = 0
	}
	conn := gstr(s, "m:dialed")
	if isErr == 0 {
		if s.ghost["m:go"] != nil {
			r.bad("C14", "heartbeat-started", pos, s, "starts a goroutine for a connection it does not return")
		}
		return
	}
	if s.ghost["m:dialfail"] != nil && conn == "" {
		r.bad("C07", "failure-is-reported", pos, s, "returns without error although dialing failed")
		return
	}
	recv := res.Args[0]
	o, _, ok := s.objOf(recv)
	if !ok {
		r.bad("C15", "followed", pos, s, "the connection that is returned could not be followed")
		return
	}
	if conn == "" || connOf(s, recv) != conn {
		r.bad("C15", "dials-configured-address", pos, s, "returns a connection that does not use the transport that was dialed")
		return
	}
	// what Reconnect dials later
	st := r.ct.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		for k, n := range []string{"", "Network", "Addr"} {
			if n != "" && st.Field(i).Name() == n && r.newP[k] != nil {
				v := s.loadCell(s.obj(o.id), fmt.Sprint(i), st.Field(i).Type())
				r.rep.check("C15", "dials-configured-address", r.name, s.sameStr(v, r.newP[k]), pos, s, "the field %s of the new connection is not the %s it was made for", n, strings.ToLower(n))
			}
		}
	}
	// the heartbeat
	n := int64(0)
	if g := s.ghost["m:go"]; g != nil {
		n = g.N
	}
	on := Le0(lin(1, -1, optOf(s, "interval")))
	opts := s.ghost["m:opts"]
	r.rep.check("C14", "options-applied", r.name, opts.N == int64(r.nopts), pos, s, "%d of %d options have been applied", opts.N, r.nopts)
	for _, want := range []bool{true, false} {
		t := s.clone()
		t.assume(on, want)
		if t.dead || !t.cons.feasible() {
			continue
		}
		if want {
			r.rep.check("C14", "heartbeat-started", r.name, n == 1, pos, t, "%d goroutines are started for a connection with a heartbeat interval", n)
		} else {
			r.rep.check("C14", "heartbeat-started", r.name, n == 0, pos, t, "a goroutine is started for a connection without a heartbeat interval")
		}
	}
	r.recv, r.recvO = recv, o.id
	// how the fields lead to the connection
	for i := 0; i < st.NumFields(); i++ {
		v := s.obj(o.id).cells[fmt.Sprint(i)]
		if v == nil {
			continue
		}
		if sh := shapeOf(s, v); strings.Contains(sh, "CONN") {
			if r.shapes[i] == "" {
				r.fields = append(r.fields, i)
			}
			r.shapes[i] = sh
		}
	}
	r.push(s, conn, "new")
}

// shapeOf describes the objects between a value and the connection it leads to.
func shapeOf(s *State, v *Term) string {
	return strings.Join(leads(s, v, map[string]bool{}), ",")
}

func leads(s *State, t *Term, busy map[string]bool) []string {
	var l []string
	if isConn(t) {
		return []string{"CONN"}
	}
	name := ""
	switch t.Op {
	case OIface:
		name = "iface"
	case OObj:
		if busy[t.S] {
			return nil
		}
		o := s.obj(t.S)
		if o == nil {
			return nil
		}
		busy[t.S] = true
		defer delete(busy, t.S)
		var ks []string
		for k := range o.cells {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		n := o.ext
		if o.T != nil {
			n += types.TypeString(o.T, func(p *types.Package) string { return p.Name() })
		}
		for _, k := range ks {
			for _, x := range leads(s, o.cells[k], busy) {
				l = append(l, n+"."+k+">"+x)
			}
		}
		return l
	}
	_ = name
	for _, a := range t.Args {
		l = append(l, leads(s, a, busy)...)
	}
	return l
}

// ---- histories ----

// push adds a state in which an operation may begin.
func (r *LifeRun) push(s *State, conn, how string) {
	n := 0
	if r.before != nil {
		n = r.before.n + 1
		how = r.before.how + ", " + how
	}
	t := r.prep(s)
	k := r.canon(t)
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.next = append(r.next, &lifeState{s: t, how: how, conn: conn, recv: r.recv, n: n})
}

// prep makes a state in which the next operation starts.
func (r *LifeRun) prep(base *State) *State {
	s := base.clone()
	s.trace, s.ret, s.dead = nil, nil, false
	s.frames = nil
	s.cons, s.consOwn = newCons(), true
	s.facts = map[*Term]bool{}
	s.vet = map[*Term]*vetInfo{}
	s.elems = map[*Term][]*Term{}
	s.tmp = map[string]*Term{}
	g := map[string]*Term{}
	for k, v := range s.ghost {
		if strings.HasPrefix(k, "closed:") || strings.HasPrefix(k, "once:") {
			g[k] = v
		}
	}
	s.ghost = g
	w := s.wr(r.recvO)
	w.origin = "recv"
	st := r.ct.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Exported() {
			if b, ok := f.Type().Underlying().(*types.Basic); ok {
				w.cells[fmt.Sprint(i)] = Sym("recv."+f.Name(), b, nil)
				if f.Type() != b {
					w.cells[fmt.Sprint(i)] = Sym("recv."+f.Name(), f.Type(), nil)
				}
			}
		}
	}
	return s
}

// canon describes a state up to the names of objects and connections.
func (r *LifeRun) canon(s *State) string {
	num := map[string]int{}
	var b strings.Builder
	var term func(t *Term)
	term = func(t *Term) {
		switch {
		case t == nil:
			b.WriteString("_")
		case isConn(t):
			if num[t.S] == 0 {
				num[t.S] = len(num) + 1
			}
			fmt.Fprintf(&b, "conn%d(%v)", num[t.S], s.ghost["closed:"+t.S] == tTrue)
		case t.Op == OObj:
			if n := num["o"+t.S]; n != 0 {
				fmt.Fprintf(&b, "o%d", n)
				return
			}
			num["o"+t.S] = len(num) + 1
			o := s.obj(t.S)
			if o == nil {
				b.WriteString("?")
				return
			}
			fmt.Fprintf(&b, "o%d{%s", num["o"+t.S], o.ext)
			var ks []string
			for k := range o.cells {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				b.WriteString(" " + k + ":")
				term(o.cells[k])
			}
			if v := o.ghost["open"]; v != nil {
				b.WriteString(" open:" + v.String())
			}
			b.WriteString("}")
		case len(t.Args) > 0:
			fmt.Fprintf(&b, "%d.%s.%d(", t.Op, t.S, t.N)
			for _, a := range t.Args {
				term(a)
				b.WriteString(",")
			}
			b.WriteString(")")
		case t.Op == OSym:
			if i := strings.IndexAny(t.S, "#~'"); i > 0 {
				b.WriteString(t.S[:i])
			} else {
				b.WriteString(t.S)
			}
		default:
			b.WriteString(t.String())
		}
	}
	term(Obj_(r.recvO))
	for _, k := range keysOf(s.ghost) {
		if strings.HasPrefix(k, "once:") {
			b.WriteString(" " + k)
		}
	}
	return b.String()
}

func (r *LifeRun) history(sub func(string)) {
	tn := r.ct.T.Obj().Name()
	logs := map[string]*accessLog{"Close": newAccessLog(r.ct), "Reconnect": newAccessLog(r.ct)}
	r.acquires = map[string]bool{}
	r.phase = "op"
	n := 0
	for len(r.next) > 0 {
		ls := r.next[0]
		r.next = r.next[1:]
		n++
		if n > 60 {
			r.bad("C15", "followed", token.NoPos, nil, "the states between operations are too many")
			break
		}
		r.before = ls
		r.conn = ls.conn
		r.recv = ls.recv
		r.recvO = ls.recv.Args[0].S
		// what a failing transport or an unfinished exchange leaves behind
		if !strings.Contains(ls.how, "fails") {
			for _, closed := range []bool{false, true} {
				t := ls.s.clone()
				if closed {
					t.ghost["closed:"+ls.conn] = tTrue
				}
				t.reach2ids(r.recv, func(id string) {
					o := t.obj(id)
					if o == nil || o.ext != "bufr" && o.ext != "bufw" {
						return
					}
					w := t.wr(id)
					w.cells["junk"] = Sym("leftover", tString, nil)
					if w.ext == "bufw" {
						w.cells["buf"] = Sym("unsent", tString, nil)
						if closed {
							w.cells["err"] = Sym("olderr", errType, &SymInfo{NonNil: true, Origin: "ioerr"})
						}
					}
				})
				how := "an exchange fails and closes the transport"
				if !closed {
					how = "an exchange fails"
				}
				r.push(t, ls.conn, how)
			}
		}
		for _, op := range []string{"Close", "Reconnect"} {
			r.op = op
			r.name = "(*client." + tn + ")." + op
			r.fn = r.ct.method(op)
			if r.fn == nil {
				continue
			}
			r.acc = logs[op]
			e := r.engine()
			s := ls.s.clone()
			s.eng = e
			s.note(r.fn.Pos(), "before: %s", ls.how)
			e.Run(s, r.fn, []*Term{r.recv}, nil)
			r.finish()
		}
	}
	for _, op := range []string{"Close", "Reconnect"} {
		r.op = op
		r.acc = logs[op]
		sub(op)
	}
	r.before = nil
}

// chanPaths finds the places at which a connection holds channels.
func (r *LifeRun) chanPaths(s *State) map[string]map[string]bool {
	m := map[string]map[string]bool{}
	var visit func(t *Term, path string, depth int)
	visit = func(t *Term, path string, depth int) {
		if t == nil || depth > 6 {
			return
		}
		if t.Op == OObj {
			o := s.obj(t.S)
			if o == nil {
				return
			}
			if o.ext == "chan" {
				if m[t.S] == nil {
					m[t.S] = map[string]bool{}
				}
				m[t.S][path] = true
				return
			}
			for k, v := range o.cells {
				visit(v, path+"/"+k, depth+1)
			}
			return
		}
		for _, a := range t.Args {
			visit(a, path, depth)
		}
	}
	visit(Obj_(r.recvO), "", 0)
	return m
}

// reach2ids visits the objects a value leads to.
func (s *State) reach2ids(v *Term, visit func(id string)) {
	seen := map[string]bool{}
	var term func(t *Term)
	term = func(t *Term) {
		t.walk(func(x *Term) bool {
			if x.Op == OObj && !seen[x.S] {
				seen[x.S] = true
				visit(x.S)
				if o := s.obj(x.S); o != nil {
					var ks []string
					for k := range o.cells {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for _, k := range ks {
						term(o.cells[k])
					}
				}
			}
			return true
		})
	}
	term(v)
}

// ---- events ----

func (r *LifeRun) Panic(s *State, pos token.Pos, v *Term) {
	r.bad("C16", "no-panic", pos, s, "explicit panic is reachable: %s", v)
}

func (r *LifeRun) Event(s *State, ev *Event) {
	switch ev.Kind {
	case "lock":
		if r.phase == "op" {
			r.acquires[lockKey(ev.A)] = true
		}
	case "dial":
		r.dialed(s, ev)
	case "go":
		if r.phase == "new" {
			r.start(s, ev)
		} else if r.phase == "op" {
			s.vague(ev.Pos, "a goroutine is started by "+r.name)
		}
	case "closechan":
		if r.phase == "op" && r.op == "Close" {
			if o, _, ok := s.objOf(ev.A); ok {
				for p := range r.chanPaths(r.before.s)[o.id] {
					r.closes[p] = true
				}
			}
		} else if r.phase == "op" {
			if o, _, ok := s.objOf(ev.A); ok {
				for p := range r.chanPaths(r.before.s)[o.id] {
					r.ended1[p] = &beat{s: s.clone(), pos: ev.Pos}
				}
			}
		}
	case "timer":
		s.ghost["m:live:"+fmt.Sprint(ev.A.id)] = ev.B
	case "timerstop", "timerreset":
		if r.phase == "beat" {
			r.timer(s, ev)
		}
	case "select", "recv", "sleep":
		if r.phase == "beat" {
			r.wait(s, ev)
			return
		}
	case "connread", "connwrite", "bufwrite", "bufread", "flush":
		if r.phase == "beat" {
			s.vague(ev.Pos, "the goroutine uses the connection itself")
		}
	}
	if r.phase == "new" {
		// the goroutine already sees what is stored now
		if s.ghost["m:go"] != nil {
			if ev.Kind == "store" || ev.Kind == "load" {
				if r.recvO == "" && ev.A.Op == OPtr && ev.A.Args[0].Op == OObj {
					r.recvO = r.recvObj(s)
				}
				r.onField(s, ev, ev.Kind == "store")
			}
		}
		return
	}
	switch ev.Kind {
	case "connread", "connwrite", "bufwrite", "bufread", "flush", "deadline":
		return
	case "store":
		if r.phase == "op" && ev.A.Op == OPtr && len(ev.A.Args) > 0 && ev.A.Args[0].Op == OObj && ev.A.Args[0].S == r.recvO {
			f := strings.SplitN(ev.A.S, "/", 2)[0]
			for _, i := range r.fields {
				if f == fmt.Sprint(i) {
					r.access(s, "replacement", ev)
				}
			}
		}
	}
	r.ClientRun.Event(s, ev)
}

// recvObj finds the connection the constructor makes.
func (r *LifeRun) recvObj(s *State) string {
	id := ""
	for k, o := range s.heap {
		if o.T != nil && types.Identical(o.T, r.ct.T) && (id == "" || k < id) {
			id = k
		}
	}
	return id
}

func (r *LifeRun) dialed(s *State, ev *Event) {
	if ev.S == "fail" {
		s.ghost["m:dialfail"] = tTrue
	} else {
		if d := gstr(s, "m:dialed"); d != "" && s.ghost["closed:"+d] != tTrue {
			r.bad("C15", "old-transport-closed", ev.Pos, s, "dials again while the connection it has dialed is open")
		}
		s.ghost["m:dialed"] = Lit(ev.C.S)
	}
	var nw, ad *Term
	if r.phase == "new" {
		nw, ad = r.newP[1], r.newP[2]
	} else {
		st := r.ct.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			v := s.obj(r.recvO).cells[fmt.Sprint(i)]
			switch st.Field(i).Name() {
			case "Network":
				nw = v
			case "Addr":
				ad = v
			}
		}
	}
	if nw == nil || ad == nil {
		r.bad("C15", "followed", ev.Pos, s, "the configured address is not known")
		return
	}
	r.rep.check("C15", "dials-configured-address", r.name, s.sameStr(ev.A, nw) && s.sameStr(ev.B, ad), ev.Pos, s, "dials %s, %s, not the configured network and address (%s, %s)", ev.A, ev.B, nw, ad)
}

// ---- the end of an operation ----

func (r *LifeRun) Return(s *State, res *Term) {
	pos := token.NoPos
	if s.trace != nil {
		pos = s.trace.pos
	}
	switch r.phase {
	case "new":
		r.created(s, res, pos)
		return
	case "beat":
		r.beatEnds(s, pos)
		return
	}
	r.rep.paths[r.name]++
	for l := range heldLocks(s) {
		r.bad("C02", "released-on-return", pos, s, "returns with %s held", r.lockName(l))
	}
	if len(heldLocks(s)) > 0 {
		return
	}
	r.ok("C02", "released-on-return")
	switch d := s.decide(isNilTerm(res)); {
	case d < 0:
		t := s.clone()
		t.assume(isNilTerm(res), true)
		if !t.dead && t.cons.feasible() {
			r.ended(t, true, pos)
		}
		s.assume(isNilTerm(res), false)
		if !s.dead {
			r.ended(s, false, pos)
		}
	default:
		r.ended(s, d == 1, pos)
	}
}

func (r *LifeRun) ended(s *State, isNil bool, pos token.Pos) {
	cur := connOf(s, r.recv)
	if r.op == "Close" {
		r.rep.check("C14", "close-closes", r.name, s.ghost["closed:"+r.conn] == tTrue, pos, s, "returns and the transport is open")
		// the channels of the goroutine
		for id, ps := range r.chanPaths(r.before.s) {
			o, was := s.obj(id), r.before.s.obj(id)
			if was.ghost["open"] == tFalse {
				continue
			}
			for p := range ps {
				if o == nil || o.ghost["open"] != tFalse {
					r.left[p] = &beat{s: s.clone(), pos: pos}
				}
			}
		}
		r.push(s, r.conn, "closed")
		return
	}
	dialed := gstr(s, "m:dialed")
	if !isNil {
		r.rep.check("C15", "fails-only-if-dialing-fails", r.name, s.ghost["m:dialfail"] != nil, pos, s, "fails although a connection could be made")
		if cur != r.conn && cur != dialed {
			r.bad("C15", "retryable", pos, s, "a failed reconnect leaves nothing of the connection")
			return
		}
		if dialed != "" && s.ghost["closed:"+dialed] != tTrue && cur != dialed {
			r.bad("C15", "retryable", pos, s, "a failed reconnect leaves the connection it has dialed open")
		}
		if cur == dialed && s.ghost["closed:"+cur] != tTrue {
			r.bad("C15", "retryable", pos, s, "a failed reconnect leaves a transport in use that may be half replaced")
		} else {
			r.ok("C15", "retryable")
		}
		r.push(s, cur, "reconnecting fails")
		return
	}
	if s.ghost["m:dialfail"] != nil && dialed == "" {
		r.bad("C07", "failure-is-reported", pos, s, "returns without error although dialing failed")
		r.bad("C15", "fails-if-dialing-fails", pos, s, "returns without error although dialing failed")
		return
	}
	r.ok("C07", "failure-is-reported")
	r.ok("C15", "fails-if-dialing-fails")
	if dialed == "" {
		r.bad("C15", "new-transport", pos, s, "returns without error and without having dialed")
		return
	}
	r.rep.check("C15", "old-transport-closed", r.name, s.ghost["closed:"+r.conn] == tTrue, pos, s, "the previous transport is still open")
	r.rep.check("C15", "new-transport", r.name, s.ghost["closed:"+dialed] != tTrue, pos, s, "the new transport has been closed")
	st := r.ct.T.Underlying().(*types.Struct)
	same := true
	for _, i := range r.fields {
		v := s.obj(r.recvO).cells[fmt.Sprint(i)]
		if v == nil {
			v = tNil
		}
		bad := ""
		if sh := shapeOf(s, v); !strings.Contains(sh, "CONN") {
			bad = "no transport"
		} else if sh != r.shapes[i] {
			same = false
		}
		conns := map[string]bool{}
		s.reachConns(v, conns)
		for c := range conns {
			if c != dialed {
				bad = "the previous transport"
			}
		}
		r.rep.check("C15", "new-transport", r.name, bad == "", pos, s, "after a reconnect the field %s leads to %s", st.Field(i).Name(), bad)
	}
	s.reach2ids(r.recv, func(id string) {
		o := s.obj(id)
		if o == nil || o.ext != "bufr" && o.ext != "bufw" {
			return
		}
		conns := map[string]bool{}
		s.reachConns(Ptr(Obj_(id), ""), conns)
		if len(conns) == 0 {
			return
		}
		clean := o.cells["junk"] == nil && (o.ext == "bufr" || o.cells["buf"] == tEmpty && o.cells["err"].Op == ONil)
		r.rep.check("C15", "empty-buffers", r.name, clean, pos, s, "after a reconnect a buffer holds what was left of the previous transport")
	})
	if !same {
		r.otherShape(s, dialed, pos)
	} else {
		r.ok("C13", "closed-after-failure")
	}
	if cur != "" && cur == dialed {
		r.push(s, cur, "reconnected")
	}
}

func (s *State) reachConns(v *Term, conns map[string]bool) {
	add := func(t *Term) {
		t.walk(func(x *Term) bool {
			if isConn(x) {
				conns[x.S] = true
			}
			return true
		})
	}
	add(v)
	s.reach2ids(v, func(id string) {
		if o := s.obj(id); o != nil {
			for _, c := range o.cells {
				add(c)
			}
		}
	})
}

// otherShape: the connection is made differently by Reconnect. The rules for commands are decided once more.
func (r *LifeRun) otherShape(s *State, conn string, pos token.Pos) {
	for _, mode := range []string{"T", "U"} {
		tmp := newReport(r.ct.P)
		c := &ClientRun{ct: r.ct, op: "Version", rep: tmp, acc: newAccessLog(r.ct), mode: mode, name: r.name + ", then Version"}
		c.fn = r.ct.method("Version")
		if c.fn == nil {
			return
		}
		e := newEngine(r.ct.P)
		e.hooks = c
		e.env = &Env{io: c}
		r.runs++
		e.ctxTag = fmt.Sprintf("%d:", r.runs)
		c.e = e
		base := r.prep(s)
		for _, t := range c.setup(base, r.recv) {
			args, ok := c.args(t, true)
			if !ok {
				continue
			}
			e.Run(t, c.fn, args, nil)
		}
		c.finish()
		for _, f := range tmp.sorted() {
			if f.Rule == "followed" {
				r.bad("C15", "followed", pos, s, "%s", f.Text)
				continue
			}
			r.rep.bad("C15", "new-transport", r.name, pos, s, "commands after a reconnect: %s", f.Text)
			if f.Prop == "C13" || f.Prop == "C07" {
				r.rep.bad(f.Prop, f.Rule, r.name, pos, s, "commands after a reconnect: %s", f.Text)
			}
		}
	}
}

// ---- the heartbeat ----

func (r *LifeRun) start(s *State, ev *Event) {
	n := s.ghost["m:go"]
	if n == nil {
		n = tZero
	}
	s.ghost["m:go"] = AddC(n, 1)
	r.starts = append(r.starts, &beat{s: s.clone(), fn: ev.A, args: ev.Args, interval: optOf(s, "interval"), auto: optOf(s, "auto"), pos: ev.Pos})
}

func (r *LifeRun) beats() {
	r.phase = "beat"
	tn := r.ct.T.Obj().Name()
	if len(r.starts) == 0 {
		r.bad("C14", "heartbeat-started", r.ct.New.Pos(), nil, "no goroutine is ever started")
	}
	for _, b := range r.starts {
		id := ""
		s := b.s.clone()
		r.auto, r.interval = b.auto, b.interval
		id = r.recvObj(s)
		e := r.engine()
		s.eng = e
		s.frames = nil
		s.trace = nil
		g := map[string]*Term{}
		for k, v := range s.ghost {
			if strings.HasPrefix(k, "closed:") || strings.HasPrefix(k, "once:") || strings.HasPrefix(k, "m:live:") {
				g[k] = v
			}
		}
		s.ghost = g
		if id != "" {
			r.recvO = id
			r.recv = Ptr(Obj_(id), "")
			r.conn = connOf(s, r.recv)
			r.closing = map[string]string{}
			r.held = map[string]bool{}
			for c, ps := range r.chanPaths(s) {
				r.held[c] = true
				for p := range ps {
					if r.closes[p] {
						r.closing[c] = p
					}
				}
			}
			w := s.wr(id)
			w.origin = "recv"
			st := r.ct.T.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if r.e.P.fieldWritten(r.ct.T, i) && w.cells[fmt.Sprint(i)] != nil {
					w.cells[fmt.Sprint(i)] = s.unknownOf("recv."+st.Field(i).Name(), st.Field(i).Type())
				}
			}
		}
		e.callHooks = map[string]func(e *Engine, s *State, c *call) []*State{}
		hook := func(m string, f func(e *Engine, s *State, c *call) []*State) {
			e.callHooks["(*"+modPath+"/client."+tn+")."+m] = f
			e.callHooks["invoke:"+modPath+"/client.Server."+m] = f
		}
		for _, op := range clientOps {
			op := op
			hook(op, func(e *Engine, s *State, c *call) []*State { return r.probe(s, c, op) })
		}
		hook("Reconnect", r.reconnect)
		hook("Close", r.close)
		r.probes, r.waits = 0, false
		fn, args, bind := b.fn, b.args, []*Term(nil)
		if fn.Op != OFn || fn.F == nil {
			r.bad("C14", "followed", b.pos, s, "the goroutine could not be followed")
			continue
		}
		bind = fn.Args
		if len(fn.F.Blocks) == 0 {
			r.bad("C14", "followed", b.pos, s, "the goroutine could not be followed")
			continue
		}
		e.Run(s, fn.F, args, bind)
		r.finish()
		if r.probes == 0 {
			r.bad("C14", "probe-every-interval", b.pos, s, "the goroutine never probes the connection")
		}
	}
	// closing ends it
	for _, k := range keysOf(r.waited) {
		name := "(*client." + tn + ").Close"
		if b := r.ended1[k]; b != nil {
			r.rep.bad("C14", "lives-until-close", "(*client."+tn+").Reconnect", b.pos, b.s, "reconnecting closes the channel that ends the heartbeat")
		} else {
			r.rep.ok("C14", "lives-until-close", "(*client."+tn+").Reconnect")
		}
		if b := r.left[k]; b != nil {
			r.rep.bad("C14", "close-ends-heartbeat", name, b.pos, b.s, "returns without having closed the channel that the heartbeat waits for")
		} else {
			r.rep.ok("C14", "close-ends-heartbeat", name)
		}
	}
}

func (r *LifeRun) holds(s *State, pos token.Pos, what string) {
	for l := range heldLocks(s) {
		if r.acquires[l] {
			r.bad("C02", "no-self-deadlock", pos, s, "%s while holding %s", what, r.lockName(l))
		}
	}
}

func (r *LifeRun) probe(s *State, c *call, op string) []*State {
	r.probes++
	r.holds(s, c.pos, "probes")
	g := s.ghost
	switch {
	case g["m:closed"] != nil:
		r.bad("C14", "ends-at-close", c.pos, s, "probes the connection after it has found it closed")
		return nil
	case g["m:obs"] == nil:
		r.bad("C14", "ends-at-close", c.pos, s, "probes the connection again without having looked whether it has been closed")
		return nil
	case g["m:tick"] == nil && g["m:probed"] != nil:
		r.bad("C14", "probe-every-interval", c.pos, s, "probes the connection more than once in an interval")
		return nil
	}
	r.ok("C14", "ends-at-close")
	r.ok("C14", "probe-every-interval")
	delete(g, "m:obs")
	delete(g, "m:tick")
	delete(g, "m:refail")
	g["m:probed"] = tTrue
	bad := s.clone()
	bad.note(c.pos, "the probe fails")
	bad.ghost["m:fail"] = tTrue
	er := bad.ioErr("probe")
	mk := func(s *State, err *Term) []*State {
		u := s.eng.unknownResult(s, c)
		if u.Op == OTuple {
			a := append([]*Term{}, u.Args...)
			a[len(a)-1] = err
			u = Tuple(a...)
		} else {
			u = err
		}
		return c.ret(s, u)
	}
	s.note(c.pos, "the probe succeeds")
	return append(mk(s, tNil), mk(bad, er)...)
}

func (r *LifeRun) isAuto(s *State) int {
	return s.decide(r.auto)
}

func (r *LifeRun) reconnect(e *Engine, s *State, c *call) []*State {
	r.holds(s, c.pos, "reconnects")
	g := s.ghost
	switch {
	case g["m:closed"] != nil:
		r.bad("C14", "ends-at-close", c.pos, s, "reconnects after it has found the connection closed")
		return nil
	case g["m:fail"] == nil && g["m:refail"] == nil:
		r.bad("C14", "acts-on-failure", c.pos, s, "reconnects although no probe has failed")
		return nil
	case r.isAuto(s) != 1:
		r.bad("C14", "acts-on-failure", c.pos, s, "reconnects although automatic reconnect may be off")
		return nil
	}
	r.ok("C14", "acts-on-failure")
	delete(g, "m:fail")
	delete(g, "m:refail")
	bad := s.clone()
	bad.note(c.pos, "reconnecting fails")
	bad.ghost["m:refail"] = tTrue
	s.note(c.pos, "reconnecting succeeds")
	s.ghost["m:recon"] = tTrue
	return append(c.ret(s, tNil), c.ret(bad, bad.ioErr("reconnect"))...)
}

func (r *LifeRun) close(e *Engine, s *State, c *call) []*State {
	r.holds(s, c.pos, "closes the connection")
	g := s.ghost
	switch {
	case g["m:closed"] != nil:
	case g["m:fail"] != nil:
		if r.isAuto(s) != 0 {
			r.bad("C14", "acts-on-failure", c.pos, s, "closes the connection after a failed probe although automatic reconnect may be on")
			return nil
		}
	case g["m:refail"] != nil:
		r.bad("C14", "acts-on-failure", c.pos, s, "closes the connection because one reconnect attempt has failed")
		return nil
	default:
		r.bad("C14", "acts-on-failure", c.pos, s, "closes the connection although no probe has failed")
		return nil
	}
	r.ok("C14", "acts-on-failure")
	delete(g, "m:fail")
	delete(g, "m:recon")
	g["m:self"] = tTrue
	return c.ret(s, Sym(s.newName("closeerr"), errType, &SymInfo{Origin: "ioerr"}))
}

func (r *LifeRun) timer(s *State, ev *Event) {
	o, _, ok := s.objOf(ev.A)
	if !ok {
		return
	}
	for _, v := range o.cells {
		k := "m:live:" + fmt.Sprint(v.id)
		if v.Op == OApp && (v.S == "ticker" || v.S == "timer") {
			if ev.Kind == "timerstop" {
				delete(s.ghost, k)
			} else {
				s.ghost[k] = ev.B
			}
		}
	}
}

// isClosing: the channel is one that Close closes.
func (r *LifeRun) isClosing(s *State, ch *Term) bool {
	o, _, ok := s.objOf(ch)
	if !ok || r.closing[o.id] == "" {
		return false
	}
	r.waited[r.closing[o.id]] = true
	return true
}

func (r *LifeRun) wait(s *State, ev *Event) {
	g := s.ghost
	chans, chosen, blocking := ev.Args, ev.A, true
	switch ev.Kind {
	case "select":
		if x, ok := ev.In.(*ssa.Select); ok {
			blocking = x.Blocking
		}
	case "recv":
		chans = []*Term{ev.A}
	case "sleep":
		chans, chosen = nil, nil
	}
	closing, tick := false, false
	for _, c := range chans {
		closing = closing || r.isClosing(s, c)
		if c.Op == OApp && (c.S == "ticker" || c.S == "timer") {
			tick = tick || g["m:live:"+fmt.Sprint(c.id)] != nil
		} else if c.Op != ONil && !r.isClosing(s, c) {
			if o, _, ok := s.objOf(c); ok && o.ext == "chan" && r.held[o.id] {
				continue // a channel of the connection that Close does not close
			}
			if c.Op == OSym && strings.HasPrefix(c.S, "recv.") {
				continue // a field that Close may have set to nil
			}
			s.vague(ev.Pos, "the goroutine waits for "+c.String())
		}
	}
	if blocking {
		if g["m:fail"] != nil && g["m:closed"] == nil {
			r.bad("C14", "acts-on-failure", ev.Pos, s, "waits for the next interval without having done anything about the failed probe")
			s.dead = true
			return
		}
		if g["m:closed"] == nil && g["m:self"] == nil && ev.Kind != "sleep" && !tick {
			if ev.Kind == "recv" && closing {
				// waits for the end only
			}
			r.bad("C14", "probe-every-interval", ev.Pos, s, "waits without a timer that is going to fire")
			s.dead = true
			return
		}
	}
	if closing {
		g["m:obs"] = tTrue
	}
	switch {
	case chosen != nil && r.isClosing(s, chosen):
		g["m:closed"] = tTrue
		ev.B = tFalse // nothing is sent
		s.note(ev.Pos, "the connection has been closed")
		return
	case ev.Kind == "sleep", chosen != nil && chosen.Op == OApp && (chosen.S == "ticker" || chosen.S == "timer"):
		d := ev.A
		if ev.Kind != "sleep" {
			k := "m:live:" + fmt.Sprint(chosen.id)
			d = g[k]
			if d == nil {
				s.dead = true // never fires
				return
			}
			if chosen.S == "timer" {
				delete(g, k)
			}
		}
		r.rep.check("C14", "probe-every-interval", r.name, s.sameInt(d, r.interval), ev.Pos, s, "waits for %s, not for the configured interval (%s)", d, r.interval)
		if g["m:tick"] != nil && g["m:closed"] == nil && g["m:self"] == nil {
			r.bad("C14", "probe-every-interval", ev.Pos, s, "an interval has passed without a probe")
			s.dead = true
			return
		}
		g["m:tick"] = tTrue
		ev.B = tTrue
	case ev.Kind == "select" && !blocking && ev.S == "default":
		if closing {
			delete(g, "m:recon")
		}
	default:
		if chosen != nil && chosen.Op == ONil {
			s.dead = true
		}
	}
}

func (r *LifeRun) beatEnds(s *State, pos token.Pos) {
	r.rep.paths[r.name]++
	for l := range heldLocks(s) {
		r.bad("C02", "released-on-return", pos, s, "the heartbeat ends with %s held", r.lockName(l))
	}
	g := s.ghost
	switch {
	case g["m:recon"] != nil && g["m:closed"] != nil:
		r.bad("C14", "ends-at-close", pos, s, "the heartbeat ends because the connection has been closed, and leaves the connection it made since open")
	case g["m:closed"] != nil, g["m:self"] != nil:
		r.ok("C14", "lives-until-close")
	case g["m:refail"] != nil:
		r.bad("C14", "lives-until-close", pos, s, "a failed reconnect attempt ends the heartbeat")
	case g["m:fail"] != nil:
		r.bad("C14", "acts-on-failure", pos, s, "the heartbeat ends after a failed probe and leaves the connection as it is")
	default:
		r.bad("C14", "lives-until-close", pos, s, "the heartbeat ends although the connection has not been closed")
	}
}

// ---- options ----

// optionRun: the options set what they are named after.
type optionRun struct {
	rep *Report
	p   *Program
	fn  *ssa.Function
	o   string
	e   *Engine
	t   types.Type
}

func (r *optionRun) run() {
	for _, n := range []string{"EnableHeartbeat", "EnableAutoReconnect"} {
		fn := r.p.fn("client", n)
		if fn == nil || fn.Signature.Params().Len() != 1 {
			r.rep.bad("C14", "followed", "client."+n, token.NoPos, nil, "the option is gone")
			continue
		}
		pt, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		r.fn, r.t = fn, pt.Elem()
		r.e = newEngine(r.p)
		r.e.hooks = r
		r.e.env = &Env{}
		s := newState(r.e)
		st := r.t.Underlying().(*types.Struct)
		o := s.newObj("opt", r.t)
		o.origin = "caller"
		for i := 0; i < st.NumFields(); i++ {
			o.cells[fmt.Sprint(i)] = Sym("opt."+st.Field(i).Name(), st.Field(i).Type(), nil)
		}
		r.o = o.id
		r.e.Run(s, fn, []*Term{Ptr(Obj_(o.id), "")}, nil)
	}
}

func (r *optionRun) Panic(s *State, pos token.Pos, v *Term) {}
func (r *optionRun) Event(s *State, ev *Event)              {}
func (r *optionRun) Return(s *State, res *Term) {
	st := r.t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		v := s.obj(r.o).cells[fmt.Sprint(i)]
		was := Sym("opt."+n, st.Field(i).Type(), nil)
		name := "client." + r.fn.Name()
		switch {
		case n == "HeartbeatInterval" && r.fn.Name() == "EnableHeartbeat":
			r.rep.check("C14", "options-set-their-field", name, s.decide(Le0(lin(1, -1, v))) == 1, r.fn.Pos(), s, "the interval is %s", v)
		case n == "EnableAutoReconnect" && r.fn.Name() == "EnableAutoReconnect":
			r.rep.check("C14", "options-set-their-field", name, s.decide(v) == 1, r.fn.Pos(), s, "automatic reconnect is %s", v)
		default:
			r.rep.check("C14", "options-set-their-field", name, v == was, r.fn.Pos(), s, "%s is changed to %s", n, v)
		}
	}
}
