package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ClientRun analyses one operation of one protocol against an environment and checks the client rules.
type ClientRun struct {
	ct    *ClientType
	op    string
	fn    *ssa.Function
	rep   *Report
	e     *Engine
	mode  string // "T": replies a server may send; "U": any bytes
	conn  string
	recv  *Term
	recvO string
	name  string // construct
	key   *Term
	keys  []*Term // of a multi-get
	nkeys int
	item  *itemArg
	ints  map[string]*Term
	init  map[string]*Obj // caller objects
	acc   *accessLog
	multi bool
	vocab map[string]vocabRec
}

type itemArg struct {
	ptr, key, value, flagnum, flags, exp, cas *Term
	hasFlags                                  bool
}

// accessLog collects what the lockset rules need over all operations of a type.
type accessLog struct {
	ct     *ClientType
	io     []accEv            // accesses of the connection
	fields map[string][]accEv // accesses of fields of the receiver
	order  map[string]accEv   // lock order edges
	common map[string]bool
	seen   map[string]bool
}
type accEv struct {
	op    string
	what  string
	pos   token.Pos
	locks map[string]bool // held exclusively since the first access
	write bool
	st    *State
}

func newAccessLog(ct *ClientType) *accessLog {
	return &accessLog{ct: ct, fields: map[string][]accEv{}, order: map[string]accEv{}, seen: map[string]bool{}}
}

func (a *accessLog) add(list *[]accEv, ev accEv, key string) {
	k := key + "|" + ev.op + "|" + strings.Join(keysOf(ev.locks), ",") + fmt.Sprint(ev.write, ev.pos)
	if a.seen[k] {
		return
	}
	a.seen[k] = true
	*list = append(*list, ev)
}

func keysOf[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// heldLocks of the state, by name; exclusive holds have value true.
func heldLocks(s *State) map[string]bool {
	r := map[string]bool{}
	for k, v := range s.ghost {
		if strings.HasPrefix(k, "lock:") && !v.constIs(0) {
			r[k] = v.constIs(1)
		}
	}
	return r
}

var clientOps = []string{"Get", "GetMulti", "Set", "Add", "Replace", "Delete", "Increment", "Decrement", "Touch", "Flush", "Version"}

// setup builds the initial states of an operation.
func (r *ClientRun) setup(base *State, recv *Term) []*State {
	s := base.clone()
	s.trace, s.ret, s.dead = nil, nil, false
	s.frames = nil
	s.cons, s.consOwn = newCons(), true
	s.facts = map[*Term]bool{}
	s.vet = map[*Term]*vetInfo{}
	s.elems = map[*Term][]*Term{}
	s.tmp = map[string]*Term{}
	s.eng = r.e
	r.recv = recv
	o, _, _ := s.objOf(recv)
	r.recvO = o.id
	w := s.wr(o.id)
	w.origin = "recv"
	st := r.ct.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		p := fmt.Sprint(i)
		switch f.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Struct, *types.Array:
			if !f.Exported() {
				continue
			}
		}
		if f.Exported() || r.e.P.fieldWritten(r.ct.T, i) {
			w.cells[p] = s.unknownOf("recv."+f.Name(), f.Type())
		}
	}
	r.conn = connOf(s, recv)
	return []*State{s}
}

// connOf finds the connection a value leads to.
func connOf(s *State, v *Term) string {
	conn := ""
	seen := map[string]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		t.walk(func(x *Term) bool {
			if isConn(x) && conn == "" {
				conn = x.S
			}
			if x.Op == OObj && !seen[x.S] {
				seen[x.S] = true
				if o := s.obj(x.S); o != nil {
					var ks []string
					for k := range o.cells {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for _, k := range ks {
						visit(o.cells[k])
					}
				}
			}
			return true
		})
	}
	visit(v)
	return conn
}

// callerBytes makes a slice of the caller: its contents, with room behind it.
func (r *ClientRun) callerBytes(s *State, id string, content *Term) *Term {
	spare := Sym("spare."+id, tString, nil)
	o := s.newObj("caller."+id, nil)
	o.cells[""] = Cat(content, spare)
	o.origin = "caller"
	r.init[o.id] = o.clone()
	l := StrLen(content)
	return mkSlice(Ptr(Obj_(o.id), ""), tZero, l, Add(l, StrLen(spare)))
}

func (r *ClientRun) callerItem(s *State, t types.Type, hasFlags bool) *Term {
	it := &itemArg{hasFlags: hasFlags}
	o := s.newObj("caller.item", t)
	o.origin = "caller"
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		p := fmt.Sprint(i)
		ft := st.Field(i).Type()
		switch st.Field(i).Name() {
		case "Key":
			it.key = Sym("item.key", tString, nil)
			o.cells[p] = it.key
			r.key = it.key
		case "Value":
			it.value = Sym("item.value", tString, &SymInfo{MaxLen: maxValue})
			o.cells[p] = r.callerBytes(s, "value", it.value)
		case "Flags":
			if hasFlags {
				it.flagnum = Sym("item.flags", uint32T, &SymInfo{HasLo: true, HasHi: true, Hi: 1<<32 - 1})
				it.flags = BE(4, it.flagnum)
			} else {
				it.flags = Sym("item.badflags", tString, nil)
				s.assume(EqInt(StrLen(it.flags), Int(4)), false)
				it.flagnum = tZero
			}
			o.cells[p] = r.callerBytes(s, "flags", it.flags)
		case "Expiration":
			it.exp = Sym("item.exp", tIntT, nil)
			o.cells[p] = it.exp
		case "Cas":
			it.cas = Sym("item.cas", uint64T, &SymInfo{HasLo: true, Bits: 64})
			o.cells[p] = it.cas
		default:
			o.cells[p] = s.unknownOf("item."+st.Field(i).Name(), ft)
		}
	}
	r.item = it
	it.ptr = Ptr(Obj_(o.id), "")
	r.init[o.id] = o.clone()
	return it.ptr
}

func (r *ClientRun) args(s *State, hasFlags bool) ([]*Term, bool) {
	args := []*Term{r.recv}
	r.ints = map[string]*Term{}
	r.init = map[string]*Obj{}
	ps := r.fn.Signature.Params()
	ni := 0
	for i := 0; i < ps.Len(); i++ {
		p := ps.At(i)
		t := p.Type()
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				r.key = Sym("key", tString, nil)
				args = append(args, r.key)
			} else {
				// delta before expiration
				n := "delta"
				if r.op == "Touch" || ni == 1 {
					n = "exp"
				}
				ni++
				r.ints[n] = Sym("arg."+n, t, nil)
				args = append(args, r.ints[n])
			}
		case *types.Slice:
			_ = u
			o := s.newObj("caller.keys", nil)
			o.isList = true
			o.origin = "caller"
			r.keys = nil
			for k := 0; k < r.nkeys; k++ {
				x := Sym(fmt.Sprintf("key%d", k), tString, nil)
				r.keys = append(r.keys, x)
				o.list = append(o.list, LSeg{Elem: x})
			}
			r.init[o.id] = o.clone()
			n := Int(int64(r.nkeys))
			args = append(args, mkSlice(Ptr(Obj_(o.id), ""), tZero, n, n))
			r.multi = true
		case *types.Pointer:
			args = append(args, r.callerItem(s, u.Elem(), hasFlags))
		default:
			return nil, false
		}
	}
	return args, true
}

// run analyses the operation.
func (r *ClientRun) run() {
	sts, recvs, _ := r.ct.construct()
	r.fn = r.ct.method(r.op)
	if r.fn == nil || len(sts) == 0 {
		r.rep.bad("C03", "anchor", r.name, token.NoPos, nil, "the operation or the constructor could not be followed")
		return
	}
	base, recv := sts[len(sts)-1], recvs[len(recvs)-1]
	variants := []bool{true}
	for i := 0; i < r.fn.Signature.Params().Len(); i++ {
		if _, ok := r.fn.Signature.Params().At(i).Type().Underlying().(*types.Pointer); ok {
			variants = []bool{true, false}
		}
	}
	counts := []int{0}
	if v := r.fn.Signature; v.Variadic() {
		counts = multiCounts(r.mode)
		if r.mode == "T" {
			// lengths that the code tells apart
			have := map[int]bool{}
			for _, c := range sizeConstants(r.ct.P, r.fn, 3, 130, nil, func(t types.Type) bool {
				b, ok := t.Underlying().(*types.Basic)
				return !ok || b.Info()&types.IsString != 0
			}) {
				for n := int(c); n <= int(c)+1; n++ {
					if !have[n] {
						have[n] = true
						counts = append(counts, n)
					}
				}
			}
		}
	}
	if os.Getenv("GMDEBUG") != "" {
		fmt.Fprintln(os.Stderr, "COUNTS", counts)
	}
	for i := 0; i < len(variants)*len(counts); i++ {
		v := variants[i%len(variants)]
		r.nkeys = counts[i/len(variants)]
		e := newEngine(r.ct.P)
		e.hooks = r
		e.env = &Env{io: r}
		r.e = e
		for _, s := range r.setup(base, recv) {
			args, ok := r.args(s, v)
			if !ok {
				r.rep.bad("C03", "anchor", r.name, r.fn.Pos(), nil, "unknown parameter type")
				continue
			}
			e.Run(s, r.fn, args, nil)
		}
		r.finish()
	}
}

// ---- environment ----

func (r *ClientRun) Arbitrary() bool { return r.mode == "U" }

func gstr(s *State, k string) string {
	if t := s.ghost[k]; t != nil {
		if x, ok := constStr(t); ok {
			return x
		}
	}
	return ""
}

func (r *ClientRun) Pull(e *Engine, s *State, conn string) []*State {
	if conn != r.conn {
		return nil
	}
	pos := gstr(s, "e:rp")
	if pos == "" {
		pos = "start"
	}
	if pos == "done" {
		return nil
	}
	out := s.ghost["out:"+conn]
	if out == nil {
		out = tEmpty
	}
	var res []*State
	nth := int64(0)
	if r.multi && strings.HasPrefix(pos, "start") {
		// at most one reply for every key, and then the end
		if h := s.ghost["n:replies"]; h != nil {
			nth = h.N
		} else if r.mode == "T" {
			s.ghost["n:replies"] = tZero
		}
	}
	l := replyGrammar(s, out, pos, r.multi)
	if r.multi && strings.HasPrefix(pos, "start") {
		if nth != int64(r.nkeys)-1 {
			// one malformed reply, in the last place
			var k []alt
			for _, a := range l {
				if a.out != "alien" {
					k = append(k, a)
				}
			}
			l = k
		}
		if nth >= int64(r.nkeys) {
			var k []alt
			for _, a := range l {
				if r.ct.Proto == "meta" && a.out == "err" && a.next != "done" && strings.Count(gstr(s, "e:hist"), ",err") == r.nkeys {
					a.next = "done" // the server does not know any of the commands
				}
				if a.next == "done" {
					k = append(k, a)
				}
			}
			l = k
		}
	}
	if r.multi && r.mode == "T" && r.nkeys > 3 && nth < int64(r.nkeys) && strings.HasPrefix(pos, "start") {
		l = l[:1] // of a long list all keys are there
	}
	for i, a := range l {
		n := s
		if i < len(l)-1 {
			n = s.clone()
		}
		if a.pre != nil && !a.pre(n) {
			continue
		}
		n.ghost["in:"+conn] = Cat(n.connIn(conn), a.tok)
		n.ghost["e:rp"] = Lit(a.next)
		if r.multi && a.out != "" {
			n.ghost["n:replies"] = Int(nth + 1)
		}
		if a.out != "" {
			n.note(token.NoPos, "the server replies %s", a.tok)
			switch a.out {
			case "hit", "number", "version", "success":
				if a.out == "hit" {
					h := n.ghost["n:hits"]
					if h == nil {
						h = tZero
					}
					n.ghost["n:hits"] = AddC(h, 1)
				}
				if r.multi {
					break
				}
				n.ghost["e:msg"] = Lit("-")
				a.tok.walk(func(x *Term) bool {
					if x.Op == OSym && x.sym != nil && x.sym.Field != "" {
						n.ghost["e:f:"+x.sym.Field] = x
						if x.sym.Msg != "" {
							n.ghost["e:msg"] = Lit(x.sym.Msg)
						}
					}
					return true
				})
			case "err", "alien", "status1", "status2":
				if r.multi && a.out != "status1" && n.ghost["e:bad"] == nil {
					n.ghost["e:bad"] = Lit(a.out)
				}
			}
			n.ghost["e:out"] = Lit(a.out)
			if r.multi && r.mode == "T" {
				n.ghost["e:hist"] = Lit(gstr(n, "e:hist") + "," + a.out + a.label())
			} else {
				n.ghost["e:var"] = Lit(a.vary)
			}
			n.ghost["e:tok"] = a.tok
			if r.multi && r.mode == "T" {
				n.ghost["e:tok"] = Lit(strings.TrimPrefix(gstr(n, "e:hist"), ","))
			}
		}
		res = append(res, n)
	}
	return res
}

// JoinUnrolled: so are the keys that have been checked and written.
func (r *ClientRun) JoinUnrolled(s *State) bool {
	return r.multi && r.mode == "T" && s.ghost["m:read"] == nil
}

// JoinCall: states that differ only in how the code got there are joined before the next reply is read.
func (r *ClientRun) JoinCall(s *State, c *ssa.Call) bool {
	if !r.multi {
		return false
	}
	if p := gstr(s, "e:rp"); p != "" && !strings.HasPrefix(p, "start") {
		return false
	}
	if f := c.Call.StaticCallee(); f != nil {
		return f.Pkg != nil && !r.ct.P.isModule(f.Pkg) && strings.HasPrefix(f.Name(), "Read")
	}
	return c.Call.IsInvoke() && strings.HasPrefix(c.Call.Method.Name(), "Read")
}

// Progress counts the replies to a multi-get, of which there are not more than keys.
func (r *ClientRun) Progress(s *State) int64 {
	if n := s.ghost["n:replies"]; r.multi && r.mode == "T" && n != nil {
		return n.N
	}
	return 0
}

// ---- events ----

func (r *ClientRun) bad(prop, rule string, pos token.Pos, s *State, format string, a ...interface{}) {
	r.rep.bad(prop, rule, r.name, pos, s, format, a...)
}
func (r *ClientRun) ok(prop, rule string) { r.rep.ok(prop, rule, r.name) }

func (r *ClientRun) Panic(s *State, pos token.Pos, v *Term) {
	r.bad("C16", "no-panic", pos, s, "explicit panic is reachable: %s", v)
}

// access records an access of the connection.
func (r *ClientRun) access(s *State, what string, ev *Event) {
	held := heldLocks(s)
	locks := map[string]bool{}
	first := s.ghost["m:first"] == nil
	if first {
		s.ghost["m:first"] = tTrue
	}
	for l, excl := range held {
		acq := s.ghost["m:acq:"+l]
		if acq == nil {
			acq = tZero
		}
		if first {
			s.ghost["m:at:"+l] = acq
		}
		if excl && s.ghost["m:at:"+l] == acq {
			locks[l] = true
		}
	}
	r.acc.add(&r.acc.io, accEv{op: r.name, what: what, pos: ev.Pos, locks: locks, st: s.clone()}, "io"+what)
}

func (r *ClientRun) Event(s *State, ev *Event) {
	r.common(s, ev)
	switch ev.Kind {
	case "lock":
		k := lockKey(ev.A)
		n := s.ghost["m:acq:"+k]
		if n == nil {
			n = tZero
		}
		n = AddC(n, 1)
		if o, _, ok := s.objOf(ev.A); ok && s.isGlobal(o) {
			s.ghost["m:common:"+k] = tTrue
			if n.constIs(4) { // it may be taken in every turn of a loop
				n = Int(3)
			}
		}
		s.ghost["m:acq:"+k] = n
		for l := range heldLocks(s) {
			if l != k {
				r.acc.order[l+">"+k] = accEv{op: r.name, pos: ev.Pos, st: s.clone()}
			}
		}
		r.ok("C02", "acquire")
	case "relock":
		r.bad("C02", "no-self-deadlock", ev.Pos, s, "waits for a lock it already holds")
	case "badunlock":
		r.bad("C02", "release-once", ev.Pos, s, "releases a lock it does not hold")
	case "unlock":
		r.ok("C02", "release-once")
	case "connread", "connwrite":
		if isConn(ev.A) {
			r.deadlines(s, ev)
		}
		r.access(s, ev.Kind, ev)
		if ev.Kind == "connread" {
			r.beforeRead(s, ev)
		} else {
			r.beforeWrite(s, ev)
		}
	case "bufread", "bufwrite", "flush":
		r.access(s, ev.Kind, ev)
		if ev.Kind != "bufread" {
			r.beforeWrite(s, ev)
			if ev.Kind == "bufwrite" && ev.B != nil && ev.B.hasStale() {
				r.bad("C10", "no-stale-bytes", ev.Pos, s, "the request carries %s, which an earlier command left behind", ev.B.staleSym())
			} else if ev.Kind == "bufwrite" {
				r.ok("C10", "no-stale-bytes")
			}
		}
	case "append":
		if ev.Obj != nil && r.init[ev.Obj.id] != nil && ev.S == "spare" && ((ev.B.Op != OSlice && !isStrTerm(ev.B)) || ev.B.Op == OSlice && !s.cons.entails(sliceLen(ev.B)) || isStrTerm(ev.B) && !s.cons.entails(StrLen(ev.B))) {
			r.bad("C08", "caller-memory-unchanged", ev.Pos, s, "appends to %s of the caller, which writes to the memory behind its length", ev.Obj.id)
		}
	case "deadline":
		r.access(s, ev.Kind, ev)
		r.onDeadline(s, ev)
	case "connclose":
		if r.op != "Close" && r.op != "Reconnect" && r.conn == ev.A.S {
			r.access(s, ev.Kind, ev)
		}
	case "overread":
		if r.mode == "T" && gstr(s, "e:out") != "alien" {
			r.bad("C04", "no-overread", ev.Pos, s, "waits for more input after the whole reply to its request (%s) has been read", gstr(s, "e:out"))
		}
	case "misread":
		if r.mode == "T" {
			r.bad("C04", "no-misread", ev.Pos, s, "looks for the end of a line in a data block")
		}
	case "wrapper":
		r.bad("C07", "wrapper-passes-result", ev.Pos, s, "%s does not pass on the result of the connection", ev.Fn)
	case "store", "mapupdate", "mapdelete":
		r.onStore(s, ev)
	case "load":
		r.onField(s, ev, false)
	case "poolput":
		r.onPut(s, ev)
	case "poolget":
		r.ok("C10", "pool-get")
	case "unmodelled":
		// conservative: contents of the arguments are forgotten
	}
}

// isGlobal: the object is a package-level variable or was made by the initialisation of the package.
func (s *State) isGlobal(o *Obj) bool {
	return o != nil && (o.origin == "global" || s.eng.base[o.id] != nil)
}

// common: the operations of different connections run at the same time and have no lock in common but package-level
// ones, so they do not write to package-level memory without one.
func (r *ClientRun) common(s *State, ev *Event) {
	o := written(s, ev)
	if o == nil || !s.isGlobal(o) || guarded(s) {
		return
	}
	r.bad("C18", "nothing-in-common", ev.Pos, s, "writes to %s, which all connections have in common, without holding a lock they have in common", o.id)
	if strings.Contains(strings.ToLower(r.name), "binary") && ev.Kind == "fillbuf" {
		r.bad("C10", "used-by-one-command", ev.Pos, s, "a header is read into or built in %s, which the commands of all connections use at once", o.id)
	}
}

func (t *Term) staleSym() *Term {
	var f *Term
	t.walk(func(x *Term) bool {
		if x.Op == OSym && x.sym != nil && x.sym.Origin == "stale" {
			f = x
		}
		return f == nil
	})
	return f
}
func (t *Term) hasStale() bool { return t.staleSym() != nil }

func (r *ClientRun) onField(s *State, ev *Event, write bool) {
	p := ev.A
	if p.Op != OPtr || len(p.Args) == 0 || p.Args[0].Op != OObj || p.Args[0].S != r.recvO || p.S == "" {
		return
	}
	f := p.S
	if i := strings.IndexByte(f, '/'); i >= 0 {
		f = f[:i]
	}
	l := r.acc.fields[f]
	excl := map[string]bool{}
	for k, x := range heldLocks(s) {
		if x || !write {
			excl[k] = true
		}
	}
	r.acc.add(&l, accEv{op: r.name, pos: ev.Pos, locks: excl, write: write, st: s.clone()}, "f"+f)
	r.acc.fields[f] = l
}

func (r *ClientRun) onStore(s *State, ev *Event) {
	r.onField(s, ev, true)
	if ev.Kind == "store" && ev.A.Op == OPtr && ev.A.Args[0].Op == OObj {
		if o := s.obj(ev.A.Args[0].S); o != nil && o.origin == "caller" {
			r.bad("C08", "caller-memory-unchanged", ev.Pos, s, "writes to memory of its caller (%s)", o.id)
		}
		if s.ghost["m:put:"+ev.A.Args[0].S] != nil {
			r.bad("C10", "no-use-after-put", ev.Pos, s, "writes to a header that has been given back to the pool")
		}
	}
}

func (r *ClientRun) onPut(s *State, ev *Event) {
	v := ev.B
	if v.Op == OIface {
		v = v.Args[0]
	}
	o, _, ok := s.objOf(v)
	if !ok {
		return
	}
	if s.ghost["m:put:"+o.id] != nil {
		r.bad("C10", "put-once", ev.Pos, s, "a header is given back to its pool twice")
		return
	}
	r.ok("C10", "put-once")
	s.ghost["m:put:"+o.id] = tTrue
	s.eng.stalePool(s, v)
}

func (r *ClientRun) timeout(s *State) *Term {
	st := r.ct.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Timeout" {
			o := s.obj(r.recvO)
			return s.loadCell(o, fmt.Sprint(i), st.Field(i).Type())
		}
	}
	return nil
}

func (r *ClientRun) onDeadline(s *State, ev *Event) {
	t := r.timeout(s)
	if t == nil {
		return
	}
	good := ev.B.Op == OApp && ev.B.S == "timeadd" && strings.HasPrefix(ev.B.Args[0].S, "now") && s.decide(EqInt(ev.B.Args[1], t)) == 1
	noTimeout := s.decide(Le0(t)) == 1
	if !good && !noTimeout {
		r.bad("C09", "deadline-is-timeout", ev.Pos, s, "%s(%s) although the configured timeout is %s", ev.S, ev.B, t)
		return
	}
	if ev.A.S != r.conn {
		return
	}
	locked := false
	for _, excl := range heldLocks(s) {
		locked = locked || excl
	}
	if !locked && !noTimeout {
		r.bad("C09", "deadline-not-extended", ev.Pos, s, "%s without holding the lock of the connection, in the middle of another command", ev.S)
		return
	}
	if s.ghost["m:io"] != nil && !noTimeout {
		r.bad("C09", "deadline-not-extended", ev.Pos, s, "%s in the middle of the command", ev.S)
		return
	}
	if good {
		r.ok("C09", "deadline-is-timeout")
		if ev.S != "SetWriteDeadline" {
			s.ghost["m:dlr"] = tTrue
		}
		if ev.S != "SetReadDeadline" {
			s.ghost["m:dlw"] = tTrue
		}
	}
}

func (r *ClientRun) deadlines(s *State, ev *Event) {
	if ev.A.S != r.conn {
		return
	}
	s.ghost["m:io"] = tTrue
	t := r.timeout(s)
	if t == nil {
		r.bad("C09", "anchor", ev.Pos, s, "no Timeout field")
		return
	}
	if s.ghost["m:dlr"] != nil && s.ghost["m:dlw"] != nil || s.decide(Le0(t)) == 1 {
		r.ok("C09", "armed-before-io")
		return
	}
	r.bad("C09", "armed-before-io", ev.Pos, s, "I/O on the connection while a timeout may be configured and the %s deadline is not armed", map[bool]string{true: "write", false: "read"}[s.ghost["m:dlr"] != nil])
}

func (r *ClientRun) outBytes(s *State) *Term {
	o := s.ghost["out:"+r.conn]
	if o == nil {
		o = tEmpty
	}
	return o
}

// beforeWrite: the key has been checked.
func (r *ClientRun) beforeWrite(s *State, ev *Event) {
	if s.ghost["m:wrote"] != nil {
		return
	}
	s.ghost["m:wrote"] = tTrue
	if r.key != nil {
		if why := r.keyValid(s, r.key); why != "" {
			r.bad("C17", "key-checked-before-write", ev.Pos, s, "a request is written although the key %s", why)
		} else {
			r.ok("C17", "key-checked-before-write")
		}
	}
	for i, k := range r.keys {
		if why := r.keyValid(s, k); why != "" {
			r.bad("C17", "key-checked-before-write", ev.Pos, s, "a request is written although key %d of the list %s", i, why)
		} else {
			r.ok("C17", "key-checked-before-write")
		}
	}
}

func (r *ClientRun) keyValid(s *State, k *Term) string {
	n := StrLen(k)
	if !s.cons.entails(AddC(neg(n), 1)) {
		return "may be empty"
	}
	if !s.cons.entails(AddC(n, -250)) {
		return "may be longer than 250 bytes"
	}
	if r.ct.Proto == "binary" {
		return ""
	}
	for b := 0; b < 256; b++ {
		if !keyByte(byte(b)) && strMayS(s, k, byte(b)) {
			return fmt.Sprintf("may contain the byte 0x%02x", b)
		}
	}
	return ""
}

// multiCounts: the numbers of keys a multi-get is looked at with.
func multiCounts(mode string) []int {
	if os.Getenv("GM_TIER") == "thorough" && mode == "T" {
		return []int{0, 1, 2, 3}
	}
	if mode == "U" {
		return []int{1}
	}
	return []int{0, 1, 2}
}

// beforeRead: the whole request has been handed over, and it is the right one.
func (r *ClientRun) beforeRead(s *State, ev *Event) {
	if s.ghost["m:read"] != nil {
		return
	}
	s.ghost["m:read"] = tTrue
	out := r.outBytes(s)
	s.ghost["m:out"] = out
	if r.mode != "T" || ev.S == "fail" {
		return
	}
	for id, o := range r.bufWriters(s) {
		_ = id
		if o.cells["buf"] != tEmpty {
			r.bad("C03", "flushed-before-read", ev.Pos, s, "reads the reply while %s has not been flushed", o.cells["buf"])
			return
		}
	}
	r.ok("C03", "flushed-before-read")
	r.checkRequest(s, out, ev.Pos)
}

func (r *ClientRun) bufWriters(s *State) map[string]*Obj {
	m := map[string]*Obj{}
	s.reach(func(id string) {
		if o := s.obj(id); o != nil && o.ext == "bufw" {
			m[id] = o
		}
	})
	return m
}

func (r *ClientRun) checkRequest(s *State, out *Term, pos token.Pos) {
	ok, exp := r.requestOK(s, out)
	if ok {
		r.sent(out, pos)
		r.ok("C03", "exact-request")
		if r.multi {
			r.ok("C12", "keys-requested-once")
		}
		if r.key != nil {
			r.ok("C17", "key-sent-as-given")
		}
		return
	}
	r.bad("C03", "exact-request", pos, s, "sends %s, not %s", out, exp)
	if r.key != nil && out != tEmpty {
		whole := out == r.key
		for _, p := range segs(out) {
			whole = whole || p == r.key
		}
		if !whole {
			r.bad("C17", "key-sent-as-given", pos, s, "the key is not sent as it is, but becomes part of %s", out)
		}
	}
	if r.multi {
		r.bad("C12", "keys-requested-once", pos, s, "sends %s, not %s", out, exp)
	}
}

// ---- return ----

func (r *ClientRun) Return(s *State, res *Term) {
	r.rep.paths[r.name]++
	pos := token.NoPos
	if s.trace != nil {
		pos = s.trace.pos
	}
	// C02
	for l := range heldLocks(s) {
		r.bad("C02", "released-on-return", pos, s, "returns with %s held", r.lockName(l))
	}
	if len(heldLocks(s)) == 0 {
		r.ok("C02", "released-on-return")
	}
	var errv *Term
	n := r.fn.Signature.Results().Len()
	if n > 0 && isErrorType(r.fn.Signature.Results().At(n-1).Type()) {
		errv = res
		if n > 1 {
			errv = res.Args[n-1]
		}
	}
	if errv == nil {
		return
	}
	d := s.decide(isNilTerm(errv))
	if d < 0 {
		t := s.clone()
		t.assume(isNilTerm(errv), true)
		if !t.dead && t.cons.feasible() {
			r.returned(t, res, errv, true, pos)
		}
		s.assume(isNilTerm(errv), false)
		if !s.dead {
			r.returned(s, res, errv, false, pos)
		}
		return
	}
	r.returned(s, res, errv, d == 1, pos)
}

func (r *ClientRun) lockName(l string) string {
	n := strings.TrimPrefix(l, "lock:")
	if id, err := strconv.Atoi(n); err == nil && id <= len(allTerms) {
		t := allTerms[id-1]
		if t.Op == OPtr && t.Args[0].Op == OObj && t.Args[0].S == r.recvO {
			st := r.ct.T.Underlying().(*types.Struct)
			if i, err := strconv.Atoi(strings.SplitN(t.S, "/", 2)[0]); err == nil && i < st.NumFields() {
				return st.Field(i).Name()
			}
		}
		return t.String()
	}
	return l
}

func (r *ClientRun) returned(s *State, res, errv *Term, isNil bool, pos token.Pos) {
	// C07
	if s.ghost["failed:"+r.conn] != nil {
		r.rep.check("C07", "failure-is-reported", r.name, !isNil, pos, s, "returns without error although the connection failed")
		r.rep.check("C13", "closed-after-failure", r.name, s.ghost["closed:"+r.conn] == tTrue, pos, s, "the connection is still open after it has failed")
	} else if gstr(s, "e:out") == "alien" && r.mode == "T" {
		r.rep.check("C07", "failure-is-reported", r.name, !isNil, pos, s, "returns without error although the reply could not be understood (%s)", s.ghost["e:tok"])
	}
	// C08: memory of the caller
	for id, o := range r.init {
		c := s.obj(id)
		if c == nil {
			continue
		}
		same := len(c.cells) == len(o.cells)
		for k, v := range o.cells {
			if c.cells[k] != v && !(o.isList) {
				same = false
			}
		}
		if o.isList {
			same = len(c.list) == len(o.list)
			for i := 0; same && i < len(o.list); i++ {
				same = c.list[i].Elem == o.list[i].Elem
			}
		}
		r.rep.check("C08", "caller-memory-unchanged", r.name, same, pos, s, "%s of the caller may have been modified", id)
	}
	if r.mode != "T" {
		return
	}
	out := r.outBytes(s)
	if s.ghost["failed:"+r.conn] != nil {
		return
	}
	if s.ghost["m:read"] == nil {
		// nothing was read: the command was refused
		if out != tEmpty || s.ghost["m:wrote"] != nil {
			r.bad("C04", "reply-read-completely", pos, s, "returns without reading the reply to the request it sent")
			return
		}
		if isNil {
			if r.multi && r.nkeys == 0 {
				return
			}
			r.bad("C03", "exact-request", pos, s, "returns success without sending a request")
			return
		}
		r.refused(s, pos)
		return
	}
	if s.ghost["m:out"] != out {
		r.bad("C03", "one-request", pos, s, "writes %s after it began to read the reply", out)
		return
	}
	// C04
	rp := gstr(s, "e:rp")
	in := s.connIn(r.conn)
	if gstr(s, "e:out") == "alien" {
		// not the reply of this command: how much of it is read does not matter
	} else if rp == "done" && (in == tEmpty || s.cons.entails(StrLen(in))) {
		r.ok("C04", "reply-read-completely")
	} else {
		rest := "the rest of the reply"
		if s.connIn(r.conn) != tEmpty {
			rest = s.connIn(r.conn).String()
		}
		r.bad("C04", "reply-read-completely", pos, s, "returns before it has read %s (reply: %s)", rest, s.ghost["e:tok"])
		if r.multi && isNil {
			r.bad("C12", "reads-to-the-end", pos, s, "returns before it has read %s", rest)
		}
		if !r.multi && r.want(s, gstr(s, "e:out")) == "ok" && !isNil {
			r.bad("C05", "success-is-success", pos, s, "returns an error although the server confirmed the command with %s", s.ghost["e:tok"])
			switch r.op {
			case "Get", "Increment", "Decrement", "Version":
				r.bad("C11", "decoded-without-failure", pos, s, "fails to decode the reply %s", s.ghost["e:tok"])
			}
		}
		return
	}
	r.outcome(s, res, errv, isNil, pos)
}

// refused: an error without I/O is only given for keys that can not be sent.
func (r *ClientRun) refused(s *State, pos token.Pos) {
	var valid bool
	switch {
	case r.key != nil:
		valid = r.couldBeValid(s, r.key)
	case r.keys != nil:
		valid = true
		for _, k := range r.keys {
			valid = valid && r.couldBeValid(s, k)
		}
	default:
		valid = true
	}
	if s.ghost["closed:"+r.conn] == tTrue {
		return
	}
	if valid {
		r.bad("C17", "valid-keys-accepted", pos, s, "refuses a command whose key may be valid")
	} else {
		r.ok("C17", "valid-keys-accepted")
	}
}

// couldBeValid: the state allows the key to be one that can be sent.
func (r *ClientRun) couldBeValid(s *State, k *Term) bool {
	t := s.clone()
	n := StrLen(k)
	t.assume(Le0(AddC(neg(n), 1)), true)
	t.assume(Le0(AddC(n, -250)), true)
	if t.dead || !t.cons.feasible() {
		return false
	}
	if r.ct.Proto == "binary" {
		return true
	}
	return !t.hasInvalidByte(k)
}

// hasInvalidByte: some byte of k is known to be outside of the bytes of a key.
func (s *State) hasInvalidByte(k *Term) bool {
	return s.mustHave(k, func(b byte) bool { return !keyByte(b) })
}

func (r *ClientRun) finish() {
	e := r.e
	for _, o := range e.obligs {
		if o.bad > 0 {
			s := &State{trace: o.trace}
			r.rep.bad("C16", "no-panic", r.name+" "+short(o.fn)+" "+o.kind, o.pos, s, "%s: %s is not established", o.text, o.why)
		} else {
			r.rep.ok("C16", "no-panic", r.name+" "+short(o.fn)+" "+o.kind)
		}
	}
	var ms []string
	for m := range e.problems {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		p := "C03"
		if r.mode == "U" {
			p = "C16"
		} else {
			for t := e.problems[m]; t != nil; t = t.prev {
				if strings.HasPrefix(t.text, "the server replies") {
					p = "C04"
				}
			}
		}
		r.rep.bad(p, "followed", r.name, e.probPos[m], &State{trace: e.problems[m]}, "the analysis could not follow the code: %s", m)
	}
}
