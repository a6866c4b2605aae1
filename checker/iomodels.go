package main

import (
	"fmt"
	"go/types"
	"strings"
)

// IOEnv supplies the input of connections.
type IOEnv interface {
	// Pull extends the input of conn (ghost "in:<conn>"); it returns no state if nothing more will come.
	Pull(e *Engine, s *State, conn string) []*State
	// Arbitrary reports that input is any bytes.
	Arbitrary() bool
}

type Env struct {
	io      IOEnv
	dropOut bool // what is written is not kept
}

func (s *State) connIn(conn string) *Term {
	if t, ok := s.ghost["in:"+conn]; ok {
		return t
	}
	return tEmpty
}

func connSym(name string) *Term {
	return Sym(name, nil, &SymInfo{NonNil: true, Origin: "conn"})
}

func isConn(t *Term) bool { return t.Op == OSym && t.sym != nil && t.sym.Origin == "conn" }

// plan runs one transfer on a reader or writer: a value of the module is called, a connection is accessed.
// k gets the outcome and the base connection.
func (e *Engine) transfer(s *State, c *call, v *Term, dir string, content *Term, k func(s *State, conn *Term, err *Term) []*State) []*State {
	if isConn(v) {
		var out []*State
		if s.ghost["closed:"+v.S] != tTrue {
			ok := s.clone()
			e.connEvent(ok, c, v, dir, content, true)
			if !ok.dead {
				out = append(out, k(ok, v, tNil)...)
			}
		}
		s.note(c.pos, "%s fails", dir)
		e.connEvent(s, c, v, dir, content, false)
		if !s.dead {
			out = append(out, k(s, v, s.ioErr(dir))...)
		}
		return out
	}
	if v.Op == OIface {
		name := "Read"
		if dir == "write" {
			name = "Write"
		}
		m := e.P.methodByName(v.T, name)
		if m == nil || len(m.Blocks) == 0 || !e.P.inline(m) {
			e.problem(s, c.pos, "%s on a %s is not analysed", dir, v.T)
			return k(s, v, tNil)
		}
		var out []*State
		for _, ok := range []bool{true, false} {
			st := s
			if ok {
				st = s.clone()
			}
			st.ghost["io:plan"] = Bool(ok)
			n := Sym(st.newName("iolen"), tIntT, &SymInfo{HasLo: true, HasHi: true, Hi: 1 << 40})
			var buf *Term
			if dir == "write" {
				buf = st.newBytes(c.newID(st, ".w"), content, "fresh")
			} else {
				x := Sym(st.newName("iobuf"), tString, nil)
				buf = st.newBytes(c.newID(st, ".r"), x, "fresh")
				st.assume(EqInt(StrLen(x), n), true)
				st.assume(Le0(lin(1, -1, n)), true)
			}
			if !ok {
				st.note(c.pos, "%s fails", dir)
			}
			okc := ok
			r := e.callFn(st, c, mk(OFn, "", 0, nil, m, nil), []*Term{v.Args[0], buf}, ".io"+fmt.Sprint(okc), func(st *State, res *Term) []*State {
				conn := st.ghost["io:conn"]
				delete(st.ghost, "io:plan")
				delete(st.ghost, "io:conn")
				if conn == nil {
					e.event(st, &Event{Kind: "notransfer", Pos: c.pos, S: dir, Fn: m, In: c.in})
					st.dead = true
					return nil
				}
				if conn.Op == ONil {
					st.dead = true // the plan does not fit the state of the connection
					return nil
				}
				if !okc {
					return k(st, conn, st.ioErr(dir))
				}
				// the wrapper must pass on the outcome
				er := tNil
				if res.Op == OTuple && len(res.Args) == 2 {
					er = res.Args[1]
				}
				if d := st.decide(isNilTerm(er)); d != 1 {
					e.event(st, &Event{Kind: "wrapper", Pos: c.pos, S: dir, Fn: m, In: c.in})
				}
				if res.Op == OTuple && len(res.Args) == 2 && st.ghost["io:n"] != nil && st.decide(EqInt(res.Args[0], st.ghost["io:n"])) != 1 {
					e.event(st, &Event{Kind: "wrapper", Pos: c.pos, S: dir, Fn: m, In: c.in})
				}
				return k(st, conn, tNil)
			})
			out = append(out, r...)
		}
		return out
	}
	e.event(s, &Event{Kind: "unknownio", Pos: c.pos, S: dir, A: v, In: c.in})
	var out []*State
	ok := s.clone()
	out = append(out, k(ok, v, tNil)...)
	out = append(out, k(s, v, s.ioErr(dir))...)
	return out
}

// out is what is in a buffer after a write.
func (e *Engine) out(o, content *Term) *Term {
	if e.env != nil && e.env.dropOut {
		if o == tEmpty && content == tEmpty {
			return o
		}
		return Lit("?") // something
	}
	return Cat(o, content)
}

func (e *Engine) connEvent(s *State, c *call, conn *Term, dir string, content *Term, ok bool) {
	st := "ok"
	if !ok {
		st = "fail"
	}
	e.event(s, &Event{Kind: "conn" + dir, Pos: c.pos, A: conn, B: content, S: st, In: c.in})
	if dir == "write" && ok && !(e.env != nil && e.env.dropOut) {
		o := s.ghost["out:"+conn.S]
		if o == nil {
			o = tEmpty
		}
		s.ghost["out:"+conn.S] = e.out(o, content)
	}
	if !ok {
		s.ghost["failed:"+conn.S] = tTrue
	}
}

// connMethod models the methods of net.Conn on a base connection.
func (e *Engine) connMethod(s *State, c *call, name string) []*State {
	conn := c.args[0]
	if !isConn(conn) {
		if h, ok := e.hooks.(interface {
			Unknown(e *Engine, s *State, c *call) ([]*State, bool)
		}); ok {
			if r, done := h.Unknown(e, s, c); done {
				return r
			}
		}
	}
	switch name {
	case "Read", "Write":
		dir := strings.ToLower(name)
		buf := c.args[1]
		if plan := s.ghost["io:plan"]; plan != nil {
			// part of a buffered transfer
			n := sliceLen(buf)
			if plan == tTrue && s.ghost["closed:"+conn.S] == tTrue {
				s.ghost["io:conn"] = tNil
				return c.ret(s, Tuple(tZero, s.ioErr(dir)))
			}
			s.ghost["io:conn"] = conn
			if plan == tTrue {
				content := tEmpty
				if dir == "write" {
					content = s.bytesOf(buf)
				}
				e.connEvent(s, c, conn, dir, content, true)
				s.ghost["io:n"] = n
				return c.ret(s, Tuple(n, tNil))
			}
			e.connEvent(s, c, conn, dir, tEmpty, false)
			return c.ret(s, Tuple(tZero, s.ioErr(dir)))
		}
		if dir == "write" {
			content := s.bytesOf(buf)
			return e.transfer(s, c, conn, "write", content, func(s *State, _, err *Term) []*State {
				if err.Op != ONil {
					return c.ret(s, Tuple(tZero, err))
				}
				return c.ret(s, Tuple(sliceLen(buf), tNil))
			})
		}
		return e.transfer(s, c, conn, "read", nil, func(s *State, _, err *Term) []*State {
			if err.Op != ONil {
				return c.ret(s, Tuple(tZero, err))
			}
			return e.readSome(s, c, conn, buf)
		})
	case "Close":
		s.note(c.pos, "%s is closed", conn.S)
		e.event(s, &Event{Kind: "connclose", Pos: c.pos, A: conn, In: c.in})
		s.ghost["closed:"+conn.S] = tTrue
		return c.ret(s, Sym(s.newName("closeerr"), errType, &SymInfo{Origin: "ioerr"}))
	case "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
		e.event(s, &Event{Kind: "deadline", Pos: c.pos, A: conn, B: c.args[1], S: name, In: c.in})
		return c.ret(s, Sym(s.newName("dlerr"), errType, &SymInfo{Origin: "ioerr"}))
	}
	return c.ret(s, e.unknownResult(s, c))
}

// readSome fills a prefix of buf with what is next.
func (e *Engine) readSome(s *State, c *call, conn *Term, buf *Term) []*State {
	n := Sym(s.newName("nread"), tIntT, &SymInfo{HasLo: true})
	s.assume(Le0(Sub2(n, sliceLen(buf))), true)
	s.assume(Le0(lin(1, -1, n)), true)
	if s.dead {
		return nil
	}
	return e.take(s, c, conn, n, true, func(s *State, data *Term, err *Term) []*State {
		if err.Op != ONil {
			return c.ret(s, Tuple(tZero, err))
		}
		s.writeInto(buf, tZero, n, data)
		return c.ret(s, Tuple(n, tNil))
	})
}

// writeInto puts data at v[lo:hi].
func (s *State) writeInto(v, lo, hi, data *Term) {
	base, l, _, _, ok := s.sliceParts(v, types.NewSlice(types.Typ[types.Uint8]))
	if !ok || base == nil {
		return
	}
	o, p, ok := s.objOf(base)
	if !ok || o.isList {
		return
	}
	ct := s.content(o, p)
	nc, ok := s.replaceBytes(ct, Add(l, lo), Add(l, hi), data)
	if !ok {
		nc = s.unknownBytes(StrLen(ct))
	}
	w := s.wr(o.id)
	w.cells[p] = nc
}

// take consumes n bytes of the input of conn.
func (e *Engine) take(s *State, c *call, conn *Term, n *Term, consume bool, k func(s *State, data, err *Term) []*State) []*State {
	if e.env == nil || e.env.io == nil || e.env.io.Arbitrary() || !isConn(conn) {
		return k(s, e.wire(s, n), tNil)
	}
	var out []*State
	work := []*State{s}
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		if st.dead {
			continue
		}
		in := st.connIn(conn.S)
		d := Sub2(n, StrLen(in))
		y, no := e.fork2(st, Le0(d))
		if y != nil {
			data := y.slice(in, tZero, n)
			if consume {
				y.ghost["in:"+conn.S] = y.slice(in, n, StrLen(in))
				e.event(y, &Event{Kind: "consumed", Pos: c.pos, A: conn, B: data, In: c.in})
			}
			out = append(out, k(y, data, tNil)...)
		}
		if no != nil {
			next := e.env.io.Pull(e, no, conn.S)
			if len(next) == 0 {
				no.note(c.pos, "waits for more input than there is")
				e.event(no, &Event{Kind: "overread", Pos: c.pos, A: conn, In: c.in})
				if !no.dead {
					no.dead = true
				}
				continue
			}
			work = append(work, next...)
		}
	}
	return out
}

// wire is n unknown bytes.
func (e *Engine) wire(s *State, n *Term) *Term {
	if n.constIs(0) {
		return tEmpty
	}
	x := Sym(s.newName("wire"), tString, &SymInfo{})
	if n.isConst() {
		x.sym = &SymInfo{MinLen: n.N, MaxLen: n.N}
	}
	s.assume(EqInt(StrLen(x), n), true)
	return x
}

// takeLine consumes up to and including a delimiter.
func (e *Engine) takeLine(s *State, c *call, conn *Term, delim byte, k func(s *State, data, err *Term) []*State) []*State {
	if e.env == nil || e.env.io == nil || e.env.io.Arbitrary() || !isConn(conn) {
		x := Sym(s.newName("wireline"), tString, &SymInfo{Charset: func(b byte) bool { return b != delim }, MaxLen: 1 << 30})
		return k(s, Cat(x, Lit(string([]byte{delim}))), tNil)
	}
	var out []*State
	work := []*State{s}
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		if st.dead {
			continue
		}
		in := st.connIn(conn.S)
		i, found := st.indexByte(in, delim)
		switch found {
		case 1:
			data := st.slice(in, tZero, AddC(i, 1))
			st.ghost["in:"+conn.S] = st.slice(in, AddC(i, 1), StrLen(in))
			e.event(st, &Event{Kind: "consumed", Pos: c.pos, A: conn, B: data, In: c.in})
			out = append(out, k(st, data, tNil)...)
		case 0:
			next := e.env.io.Pull(e, st, conn.S)
			if len(next) == 0 {
				st.note(c.pos, "waits for more input than there is")
				e.event(st, &Event{Kind: "overread", Pos: c.pos, A: conn, In: c.in})
				st.dead = true
				continue
			}
			work = append(work, next...)
		default:
			st.note(c.pos, "reads a line where a data block is")
			e.event(st, &Event{Kind: "misread", Pos: c.pos, A: conn, In: c.in})
			st.dead = true
		}
	}
	return out
}

// ---- readers and writers ----

// ioObj resolves a reader or writer value: its kind and object.
func (e *Engine) ioObj(s *State, v *Term, t types.Type) (kind string, o *Obj, val *Term) {
	if v.Op == OIface {
		t, v = v.T, v.Args[0]
	}
	if t != nil {
		switch types.TypeString(t, nil) {
		case "*bufio.ReadWriter":
			return "rw", nil, v
		case "*bufio.Reader":
			kind = "bufr"
		case "*bufio.Writer":
			kind = "bufw"
		case "*bytes.Buffer", "*strings.Builder":
			kind = "buffer"
		case "*bytes.Reader", "*strings.Reader":
			kind = "static"
		case "*io.LimitedReader":
			kind = "limited"
		}
	}
	if kind == "" {
		return "", nil, v
	}
	ob, p, ok := s.objOf(v)
	if !ok {
		return "", nil, v
	}
	if p != "" || ob.ext == "" {
		// a value embedded in a struct (bytes.Buffer, strings.Builder): an object of its own
		id := ob.id + "!" + p
		q := s.obj(id)
		if q == nil {
			q = s.newObj(id, nil)
			q.ext = kind
			q.origin = ob.origin
			if kind == "buffer" {
				q.cells["buf"] = tEmpty
			}
			if ob.lazy != nil {
				q.cells["buf"] = Sym(s.newName("buffered"), tString, nil)
				if kind == "bufr" || kind == "bufw" {
					q.cells["src"] = Sym(s.newName("src"), nil, nil)
					q.cells["dst"] = q.cells["src"]
					q.cells["err"] = tNil
					q.cells["last"] = tNil
				}
			}
			s.wr(ob.id).cells["ext!"+p] = Ptr(Obj_(id), "")
		}
		return kind, q, v
	}
	return kind, ob, v
}

func (e *Engine) rwPart(s *State, v *Term, i int) *Term {
	o, p, ok := s.objOf(v)
	if !ok {
		return tNil
	}
	path := joinPath(p, fmt.Sprint(i))
	if x, ok := o.cells[path]; ok {
		return x
	}
	return s.loadCell(o, path, types.NewPointer(types.NewStruct(nil, nil)))
}

// fill makes one read of the source of a buffered reader.
func (e *Engine) fill(s *State, c *call, r *Obj, k func(s *State, conn, err *Term) []*State) []*State {
	id := r.id
	src := r.cells["src"]
	s.invalidate(id)
	e.event(s, &Event{Kind: "bufread", Pos: c.pos, Obj: r, A: src, In: c.in})
	return e.transfer(s, c, src, "read", nil, k)
}

// invalidate: the slice that was handed out last is overwritten.
func (s *State) invalidate(id string) {
	r := s.obj(id)
	l := r.cells["last"]
	if l == nil || l.Op == ONil {
		return
	}
	if o := s.obj(l.Args0().S); o != nil {
		w := s.wr(o.id)
		n := StrLen(w.cells[""])
		x := Sym(s.newName("overwritten"), tString, &SymInfo{Origin: "stale"})
		s.assume(EqInt(StrLen(x), n), true)
		w.cells[""] = x
	}
	s.wr(id).cells["last"] = tNil
}

// readLine models ReadSlice, ReadBytes, ReadString.
func (e *Engine) readLine(s *State, c *call, v *Term, t types.Type, delim byte, k func(s *State, data, err *Term) []*State) []*State {
	kind, o, val := e.ioObj(s, v, t)
	switch kind {
	case "rw":
		return e.readLine(s, c, e.rwPart(s, val, 0), ptrTo("bufio.Reader"), delim, k)
	case "bufr":
		return e.fill(s, c, o, func(s *State, conn, err *Term) []*State {
			if err.Op != ONil {
				return k(s, e.partial(s, delim), err)
			}
			return e.takeLine(s, c, conn, delim, k)
		})
	case "buffer", "static":
		b := s.obj(o.id).cells["buf"]
		i, found := s.indexByte(b, delim)
		switch found {
		case 1:
			d := s.slice(b, tZero, AddC(i, 1))
			s.wr(o.id).cells["buf"] = s.slice(b, AddC(i, 1), StrLen(b))
			return k(s, d, tNil)
		case 0:
			s.wr(o.id).cells["buf"] = tEmpty
			return k(s, b, s.ioErr("eof"))
		}
	}
	e.event(s, &Event{Kind: "unknownio", Pos: c.pos, S: "readline", A: v, In: c.in})
	st := s.clone()
	out := k(st, Sym(st.newName("line"), tString, nil), tNil)
	return append(out, k(s, tEmpty, s.ioErr("read"))...)
}

// partial is what a failed read of a line returns besides the error.
func (e *Engine) partial(s *State, delim byte) *Term {
	return Sym(s.newName("partial"), tString, &SymInfo{Charset: func(b byte) bool { return b != delim }})
}

type namedPtr struct{}

var ptrCache = map[string]types.Type{}

// ptrTo returns a pointer type that prints like *name (identity is by name only).
func ptrTo(name string) types.Type {
	if t, ok := ptrCache[name]; ok {
		return t
	}
	i := strings.LastIndex(name, ".")
	pkg := types.NewPackage(name[:i], name[:i])
	t := types.NewPointer(types.NewNamed(types.NewTypeName(0, pkg, name[i+1:], nil), types.NewStruct(nil, nil), nil))
	ptrCache[name] = t
	return t
}

// readFull reads exactly n bytes.
func (e *Engine) readFull(s *State, c *call, v *Term, t types.Type, n *Term, consume bool, k func(s *State, data, err *Term) []*State) []*State {
	kind, o, val := e.ioObj(s, v, t)
	switch kind {
	case "rw":
		return e.readFull(s, c, e.rwPart(s, val, 0), ptrTo("bufio.Reader"), n, consume, k)
	case "bufr":
		return e.fill(s, c, o, func(s *State, conn, err *Term) []*State {
			if err.Op != ONil {
				return k(s, nil, err)
			}
			return e.take(s, c, conn, n, consume, k)
		})
	case "buffer", "static":
		b := s.obj(o.id).cells["buf"]
		return e.forkOn(s, Le0(Sub2(n, StrLen(b))), func(s *State) []*State {
			d := s.slice(b, tZero, n)
			if consume {
				s.wr(o.id).cells["buf"] = s.slice(b, n, StrLen(b))
			}
			return k(s, d, tNil)
		}, func(s *State) []*State { return k(s, nil, s.ioErr("eof")) })
	}
	return e.transfer(s, c, v, "read", nil, func(s *State, conn, err *Term) []*State {
		if err.Op != ONil {
			return k(s, nil, err)
		}
		return e.take(s, c, conn, n, consume, k)
	})
}

// write models writing content to a writer; k gets an error or nil.
func (e *Engine) write(s *State, c *call, v *Term, t types.Type, content *Term, k func(s *State, err *Term) []*State) []*State {
	kind, o, val := e.ioObj(s, v, t)
	switch kind {
	case "rw":
		return e.write(s, c, e.rwPart(s, val, 1), ptrTo("bufio.Writer"), content, k)
	case "bufw":
		w := s.obj(o.id)
		if w.cells["err"].Op != ONil {
			return k(s, w.cells["err"])
		}
		e.event(s, &Event{Kind: "bufwrite", Pos: c.pos, Obj: w, B: content, A: w.cells["dst"], In: c.in})
		// it may have to be flushed on the way, which may fail
		bad := s.clone()
		ow := s.wr(o.id)
		ow.cells["buf"] = e.out(ow.cells["buf"], content)
		out := k(s, tNil)
		if bad.ghost["faulted"] == tTrue || content == tEmpty {
			return out
		}
		out = append(out, e.transfer(bad, c, w.cells["dst"], "write", tEmpty, func(s *State, conn, err *Term) []*State {
			if err.Op == ONil {
				return nil // the same as writing to the buffer
			}
			s.wr(o.id).cells["err"] = err
			return k(s, err)
		})...)
		return out
	case "buffer":
		w := s.wr(o.id)
		w.cells["buf"] = Cat(w.cells["buf"], content)
		return k(s, tNil)
	}
	return e.transfer(s, c, v, "write", content, func(s *State, conn, err *Term) []*State { return k(s, err) })
}

func (e *Engine) flush(s *State, c *call, v *Term, t types.Type, k func(s *State, err *Term) []*State) []*State {
	kind, o, val := e.ioObj(s, v, t)
	switch kind {
	case "rw":
		return e.flush(s, c, e.rwPart(s, val, 1), ptrTo("bufio.Writer"), k)
	case "bufw":
		w := s.obj(o.id)
		if w.cells["err"].Op != ONil {
			return k(s, w.cells["err"])
		}
		content := w.cells["buf"]
		e.event(s, &Event{Kind: "flush", Pos: c.pos, Obj: w, B: content, A: w.cells["dst"], In: c.in})
		if content == tEmpty {
			return k(s, tNil)
		}
		return e.transfer(s, c, w.cells["dst"], "write", content, func(s *State, conn, err *Term) []*State {
			if err.Op != ONil {
				s.wr(o.id).cells["err"] = err
				return k(s, err)
			}
			s.wr(o.id).cells["buf"] = tEmpty
			return k(s, tNil)
		})
	}
	e.event(s, &Event{Kind: "unknownio", Pos: c.pos, S: "flush", A: v, In: c.in})
	return k(s, Sym(s.newName("flusherr"), errType, &SymInfo{Origin: "ioerr"}))
}

func (e *Engine) newReader(s *State, c *call, src *Term) *Term {
	o := s.newObj(c.newID(s, ".bufr"), nil)
	o.ext = "bufr"
	o.origin = "fresh"
	o.cells["src"] = src
	o.cells["last"] = tNil
	return Ptr(Obj_(o.id), "")
}
func (e *Engine) newWriter(s *State, c *call, dst *Term) *Term {
	o := s.newObj(c.newID(s, ".bufw"), nil)
	o.ext = "bufw"
	o.origin = "fresh"
	o.cells["dst"] = dst
	o.cells["buf"] = tEmpty
	o.cells["err"] = tNil
	return Ptr(Obj_(o.id), "")
}
func (e *Engine) newStatic(s *State, c *call, content *Term, kind string) *Term {
	o := s.newObj(c.newID(s, ".static"), nil)
	o.ext = kind
	o.origin = "fresh"
	o.cells["buf"] = content
	return Ptr(Obj_(o.id), "")
}

func initIOModels() {
	reg := func(f modelFn, names ...string) {
		for _, n := range names {
			models[n] = f
		}
	}
	for _, m := range []string{"Read", "Write", "Close", "SetDeadline", "SetReadDeadline", "SetWriteDeadline", "LocalAddr", "RemoteAddr"} {
		m := m
		reg(func(e *Engine, s *State, c *call) []*State { return e.connMethod(s, c, m) }, "invoke:net.Conn."+m)
	}
	for _, it := range []string{"io.Reader", "io.ReadWriter", "io.ReadCloser", "io.ReadWriteCloser"} {
		reg(func(e *Engine, s *State, c *call) []*State { return e.connMethod(s, c, "Read") }, "invoke:"+it+".Read")
	}
	for _, it := range []string{"io.Writer", "io.ReadWriter", "io.WriteCloser", "io.ReadWriteCloser"} {
		reg(func(e *Engine, s *State, c *call) []*State { return e.connMethod(s, c, "Write") }, "invoke:"+it+".Write")
	}
	for _, it := range []string{"io.Closer", "io.ReadCloser", "io.WriteCloser", "io.ReadWriteCloser"} {
		reg(func(e *Engine, s *State, c *call) []*State { return e.connMethod(s, c, "Close") }, "invoke:"+it+".Close")
	}
	dial := func(n, a int) modelFn {
		return func(e *Engine, s *State, c *call) []*State {
			bad := s.clone()
			nw, ad := c.args[n], c.args[a]
			conn := connSym(s.newName("conn"))
			e.event(s, &Event{Kind: "dial", Pos: c.pos, A: nw, B: ad, C: conn, S: "ok", In: c.in})
			var out []*State
			if !s.dead {
				out = append(out, c.ret(s, Tuple(conn, tNil))...)
			}
			bad.note(c.pos, "dialing fails")
			e.event(bad, &Event{Kind: "dial", Pos: c.pos, A: nw, B: ad, S: "fail", In: c.in})
			if !bad.dead {
				out = append(out, c.ret(bad, Tuple(tNil, bad.ioErr("dial")))...)
			}
			return out
		}
	}
	reg(dial(2, 3), "(*net.Dialer).DialContext")
	reg(dial(1, 2), "(*net.Dialer).Dial")
	reg(dial(0, 1), "net.Dial", "net.DialTimeout")
	// bufio
	reg(func(e *Engine, s *State, c *call) []*State { return c.ret(s, e.newReader(s, c, c.args[0])) }, "bufio.NewReader", "bufio.NewReaderSize")
	reg(func(e *Engine, s *State, c *call) []*State { return c.ret(s, e.newWriter(s, c, c.args[0])) }, "bufio.NewWriter", "bufio.NewWriterSize")
	reg(func(e *Engine, s *State, c *call) []*State {
		o := s.newObj(c.newID(s, ".rw"), c.sig.Results().At(0).Type().(*types.Pointer).Elem())
		o.origin = "fresh"
		o.cells["0"] = c.args[0]
		o.cells["1"] = c.args[1]
		return c.ret(s, Ptr(Obj_(o.id), ""))
	}, "bufio.NewReadWriter")
	reg(func(e *Engine, s *State, c *call) []*State {
		_, o, _ := e.ioObj(s, c.args[0], ptrTo("bufio.Reader"))
		if o != nil {
			w := s.wr(o.id)
			w.cells["src"] = c.args[1]
			delete(w.cells, "junk")
		}
		return c.ret(s, tUnit)
	}, "(*bufio.Reader).Reset")
	reg(func(e *Engine, s *State, c *call) []*State {
		_, o, _ := e.ioObj(s, c.args[0], ptrTo("bufio.Writer"))
		if o != nil {
			w := s.wr(o.id)
			w.cells["dst"], w.cells["buf"], w.cells["err"] = c.args[1], tEmpty, tNil
			delete(w.cells, "junk")
		}
		return c.ret(s, tUnit)
	}, "(*bufio.Writer).Reset")
	recv := func(c *call) types.Type { return c.sig.Recv().Type() }
	line := func(borrow, str, isLine bool) modelFn {
		return func(e *Engine, s *State, c *call) []*State {
			d := byte('\n')
			if !isLine {
				if !c.args[1].isConst() {
					return c.ret(s, e.unknownResult(s, c))
				}
				d = byte(c.args[1].N)
			}
			return e.readLine(s, c, c.args[0], recv(c), d, func(s *State, data, err *Term) []*State {
				var v *Term
				if isLine && err.Op == ONil {
					n := StrLen(data)
					if s.decide(mkSuffix(data, Lit("\r\n"))) == 1 {
						data = s.slice(data, tZero, AddC(n, -2))
					} else {
						data = s.slice(data, tZero, AddC(n, -1))
					}
				}
				switch {
				case str:
					return c.ret(s, Tuple(data, err))
				case borrow:
					v = s.newBytes(c.newID(s, ".b"), data, "borrowed")
					if kind, o, val := e.ioObj(s, c.args[0], recv(c)); o != nil && kind == "bufr" {
						s.wr(o.id).cells["last"] = v.Args[0]
					} else if kind == "rw" {
						if _, o, _ := e.ioObj(s, e.rwPart(s, val, 0), ptrTo("bufio.Reader")); o != nil {
							s.wr(o.id).cells["last"] = v.Args[0]
						}
					}
				default:
					v = s.newBytes(c.newID(s, ".b"), data, "fresh")
				}
				if isLine {
					if err.Op != ONil {
						return c.ret(s, Tuple(tNil, tFalse, err))
					}
					long := s.clone()
					ls := Sym(long.newName("linepart"), tString, nil)
					_ = ls
					_ = long
					return c.ret(s, Tuple(v, tFalse, err))
				}
				return c.ret(s, Tuple(v, err))
			})
		}
	}
	reg(line(true, false, false), "(*bufio.Reader).ReadSlice")
	reg(line(false, false, false), "(*bufio.Reader).ReadBytes", "(*bytes.Buffer).ReadBytes")
	reg(line(false, true, false), "(*bufio.Reader).ReadString", "(*bytes.Buffer).ReadString")
	reg(line(true, false, true), "(*bufio.Reader).ReadLine")
	reg(func(e *Engine, s *State, c *call) []*State {
		return e.readFull(s, c, c.args[0], recv(c), c.args[1], false, func(s *State, data, err *Term) []*State {
			if err.Op != ONil {
				return c.ret(s, Tuple(s.newBytes(c.newID(s, ".p"), Sym(s.newName("partial"), tString, nil), "borrowed"), err))
			}
			v := s.newBytes(c.newID(s, ".p"), data, "borrowed")
			if _, o, _ := e.ioObj(s, c.args[0], recv(c)); o != nil {
				s.wr(o.id).cells["last"] = v.Args[0]
			}
			return c.ret(s, Tuple(v, tNil))
		})
	}, "(*bufio.Reader).Peek")
	reg(func(e *Engine, s *State, c *call) []*State {
		return e.readFull(s, c, c.args[0], recv(c), c.args[1], true, func(s *State, data, err *Term) []*State {
			if err.Op != ONil {
				return c.ret(s, Tuple(tZero, err))
			}
			return c.ret(s, Tuple(c.args[1], tNil))
		})
	}, "(*bufio.Reader).Discard")
	reg(func(e *Engine, s *State, c *call) []*State {
		return e.readFull(s, c, c.args[0], recv(c), tOne, true, func(s *State, data, err *Term) []*State {
			if err.Op != ONil {
				return c.ret(s, Tuple(tZero, err))
			}
			b := s.byteAt(data, tZero)
			if b == nil {
				b = AppT("byteat", types.Typ[types.Uint8], data, tZero)
			}
			return c.ret(s, Tuple(b, tNil))
		})
	}, "(*bufio.Reader).ReadByte", "(*bytes.Reader).ReadByte", "(*bytes.Buffer).ReadByte")
	reg(func(e *Engine, s *State, c *call) []*State {
		kind, o, _ := e.ioObj(s, c.args[0], recv(c))
		buf := c.args[1]
		if kind == "bufr" {
			return e.fill(s, c, o, func(s *State, conn, err *Term) []*State {
				if err.Op != ONil {
					return c.ret(s, Tuple(tZero, err))
				}
				return e.readSome(s, c, conn, buf)
			})
		}
		return c.ret(s, e.unknownResult(s, c))
	}, "(*bufio.Reader).Read")
	reg(func(e *Engine, s *State, c *call) []*State {
		n := Sym(s.newName("buffered"), tIntT, &SymInfo{HasLo: true})
		return c.ret(s, n)
	}, "(*bufio.Reader).Buffered", "(*bufio.Writer).Buffered", "(*bufio.Writer).Available", "(*bufio.Reader).Size", "(*bufio.Writer).Size")
	wr := func(get func(s *State, c *call) *Term, n bool) modelFn {
		return func(e *Engine, s *State, c *call) []*State {
			content := get(s, c)
			return e.write(s, c, c.args[0], recv(c), content, func(s *State, err *Term) []*State {
				if !n {
					return c.ret(s, err)
				}
				if err.Op != ONil {
					return c.ret(s, Tuple(Sym(s.newName("nwritten"), tIntT, &SymInfo{HasLo: true}), err))
				}
				return c.ret(s, Tuple(StrLen(content), tNil))
			})
		}
	}
	bytesArg := func(s *State, c *call) *Term { return s.bytesOf(c.args[1]) }
	strArg := func(s *State, c *call) *Term { return c.args[1] }
	byteArg := func(s *State, c *call) *Term { return ByteSeg(c.args[1]) }
	for _, t := range []string{"(*bufio.Writer)", "(*bytes.Buffer)", "(*strings.Builder)"} {
		reg(wr(bytesArg, true), t+".Write")
		reg(wr(strArg, true), t+".WriteString")
		reg(wr(byteArg, false), t+".WriteByte")
		reg(func(e *Engine, s *State, c *call) []*State {
			if c.args[1].isConst() {
				c.args[1] = Lit(string(rune(c.args[1].N)))
			} else {
				c.args[1] = AppT("runestr", tString, c.args[1])
			}
			return wr(strArg, true)(e, s, c)
		}, t+".WriteRune")
	}
	reg(func(e *Engine, s *State, c *call) []*State {
		return e.flush(s, c, c.args[0], recv(c), func(s *State, err *Term) []*State { return c.ret(s, err) })
	}, "(*bufio.Writer).Flush")
	// in-memory buffers
	reg(func(e *Engine, s *State, c *call) []*State {
		return c.ret(s, e.newStatic(s, c, s.bytesOf(c.args[0]), "static"))
	}, "bytes.NewReader")
	reg(func(e *Engine, s *State, c *call) []*State {
		return c.ret(s, e.newStatic(s, c, s.bytesOf(c.args[0]), "buffer"))
	}, "bytes.NewBuffer")
	reg(func(e *Engine, s *State, c *call) []*State {
		return c.ret(s, e.newStatic(s, c, c.args[0], "buffer"))
	}, "bytes.NewBufferString")
	reg(func(e *Engine, s *State, c *call) []*State {
		return c.ret(s, e.newStatic(s, c, c.args[0], "static"))
	}, "strings.NewReader")
	content := func(e *Engine, s *State, c *call) *Term {
		_, o, _ := e.ioObj(s, c.args[0], recv(c))
		if o == nil {
			return Sym(s.newName("buffer"), tString, nil)
		}
		return s.obj(o.id).cells["buf"]
	}
	reg(func(e *Engine, s *State, c *call) []*State { return c.ret(s, content(e, s, c)) }, "(*bytes.Buffer).String", "(*strings.Builder).String")
	reg(func(e *Engine, s *State, c *call) []*State { return c.ret(s, c.newBytes(s, content(e, s, c))) }, "(*bytes.Buffer).Bytes")
	reg(func(e *Engine, s *State, c *call) []*State { return c.ret(s, StrLen(content(e, s, c))) }, "(*bytes.Buffer).Len", "(*strings.Builder).Len", "(*bytes.Reader).Len", "(*strings.Reader).Len")
	reg(func(e *Engine, s *State, c *call) []*State {
		if _, o, _ := e.ioObj(s, c.args[0], recv(c)); o != nil {
			s.wr(o.id).cells["buf"] = tEmpty
		}
		return c.ret(s, tUnit)
	}, "(*bytes.Buffer).Reset", "(*strings.Builder).Reset")
	reg(func(e *Engine, s *State, c *call) []*State { return c.ret(s, tUnit) }, "(*bytes.Buffer).Grow", "(*strings.Builder).Grow")
	reg(func(e *Engine, s *State, c *call) []*State {
		x := content(e, s, c)
		_, o, _ := e.ioObj(s, c.args[0], recv(c))
		s.wr(o.id).cells["buf"] = tEmpty
		return e.write(s, c, c.args[1], nil, x, func(s *State, err *Term) []*State {
			return c.ret(s, Tuple(StrLen(x), err))
		})
	}, "(*bytes.Buffer).WriteTo")
	// io
	reg(func(e *Engine, s *State, c *call) []*State {
		buf := c.args[1]
		n := sliceLen(buf)
		if n.constIs(0) {
			return c.ret(s, Tuple(tZero, tNil))
		}
		return e.readFull(s, c, c.args[0], nil, n, true, func(s *State, data, err *Term) []*State {
			e.event(s, &Event{Kind: "fillbuf", Pos: c.pos, A: buf, In: c.in})
			if err.Op != ONil {
				m := Sym(s.newName("nread"), tIntT, &SymInfo{HasLo: true})
				s.assume(Le0(AddC(Sub2(m, n), 1)), true)
				s.writeInto(buf, tZero, n, s.unknownBytes(n))
				return c.ret(s, Tuple(m, err))
			}
			s.writeInto(buf, tZero, n, data)
			return c.ret(s, Tuple(n, tNil))
		})
	}, "io.ReadFull")
	reg(func(e *Engine, s *State, c *call) []*State {
		buf, n := c.args[1], c.args[2]
		if s.decide(EqInt(n, sliceLen(buf))) == 1 {
			return models["io.ReadFull"](e, s, c)
		}
		return c.ret(s, e.unknownResult(s, c))
	}, "io.ReadAtLeast")
	reg(func(e *Engine, s *State, c *call) []*State {
		x := c.args[1]
		return e.write(s, c, c.args[0], nil, x, func(s *State, err *Term) []*State { return c.ret(s, Tuple(StrLen(x), err)) })
	}, "io.WriteString")
	reg(func(e *Engine, s *State, c *call) []*State {
		n := c.args[2]
		return e.readFull(s, c, c.args[1], nil, n, true, func(s *State, data, err *Term) []*State {
			if err.Op != ONil {
				return c.ret(s, Tuple(tZero, err))
			}
			d := c.args[0]
			if d.Op != OIface && !isConn(d) { // io.Discard and the like
				return c.ret(s, Tuple(n, tNil))
			}
			return e.write(s, c, d, nil, data, func(s *State, err *Term) []*State { return c.ret(s, Tuple(n, err)) })
		})
	}, "io.CopyN")
	// fmt on writers and readers
	reg(func(e *Engine, s *State, c *call) []*State {
		x := e.sprintf(s, c, 1)
		return e.write(s, c, c.args[0], nil, x, func(s *State, err *Term) []*State { return c.ret(s, Tuple(StrLen(x), err)) })
	}, "fmt.Fprintf")
	reg(func(e *Engine, s *State, c *call) []*State {
		x := e.sprint(s, c, 1, false)
		return e.write(s, c, c.args[0], nil, x, func(s *State, err *Term) []*State { return c.ret(s, Tuple(StrLen(x), err)) })
	}, "fmt.Fprint")
	reg(func(e *Engine, s *State, c *call) []*State {
		x := e.sprint(s, c, 1, true)
		return e.write(s, c, c.args[0], nil, x, func(s *State, err *Term) []*State { return c.ret(s, Tuple(StrLen(x), err)) })
	}, "fmt.Fprintln")
	reg(func(e *Engine, s *State, c *call) []*State {
		kind, o, _ := e.ioObj(s, c.args[0], nil)
		if kind != "static" && kind != "buffer" {
			e.problem(s, c.pos, "fmt.Fscanf from a %s", kind)
			return c.ret(s, e.unknownResult(s, c))
		}
		return e.scanf(s, c, s.obj(o.id).cells["buf"], c.args[1], c.args[2])
	}, "fmt.Fscanf")
	reg(func(e *Engine, s *State, c *call) []*State { return e.scanf(s, c, c.args[0], c.args[1], c.args[2]) }, "fmt.Sscanf")
	// encoding/binary
	for _, be := range []bool{true, false} {
		be := be
		tn := "encoding/binary.bigEndian"
		if !be {
			tn = "encoding/binary.littleEndian"
		}
		for _, n := range []int64{2, 4, 8} {
			n := n
			rt := map[int64]types.Type{2: types.Typ[types.Uint16], 4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64]}[n]
			suf := fmt.Sprint(n * 8)
			reg(func(e *Engine, s *State, c *call) []*State {
				b := c.args[len(c.args)-1]
				if !e.oblige(s, c.in, c.pos, "index", Le0(Sub2(Int(n), sliceLen(b))), "binary.Uint"+suf+" of too few bytes") {
					return nil
				}
				return c.ret(s, s.decodeInt(s.slice(s.bytesOf(b), tZero, Int(n)), n, be, rt))
			}, "("+tn+").Uint"+suf)
			reg(func(e *Engine, s *State, c *call) []*State {
				b, v := c.args[len(c.args)-2], c.args[len(c.args)-1]
				if !e.oblige(s, c.in, c.pos, "index", Le0(Sub2(Int(n), sliceLen(b))), "binary.PutUint"+suf+" into too few bytes") {
					return nil
				}
				e.event(s, &Event{Kind: "fillbuf", Pos: c.pos, A: b, In: c.in})
				x := BE(n, v)
				if !be {
					x = LE(n, v)
				}
				s.writeInto(b, tZero, Int(n), x)
				return c.ret(s, tUnit)
			}, "("+tn+").PutUint"+suf)
			reg(func(e *Engine, s *State, c *call) []*State {
				b, v := c.args[len(c.args)-2], c.args[len(c.args)-1]
				x := BE(n, v)
				if !be {
					x = LE(n, v)
				}
				return c.ret(s, c.newBytes(s, Cat(s.bytesOf(b), x)))
			}, "("+tn+").AppendUint"+suf)
		}
	}
	reg(func(e *Engine, s *State, c *call) []*State { return e.binaryWrite(s, c) }, "encoding/binary.Write")
	reg(func(e *Engine, s *State, c *call) []*State { return e.binaryRead(s, c) }, "encoding/binary.Read")
}

// decodeInt reads a fixed-size number out of n bytes.
func (s *State) decodeInt(x *Term, n int64, be bool, rt types.Type) *Term {
	op := OBE
	if !be {
		op = OLE
	}
	if x.Op == op && x.N == n {
		return s.wrap(x.Args[0], rt)
	}
	if c, ok := constStr(x); ok && int64(len(c)) == n {
		var v uint64
		for i := int64(0); i < n; i++ {
			b := uint64(c[i])
			if be {
				v = v<<8 | b
			} else {
				v |= b << uint(8*i)
			}
		}
		if v < 1<<63 {
			return Int(int64(v))
		}
	}
	// several fixed parts: a number that is put together
	if be {
		gs := segs(x)
		if len(gs) == 2 && gs[1].Op == OBE {
			if z, ok := constStr(gs[0]); ok && strings.Trim(z, "\x00") == "" && int64(len(z))+gs[1].N == n {
				return s.wrap(gs[1].Args[0], uintOf(gs[1].N))
			}
			if gs[0].Op == OZeros {
				return s.wrap(gs[1].Args[0], uintOf(gs[1].N))
			}
		}
	}
	name := fmt.Sprintf("be%d", n*8)
	if !be {
		name = fmt.Sprintf("le%d", n*8)
	}
	v := AppT(name, rt, x)
	if n == 8 && v.sym == nil {
		v.sym = &SymInfo{HasLo: true, Lo: 0, Bits: 64}
	}
	return v
}

func uintOf(n int64) types.Type {
	switch n {
	case 1:
		return types.Typ[types.Uint8]
	case 2:
		return types.Typ[types.Uint16]
	case 4:
		return types.Typ[types.Uint32]
	}
	return types.Typ[types.Uint64]
}

// encode renders a fixed-size value for encoding/binary.
func (s *State) encode(v *Term, t types.Type, be bool) (*Term, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := typeBytes(t)
		if n == 0 || u.Kind() == types.Int || u.Kind() == types.Uint {
			return nil, false
		}
		if n == 1 {
			return ByteSeg(s.wrap(v, types.Typ[types.Uint8])), true
		}
		if be {
			return BE(n, v), true
		}
		return LE(n, v), true
	case *types.Struct:
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			p, ok := s.encode(projField(s, v, i, u.Field(i).Type()), u.Field(i).Type(), be)
			if !ok {
				return nil, false
			}
			out = append(out, p)
		}
		return Cat(out...), true
	case *types.Array:
		if isByte(u.Elem()) {
			return v, true
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			return s.bytesOf(v), true
		}
	}
	return nil, false
}

func (s *State) decodeVal(x *Term, pos int64, t types.Type, be bool) (*Term, int64, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := typeBytes(t)
		if n == 0 || u.Kind() == types.Int || u.Kind() == types.Uint {
			return nil, 0, false
		}
		d := s.slice(x, Int(pos), Int(pos+n))
		if n == 1 {
			b := s.byteAt(d, tZero)
			if b == nil {
				b = AppT("byteat", types.Typ[types.Uint8], d, tZero)
			}
			return s.wrap(b, t), pos + n, true
		}
		return s.wrap(s.decodeInt(d, n, be, uintOf(n)), t), pos + n, true
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			v, p, ok := s.decodeVal(x, pos, u.Field(i).Type(), be)
			if !ok {
				return nil, 0, false
			}
			args[i], pos = v, p
		}
		return mk(OStruct, "", 0, t, nil, nil, args...), pos, true
	case *types.Array:
		if isByte(u.Elem()) {
			return s.slice(x, Int(pos), Int(pos+u.Len())), pos + u.Len(), true
		}
	}
	return nil, 0, false
}

func fixedSize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return typeBytes(t)
	case *types.Struct:
		var n int64
		for i := 0; i < u.NumFields(); i++ {
			k := fixedSize(u.Field(i).Type())
			if k == 0 {
				return 0
			}
			n += k
		}
		return n
	case *types.Array:
		return u.Len() * fixedSize(u.Elem())
	}
	return 0
}

func orderBE(s *State, o *Term) (bool, bool) {
	if o.Op == OIface {
		n := types.TypeString(o.T, nil)
		return strings.HasSuffix(n, "bigEndian"), strings.HasSuffix(n, "bigEndian") || strings.HasSuffix(n, "littleEndian")
	}
	return false, false
}

func (e *Engine) binaryWrite(s *State, c *call) []*State {
	be, ok := orderBE(s, c.args[1])
	d := c.args[2]
	if ok && d.Op == OIface {
		t, v := d.T, d.Args[0]
		if pt, isP := t.Underlying().(*types.Pointer); isP {
			t = pt.Elem()
			v, ok = s.load(v, t)
		}
		if ok {
			if x, ok := s.encode(v, t, be); ok {
				return e.write(s, c, c.args[0], nil, x, func(s *State, err *Term) []*State { return c.ret(s, err) })
			}
		}
	}
	e.problem(s, c.pos, "binary.Write of an unknown value")
	return c.ret(s, e.unknownResult(s, c))
}

func (e *Engine) binaryRead(s *State, c *call) []*State {
	be, ok := orderBE(s, c.args[1])
	d := c.args[2]
	if ok && d.Op == OIface {
		if pt, isP := d.T.Underlying().(*types.Pointer); isP {
			t := pt.Elem()
			if n := fixedSize(t); n > 0 {
				return e.readFull(s, c, c.args[0], nil, Int(n), true, func(s *State, data, err *Term) []*State {
					if err.Op != ONil {
						return c.ret(s, err)
					}
					v, _, ok := s.decodeVal(data, 0, t, be)
					if ok {
						s.store(d.Args[0], v, t)
					} else {
						e.problem(s, c.pos, "binary.Read into an unknown value")
					}
					return c.ret(s, tNil)
				})
			}
		}
	}
	e.problem(s, c.pos, "binary.Read into an unknown value")
	return c.ret(s, e.unknownResult(s, c))
}

// scanf models Sscanf/Fscanf for formats of literals, %s and %d.
func (e *Engine) scanf(s *State, c *call, x, format, argv *Term) []*State {
	f, ok := constStr(format)
	args, ok2 := s.variadic(argv)
	if !ok || !ok2 {
		e.problem(s, c.pos, "scanf with an unknown format")
		return c.ret(s, e.unknownResult(s, c))
	}
	bad := s.clone()
	fail := func(s *State, why string) []*State {
		s.note(c.pos, "scanf fails: %s", why)
		// fields scanned before may have been stored
		return c.ret(s, Tuple(Sym(s.newName("nscan"), tIntT, &SymInfo{HasLo: true}), s.freshErr("scanf")))
	}
	gs := append([]*Term{}, segs(x)...)
	k := 0
	exact := true
	// takeLit consumes a literal character
	next := func() {
		for len(gs) > 0 && gs[0].Op == OLit && gs[0].S == "" {
			gs = gs[1:]
		}
	}
	cut := func(n int) {
		gs = append([]*Term{{Op: OLit}}, gs...)[1:]
		gs[0] = mk(OLit, gs[0].S[n:], 0, nil, nil, nil)
		next()
	}
	i := 0
	for i < len(f) && exact {
		next()
		ch := f[i]
		switch {
		case ch == '%' && i+1 < len(f) && (f[i+1] == 's' || f[i+1] == 'd' || f[i+1] == 'v'):
			verb := f[i+1]
			i += 2
			if k >= len(args) {
				return fail(s, "too few operands")
			}
			a := args[k]
			k++
			if a.Op != OIface {
				exact = false
				break
			}
			pt, isP := a.T.Underlying().(*types.Pointer)
			if !isP {
				return fail(s, "operand is not a pointer")
			}
			// skip leading spaces
			for len(gs) > 0 && gs[0].Op == OLit && len(gs[0].S) > 0 && (gs[0].S[0] == ' ' || gs[0].S[0] == '\t') {
				cut(1)
			}
			next()
			// the token: up to white space
			var tok []*Term
			done := false
			for len(gs) > 0 && !done {
				g := gs[0]
				if g.Op == OLit {
					j := strings.IndexAny(g.S, " \t\r\n\v\f")
					if j < 0 {
						tok = append(tok, g)
						gs = gs[1:]
						continue
					}
					if j > 0 {
						tok = append(tok, Lit(g.S[:j]))
						cut(j)
					}
					done = true
					continue
				}
				for _, b := range []byte(" \t\r\n\v\f") {
					if s.may(g, b) {
						exact = false
					}
				}
				tok = append(tok, g)
				gs = gs[1:]
			}
			if !exact {
				break
			}
			tv := Cat(tok...)
			if tv == tEmpty {
				return fail(s, "missing token")
			}
			et := pt.Elem()
			switch {
			case isStringType(et):
				if verb == 'd' {
					return fail(s, "%d into a string")
				}
				s.store(a.Args[0], tv, et)
			case isByteSlice(et) && verb == 's':
				s.store(a.Args[0], s.newBytes(c.newID(s, fmt.Sprint(".", k)), tv, "fresh"), et)
			case isIntType(et):
				if s.notNumber(tv, true) {
					return fail(s, "not a number")
				}
				if tv.Op != ODec {
					if cs, isC := constStr(tv); isC {
						var n int64
						if _, err := fmt.Sscanf(cs, "%d", &n); err != nil {
							return fail(s, "not a number")
						}
						s.store(a.Args[0], Int(n), et)
						continue
					}
					exact = false
					break
				}
				v := tv.Args[0]
				lo, hi, hasHi := typeLimits(et)
				// out of range: an error
				var conds []*Term
				if lo != -1<<63 {
					conds = append(conds, Sub2(Int(lo), v))
				}
				if hasHi && !(hi == 1<<63-1 && noUint64(v)) {
					conds = append(conds, AddC(v, -hi))
				}
				for _, t := range conds {
					if s.decide(Le0(t)) != 1 {
						// one state for the failure is enough: continue with it later
						b := s.clone()
						b.assume(Le0(t), false)
						if !b.dead {
							b.note(c.pos, "%s is out of range", v)
							e.work = append(e.work, fail(b, "number out of range")...)
						}
						s.assume(Le0(t), true)
					}
				}
				if s.dead {
					return nil
				}
				s.store(a.Args[0], v, et)
			default:
				exact = false
			}
		case ch == ' ':
			if len(gs) > 0 && gs[0].Op == OLit && strings.HasPrefix(gs[0].S, " ") {
				for len(gs) > 0 && gs[0].Op == OLit && strings.HasPrefix(gs[0].S, " ") {
					cut(1)
				}
				i++
				break
			}
			if len(gs) > 0 && gs[0].Op != OLit && s.may(gs[0], ' ') {
				exact = false
				break
			}
			if len(gs) == 0 || gs[0].Op == OLit && (gs[0].S[0] == '\n' || gs[0].S[0] == '\r') {
				i++
				break
			}
			i++
		default:
			if len(gs) == 0 {
				return fail(s, "input ends")
			}
			if gs[0].Op == OLit {
				if gs[0].S[0] != ch {
					return fail(s, "literal differs")
				}
				cut(1)
				i++
				break
			}
			if !s.may(gs[0], ch) && segMinLen(gs[0]) > 0 {
				return fail(s, "literal differs")
			}
			exact = false
		}
	}
	if exact {
		if k < len(args) {
			return fail(s, "too many operands")
		}
		return c.ret(s, Tuple(Int(int64(k)), tNil))
	}
	// text that is not known well enough: all operands get unknown values
	for _, a := range args {
		if a.Op == OIface {
			if pt, isP := a.T.Underlying().(*types.Pointer); isP {
				s.store(a.Args[0], s.unknownOf("scanned", pt.Elem()), pt.Elem())
				bad.store(a.Args[0], bad.unknownOf("scanned", pt.Elem()), pt.Elem())
			}
		}
	}
	out := c.ret(s, Tuple(Int(int64(len(args))), tNil))
	return append(out, fail(bad, "text does not fit")...)
}
