package main

import (
	"fmt"
	"go/types"
	"strings"
)

// The environment of a client: what a memcached server may answer to the request that was sent, token by
// token. The position in the reply is kept in ghost "e:rp", what has been answered in "e:out".

const maxValue = 1 << 30 // no server stores larger values

var (
	uint32T = types.Typ[types.Uint32]
	uint64T = types.Typ[types.Uint64]
)

type alt struct {
	tok  *Term
	next string
	out  string              // outcome, if this token settles it
	pre  func(s *State) bool // extra assumptions
	vary string              // kept apart from other replies with the same outcome
}

func keyByte(b byte) bool  { return b > ' ' && b != 0x7f }
func lineByte(b byte) bool { return b != '\n' && b != '\r' }

// msgName: fields of messages are named after the message, so that equal names mean equal symbols.
func (s *State) msgName(name, msg, field string) string {
	if msg != "" {
		return msg + "." + field
	}
	return s.newName(name)
}

func (s *State) symStr(name, msg, field string, cs func(byte) bool, min, max int64) *Term {
	return Sym(s.msgName(name, msg, field), tString, &SymInfo{Charset: cs, MinLen: min, MaxLen: max, Msg: msg, Field: field})
}
func (s *State) symInt(name, msg, field string, t types.Type, lo, hi int64) *Term {
	return Sym(s.msgName(name, msg, field), t, &SymInfo{HasLo: true, Lo: lo, HasHi: true, Hi: hi, Msg: msg, Field: field})
}
func (s *State) symU64(name, msg, field string) *Term {
	return Sym(s.msgName(name, msg, field), uint64T, &SymInfo{HasLo: true, Bits: 64, Msg: msg, Field: field})
}

var knownTokens = []string{"STORED", "NOT_STORED", "EXISTS", "NOT_FOUND", "DELETED", "TOUCHED", "OK", "END", "VALUE", "VERSION", "ERROR", "CLIENT_ERROR", "SERVER_ERROR", "EN", "VA", "HD", "NF", "EX", "NS", "MN", "ME",
	"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "-", "+", " "}

func (s *State) junkLine() *Term {
	return Cat(Sym(s.newName("junk"), tString, &SymInfo{Charset: func(b byte) bool { return b != '\n' }, NotPrefix: knownTokens}), Lit("\n"))
}

func (s *State) errLines(next string) []alt {
	return []alt{
		{tok: Lit("ERROR\r\n"), next: next, out: "err"},
		{tok: Cat(Lit("CLIENT_ERROR "), s.symStr("emsg", "", "", lineByte, 1, 2000), Lit("\r\n")), next: next, out: "err"},
		{tok: Cat(Lit("SERVER_ERROR "), s.symStr("emsg", "", "", lineByte, 1, 2000), Lit("\r\n")), next: next, out: "err"},
	}
}

// msgID names the next message. The replies to a multi-get are named by their position, so that states that differ
// only in how the code got there are alike.
func (s *State) msgID() string {
	if n := s.ghost["n:replies"]; n != nil {
		return fmt.Sprintf("msg#%s.at%d", s.eng.tag, n.N)
	}
	return s.newName("msg")
}

// label is the form of a reply with a value.
func (a alt) label() string {
	for _, f := range strings.Fields(a.next) {
		if i := strings.Index(f, ":"); i > 0 {
			return f[i:]
		}
	}
	return ""
}

// verbOf returns the literal start of a request.
func verbOf(out *Term) string {
	for _, g := range segs(out) {
		if g.Op == OLit {
			return g.S
		}
		if g.Op == ORep {
			return verbOf(g.Args[0])
		}
		break
	}
	return ""
}

// replyGrammar lists what may come next on the connection.
func replyGrammar(s *State, out *Term, pos string, multi bool) []alt {
	v := verbOf(out)
	line := func(tok string, outcome string) alt { return alt{tok: Lit(tok + "\r\n"), next: "done", out: outcome} }
	if v != "" && v[0] == 0x80 {
		return binaryGrammar(s, out, pos, v, multi)
	}
	verb := v
	if i := strings.IndexAny(v, " \r"); i >= 0 {
		verb = v[:i]
	}
	junk := alt{tok: s.junkLine(), next: "done", out: "junk"}
	var l []alt
	switch verb {
	case "get", "gets":
		if strings.HasPrefix(pos, "value ") {
			return s.valueAlt(pos)
		}
		if pos == "end" {
			return []alt{{tok: Lit("END\r\n"), next: "done"}, {tok: s.junkLine(), next: "done", out: "alien"}}
		}
		for _, cas := range []bool{true, false} {
			msg := s.msgID() + ":kf"
			if cas {
				msg += "c"
			}
			size := s.symInt("size", msg, "size", tIntT, 0, maxValue)
			t := Cat(Lit("VALUE "), s.symStr("rkey", msg, "key", keyByte, 1, 250), Lit(" "), Dec(s.symInt("flags", msg, "flags", uint32T, 0, 1<<32-1)), Lit(" "), Dec(size))
			if cas {
				t = Cat(t, Lit(" "), Dec(s.symU64("cas", msg, "cas")))
			}
			t = Cat(t, Lit("\r\n"))
			after := " end"
			if multi {
				after = " start2"
			}
			l = append(l, alt{tok: t, next: "value " + msg + " " + size.S + after, out: "hit"})
		}
		for i := 0; i < 3; i++ {
			// numbers that are none
			msg := s.msgID() + ":m" + fmt.Sprint(i)
			size := s.symInt("size", msg, "size", tIntT, 0, maxValue)
			f := []*Term{Dec(s.symInt("flags", "", "", uint32T, 0, 1<<32-1)), Dec(size), Dec(s.symU64("cas", "", ""))}
			f[i] = s.badField()
			next := "value " + msg + " " + size.S + " end"
			if multi {
				next = "value " + msg + " " + size.S + " start2"
			}
			if i == 1 {
				next = "done"
			}
			t := Cat(Lit("VALUE "), s.symStr("rkey", "", "", keyByte, 1, 250), Lit(" "), f[0], Lit(" "), f[1], Lit(" "), f[2], Lit("\r\n"))
			l = append(l, alt{tok: t, next: next, out: "alien"})
		}
		l = append(l, alt{tok: Lit("END\r\n"), next: "done", out: "end"})
		l = append(l, s.errLines("done")...)
		if pos == "start" {
			l = append(l, junk)
		}
		return l
	case "set", "cas", "add", "replace", "append", "prepend":
		l = append(l, line("STORED", "stored"), line("NOT_STORED", "notstored"), line("EXISTS", "exists"), line("NOT_FOUND", "notfound"))
	case "delete":
		l = append(l, line("DELETED", "deleted"), line("NOT_FOUND", "notfound"))
	case "incr", "decr":
		n := s.symU64("number", "", "number")
		l = append(l, alt{tok: Cat(Dec(n), Lit("\r\n")), next: "done", out: "number"}, line("NOT_FOUND", "notfound"))
		l = append(l, alt{tok: Cat(Dec(s.symU64("number", "", "")), s.badField(), Lit("\r\n")), next: "done", out: "alien"})
	case "touch":
		l = append(l, line("TOUCHED", "touched"), line("NOT_FOUND", "notfound"))
	case "flush_all":
		l = append(l, line("OK", "ok"))
	case "version":
		ver := s.symStr("version", "", "version", lineByte, 1, 200)
		l = append(l, alt{tok: Cat(Lit("VERSION "), ver, Lit("\r\n")), next: "done", out: "version"})
	case "ms":
		l = append(l, line("HD", "stored"), line("NS", "notstored"), line("EX", "exists"), line("NF", "notfound"))
	case "md":
		l = append(l, line("HD", "deleted"), line("EX", "exists"), line("NF", "notfound"))
	case "mn":
		return []alt{line("MN", "noop")}
	case "mg":
		if strings.HasPrefix(pos, "value ") {
			return s.valueAlt(pos)
		}
		next := "done"
		if multi {
			next = "start2"
		}
		flags := mgFlags(out)
		if strings.Contains(flags, "v") {
			// an item that never expires has the remaining time -1
			l = append(l, s.vaAlt(flags, next, false))
			if strings.Contains(flags, "t") {
				l = append(l, s.vaAlt(flags, next, true))
			}
			for i, f := range " " + flags {
				if strings.ContainsRune(" fct", f) {
					t, after := Lit("VA "), "done"
					if i == 0 {
						t = Cat(t, s.badField())
					} else {
						msg := s.msgID() + ":m" + string(f)
						size := s.symInt("size", msg, "size", tIntT, 0, maxValue)
						t = Cat(t, Dec(size), Lit(" "+string(f)), s.badField())
						after = "value " + msg + " " + size.S + " " + next
					}
					l = append(l, alt{tok: Cat(t, Lit("\r\n")), next: after, out: "alien"})
				}
			}
		} else {
			l = append(l, alt{tok: Lit("HD\r\n"), next: next, out: "touched"})
		}
		l = append(l, alt{tok: Lit("EN\r\n"), next: next, out: "miss"})
		if strings.Contains(flags, "k") {
			l = append(l, alt{tok: Cat(Lit("EN k"), s.symStr("rkey", "", "", keyByte, 1, 250), Lit("\r\n")), next: next, out: "miss"})
		}
		l = append(l, s.errLines(next)...)
		if multi {
			l = append(l, alt{tok: Lit("MN\r\n"), next: "done", out: "noop"})
		}
		if pos == "start" && !multi {
			l = append(l, junk)
		}
		return l
	default:
		return []alt{junk, {tok: Lit("ERROR\r\n"), next: "done", out: "err"}}
	}
	l = append(l, s.errLines("done")...)
	return append(l, junk)
}

// mgFlags returns the single letter flags of a meta get.
func mgFlags(out *Term) string {
	var lits []string
	var collect func(t *Term)
	collect = func(t *Term) {
		for _, g := range segs(t) {
			if g.Op == OLit {
				lits = append(lits, g.S)
			}
			if g.Op == ORep {
				collect(g.Args[0])
			}
		}
	}
	collect(out)
	r := ""
	for _, l := range lits {
		if !strings.HasPrefix(l, " ") {
			continue
		}
		if i := strings.Index(l, "\r"); i >= 0 {
			l = l[:i]
		}
		for _, f := range strings.Fields(l) {
			r += f[:1]
		}
		break
	}
	return r
}

// badField is what is no number.
func (s *State) badField() *Term {
	return Sym(s.newName("malformed"), tString, &SymInfo{Charset: func(b byte) bool { return b >= 'a' && b <= 'z' }, MinLen: 1, MaxLen: 10})
}

func (s *State) vaAlt(flags, next string, never bool) alt {
	label := flags
	if never {
		label = strings.Replace(flags, "t", "n", 1)
	}
	msg := s.msgID() + ":" + label
	size := s.symInt("size", msg, "size", tIntT, 0, maxValue)
	key := s.symStr("rkey", msg, "key", keyByte, 1, 250)
	t := Cat(Lit("VA "), Dec(size))
	for _, f := range label {
		switch f {
		case 'f':
			t = Cat(t, Lit(" f"), Dec(s.symInt("flags", msg, "flags", uint32T, 0, 1<<32-1)))
		case 'c':
			t = Cat(t, Lit(" c"), Dec(s.symU64("cas", msg, "cas")))
		case 't':
			t = Cat(t, Lit(" t"), Dec(s.symInt("ttl", msg, "ttl", tIntT, 0, 1<<31-1)))
		case 'n':
			t = Cat(t, Lit(" t-1"))
		case 's':
			t = Cat(t, Lit(" s"), Dec(size))
		case 'k':
			t = Cat(t, Lit(" k"), key)
		}
	}
	vary := ""
	if never {
		vary = "never"
	}
	return alt{tok: Cat(t, Lit("\r\n")), next: "value " + msg + " " + size.S + " " + next, out: "hit", vary: vary}
}

func (s *State) valueAlt(pos string) []alt {
	f := strings.Fields(pos)
	msg, size := f[1], Sym(f[2], tIntT, nil)
	v := s.symStr("value", msg, "value", nil, 0, maxValue)
	next := "start2"
	if len(f) > 3 {
		next = f[3]
	}
	return []alt{{tok: Cat(v, Lit("\r\n")), next: next, pre: func(s *State) bool {
		s.assume(EqInt(StrLen(v), size), true)
		return !s.dead
	}}}
}

// binaryGrammar: replies of the binary protocol.
func binaryGrammar(s *State, out *Term, pos, v string, multi bool) []alt {
	op := byte(0xff)
	if len(v) > 1 {
		op = v[1]
	}
	start := func(op byte) *Term { return Lit("\x81" + string([]byte{op})) }
	hdr := func(op byte, klen *Term, elen int64, status, body, cas *Term) *Term {
		return Cat(start(op), BE(2, klen), Lit(string([]byte{byte(elen), 0})), BE(2, status), BE(4, body), BE(4, s.symInt("opaque", "", "opaque", uint32T, 0, 1<<32-1)), BE(8, cas))
	}
	if strings.HasPrefix(pos, "body ") {
		f := strings.Fields(pos)
		n := Sym(f[1], tIntT, nil)
		b := s.symStr("body", f[2], f[3], nil, 0, maxValue)
		return []alt{{tok: b, next: f[4], pre: func(s *State) bool {
			s.assume(EqInt(StrLen(b), n), true)
			return !s.dead
		}}}
	}
	var l []alt
	next := "done"
	if multi {
		next = "start2"
	}
	msg := s.msgID() + ":fc"
	if op == 0x0c || op == 0x0d {
		msg += "k"
	}
	u16 := types.Typ[types.Uint16]
	// success
	success := func() {
		switch {
		case op == 0x00 || op == 0x09 || op == 0x0c || op == 0x0d:
			val := s.symStr("value", msg, "value", nil, 0, maxValue)
			key, kl := tEmpty, tZero
			if op == 0x0c || op == 0x0d {
				key = s.symStr("rkey", msg, "key", nil, 1, 250)
				kl = StrLen(key)
			}
			body := Cat(BE(4, s.symInt("flags", msg, "flags", uint32T, 0, 1<<32-1)), key, val)
			l = append(l, alt{tok: Cat(hdr(op, kl, 4, tZero, StrLen(body), s.symU64("cas", msg, "cas")), body), next: next, out: "hit"})
		case op == 0x05 || op == 0x06:
			l = append(l, alt{tok: Cat(hdr(op, tZero, 0, tZero, Int(8), s.symU64("cas", msg, "cas")), BE(8, s.symU64("number", msg, "number"))), next: next, out: "success"})
		case op == 0x0b:
			ver := s.symStr("version", msg, "version", nil, 0, 200)
			l = append(l, alt{tok: Cat(hdr(op, tZero, 0, tZero, StrLen(ver), s.symU64("cas", msg, "cas")), ver), next: next, out: "success"})
		default:
			l = append(l, alt{tok: hdr(op, tZero, 0, tZero, tZero, s.symU64("cas", msg, "cas")), next: next, out: "success"})
		}
	}
	success()
	if !multi {
		// the reply to another command, and what is no reply at all
		other := func(name string, is byte, at func(b *Term) *Term) {
			for _, r := range [][2]int64{{0, int64(is) - 1}, {int64(is) + 1, 255}} {
				if r[0] > r[1] {
					continue
				}
				b := BE(1, s.symInt(name, "", "", types.Typ[types.Uint8], r[0], r[1]))
				start = func(byte) *Term { return at(b) }
				n := len(l)
				success()
				for i := n; i < len(l); i++ {
					l[i].out = "alien"
				}
			}
		}
		other("opcode", op, func(b *Term) *Term { return Cat(Lit("\x81"), b) })
		other("magic", 0x81, func(b *Term) *Term { return Cat(b, Lit(string([]byte{op}))) })
		start = func(op byte) *Term { return Lit("\x81" + string([]byte{op})) }
	}
	// any other status comes with a message
	for _, st := range []int64{1, 2, 0} {
		em := s.symStr("emsg", msg+fmt.Sprint(st), "message", nil, 0, 2000)
		status := Int(st)
		o := "status1"
		if st == 2 {
			o = "status2"
		}
		if st == 0 {
			status = s.symInt("status", msg, "status", u16, 3, 65535)
			o = "err"
		}
		l = append(l, alt{tok: Cat(hdr(op, tZero, 0, status, StrLen(em), s.symU64("cas", msg, "cas")), em), next: next, out: o})
	}
	if multi {
		l = append(l, alt{tok: hdr(0x0a, tZero, 0, tZero, tZero, s.symU64("cas", msg, "cas")), next: "done", out: "noop"})
	}
	return l
}
