package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// What a client may send to the server, what the handler is to see of it, and the replies to its answers.

type srvForm struct {
	id    string
	op    string // name of the operation
	verb  string
	bad   string // why it has to be refused; "" for a valid request
	line  bool   // a bad request that is a line of its own: an error reply refuses it, too
	later bool   // not as the first request of a connection
	get   bool
	quiet bool
	meta  bool
	flags string // of a meta get
	mk    func(r *ServerRun, s *State) *Term
	want  func(r *ServerRun, s *State) map[string]*Term
	opc   byte // binary
}

var srvOps = []string{"Get", "Set", "Add", "Replace", "Delete", "Increment", "Decrement", "Flush", "Version", "Touch", "Noop"}

func (r *ServerRun) makeOps() {
	r.ops = map[string]*Term{}
	sp := r.rep.P.pkgs["server"]
	for _, o := range srvOps {
		if c := constOf(sp, "Opcode"+o); c != nil {
			r.ops[o] = c
		}
	}
}

func (r *ServerRun) form(f *srvForm) {
	r.forms[f.id] = f
	r.order = append(r.order, f)
}

// fields of the request that was drawn
func setF(s *State, n string, t *Term) *Term { s.ghost["e:f:"+n] = t; return t }
func getF(s *State, n string) *Term {
	if t := s.ghost["e:f:"+n]; t != nil {
		return t
	}
	return tZero
}

func fKey(s *State) *Term { return fKeyN(s, "key") }
func fKeyN(s *State, n string) *Term {
	return setF(s, n, Sym(s.newName("req."+n), tString, &SymInfo{Charset: keyByte, MinLen: 1, MaxLen: 250}))
}
func fBinKey(s *State) *Term {
	return setF(s, "key", Sym(s.newName("req.key"), tString, &SymInfo{MinLen: 1, MaxLen: 250}))
}
func fInt(s *State, n string, t types.Type, lo, hi int64) *Term {
	return setF(s, n, Sym(s.newName("req."+n), t, &SymInfo{HasLo: true, Lo: lo, HasHi: true, Hi: hi}))
}
func fU64(s *State, n string) *Term {
	return setF(s, n, Sym(s.newName("req."+n), uint64T, &SymInfo{HasLo: true, Bits: 64}))
}
func fValue(s *State) *Term {
	return setF(s, "value", Sym(s.newName("req.value"), tString, &SymInfo{MaxLen: maxValue}))
}

func (r *ServerRun) makeForms() {
	r.forms = map[string]*srvForm{}
	if r.mode == "U" {
		return
	}
	switch r.proto {
	case "text":
		r.textForms()
	case "meta":
		r.metaForms()
	case "binary":
		r.binForms()
	}
}

const i32 = 1<<31 - 1

func (r *ServerRun) badLine(id, why string, mk func(s *State) *Term) {
	r.form(&srvForm{id: id, bad: why, line: true, mk: func(r *ServerRun, s *State) *Term { return mk(s) }})
}

func letters(b byte) bool { return b >= 'a' && b <= 'z' }
func word(s *State, n string, cs func(byte) bool) *Term {
	return Sym(s.newName("req."+n), tString, &SymInfo{Charset: cs, MinLen: 1, MaxLen: 20})
}

func (r *ServerRun) textForms() {
	key := func(r *ServerRun, s *State) map[string]*Term { return map[string]*Term{"Key": getF(s, "key")} }
	r.form(&srvForm{id: "get", verb: "get", op: "Get", get: true, mk: func(r *ServerRun, s *State) *Term { return cat("get ", fKey(s), "\r\n") }, want: key})
	for n := 1; n <= 3; n++ {
		n := n
		r.form(&srvForm{id: fmt.Sprintf("gets%d", n), verb: "gets", op: "Get", get: true,
			mk: func(r *ServerRun, s *State) *Term {
				t := Lit("gets")
				for i := 0; i < n; i++ {
					t = cat(t, " ", fKeyN(s, fmt.Sprintf("key%d", i)))
				}
				return cat(t, "\r\n")
			},
			want: func(r *ServerRun, s *State) map[string]*Term {
				var l []*Term
				for i := 0; i < n; i++ {
					l = append(l, getF(s, fmt.Sprintf("key%d", i)))
				}
				return map[string]*Term{"Keys": App("list", l...)}
			}})
	}
	store := func(v string, bad string, f, e, n func(s *State) *Term, end func(s *State) *Term) func(r *ServerRun, s *State) *Term {
		return func(r *ServerRun, s *State) *Term {
			val := fValue(s)
			return cat(v+" ", fKey(s), " ", f(s), " ", e(s), " ", n(s), "\r\n", val, end(s))
		}
	}
	flags := func(s *State) *Term { return Dec(fInt(s, "flags", uint32T, 0, 1<<32-1)) }
	exp := func(s *State) *Term { return Dec(fInt(s, "exp", tIntT, -i32-1, i32)) }
	size := func(s *State) *Term { return Dec(StrLen(getF(s, "value"))) }
	end := func(s *State) *Term { return Lit("\r\n") }
	wantStore := func(r *ServerRun, s *State) map[string]*Term {
		return map[string]*Term{"Key": getF(s, "key"), "Value": getF(s, "value"), "Flags": BE(4, getF(s, "flags")), "SetOpt.Expiration": getF(s, "exp"), "SetOpt.CasValue": getF(s, "cas"), "SetOpt.Cas": Bool(s.ghost["e:f:cas"] != nil), "SetOpt.Meta": tFalse}
	}
	for _, v := range []string{"set", "add", "replace"} {
		r.form(&srvForm{id: v, verb: v, op: strings.ToUpper(v[:1]) + v[1:], mk: store(v, "", flags, exp, size, end), want: wantStore})
	}
	r.form(&srvForm{id: "cas", verb: "cas", op: "Set", mk: func(r *ServerRun, s *State) *Term {
		val := fValue(s)
		return cat("cas ", fKey(s), " ", flags(s), " ", exp(s), " ", size(s), " ", Dec(fU64(s, "cas")), "\r\n", val, "\r\n")
	}, want: wantStore})
	r.form(&srvForm{id: "delete", verb: "delete", op: "Delete", mk: func(r *ServerRun, s *State) *Term { return cat("delete ", fKey(s), "\r\n") }, want: key})
	for _, v := range [][2]string{{"incr", "Increment"}, {"decr", "Decrement"}} {
		v := v
		r.form(&srvForm{id: v[0], verb: v[0], op: v[1], mk: func(r *ServerRun, s *State) *Term {
			return cat(v[0]+" ", fKey(s), " ", Dec(fInt(s, "delta", uint64T, 0, 1<<63-1)), "\r\n")
		}, want: func(r *ServerRun, s *State) map[string]*Term {
			return map[string]*Term{"Key": getF(s, "key"), "Delta": getF(s, "delta")}
		}})
	}
	r.form(&srvForm{id: "touch", verb: "touch", op: "Touch", mk: func(r *ServerRun, s *State) *Term {
		return cat("touch ", fKey(s), " ", exp(s), "\r\n")
	}, want: func(r *ServerRun, s *State) map[string]*Term {
		return map[string]*Term{"Key": getF(s, "key"), "Delta": getF(s, "exp")}
	}})
	none := func(r *ServerRun, s *State) map[string]*Term { return map[string]*Term{} }
	r.form(&srvForm{id: "flush_all", verb: "flush_all", op: "Flush", mk: func(r *ServerRun, s *State) *Term { return Lit("flush_all\r\n") }, want: none})
	r.form(&srvForm{id: "version", verb: "version", op: "Version", mk: func(r *ServerRun, s *State) *Term { return Lit("version\r\n") }, want: none})
	// no valid requests
	for id, l := range map[string]string{"empty line": "\r\n", "blank line": " \r\n", "unknown verb": "bogus k\r\n", "verb in capitals": "GET k\r\n", "verb only": "k\r\n", "get without key": "get\r\n", "get with an empty key": "get \r\n", "gets without key": "gets\r\n", "gets with an empty key": "gets a  b\r\n", "set without length": "set k 0 0\r\n", "set without expiration": "set k 0\r\n", "set without key": "set 0 0 1\r\n",
		"delete without key": "delete\r\n", "incr without delta": "incr k\r\n", "incr with too many words": "incr k 1 2 3\r\n", "touch without expiration": "touch k\r\n", "flush_all with a delay": "flush_all 10\r\n", "version with an argument": "version k\r\n", "leading blank": " get k\r\n"} {
		l := l
		r.badLine(id, id, func(s *State) *Term { return Lit(l) })
	}
	for _, v := range []string{"incr", "decr", "touch"} {
		v := v
		r.badLine(v+" with a word", "no number", func(s *State) *Term { return cat(v+" ", fKey(s), " ", word(s, "word", letters), "\r\n") })
	}
	for _, v := range []string{"incr", "decr"} {
		v := v
		r.badLine(v+" negative", "a negative number", func(s *State) *Term {
			return cat(v+" ", fKey(s), " ", Dec(fInt(s, "delta", tIntT, -1<<62, -1)), "\r\n")
		})
		for _, n := range []string{"9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999"} {
			n := n
			r.badLine(v+" "+n, "a number beyond the range of Delta", func(s *State) *Term { return cat(v+" ", fKey(s), " "+n+"\r\n") })
		}
	}
	for _, v := range []string{"set", "add", "replace"} {
		v := v
		ww := func(s *State) *Term { return word(s, "word", letters) }
		badStore := func(id, why string, f, e, n func(s *State) *Term) {
			r.form(&srvForm{id: v + " " + id, bad: why, mk: store(v, why, f, e, n, end)})
		}
		badStore("with a word as flags", "flags are no number", ww, exp, size)
		badStore("with too large flags", "flags of more than 32 bits", func(s *State) *Term { return Dec(fInt(s, "flags", uint64T, 1<<32, 1<<62)) }, exp, size)
		badStore("with a word as expiration", "expiration is no number", flags, ww, size)
		badStore("with a word as length", "length is no number", flags, exp, ww)
		badStore("with a negative length", "a negative length", flags, exp, func(s *State) *Term { return Dec(fInt(s, "len", tIntT, -i32-1, -1)) })
		r.form(&srvForm{id: v + " without line end after the data", bad: "the data block is not followed by a line end", mk: store(v, "", flags, exp, size, func(s *State) *Term {
			b := Sym(s.newName("req.terminator"), tString, &SymInfo{MinLen: 2, MaxLen: 2, Charset: func(b byte) bool { return b != '\r' && b != '\n' }})
			return b
		})})
		r.form(&srvForm{id: v + " with half a line end after the data", bad: "the data block is not followed by a line end", mk: store(v, "", flags, exp, size, func(s *State) *Term { return Lit("x\n") })})
	}
}

func digit(b byte) bool { return b >= '0' && b <= '9' }

func (r *ServerRun) metaForms() {
	names := map[byte]string{'c': "Cas", 'f': "Flag", 'h': "Hit", 'k': "Key", 'l': "LastAccess", 'o': "WithOpaque", 'q': "NoReply", 's': "Size", 't': "TTL", 'v': "Value"}
	for _, fl := range []string{"c", "f", "h", "k", "l", "o", "q", "s", "t", "v", "v f c t", "v f c t k", "s v", "k q v", "q k", "t c f"} {
		fl := fl
		set := strings.ReplaceAll(fl, " ", "")
		r.form(&srvForm{id: "mg " + set, verb: "mg", op: "Get", get: true, meta: true, flags: set, quiet: strings.Contains(set, "q"),
			mk: func(r *ServerRun, s *State) *Term { return cat("mg ", fKey(s), " "+fl+"\r\n") },
			want: func(r *ServerRun, s *State) map[string]*Term {
				w := map[string]*Term{"Key": getF(s, "key"), "GetOpt.Meta": tTrue}
				for b, n := range names {
					w["GetOpt."+n] = Bool(strings.IndexByte(set, b) >= 0)
				}
				return w
			}})
	}
	for _, fl := range []string{"", "T", "F", "C", "I", "T F", "C T", "T C F", "F I T", "k", "q", "O", "S", "S T", "q O k"} {
		fl := fl
		r.form(&srvForm{id: "ms " + strings.ReplaceAll(fl, " ", ""), verb: "ms", op: "Set", meta: true,
			mk: func(r *ServerRun, s *State) *Term {
				val := fValue(s)
				t := cat("ms ", fKey(s), " ", Dec(StrLen(val)))
				for _, f := range strings.Fields(fl) {
					t = cat(t, " "+f)
					switch f {
					case "T":
						t = cat(t, Dec(fInt(s, "exp", tIntT, -i32-1, i32)))
					case "F":
						t = cat(t, Dec(fInt(s, "flags", uint32T, 0, 1<<32-1)))
					case "C":
						t = cat(t, Dec(fU64(s, "cas")))
					case "O":
						t = cat(t, Dec(fInt(s, "opaque", types.Typ[types.Int64], -1<<62, 1<<62)))
					case "S":
						t = cat(t, Dec(StrLen(val)))
					}
				}
				return cat(t, "\r\n", val, "\r\n")
			},
			want: func(r *ServerRun, s *State) map[string]*Term {
				return map[string]*Term{"Key": getF(s, "key"), "Value": getF(s, "value"), "SetOpt.Meta": tTrue, "SetOpt.Expiration": getF(s, "exp"), "SetOpt.CasValue": getF(s, "cas"),
					"SetOpt.Cas": Bool(strings.Contains(fl, "C")), "SetOpt.Flag": s.wrap(getF(s, "flags"), types.Typ[types.Int32]), "SetOpt.Invalidate": Bool(strings.Contains(fl, "I")),
					"SetOpt.Key": Bool(strings.Contains(fl, "k")), "SetOpt.NoReply": Bool(strings.Contains(fl, "q")), "SetOpt.Opaque": getF(s, "opaque")}
			}})
	}
	r.form(&srvForm{id: "md", verb: "md", op: "Delete", meta: true, mk: func(r *ServerRun, s *State) *Term { return cat("md ", fKey(s), "\r\n") },
		want: func(r *ServerRun, s *State) map[string]*Term {
			return map[string]*Term{"Key": getF(s, "key"), "DelOpt.Meta": tTrue}
		}})
	for id, l := range map[string]string{"mg without key": "mg\r\n", "mg with an unknown flag": "mg k X\r\n", "mg with an unknown flag among others": "mg k v Z t\r\n", "ms without length": "ms k\r\n", "ms without key": "ms\r\n", "md without key": "md\r\n", "unknown meta command": "mz k v\r\n"} {
		l := l
		r.badLine(id, id, func(s *State) *Term { return Lit(l) })
	}
	r.form(&srvForm{id: "ms with a word as length", bad: "length is no number", mk: func(r *ServerRun, s *State) *Term {
		return cat("ms ", fKey(s), " ", word(s, "word", letters), "\r\n", fValue(s), "\r\n")
	}})
	r.form(&srvForm{id: "ms with a negative length", bad: "a negative length", mk: func(r *ServerRun, s *State) *Term {
		return cat("ms ", fKey(s), " ", Dec(fInt(s, "len", tIntT, -1<<62, -1)), "\r\n", fValue(s), "\r\n")
	}})
	for id, f := range map[string]string{"an unknown flag": "Z", "a word as expiration": "Tx", "a word as CAS": "Cx", "a word as client flags": "Fx", "no CAS": "C", "a negative CAS": "C-1"} {
		f := f
		r.form(&srvForm{id: "ms with " + id, bad: id, mk: func(r *ServerRun, s *State) *Term {
			val := fValue(s)
			return cat("ms ", fKey(s), " ", Dec(StrLen(val)), " "+f+"\r\n", val, "\r\n")
		}})
	}
	r.form(&srvForm{id: "ms without line end after the data", bad: "the data block is not followed by a line end", mk: func(r *ServerRun, s *State) *Term {
		val := fValue(s)
		b := Sym(s.newName("req.terminator"), tString, &SymInfo{MinLen: 2, MaxLen: 2, Charset: func(b byte) bool { return b != '\r' && b != '\n' }})
		return cat("ms ", fKey(s), " ", Dec(StrLen(val)), " T0\r\n", val, b)
	}})
}

// ---- binary ----

func (r *ServerRun) binForms() {
	hdr := func(s *State, op interface{}, klen, elen, total, cas *Term) *Term {
		o := tEmpty
		switch x := op.(type) {
		case byte:
			o = Lit(string([]byte{x}))
		case *Term:
			o = x
		}
		e := ByteSeg(elen)
		if elen.isConst() {
			e = Lit(string([]byte{byte(elen.N)}))
		}
		return cat("\x80", o, BE(2, klen), e, "\x00\x00\x00", BE(4, total), BE(4, fInt(s, "opaque", uint32T, 0, 1<<32-1)), BE(8, cas))
	}
	u32 := func(s *State, n string) *Term { return BE(4, fInt(s, n, uint32T, 0, 1<<32-1)) }
	key := func(r *ServerRun, s *State) map[string]*Term { return map[string]*Term{"Key": getF(s, "key")} }
	plain := func(op byte) func(r *ServerRun, s *State) *Term {
		return func(r *ServerRun, s *State) *Term {
			k := fBinKey(s)
			return cat(hdr(s, op, StrLen(k), tZero, StrLen(k), tZero), k)
		}
	}
	r.form(&srvForm{id: "Get", verb: "00", opc: 0, op: "Get", get: true, mk: plain(0), want: key})
	r.form(&srvForm{id: "GetKQ", verb: "0d", opc: 0x0d, op: "Get", get: true, quiet: true, mk: plain(0x0d), want: func(r *ServerRun, s *State) map[string]*Term {
		return map[string]*Term{"Key": getF(s, "key"), "GetOpt.NoReply": tTrue, "GetOpt.Key": tTrue, "GetOpt.Meta": tFalse}
	}})
	for _, o := range []struct {
		n string
		c byte
	}{{"Set", 1}, {"Add", 2}, {"Replace", 3}} {
		o := o
		r.form(&srvForm{id: o.n, verb: fmt.Sprintf("%02x", o.c), opc: o.c, op: o.n, mk: func(r *ServerRun, s *State) *Term {
			k, v := fBinKey(s), fValue(s)
			return cat(hdr(s, o.c, StrLen(k), Int(8), AddC(Add(StrLen(k), StrLen(v)), 8), fU64(s, "cas")), u32(s, "flags"), u32(s, "exp"), k, v)
		}, want: func(r *ServerRun, s *State) map[string]*Term {
			return map[string]*Term{"Key": getF(s, "key"), "Value": getF(s, "value"), "Flags": BE(4, getF(s, "flags")), "SetOpt.Expiration": getF(s, "exp"), "SetOpt.CasValue": getF(s, "cas"), "SetOpt.Cas": Not(EqInt(getF(s, "cas"), tZero)), "SetOpt.Meta": tFalse}
		}})
	}
	r.form(&srvForm{id: "Delete", verb: "04", opc: 4, op: "Delete", mk: plain(4), want: key})
	for _, o := range []struct {
		n string
		c byte
	}{{"Increment", 5}, {"Decrement", 6}} {
		o := o
		mk := func(s *State, d *Term) *Term {
			k := fBinKey(s)
			return cat(hdr(s, o.c, StrLen(k), Int(20), AddC(StrLen(k), 20), tZero), BE(8, d), BE(8, fU64(s, "initial")), u32(s, "exp"), k)
		}
		r.form(&srvForm{id: o.n, verb: fmt.Sprintf("%02x", o.c), opc: o.c, op: o.n, mk: func(r *ServerRun, s *State) *Term {
			return mk(s, fInt(s, "delta", uint64T, 0, 1<<63-1))
		}, want: func(r *ServerRun, s *State) map[string]*Term {
			return map[string]*Term{"Key": getF(s, "key"), "Delta": getF(s, "delta"), "SetOpt.Expiration": getF(s, "exp")}
		}})
		for _, d := range []uint64{1 << 63, 1<<64 - 1} {
			d := d
			r.form(&srvForm{id: fmt.Sprintf("%s %d", o.n, d), bad: "a number beyond the range of Delta", mk: func(r *ServerRun, s *State) *Term {
				return mk(s, bigConst(d, uint64T))
			}})
		}
	}
	r.form(&srvForm{id: "Touch", verb: "1c", opc: 0x1c, op: "Touch", mk: func(r *ServerRun, s *State) *Term {
		k := fBinKey(s)
		return cat(hdr(s, byte(0x1c), StrLen(k), Int(4), AddC(StrLen(k), 4), tZero), u32(s, "exp"), k)
	}, want: func(r *ServerRun, s *State) map[string]*Term {
		return map[string]*Term{"Key": getF(s, "key"), "SetOpt.Expiration": getF(s, "exp")}
	}})
	for _, o := range []struct {
		n string
		c byte
	}{{"Flush", 8}, {"Noop", 0x0a}, {"Version", 0x0b}} {
		o := o
		r.form(&srvForm{id: o.n, verb: fmt.Sprintf("%02x", o.c), opc: o.c, op: o.n, mk: func(r *ServerRun, s *State) *Term {
			return hdr(s, o.c, tZero, tZero, tZero, tZero)
		}, want: func(r *ServerRun, s *State) map[string]*Term { return map[string]*Term{} }})
		r.form(&srvForm{id: o.n + " with a body", bad: "a body where none belongs", mk: func(r *ServerRun, s *State) *Term {
			k := fInt(s, "klen", uint32T, 0, 65535)
			n := fInt(s, "total", uint32T, 1, 1<<32-1)
			return r.withBody(s, hdr(s, o.c, k, tZero, n, tZero), n)
		}})
	}
	// lengths that do not fit
	for _, o := range []struct {
		n string
		c byte
		x int64
	}{{"Get", 0, 0}, {"GetKQ", 0x0d, 0}, {"Set", 1, 8}, {"Add", 2, 8}, {"Replace", 3, 8}, {"Delete", 4, 0}, {"Increment", 5, 20}, {"Decrement", 6, 20}, {"Touch", 0x1c, 4}} {
		o := o
		sizes := func(s *State) (k, e, n *Term) {
			return fInt(s, "klen", uint32T, 0, 65535), fInt(s, "elen", uint32T, 0, 255), fInt(s, "total", uint32T, 0, 1<<32-1)
		}
		add := func(id, why string, f func(s *State, k, e, n *Term)) {
			r.form(&srvForm{id: o.n + " " + id, bad: why, mk: func(r *ServerRun, s *State) *Term {
				k, e, n := sizes(s)
				f(s, k, e, n)
				if s.dead {
					return tEmpty
				}
				if s.cons.entailsEq(AddC(e, -o.x)) {
					e = Int(o.x)
				}
				return r.withBody(s, hdr(s, o.c, k, e, n, tZero), n)
			}})
		}
		add("with other extras", "the length of the extras is not the one of the command", func(s *State, k, e, n *Term) { s.assume(EqInt(e, Int(o.x)), false) })
		add("with a short body", "the body is shorter than key and extras", func(s *State, k, e, n *Term) {
			s.assume(EqInt(e, Int(o.x)), true)
			s.assume(Le0(AddC(Sub2(n, Add(k, Int(o.x))), 1)), true)
		})
		add("without a key", "the command has no key", func(s *State, k, e, n *Term) {
			s.assume(EqInt(e, Int(o.x)), true)
			s.assume(EqInt(k, tZero), true)
			if o.c > 3 || o.c == 0 {
				s.assume(EqInt(n, Int(o.x)), true)
			} else {
				s.assume(Le0(Sub2(Int(o.x), n)), true)
			}
		})
		if o.c > 3 || o.c == 0 {
			add("with a long body", "the body is longer than key and extras", func(s *State, k, e, n *Term) {
				s.assume(EqInt(e, Int(o.x)), true)
				s.assume(Le0(AddC(Sub2(Add(k, Int(o.x)), n), 1)), true)
			})
		}
	}
	r.form(&srvForm{id: "an unknown opcode", bad: "an unknown opcode", mk: func(r *ServerRun, s *State) *Term {
		op := Sym(s.newName("req.opcode"), types.Typ[types.Uint8], &SymInfo{HasLo: true, Lo: 0x40, HasHi: true, Hi: 0xff})
		n := fInt(s, "total", uint32T, 0, 1<<32-1)
		return r.withBody(s, hdr(s, ByteSeg(op), fInt(s, "klen", uint32T, 0, 65535), fInt(s, "elen", uint32T, 0, 255), n, tZero), n)
	}})
	r.form(&srvForm{id: "another magic byte", later: true, bad: "a first byte that is not the one of requests", mk: func(r *ServerRun, s *State) *Term {
		m := Sym(s.newName("req.magic"), types.Typ[types.Uint8], &SymInfo{HasLo: true, HasHi: true, Hi: 255})
		s.assume(EqInt(m, Int(0x80)), false)
		k := fBinKey(s)
		return cat(ByteSeg(m), "\x00", BE(2, StrLen(k)), "\x00\x00\x00\x00", BE(4, StrLen(k)), "\x00\x00\x00\x00", BE(8, tZero), k)
	}})
}

func (r *ServerRun) withBody(s *State, h, n *Term) *Term {
	b := Sym(s.newName("req.body"), tString, nil)
	s.assume(EqInt(StrLen(b), n), true)
	return cat(h, b)
}

// ---- the handler ----

func (r *ServerRun) Unknown(e *Engine, s *State, c *call) ([]*State, bool) {
	if !strings.HasPrefix(c.name, "invoke:"+modPath) || c.sig.Params().Len() != 1 || c.sig.Results().Len() != 2 || s.ghost["m:in"] == nil {
		return nil, false
	}
	rt, ok := c.sig.Results().At(0).Type().Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	pt, ok := rt.Elem().Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	r.respT = pt.Elem()
	if len(c.args) > 1 {
		if q := c.args[1]; q != nil && q.Op == ONil {
			r.bad("S03", "no-request-made-up", c.pos, s, "the handler is given no request at all (nil)")
			return nil, true
		}
	}
	bad := s.clone()
	fail := func() []*State {
		bad.note(c.pos, "the handler fails")
		bad.ghost["e:out"] = Lit("err")
		bad.ghost["m:handled"] = tTrue
		return c.ret(bad, Tuple(tNil, Sym(bad.newName("handlererr"), errType, &SymInfo{NonNil: true})))
	}
	if r.mode == "U" {
		r.allKeys(s, c)
		return fail(), true // what follows an answer is analysed in mode R
	}
	if r.mode == "R" {
		if s.ghost["m:handled"] != nil {
			return nil, true
		}
		s.ghost["m:handled"] = tTrue
		out := fail()
		for n := 0; n <= 2; n++ {
			st := s.clone()
			st.note(c.pos, "the handler returns %d responses of unknown content", n)
			o := st.newObj("responses", nil)
			o.isList, o.origin = true, "handler"
			for i := 0; i < n; i++ {
				o.list = append(o.list, LSeg{Elem: Sym(st.newName("response"), rt.Elem(), &SymInfo{NonNil: true})})
			}
			l := Int(int64(n))
			out = append(out, c.ret(st, Tuple(mkSlice(Ptr(Obj_(o.id), ""), tZero, l, l), tNil))...)
		}
		return out, true
	}
	f := r.forms[gstr(s, "e:form")]
	switch {
	case f == nil:
		r.bad("S02", "one-request-at-a-time", c.pos, s, "the handler is called although no request has been read")
		return nil, true
	case s.ghost["m:handled"] != nil:
		r.bad("S02", "one-request-at-a-time", c.pos, s, "the handler is called twice for one request")
		return nil, true
	case f.bad != "":
		r.bad("S03", "no-request-made-up", c.pos, s, "hands a request to the handler although the client sent %s (%s)", s.ghost["e:tok"], f.bad)
		if strings.Contains(f.bad, "length") || strings.Contains(f.bad, "body") || strings.Contains(f.bad, "line end") {
			r.bad("S02", "bad-requests-refused", c.pos, s, "hands a request to the handler although the client sent %s (%s)", s.ghost["e:tok"], f.bad)
		}
		return nil, true
	}
	in := s.connIn(srvConn)
	if in != tEmpty && !s.cons.entails(StrLen(in)) {
		r.bad("S02", "one-request-at-a-time", c.pos, s, "the handler is called before %s, the rest of the request %s, has been read", in, s.ghost["e:tok"])
		return nil, true
	}
	r.ok("S02", "one-request-at-a-time", s)
	r.seen(s, c, f)
	s.ghost["m:handled"] = tTrue
	inLoops(s)
	bad.ghost["m:handled"] = tTrue
	var out []*State
	kinds := []string{"none", "ok", "nf", "ex", "mem", "oth"}
	if f.get {
		kinds = []string{"none", "hit", "hit0", "nf", "ex", "mem", "oth", "hit hit", "hit nf", "nf hit", "hit oth"}
		if f.verb == "gets" {
			for _, n := range r.many {
				kinds = append(kinds, strings.TrimSpace(strings.Repeat("hit ", n)))
			}
		}
	}
	for _, k := range kinds {
		n := s.clone()
		n.ghost["e:out"] = Lit(k)
		n.note(c.pos, "the handler returns %s", k)
		var l []*Term
		if k != "none" {
			for i, x := range strings.Fields(k) {
				l = append(l, r.response(n, i, x, f))
			}
		}
		o := n.newObj("responses", nil)
		o.isList, o.origin = true, "handler"
		o.ghost = map[string]*Term{"nonnil": tTrue}
		for _, x := range l {
			o.list = append(o.list, LSeg{Elem: x})
		}
		v := mkSlice(Ptr(Obj_(o.id), ""), tZero, Int(int64(len(l))), Int(int64(len(l))))
		out = append(out, c.ret(n, Tuple(v, tNil))...)
	}
	return append(out, fail()...), true
}

// response makes one response of the handler.
func (r *ServerRun) response(s *State, i int, kind string, f *srvForm) *Term {
	id := fmt.Sprintf("resp%d", i)
	m := map[string]*Term{}
	str := func(n string) *Term { return Sym(s.newName(id+"."+n), tString, &SymInfo{MaxLen: maxValue}) }
	key, val, flags := tEmpty, tEmpty, tEmpty
	st := r.respT.Underlying().(*types.Struct)
	errv := tNil
	switch kind {
	case "hit", "hit0":
		key, val = Sym(s.newName(id+".key"), tString, &SymInfo{Charset: keyByte, MinLen: 1, MaxLen: 250}), str("value")
		if kind == "hit" {
			flags = BE(4, Sym(s.newName(id+".flags"), uint32T, &SymInfo{HasLo: true, HasHi: true, Hi: 1<<32 - 1}))
		}
	case "ok":
		switch f.op {
		case "Increment", "Decrement", "Version":
			val = str("value")
		}
	case "nf":
		errv = r.sentinel(s, "ItemNotFound")
	case "ex":
		errv = r.sentinel(s, "ItemExists")
	case "mem":
		if r.merr != nil {
			status := Sym(s.newName(id+".status"), types.Typ[types.Uint16], &SymInfo{HasLo: true, Lo: 3, HasHi: true, Hi: 65535})
			p := s.newStruct(id+".err", r.merr.(*types.Pointer).Elem(), r.errFields(s, id, status), "handler")
			errv = mk(OIface, "", 0, r.merr, nil, nil, p)
			m["status"] = status
		}
	case "oth":
		errv = Sym(s.newName(id+".err"), errType, &SymInfo{NonNil: true})
		if r.merr != nil {
			s.assume(AppT("is:"+types.TypeString(r.merr, nil), tBoolT, errv), false)
		}
	}
	fs := map[string]*Term{}
	cas, ttl := tZero, tZero
	for k := 0; k < st.NumFields(); k++ {
		n, t := st.Field(k).Name(), st.Field(k).Type()
		switch n {
		case "Key":
			fs[n] = key
		case "Error":
			fs[n] = errv
		case "Flags":
			fs[n] = tNil
			if flags != tEmpty {
				fs[n] = s.newBytes(id+".Flags", flags, "handler")
			}
		case "Value":
			fs[n] = tNil
			if val != tEmpty {
				fs[n] = s.newBytes(id+".Value", val, "handler")
			}
		case "Cas":
			cas = Sym(s.newName(id+".cas"), t, nil)
			fs[n] = cas
		case "TTL":
			ttl = Sym(s.newName(id+".ttl"), t, nil)
			fs[n] = ttl
		}
	}
	status := m["status"]
	if status == nil {
		status = tZero
	}
	s.ghost[fmt.Sprintf("e:r:%d", i)] = App("resp", Lit(kind), key, flags, val, cas, ttl, status)
	return s.newStruct(id, r.respT, fs, "handler")
}

// errFields: an error of the library with a status; its texts are less than 1 MiB.
func (r *ServerRun) errFields(s *State, id string, status *Term) map[string]*Term {
	m := map[string]*Term{"Status": status}
	st := r.merr.(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); isStringType(f.Type()) {
			m[f.Name()] = Sym(s.newName(id+".err."+f.Name()), f.Type(), &SymInfo{MaxLen: 1 << 20})
		}
	}
	return m
}

func (r *ServerRun) sentinel(s *State, name string) *Term {
	return (&ClientRun{ct: &ClientType{P: r.rep.P}}).sentinel(s, name)
}

// seen compares the request the handler gets with the one that was sent.
func (r *ServerRun) seen(s *State, c *call, f *srvForm) {
	const rule = "own-fields"
	req := (&ClientRun{}).fieldsOf(s, c.args[1])
	if req == nil {
		r.bad("S03", "followed", c.pos, s, "the request is not known")
		return
	}
	opc := req["Opcode"]
	good := opc != nil && r.ops[f.op] != nil && s.sameInt(opc, r.ops[f.op])
	r.check("S03", rule, good, c.pos, s, "the operation of %s is handed on as %s", s.ghost["e:tok"], opc)
	if good {
		r.vocab[r.proto+" "+f.op+" "+f.verb] = true
	}
	var keys []*Term
	keysKnown := true
	if k := req["Keys"]; k != nil && k.Op != ONil {
		l, ok := s.elemsOf(k, types.NewSlice(tString))
		keysKnown = ok
		for _, g := range l {
			if g.Elem == nil {
				keysKnown = false
				break
			}
			keys = append(keys, g.Elem)
		}
	}
	want := f.want(r, s)
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	sub := func(n string) (map[string]*Term, bool) {
		p := req[n]
		if p == nil || p.Op == ONil {
			return nil, false
		}
		return (&ClientRun{}).fieldsOf(s, p), true
	}
	one := func(k *Term) bool {
		return keysKnown && (len(keys) == 0 && s.sameStr(req["Key"], k) || len(keys) == 1 && s.sameStr(keys[0], k) && (req["Key"] == tEmpty || s.sameStr(req["Key"], k)))
	}
	for _, n := range names {
		w := want[n]
		good := false
		var got *Term
		switch {
		case n == "Key":
			got = req["Key"]
			good = one(w)
		case n == "Keys":
			got = App("list", keys...)
			good = keysKnown && got == w || len(w.Args) == 1 && one(w.Args[0])
		case n == "Value" || n == "Flags":
			if got = req[n]; got != nil {
				b := s.bytesOf(got)
				good = b != nil && s.sameStr(b, w)
				got = b
			}
		case strings.Contains(n, "."):
			p := strings.SplitN(n, ".", 2)
			m, ok := sub(p[0])
			if !ok {
				// without options everything has its zero value
				good = w == tFalse || w.constIs(0)
				got = tNil
				if p[0] == "SetOpt" && p[1] == "Meta" || p[0] == "GetOpt" && f.meta {
					good = false
				}
				break
			}
			got = m[p[1]]
			if got == nil {
				good = p[1] == "Invalidate"
				break
			}
			if got.T != nil && isIntType(got.T) || isIntTerm(got) || isIntTerm(w) {
				good = s.sameInt(got, w)
			} else {
				a, b := s.decide(got), s.decide(w)
				good = got == w || a >= 0 && a == b
				if !good && a < 0 && b < 0 {
					good = s.sameBool(got, w)
				}
			}
		default:
			got = req[n]
			good = got != nil && s.sameInt(got, w)
		}
		r.check("S03", rule, good, c.pos, s, "%s of the request %s is handed on as %s instead of %s", n, s.ghost["e:tok"], got, w)
	}
	if f.op == "Get" && !f.meta && f.opc == 0 && req["GetOpt"] != nil && req["GetOpt"].Op != ONil {
		if m, _ := sub("GetOpt"); m != nil && s.decide(m["Meta"]) != 0 {
			r.bad("S03", rule, c.pos, s, "%s is handed on as a meta get", s.ghost["e:tok"])
		}
	}
}

// allKeys: a request that takes its keys from the words of the line takes all of them, however many there are.
func (r *ServerRun) allKeys(s *State, c *call) {
	req := (&ClientRun{}).fieldsOf(s, c.args[1])
	if req == nil || req["Keys"] == nil || req["Keys"].Op != OSlice {
		return
	}
	base, lo, hi, _, ok := s.sliceParts(req["Keys"], types.NewSlice(tString))
	if !ok || base == nil {
		return
	}
	o, _, ok := s.objOf(base)
	if !ok || !o.isList || len(o.list) != 1 || o.list[0].Star == nil {
		return
	}
	st := o.list[0].Star
	if st.base == nil || !strings.HasPrefix(st.base.S, "split") || st.n == nil || !st.off.constIs(0) {
		return
	}
	r.check("S03", "own-fields", s.sameInt(lo, tOne) && s.sameInt(hi, st.n), c.pos, s, "of the %s words of a line the words from %s up to %s are handed on as the keys", st.n, lo, hi)
}

// sameBool: two conditions agree in every case.
func (s *State) sameBool(a, b *Term) bool {
	for _, v := range []bool{true, false} {
		n := s.clone()
		n.assume(a, v)
		if n.dead || n.infeasible() {
			continue
		}
		if d := n.decide(b); d < 0 || (d == 1) != v {
			return false
		}
	}
	return true
}

// ---- replies ----

type srvResp struct {
	kind                          string
	key, flags, val, cas, ttl, st *Term
}

func (r *ServerRun) responses(s *State) []srvResp {
	var l []srvResp
	for i := 0; ; i++ {
		t := s.ghost[fmt.Sprintf("e:r:%d", i)]
		if t == nil {
			return l
		}
		k, _ := constStr(t.Args[0])
		l = append(l, srvResp{k, t.Args[1], t.Args[2], t.Args[3], t.Args[4], t.Args[5], t.Args[6]})
	}
}

func isHit(k string) bool { return k == "hit" || k == "hit0" }

func flagNum(p srvResp) *Term {
	if p.flags.Op == OBE {
		return p.flags.Args[0]
	}
	return tZero
}

// replyOK: is out the reply to the request for this answer of the handler? If not, which properties say so.
func (r *ServerRun) replyOK(s *State, out *Term) (bool, []string, string) {
	f := r.forms[gstr(s, "e:form")]
	rs := r.responses(s)
	if r.proto == "binary" {
		return r.binReplyOK(s, f, rs, out)
	}
	hits, oth, nf := 0, false, false
	for _, p := range rs {
		switch {
		case isHit(p.kind):
			hits++
		case p.kind == "nf":
			nf = true
		case p.kind != "ok":
			oth = true
		}
	}
	var exps []*Term
	miss := false
	switch {
	case f.get && !f.meta && !oth:
		for _, cas := range []bool{false, true} {
			t := tEmpty
			for _, p := range rs {
				if !isHit(p.kind) {
					continue
				}
				t = cat(t, "VALUE ", p.key, " ", Dec(flagNum(p)), " ", Dec(StrLen(p.val)))
				if cas {
					t = cat(t, " ", Dec(s.wrap(p.cas, uint64T)))
				}
				t = cat(t, "\r\n", p.val, "\r\n")
			}
			exps = append(exps, cat(t, "END\r\n"))
		}
		miss = hits == 0
	case f.get && f.meta && !oth && hits == 0:
		exps = append(exps, Lit("EN\r\n"))
		if f.quiet {
			exps = append(exps, tEmpty)
		}
		miss = true
	case f.get && f.meta && !oth:
		for _, p := range rs {
			if isHit(p.kind) {
				if why := r.metaHit(s, f, p, out); why == "" {
					return true, nil, ""
				} else if out != tEmpty && !r.failing(out) && !r.isMiss(out) {
					props := []string{"S06"}
					if !terminated(out) {
						props = append(props, "S04")
					}
					return false, props, why
				}
				break
			}
		}
	case len(rs) == 0 || oth && f.get:
		if errorLine(s, out) {
			return true, nil, ""
		}
	case rs[0].kind == "ok":
		switch f.op {
		case "Set", "Add", "Replace":
			exps = []*Term{Lit("STORED\r\n")}
		case "Delete":
			exps = []*Term{Lit("DELETED\r\n")}
		case "Touch":
			exps = []*Term{Lit("TOUCHED\r\n")}
		case "Flush":
			exps = []*Term{Lit("OK\r\n")}
		default:
			exps = []*Term{cat(rs[0].val, "\r\n")}
			if f.op == "Version" {
				exps = append(exps, cat("VERSION ", rs[0].val, "\r\n"))
			}
		}
		if f.meta {
			exps = []*Term{Lit("HD\r\n")}
		}
	default:
		var l []string
		k := rs[0].kind
		switch {
		case k == "nf" && f.meta:
			l = []string{"NF"}
		case k == "nf" && (f.op == "Set" || f.op == "Delete" || f.op == "Increment" || f.op == "Decrement" || f.op == "Touch"):
			l = []string{"NOT_FOUND"}
		case k == "nf" && f.op == "Replace":
			l = []string{"NOT_STORED", "NOT_FOUND"}
		case k == "ex" && f.meta && f.op == "Set":
			l = []string{"EX"}
		case k == "ex" && f.op == "Set":
			l = []string{"EXISTS"}
		case k == "ex" && f.op == "Add":
			l = []string{"NOT_STORED", "EXISTS"}
		case k == "ex" && (f.op == "Replace" || f.op == "Delete"):
			l = []string{"EXISTS", "EX"}
		}
		for _, x := range l {
			exps = append(exps, Lit(x+"\r\n"))
		}
		if (k != "nf" && k != "ex" || len(l) == 0 || k == "ex" && len(l) == 2 && f.op != "Add") && errorLine(s, out) {
			return true, nil, ""
		}
	}
	for _, x := range exps {
		if s.sameStr(out, x) {
			return true, nil, ""
		}
	}
	why := "an error line is expected"
	if len(exps) > 0 {
		why = exps[0].String() + " is expected"
	}
	_ = nf
	switch {
	case out == tEmpty:
		return false, []string{"S04"}, why
	case miss || len(rs) > 0 && rs[0].kind != "ok" && hits == 0 || oth:
		if r.failing(out) && !terminated(out) {
			return false, []string{"S04"}, why
		}
		return false, []string{"S05"}, why
	case r.failing(out) || r.isMiss(out):
		return false, []string{"S05"}, why
	case f.get:
		props := []string{"S06"}
		if !r.textShape(s, out) {
			props = append(props, "S04")
		}
		return false, props, why
	}
	return false, []string{"S04"}, why
}

func firstWord(out *Term) string {
	g := segs(out)
	if len(g) == 0 || g[0].Op != OLit {
		return ""
	}
	w := g[0].S
	if i := strings.IndexAny(w, " \r\n"); i >= 0 {
		w = w[:i]
	}
	return w
}

func (r *ServerRun) failing(out *Term) bool {
	switch firstWord(out) {
	case "SERVER_ERROR", "CLIENT_ERROR", "ERROR", "NOT_STORED", "NOT_FOUND", "EXISTS", "NF", "EX", "NS":
		return true
	}
	return false
}

func (r *ServerRun) isMiss(out *Term) bool {
	l, ok := constStr(out)
	return ok && (l == "END\r\n" || l == "EN\r\n")
}

func terminated(out *Term) bool {
	g := segs(out)
	return len(g) > 0 && g[len(g)-1].Op == OLit && strings.HasSuffix(g[len(g)-1].S, "\r\n")
}

// textShape: the bytes end like the reply to a get does.
func (r *ServerRun) textShape(s *State, out *Term) bool {
	g := segs(out)
	return len(g) > 0 && g[len(g)-1].Op == OLit && strings.HasSuffix(g[len(g)-1].S, "\r\nEND\r\n")
}

// metaHit compares the reply to a meta get with the item.
func (r *ServerRun) metaHit(s *State, f *srvForm, p srvResp, out *Term) string {
	w, rest, ok := words(out)
	if !ok || len(w) == 0 {
		return "no line"
	}
	want := []*Term{Lit("HD")}
	if strings.Contains(f.flags, "v") {
		want = []*Term{Lit("VA"), Dec(StrLen(p.val))}
	}
	for _, x := range f.flags {
		switch x {
		case 'c':
			want = append(want, cat("c", Dec(s.wrap(p.cas, uint64T))))
		case 'f':
			want = append(want, cat("f", Dec(flagNum(p))))
		case 'k':
			want = append(want, cat("k", getF(s, "key")))
		case 's':
			want = append(want, cat("s", Dec(StrLen(p.val))))
		case 't':
			want = append(want, cat("t", Dec(p.ttl)))
		}
	}
	i := 0
	for _, x := range w {
		if i < len(want) && s.sameStr(x, want[i]) {
			i++
			continue
		}
		if g := segs(x); len(g) > 0 && g[0].Op == OLit && i > 0 && strings.ContainsRune("hlo", rune(g[0].S[0])) && strings.ContainsRune(f.flags, rune(g[0].S[0])) {
			continue
		}
		return fmt.Sprintf("it has %s where %s is expected", x, at(want, i))
	}
	if i < len(want) {
		return fmt.Sprintf("%s is missing", want[i])
	}
	exp := tEmpty
	if strings.Contains(f.flags, "v") {
		exp = cat(p.val, "\r\n")
	}
	if !s.sameStr(rest, exp) {
		return fmt.Sprintf("%s follows the line instead of %s", rest, exp)
	}
	return ""
}

func at(l []*Term, i int) string {
	if i < len(l) {
		return l[i].String()
	}
	return "the end of the line"
}

func (r *ServerRun) binReplyOK(s *State, f *srvForm, rs []srvResp, out *Term) (bool, []string, string) {
	quietMiss := f.quiet && (len(rs) == 0 || len(rs) == 1 && rs[0].kind == "nf")
	if quietMiss && out == tEmpty {
		return true, nil, ""
	}
	if out == tEmpty {
		return false, []string{"S04"}, "there is no reply"
	}
	if len(rs) > 1 {
		// more than one response to a request for one key
		for _, opq := range []*Term{tZero, getF(s, "opaque")} {
			for tail := 0; tail < 2; tail++ {
				for n := 1; n <= len(rs); n++ {
					t, ok := tEmpty, true
					for _, p := range rs[:n] {
						if isHit(p.kind) {
							t = cat(t, r.binItem(s, f, p, opq, true))
						} else {
							ok = ok && f.quiet && p.kind == "nf"
						}
					}
					if tail == 1 {
						t = cat(t, "\x81\x0a"+strings.Repeat("\x00", 10), BE(4, opq), BE(8, tZero))
					}
					if ok && s.sameStr(out, t) {
						return true, nil, ""
					}
				}
			}
		}
		// an error among them: a reply with its status is in there
		if gstr(s, "e:out") != "hit hit" {
			return true, nil, ""
		}
		return false, []string{"S06"}, "it does not carry the items"
	}
	n := StrLen(out)
	if !s.cons.entails(AddC(neg(n), 24)) {
		return false, []string{"S04"}, "it is shorter than a header"
	}
	num := func(lo, k int64) *Term { return s.decodeInt(s.slice(out, Int(lo), Int(lo+k)), k, true, uintOf(k)) }
	byt := func(i int64) *Term {
		if b := s.byteAt(out, Int(i)); b != nil {
			return b
		}
		return AppT("byteat", types.Typ[types.Uint8], out, Int(i))
	}
	klen, elen, status, total := num(2, 2), byt(4), num(6, 2), num(8, 4)
	hdr := func(ok bool, why string) string {
		if ok {
			return ""
		}
		return why
	}
	if why := hdr(s.sameInt(byt(0), Int(0x81)), "the first byte is not the one of replies"); why != "" {
		return false, []string{"S04"}, why
	}
	if why := hdr(s.sameInt(byt(1), Int(int64(f.opc))), "the opcode is not the one of the request"); why != "" {
		return false, []string{"S04"}, why
	}
	if !s.sameInt(total, AddC(n, -24)) {
		return false, []string{"S06", "S04"}, fmt.Sprintf("the declared length %s is not the length of what follows, %s", total, AddC(n, -24))
	}
	kind := "none"
	if len(rs) > 0 {
		kind = rs[0].kind
	}
	want := Int(0x84)
	switch kind {
	case "none":
		if !f.get {
			return false, []string{"S05"}, "it is a reply although the handler returned none"
		}
		want = tOne
	case "nf":
		want = tOne
	case "ex":
		want = Int(2)
	case "mem":
		want = rs[0].st
	case "hit", "hit0", "ok":
		want = tZero
	}
	if kind == "oth" {
		// any status but those of success, a miss and a conflict
		for _, x := range []int64{0, 1, 2} {
			if s.decide(EqInt(status, Int(x))) != 0 {
				return false, []string{"S05"}, fmt.Sprintf("its status is %s", status)
			}
		}
	} else if !s.sameInt(status, want) {
		return false, []string{"S05"}, fmt.Sprintf("its status is %s instead of %s", status, want)
	}
	p := srvResp{kind: kind, key: tEmpty, flags: tEmpty, val: tEmpty, cas: tZero}
	if len(rs) > 0 {
		p = rs[0]
	}
	switch kind {
	case "hit", "hit0", "ok":
		for _, opq := range []*Term{tZero, getF(s, "opaque")} {
			for _, k := range []bool{true, false} {
				if !k && f.opc != 0 {
					continue
				}
				if s.sameStr(out, r.binItem(s, f, p, opq, k)) {
					return true, nil, ""
				}
			}
		}
		return false, []string{"S06"}, "it does not carry " + r.binItem(s, f, p, tZero, true).String()
	}
	// an error: message only
	if !s.sameInt(Add(klen, elen), tZero) {
		return false, []string{"S06"}, "an error reply declares a key or extras"
	}
	return true, nil, ""
}

// binItem is the reply that carries a response.
func (r *ServerRun) binItem(s *State, f *srvForm, p srvResp, opaque *Term, key bool) *Term {
	k := p.key
	if !key {
		k = tEmpty
	}
	fl := p.flags
	total := Add(Add(StrLen(k), StrLen(fl)), StrLen(p.val))
	e := int64(0)
	if fl != tEmpty {
		e = 4
	}
	return cat("\x81"+string([]byte{f.opc}), BE(2, StrLen(k)), string([]byte{byte(e), 0, 0, 0}), BE(4, total), BE(4, opaque), BE(8, s.wrap(p.cas, uint64T)), fl, k, p.val)
}
