package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// The requests the protocols define (C03) and what a command makes of the reply (C05, C06, C11, C12).

// words splits the first line of a text request at its spaces; rest is what follows the line.
func words(t *Term) (w []*Term, rest *Term, ok bool) {
	var cur []*Term
	sg := segs(t)
	for i, g := range sg {
		if g.Op != OLit {
			cur = append(cur, g)
			continue
		}
		l := g.S
		for {
			j := strings.IndexAny(l, " \r\n")
			if j < 0 {
				if l != "" {
					cur = append(cur, Lit(l))
				}
				break
			}
			if j > 0 {
				cur = append(cur, Lit(l[:j]))
			}
			w = append(w, Cat(cur...))
			cur = nil
			if l[j] == ' ' {
				l = l[j+1:]
				continue
			}
			if !strings.HasPrefix(l[j:], "\r\n") {
				return w, nil, false
			}
			return w, Cat(append([]*Term{Lit(l[j+2:])}, sg[i+1:]...)...), true
		}
	}
	return w, nil, false
}

func (s *State) sameStr(a, b *Term) bool {
	if a == b {
		return true
	}
	switch s.decideStrEq(a, b) {
	case 0:
		return false
	case 1:
		return true
	}
	// without the parts that are known to be empty
	na, nb := s.nonEmpty(a), s.nonEmpty(b)
	return (na != a || nb != b) && s.decideStrEq(na, nb) == 1
}

func (s *State) nonEmpty(a *Term) *Term {
	var l []*Term
	for _, g := range segs(a) {
		if (g.Op == OSym || g.Op == OSub || g.Op == OApp) && s.cons.entailsEq(StrLen(g)) {
			continue
		}
		l = append(l, g)
	}
	return Cat(l...)
}

func (s *State) sameInt(a, b *Term) bool { return a == b || s.cons.entailsEq(Sub2(a, b)) }

func cat(parts ...interface{}) *Term {
	var l []*Term
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			l = append(l, Lit(x))
		case *Term:
			l = append(l, x)
		}
	}
	return Cat(l...)
}

// requestOK compares what was sent with the request of the protocol.
func (r *ClientRun) requestOK(s *State, out *Term) (bool, string) {
	if r.multi {
		return r.multiOK(s, out)
	}
	if r.ct.Proto == "binary" {
		return r.binaryOK(s, out)
	}
	verb := ""
	if w, _, ok := words(out); ok && len(w) > 0 {
		verb, _ = constStr(w[0])
	}
	var exp *Term
	it := r.item
	store := func(v string, cas bool) *Term {
		n := StrLen(it.value)
		x := cat(v+" ", it.key, " ", Dec(it.flagnum), " ", Dec(it.exp), " ", Dec(n))
		if cas {
			x = cat(x, " ", Dec(it.cas))
		}
		return cat(x, "\r\n", it.value, "\r\n")
	}
	switch r.op {
	case "Get":
		if verb == "mg" {
			return r.mgOK(s, out, r.key, "vfct", "")
		}
		exp = cat("gets ", r.key, "\r\n")
	case "Set":
		if verb == "ms" {
			return r.msOK(s, out)
		}
		switch s.decide(EqInt(it.cas, tZero)) {
		case 1:
			exp = store("set", false)
		case 0:
			exp = store("cas", true)
		default:
			return false, "set or cas, depending on the CAS of the item"
		}
	case "Add":
		exp = store("add", false)
	case "Replace":
		exp = store("replace", false)
	case "Delete":
		exp = cat("delete ", r.key, "\r\n")
		if r.ct.Proto == "meta" && verb == "md" {
			exp = cat("md ", r.key, "\r\n")
		}
	case "Increment":
		exp = cat("incr ", r.key, " ", Dec(r.ints["delta"]), "\r\n")
	case "Decrement":
		exp = cat("decr ", r.key, " ", Dec(r.ints["delta"]), "\r\n")
	case "Touch":
		exp = cat("touch ", r.key, " ", Dec(r.ints["exp"]), "\r\n")
		if verb == "mg" {
			return r.mgOK(s, out, r.key, "", "T")
		}
		if verb == "md" {
			// stale marking with a new time to live
			if w, rest, ok := words(out); ok && rest == tEmpty && len(w) == 4 && s.sameStr(w[1], r.key) {
				a, b := w[2], w[3]
				if x, _ := constStr(b); x == "I" {
					a, b = b, a
				}
				if x, _ := constStr(a); x == "I" && s.sameStr(b, cat("T", Dec(r.ints["exp"]))) {
					return true, ""
				}
			}
			return false, "md with the flags I and T"
		}
	case "Flush":
		exp = Lit("flush_all\r\n")
	case "Version":
		exp = Lit("version\r\n")
	default:
		return false, "unknown operation " + r.op
	}
	return s.sameStr(out, exp), exp.String()
}

// mgOK: a meta get line with the required flags (and k as an option) and tokens, in any order.
func (r *ClientRun) mgOK(s *State, out, key *Term, need, tokens string) (bool, string) {
	why := fmt.Sprintf("mg %s with the flags %s%s", key, need, tokens)
	w, rest, ok := words(out)
	if !ok || rest != tEmpty || len(w) < 2 || !s.sameStr(w[1], key) {
		return false, why
	}
	if x, _ := constStr(w[0]); x != "mg" {
		return false, why
	}
	seen := map[string]bool{}
	for _, f := range w[2:] {
		x, c := constStr(f)
		switch {
		case c && len(x) == 1 && !seen[x] && (strings.Contains(need, x) || strings.Contains("ks", x)):
			seen[x] = true
		case tokens == "T" && s.sameStr(f, cat("T", Dec(r.ints["exp"]))) && !seen["T"]:
			seen["T"] = true
		default:
			return false, why
		}
	}
	for _, n := range need + tokens {
		if !seen[string(n)] {
			return false, why
		}
	}
	return true, ""
}

func (r *ClientRun) msOK(s *State, out *Term) (bool, string) {
	it := r.item
	why := "ms with key, length, T, C if a CAS is given and F, and the value"
	w, rest, ok := words(out)
	if !ok || len(w) < 3 || !s.sameStr(w[1], it.key) || !s.sameStr(w[2], Dec(StrLen(it.value))) || !s.sameStr(rest, cat(it.value, "\r\n")) {
		return false, why
	}
	seen := map[byte]bool{}
	for _, f := range w[3:] {
		sg := segs(f)
		if sg[0].Op != OLit || seen[sg[0].S[0]] {
			return false, why
		}
		k := sg[0].S[0]
		seen[k] = true
		var v *Term
		switch k {
		case 'T':
			v = it.exp
		case 'C':
			v = it.cas
		case 'F':
			v = it.flagnum
		default:
			return false, why
		}
		if !s.sameStr(f, cat(string(k), Dec(v))) {
			return false, why
		}
	}
	if !seen['T'] || it.hasFlags && !seen['F'] {
		return false, why
	}
	if seen['C'] != (s.decide(EqInt(it.cas, tZero)) == 0) || !seen['C'] && s.decide(EqInt(it.cas, tZero)) != 1 {
		return false, why
	}
	return true, ""
}

// binHeader is a request header.
func binHeader(op byte, klen *Term, elen int64, total, cas *Term) *Term {
	return cat("\x80"+string([]byte{op}), BE(2, klen), string([]byte{byte(elen), 0, 0, 0}), BE(4, total), "\x00\x00\x00\x00", BE(8, cas))
}

func (r *ClientRun) binaryOK(s *State, out *Term) (bool, string) {
	op := map[string]byte{"Get": 0x00, "Set": 0x01, "Add": 0x02, "Replace": 0x03, "Delete": 0x04, "Increment": 0x05, "Decrement": 0x06, "Flush": 0x08, "Version": 0x0b, "Touch": 0x1c}[r.op]
	var exp *Term
	be4 := func(t *Term) *Term { return BE(4, s.wrap(t, uint32T)) }
	switch r.op {
	case "Get", "Delete":
		n := StrLen(r.key)
		exp = cat(binHeader(op, n, 0, n, tZero), r.key)
	case "Set", "Add", "Replace":
		it := r.item
		n := StrLen(it.key)
		cas := it.cas
		if r.op == "Add" {
			cas = tZero
		}
		exp = cat(binHeader(op, n, 8, AddC(Add(n, StrLen(it.value)), 8), cas), BE(4, it.flagnum), be4(it.exp), it.key, it.value)
	case "Increment", "Decrement":
		n := StrLen(r.key)
		exp = cat(binHeader(op, n, 20, AddC(n, 20), tZero), BE(8, s.wrap(r.ints["delta"], uint64T)), BE(8, tOne), be4(r.ints["exp"]), r.key)
	case "Touch":
		n := StrLen(r.key)
		exp = cat(binHeader(op, n, 4, AddC(n, 4), tZero), be4(r.ints["exp"]), r.key)
	case "Flush", "Version":
		exp = binHeader(op, tZero, 0, tZero, tZero)
	default:
		return false, "unknown operation"
	}
	return s.sameStr(out, exp), exp.String()
}

// multiOK: the request of a multi-get.
func (r *ClientRun) multiOK(s *State, out *Term) (bool, string) {
	exp := tEmpty
	switch r.ct.Proto {
	case "text":
		if r.nkeys == 0 {
			return true, "" // there is no such request
		}
		exp = Lit("gets")
		for _, k := range r.keys {
			exp = cat(exp, " ", k)
		}
		exp = cat(exp, "\r\n")
	case "meta":
		rest := out
		for _, k := range r.keys {
			line := firstLine(rest)
			if line == nil {
				return false, "mg for every key and mn"
			}
			if ok, why := r.mgOK(s, line, k, "vfctk", ""); !ok {
				return false, why + " for every key and mn"
			}
			exp = cat(exp, line)
			if rest = afterFirstLine(rest); rest == nil {
				return false, "mg for every key and mn"
			}
		}
		exp = cat(exp, "mn\r\n")
	default:
		for _, k := range r.keys {
			n := StrLen(k)
			exp = cat(exp, binHeader(0x0d, n, 0, n, tZero), k)
		}
		exp = cat(exp, binHeader(0x0a, tZero, 0, tZero, tZero))
	}
	return s.sameStr(out, exp), exp.String()
}

// firstLine is the first line of a text, with its end.
func firstLine(t *Term) *Term {
	if w, _, ok := words(t); !ok || len(w) == 0 {
		return nil
	}
	var l []*Term
	for _, g := range segs(t) {
		if g.Op == OLit {
			if i := strings.Index(g.S, "\r\n"); i >= 0 {
				return Cat(append(l, Lit(g.S[:i+2]))...)
			}
		}
		l = append(l, g)
	}
	return nil
}

func afterFirstLine(t *Term) *Term {
	sg := segs(t)
	for n, g := range sg {
		if g.Op == OLit {
			if i := strings.Index(g.S, "\r\n"); i >= 0 {
				return Cat(append([]*Term{Lit(g.S[i+2:])}, sg[n+1:]...)...)
			}
		}
	}
	return nil
}

// ---- bytes a string is known to have ----

var containsSets = map[string]func(byte) bool{}

// mustHave: some byte of k is known to satisfy pred.
func (s *State) mustHave(k *Term, pred func(byte) bool) bool {
	if l, ok := constStr(k); ok {
		for i := 0; i < len(l); i++ {
			if pred(l[i]) {
				return true
			}
		}
		return false
	}
	all := func(set [256]bool) bool {
		any := false
		for b := range set {
			if set[b] {
				any = true
				if !pred(byte(b)) {
					return false
				}
			}
		}
		return any
	}
	for _, i := range s.elems[k] {
		if all(s.byteSet(AppT("byteat", types.Typ[types.Uint8], k, i))) {
			return true
		}
	}
	for f, v := range s.facts {
		if v && f.Op == OApp && strings.HasPrefix(f.S, "contains:") && f.Args[0] == k {
			if set := containsSets[f.S[9:]]; set != nil {
				var m [256]bool
				for b := range m {
					m[b] = set(byte(b))
				}
				if all(m) {
					return true
				}
			}
		}
	}
	return false
}

// ---- outcome ----

// sentinel is the value of an exported variable of package errors.
func (r *ClientRun) sentinel(s *State, name string) *Term {
	g := r.ct.P.global("errors", name)
	if g == nil {
		return nil
	}
	v, ok := s.load(s.eng.globalPtr(g), g.Type().(*types.Pointer).Elem())
	if !ok {
		return nil
	}
	if t := g.Type().(*types.Pointer).Elem(); !types.IsInterface(t) {
		v = mk(OIface, "", 0, t, nil, nil, v)
	}
	return v
}

func (r *ClientRun) isSentinel(s *State, errv *Term, name string) int {
	v := r.sentinel(s, name)
	if v == nil {
		return -1
	}
	return s.decide(mkEq(errv, v))
}

// want describes what the reply demands: "ok", "notfound", "exists", "error" (neither), "nonnil", "any".
func (r *ClientRun) want(s *State, out string) string {
	casReq := r.item != nil && s.decide(EqInt(r.item.cas, tZero)) != 1
	if r.ct.Proto == "binary" {
		switch out {
		case "success", "hit":
			return "ok"
		case "status1":
			switch r.op {
			case "Get", "Touch", "Replace", "Increment", "Decrement", "Delete":
				return "notfound"
			case "Set":
				if casReq {
					return "notfound"
				}
			}
			return "nonnil"
		case "status2":
			switch r.op {
			case "Add":
				return "exists"
			case "Set", "Replace":
				if casReq {
					return "exists"
				}
			}
			return "nonnil"
		}
		return "error"
	}
	switch r.op + " " + out {
	case "Get hit", "Set stored", "Add stored", "Replace stored", "Delete deleted", "Increment number", "Decrement number", "Touch touched", "Flush ok", "Version version":
		return "ok"
	case "Get end", "Get miss", "Replace notstored", "Increment notfound", "Decrement notfound", "Touch notfound", "Touch miss":
		return "notfound"
	case "Delete notfound":
		if r.ct.Proto == "meta" {
			return "ok or notfound"
		}
		return "notfound"
	case "Delete exists":
		return "exists"
	case "Set notfound":
		if casReq {
			return "notfound"
		}
		return "nonnil"
	case "Set exists":
		if casReq {
			return "exists"
		}
		return "nonnil"
	case "Add notstored":
		return "exists"
	case "Touch deleted":
		return "ok" // md I T
	case "Touch exists", "Add exists", "Add notfound", "Replace exists", "Replace notfound":
		return "nonnil"
	}
	return "error"
}

func (r *ClientRun) outcome(s *State, res, errv *Term, isNil bool, pos token.Pos) {
	out := gstr(s, "e:out")
	tok := s.ghost["e:tok"]
	if r.multi {
		r.multiOutcome(s, res, errv, isNil, pos)
		return
	}
	w := r.want(s, out)
	big := false
	if (r.op == "Increment" || r.op == "Decrement") && w == "ok" && !isNil {
		// a number that does not fit an int64 can only be reported as an error
		if n := s.ghost["e:f:number"]; n != nil && s.decide(Le0(AddC(n, -(1<<63-1)))) != 1 {
			big = true
		}
	}
	nf, ex := r.isSentinel(s, errv, "ItemNotFound"), r.isSentinel(s, errv, "ItemExists")
	if isNil {
		nf, ex = 0, 0
	}
	ok5, ok6 := true, true
	switch w {
	case "ok":
		if !isNil && !big {
			r.bad("C05", "success-is-success", pos, s, "returns an error although the server confirmed the command with %s", tok)
			switch r.op {
			case "Get", "Increment", "Decrement", "Version":
				r.bad("C11", "decoded-without-failure", pos, s, "fails to decode the reply %s", tok)
			}
			return
		}
	case "ok or notfound":
		ok6 = isNil || nf == 1
	case "notfound":
		ok6 = !isNil && nf == 1
		ok5 = !isNil
	case "exists":
		ok6 = !isNil && ex == 1
		ok5 = !isNil
	case "nonnil":
		ok5 = !isNil
	default:
		ok5 = !isNil
		ok6 = nf == 0 && ex == 0
	}
	r.rep.check("C05", "no-false-success", r.name, ok5, pos, s, "returns without error although the reply was %s", tok)
	if ok5 {
		r.rep.check("C06", "shared-errors", r.name, ok6, pos, s, "the reply %s must be reported as %s, but the error is %s", tok, w, errv)
	}
	if w != "ok" || !isNil {
		return
	}
	// results
	switch r.op {
	case "Get":
		why := r.itemBad(s, res.Args[0], true)
		r.rep.check("C11", "fields-from-their-own-place", r.name, why == "", pos, s, "the item of the reply %s is returned with %s", tok, why)
		why = r.notOwn(s, res.Args[0], nil)
		r.rep.check("C08", "own-memory", r.name, why == "", pos, s, "the item returned shares memory: %s", why)
	case "Increment", "Decrement":
		n := s.ghost["e:f:number"]
		r.rep.check("C11", "fields-from-their-own-place", r.name, n != nil && (s.sameInt(res.Args[0], n) || s.sameInt(res.Args[0], s.wrap(n, types.Typ[types.Int64]))), pos, s, "returns %s for the reply %s", res.Args[0], tok)
	case "Version":
		v := s.ghost["e:f:version"]
		r.rep.check("C11", "fields-from-their-own-place", r.name, v != nil && s.sameStr(res.Args[0], v), pos, s, "returns %s for the reply %s", res.Args[0], tok)
	}
}

// fieldsOf returns the fields of the struct a pointer points to, by name.
func (r *ClientRun) fieldsOf(s *State, p *Term) map[string]*Term {
	o, path, ok := s.objOf(p)
	if !ok || o == nil || o.T == nil {
		return nil
	}
	t := typeAt(o.T, path)
	if t == nil {
		return nil
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	m := map[string]*Term{}
	for i := 0; i < st.NumFields(); i++ {
		m[st.Field(i).Name()] = s.loadCell(s.obj(o.id), joinPath(path, fmt.Sprint(i)), st.Field(i).Type())
	}
	return m
}

// itemBad says what is wrong with an item returned for a hit.
func (r *ClientRun) itemBad(s *State, p *Term, single bool) string {
	if s.decide(isNilTerm(p)) != 0 {
		return "no item"
	}
	f := r.fieldsOf(s, p)
	if f == nil {
		return "unknown contents"
	}
	// the message the item is from
	m := gstr(s, "e:msg")
	if !single {
		m = msgOf(f["Key"])
	}
	g := func(n string) *Term { return msgField(m, n) }
	// key
	if k := f["Key"]; !(g("key") != nil && s.sameStr(k, g("key"))) && !(single && s.sameStr(k, r.key)) {
		return fmt.Sprintf("Key %s", k)
	}
	v := s.bytesOf(f["Value"])
	if v == nil || g("value") == nil || !s.sameStr(v, g("value")) {
		return fmt.Sprintf("Value %s", v)
	}
	if fl := s.bytesOf(f["Flags"]); fl == nil || g("flags") == nil || !s.sameStr(fl, BE(4, g("flags"))) {
		return fmt.Sprintf("Flags %s", fl)
	}
	cas := g("cas")
	if cas == nil {
		cas = tZero
	}
	if !s.sameInt(f["Cas"], cas) {
		return fmt.Sprintf("Cas %s", f["Cas"])
	}
	exp := tZero
	if t := g("ttl"); t != nil {
		exp = t
	}
	if !s.sameInt(f["Expiration"], exp) {
		return fmt.Sprintf("Expiration %s", f["Expiration"])
	}
	return ""
}

// msgOf is the message a value is a field of.
func msgOf(t *Term) string {
	if t.Op == OSym && t.sym != nil {
		return t.sym.Msg
	}
	return ""
}

// msgField is a field of a message, nil if the message has no such field.
func msgField(m, field string) *Term {
	i := strings.IndexByte(m, ':')
	if i < 0 {
		return nil
	}
	t := types.Type(uint64T)
	switch field {
	case "key", "flags", "cas", "ttl":
		if !strings.Contains(m[i:], field[:1]) {
			return nil
		}
	}
	switch field {
	case "key", "value":
		t = tString
	case "flags":
		t = uint32T
	case "ttl", "size":
		t = tIntT
	}
	return Sym(m+"."+field, t, nil)
}

// notOwn says which memory of an item is reachable from elsewhere.
func (r *ClientRun) notOwn(s *State, p *Term, at *State) string {
	o, _, ok := s.objOf(p)
	if !ok {
		return "unknown item"
	}
	mine := map[string]string{o.id: "the item"}
	for n, v := range r.fieldsOf(s, p) {
		if v.Op == OSlice {
			if b, _, ok := s.objOf(v.Args[0]); ok {
				mine[b.id] = n
			}
		} else if n == "Value" || n == "Flags" {
			if v.Op != ONil && s.decide(isNilTerm(v)) != 1 {
				return n + " is not known to be new memory"
			}
		}
	}
	for id, n := range mine {
		b := s.obj(id)
		switch b.origin {
		case "caller", "recv", "pool", "stale", "borrowed", "root", "external", "elem", "split":
			return fmt.Sprintf("%s is memory of %s", n, b.origin)
		}
		if b.ext != "" || s.eng.base[id] != nil || b.lazy != nil {
			return fmt.Sprintf("%s is not new memory (%s)", n, id)
		}
		if s.ghost["m:put:"+id] != nil {
			return n + " is in a pool"
		}
	}
	// what else can be reached without going through the item
	t := s.clone()
	delete(t.heap, o.id)
	for i, f := range t.frames {
		if at == nil {
			f.env = nil
			continue
		}
		for v := range f.env {
			if i >= len(at.frames) {
				delete(f.env, v)
			} else if _, ok := at.frames[i].env[v]; !ok {
				delete(f.env, v)
			}
		}
	}
	if at == nil {
		t.frames = nil
	}
	t.ret = nil
	bad := ""
	t.reach(func(id string) {
		if n, ok := mine[id]; ok && id != o.id && bad == "" {
			bad = n + " can also be reached from elsewhere"
		}
	})
	return bad
}

// Attrs summarises an item in a list.
func (r *ClientRun) Attrs(s *State, elem *Term) []string {
	if !r.multi || elem.Op != OPtr {
		return nil
	}
	var l []string
	if r.itemBad(s, elem, false) == "" {
		l = append(l, "item")
	} else if s.eng.debug {
		fmt.Println("attrs:", r.itemBad(s, elem, false))
	}
	if r.notOwn(s, elem, s.eng.joinAt) == "" {
		l = append(l, "own")
	}
	return l
}

func (r *ClientRun) multiOutcome(s *State, res, errv *Term, isNil bool, pos token.Pos) {
	bad := s.ghost["e:bad"]
	if bad == nil && r.ct.Proto == "text" {
		switch gstr(s, "e:out") {
		case "err", "junk":
			bad = s.ghost["e:out"]
		}
	}
	nf, ex := 0, 0
	if !isNil {
		nf, ex = r.isSentinel(s, errv, "ItemNotFound"), r.isSentinel(s, errv, "ItemExists")
	}
	if bad != nil {
		b, _ := constStr(bad)
		if b != "status1" {
			r.rep.check("C05", "no-false-success", r.name, !isNil, pos, s, "returns without error although a reply was %s", bad)
			if b != "status2" {
				r.rep.check("C06", "shared-errors", r.name, nf == 0 && ex == 0, pos, s, "an error reply (%s) is reported as a shared error", bad)
			}
			return
		}
	}
	if !isNil {
		r.bad("C12", "no-error-without-cause", pos, s, "returns an error although the server answered with hits and misses only (last reply: %s)", s.ghost["e:tok"])
		return
	}
	items := res.Args[0]
	hits := s.ghost["n:hits"]
	if hits == nil {
		hits = tZero
	}
	n := s.lenOf(items)
	r.rep.check("C12", "one-item-per-hit", r.name, n != nil && s.sameInt(n, hits), pos, s, "returns %s items for %s hits", n, hits)
	l, ok := s.elemsOf(items, r.fn.Signature.Results().At(0).Type())
	if !ok {
		if items.Op == ONil {
			return
		}
		r.bad("C11", "fields-from-their-own-place", pos, s, "the items returned are not known: %s", items)
		return
	}
	seen := map[string]bool{}
	for _, g := range l {
		if g.Star != nil {
			r.rep.check("C11", "fields-from-their-own-place", r.name, g.Star.attrs["item"], pos, s, "not every item is known to be the item of its reply")
			r.rep.check("C12", "own-key", r.name, g.Star.attrs["item"], pos, s, "not every item is known to be the item of its reply")
			r.rep.check("C08", "own-memory", r.name, g.Star.attrs["own"], pos, s, "not every item is known to have its own memory")
			continue
		}
		// items found last: their reply is still known
		if why := r.itemBad(s, g.Elem, false); why != "" {
			r.bad("C11", "fields-from-their-own-place", pos, s, "an item is returned with %s", why)
			continue
		}
		r.ok("C11", "fields-from-their-own-place")
		r.ok("C12", "own-key")
		why := r.notOwn(s, g.Elem, nil)
		r.rep.check("C08", "own-memory", r.name, why == "", pos, s, "an item is returned: %s", why)
		m := msgOf(r.fieldsOf(s, g.Elem)["Key"])
		r.rep.check("C12", "each-hit-once", r.name, !seen[m], pos, s, "a value the server sent once is returned twice")
		seen[m] = true
	}
}

// lenOf is the length of a slice value.
func (s *State) lenOf(v *Term) *Term {
	switch v.Op {
	case ONil:
		return tZero
	case OSlice:
		return sliceLen(v)
	}
	return nil
}
