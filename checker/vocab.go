package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"
)

// The words of the protocol that both sides use.

// vocabRec: a verb or an opcode that one side uses for an operation.
type vocabRec struct{ Side, Proto, Op, Verb, Pos string }

// sent notes the verbs (opcodes) of a request that is right.
func (r *ClientRun) sent(out *Term, pos token.Pos) {
	if r.vocab == nil {
		r.vocab = map[string]vocabRec{}
	}
	rec := func(op, verb string) {
		k := op + " " + verb
		if _, ok := r.vocab[k]; !ok {
			r.vocab[k] = vocabRec{Side: "client", Proto: r.ct.Proto, Op: op, Verb: verb, Pos: r.e.P.pos(pos)}
		}
	}
	op := r.op
	if r.multi {
		op = "Get"
	}
	if r.ct.Proto == "binary" {
		g := segs(out)
		if len(g) > 0 && g[0].Op == OLit && len(g[0].S) > 1 && !r.multi {
			rec(op, fmt.Sprintf("%02x", g[0].S[1]))
		}
		return
	}
	w, _, ok := words(out)
	if !ok || len(w) == 0 {
		return
	}
	verb, ok := constStr(w[0])
	if !ok {
		return
	}
	// a meta command is told by its flags, too
	fl := ""
	if verb == "md" || verb == "mg" && op == "Touch" {
		for _, x := range w[2:] {
			if g := segs(x); len(g) > 0 && g[0].Op == OLit && g[0].S != "" {
				fl += g[0].S[:1]
			}
		}
	}
	rec(op, strings.TrimSpace(verb+" "+fl))
}

var protocolOpcodes = map[string]int64{"Get": 0, "Set": 1, "Add": 2, "Replace": 3, "Delete": 4, "Increment": 5, "Decrement": 6, "Quit": 7, "Flush": 8, "GetQ": 9, "Noop": 0xa, "Version": 0xb, "GetK": 0xc, "GetKQ": 0xd, "Append": 0xe, "Prepend": 0xf, "Touch": 0x1c}

var opcodeName = regexp.MustCompile(`^(?:[a-z][A-Za-z]*O|[oO])pcode([A-Z][A-Za-z]*)$`)

// unitOpcodes compares the constants for opcodes with the numbers of the protocol.
func unitOpcodes(p *Program, rep *Report) {
	for _, pkg := range []string{"client", "server"} {
		sp := p.pkgs[pkg]
		if sp == nil {
			continue
		}
		for _, n := range sp.Pkg.Scope().Names() {
			c, ok := sp.Pkg.Scope().Lookup(n).(*types.Const)
			m := opcodeName.FindStringSubmatch(n)
			if !ok || m == nil {
				continue
			}
			want, known := protocolOpcodes[m[1]]
			v, exact := constant.Int64Val(constant.ToInt(c.Val()))
			if !known || !exact {
				continue
			}
			if v == want {
				rep.ok("X03", "numbers-of-the-protocol", pkg+"."+n)
			} else {
				rep.bad("X03", "numbers-of-the-protocol", pkg+"."+n, c.Pos(), nil, "the opcode %s is 0x%02x, in the protocol it is 0x%02x", n, v, want)
			}
		}
	}
}

// crossVocab: what a client sends for an operation the server understands as this operation.
func crossVocab(c *checkRun) {
	srv := map[string]bool{}
	offered := map[string]bool{}
	understood := map[string]string{}
	for _, r := range c.results {
		for _, v := range r.Vocab {
			if v.Side == "server" {
				srv[v.Proto+" "+v.Op+" "+v.Verb] = true
				understood[v.Proto+" "+v.Verb] = v.Op
				offered[v.Op] = true
			}
		}
	}
	for _, r := range c.results {
		for _, v := range r.Vocab {
			if v.Side != "client" || !offered[v.Op] {
				continue
			}
			name := v.Proto + " " + v.Op + " " + v.Verb
			ok := srv[v.Proto+" "+v.Op+" "+v.Verb] || v.Proto == "meta" && srv["text "+v.Op+" "+v.Verb]
			if ok {
				c.okN("understood", name, 1)
				continue
			}
			why := "is not understood by the server"
			o := understood[v.Proto+" "+v.Verb]
			if o == "" && v.Proto == "meta" {
				o = understood["text "+v.Verb]
			}
			if o != "" {
				why = "is understood by the server as " + o
			}
			c.add(&Finding{Prop: c.prop, Rule: "understood", Construct: name, Pos: v.Pos, N: 1, Text: fmt.Sprintf("what the client of the %s protocol sends for %s (%s) %s", v.Proto, v.Op, v.Verb, why)})
		}
	}
}
