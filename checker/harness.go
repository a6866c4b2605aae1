package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ClientType is an implementation of client.Server found in the source.
type ClientType struct {
	T     *types.Named
	Proto string // text, meta, binary
	New   *ssa.Function
	P     *Program
	Probs []string
}

// clientTypes finds the struct types of package client that implement Server and their constructors.
func clientTypes(p *Program) ([]*ClientType, []string) {
	var probs []string
	si := p.typ("client", "Server")
	if si == nil {
		return nil, []string{"client.Server is gone"}
	}
	iface, ok := si.Underlying().(*types.Interface)
	if !ok {
		return nil, []string{"client.Server is not an interface"}
	}
	scope := p.pkgs["client"].Pkg.Scope()
	var out []*ClientType
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || nt == si {
			continue
		}
		if _, ok := nt.Underlying().(*types.Struct); !ok || !types.Implements(types.NewPointer(nt), iface) {
			continue
		}
		ct := &ClientType{T: nt, P: p}
		switch {
		case strings.Contains(n, "Text"):
			ct.Proto = "text"
		case strings.Contains(n, "Meta"):
			ct.Proto = "meta"
		case strings.Contains(n, "Binary"):
			ct.Proto = "binary"
		default:
			probs = append(probs, "client."+n+" implements Server over an unknown protocol")
			continue
		}
		for _, m := range p.pkgs["client"].Members {
			f, ok := m.(*ssa.Function)
			if !ok || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
				continue
			}
			r := f.Signature.Results()
			if r.Len() == 2 && types.Identical(r.At(0).Type(), types.NewPointer(nt)) && isErrorType(r.At(1).Type()) {
				ct.New = f
			}
		}
		if ct.New == nil {
			probs = append(probs, "no constructor of client."+n+" found")
			continue
		}
		out = append(out, ct)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Proto > out[j].Proto })
	if len(out) != 3 {
		probs = append(probs, fmt.Sprintf("expected 3 client protocols, found %d", len(out)))
	}
	return out, probs
}

func isErrorType(t types.Type) bool { return types.TypeString(t, nil) == "error" }

func (c *ClientType) method(name string) *ssa.Function {
	return c.P.methodByName(types.NewPointer(c.T), name)
}

// ctorRun collects the states in which a function returns.
type ctorRun struct {
	rets []*State
	goEv []*Event
	ev   func(s *State, ev *Event)
}

func (h *ctorRun) Return(s *State, res *Term)             { h.rets = append(h.rets, s) }
func (h *ctorRun) Panic(s *State, pos token.Pos, v *Term) {}
func (h *ctorRun) Event(s *State, ev *Event) {
	if h.ev != nil {
		h.ev(s, ev)
	}
}

// construct runs the constructor and returns the states in which it succeeds, with the receiver.
func (c *ClientType) construct() (out []*State, recv []*Term, eng *Engine) {
	e := newEngine(c.P)
	h := &ctorRun{}
	e.hooks = h
	s := newState(e)
	var args []*Term
	for _, p := range c.New.Params {
		args = append(args, s.unknownOf("arg."+p.Name(), p.Type()))
	}
	e.Run(s, c.New, args, nil)
	for _, r := range h.rets {
		t := r.ret
		if t.Op != OTuple || r.decide(isNilTerm(t.Args[1])) != 1 || r.decide(isNilTerm(t.Args[0])) == 1 {
			continue
		}
		out = append(out, r)
		recv = append(recv, t.Args[0])
	}
	return out, recv, e
}
