package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// sizeConstants: the constants between lo and hi that fn, and the functions of the module it calls, compare
// something with that depends on a length or a position in a list, divide it by, or cut a slice at.
// Lists of such lengths are looked at as well as short ones.
func sizeConstants(p *Program, fn *ssa.Function, lo, hi int64, skip func(f *ssa.Function) bool, elem ...func(t types.Type) bool) []int64 {
	found := map[int64]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	isList := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return !isByte(u.Elem()) && (len(elem) == 0 || elem[0](u.Elem()))
		case *types.Map:
			return len(elem) == 0
		}
		return false
	}
	sized := func(f *ssa.Function) map[ssa.Value]bool {
		m := map[ssa.Value]bool{}
		for changed := true; changed; {
			changed = false
			add := func(v ssa.Value) {
				if v != nil && !m[v] {
					m[v] = true
					changed = true
				}
			}
			for _, pa := range f.Params {
				if b, ok := pa.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Uint8 && f != fn {
					add(pa) // may have been a length at the call
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Call:
						if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
							switch bi.Name() {
							case "len", "cap":
								if isList(x.Call.Args[0].Type()) {
									add(x)
								}
							case "min", "max":
								for _, a := range x.Call.Args {
									if m[a] {
										add(x)
									}
								}
							}
						}
					case *ssa.BinOp:
						if m[x.X] || m[x.Y] {
							switch x.Op {
							case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
							default:
								add(x)
							}
						}
					case *ssa.Phi:
						for _, e := range x.Edges {
							if m[e] {
								add(x)
							}
						}
					case *ssa.Convert:
						if m[x.X] {
							add(x)
						}
					case *ssa.Extract:
						if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 1 && !nx.IsString {
							add(x)
						}
					}
					// the counter of a loop that is compared with a length
					if x, ok := in.(*ssa.BinOp); ok {
						switch x.Op {
						case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
							if m[x.X] {
								if _, c := x.Y.(*ssa.Const); !c {
									add(x.Y)
								}
							}
							if m[x.Y] {
								if _, c := x.X.(*ssa.Const); !c {
									add(x.X)
								}
							}
						}
					}
				}
			}
		}
		return m
	}
	note := func(v ssa.Value) {
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(c.Value); ok && n >= lo && n <= hi {
				found[n] = true
			}
		}
	}
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !p.isModule(f.Package()) && f.Parent() == nil || f != fn && skip != nil && skip(f) {
			return
		}
		seen[f] = true
		m := sized(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.BinOp:
					switch x.Op {
					case token.ADD, token.SUB, token.MUL:
					default:
						if m[x.X] {
							note(x.Y)
						}
						if m[x.Y] {
							note(x.X)
						}
					}
				case *ssa.Slice:
					if isList(x.X.Type()) {
						note(x.Low)
						note(x.High)
						note(x.Max)
					}
				case *ssa.MakeClosure:
					if g, ok := x.Fn.(*ssa.Function); ok {
						visit(g)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "min" || bi.Name() == "max") {
						any := false
						for _, a := range c.Common().Args {
							any = any || m[a]
						}
						if any {
							for _, a := range c.Common().Args {
								note(a)
							}
						}
					}
					visit(c.Common().StaticCallee())
				}
			}
		}
	}
	visit(fn)
	var l []int64
	for n := range found {
		l = append(l, n)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}
