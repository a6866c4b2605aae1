package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shared constants (X02): which values may alias the memory of an initialised package-level variable is
// computed by a flow- and context-insensitive, field-based propagation over all functions of the module;
// nothing may write through such an alias, nor hand one to the user.

type aliases struct {
	p      *Program
	rep    *Report
	roots  map[*ssa.Global]bool
	fns    []*ssa.Function
	cell   map[ssa.Value]map[*ssa.Global]bool // may be the address of the variable itself
	mem    map[ssa.Value]map[*ssa.Global]bool // may refer to memory reachable from the variable
	field  map[string]map[*ssa.Global]bool    // fields that may hold such references
	inside map[ssa.Value]map[*ssa.Global]bool // local memory that may hold such references
	rets   map[*ssa.Function]map[int]map[*ssa.Global]bool
	dirty  bool
	bad    map[*ssa.Global]int
	uses   int
}

func add2(m map[ssa.Value]map[*ssa.Global]bool, v ssa.Value, g *ssa.Global) bool {
	if m[v] == nil {
		m[v] = map[*ssa.Global]bool{}
	}
	if m[v][g] {
		return false
	}
	m[v][g] = true
	return true
}

// refs: values of the type can be used to reach memory.
func refs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return refs(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refs(u.At(i).Type()) {
				return true
			}
		}
		return false
	case *types.Signature:
		return false
	}
	return true
}

func syncType(t types.Type) bool {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Named:
			if o := u.Obj(); o.Pkg() != nil && (o.Pkg().Path() == "sync" || o.Pkg().Path() == "sync/atomic" || o.Pkg().Path() == "log") {
				return true
			}
		}
		return false
	}
}

func isErr(t types.Type) bool {
	return types.Implements(t, errType.Underlying().(*types.Interface))
}

// external functions that write to the memory of an argument
var writers = map[string][]int{
	"io.ReadFull": {1}, "io.ReadAtLeast": {1}, "crypto/rand.Read": {0}, "math/rand.Read": {0}, "bytes.NewBuffer": {0}, "sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Stable": {0}, "sort.Strings": {0}, "sort.Ints": {0},
	"slices.Sort": {0}, "slices.SortFunc": {0}, "slices.Reverse": {0}, "slices.Insert": {0}, "slices.Delete": {0}, "encoding/hex.Encode": {0}, "encoding/hex.Decode": {0}, "encoding/binary.Read": {2},
	"strconv.AppendInt": {0}, "strconv.AppendUint": {0}, "strconv.AppendQuote": {0}, "strconv.AppendBool": {0}, "strconv.AppendFloat": {0}, "fmt.Append": {0}, "fmt.Appendf": {0}, "fmt.Appendln": {0}, "encoding/binary.Append": {0}, "unicode/utf8.EncodeRune": {0}, "unicode/utf8.AppendRune": {0}, "maps.Copy": {0}, "maps.DeleteFunc": {0}, "encoding/json.Unmarshal": {1},
	"(*bufio.Reader).Read": {1}, "(bufio.ReadWriter).Read": {1}, "(*bufio.Scanner).Buffer": {1},
	"(*sync.Pool).Put": {1},
}

func writesArg(name string, i int) bool {
	if strings.HasPrefix(name, "(encoding/binary.") {
		m := name[strings.LastIndexByte(name, '.')+1:]
		return (strings.HasPrefix(m, "PutUint") || strings.HasPrefix(m, "AppendUint")) && i == 1
	}
	for _, k := range writers[name] {
		if k == i {
			return true
		}
	}
	return false
}

func unitShared(p *Program, rep *Report, res *unitResult) {
	a := &aliases{p: p, rep: rep, roots: map[*ssa.Global]bool{}, cell: map[ssa.Value]map[*ssa.Global]bool{}, mem: map[ssa.Value]map[*ssa.Global]bool{}, field: map[string]map[*ssa.Global]bool{}, inside: map[ssa.Value]map[*ssa.Global]bool{}, rets: map[*ssa.Function]map[int]map[*ssa.Global]bool{}, bad: map[*ssa.Global]int{}}
	for f := range p.allFuncs() {
		if len(f.Blocks) > 0 && p.isModule(f.Package()) {
			a.fns = append(a.fns, f)
		}
	}
	sort.Slice(a.fns, func(i, j int) bool {
		if a.fns[i].RelString(nil) != a.fns[j].RelString(nil) {
			return a.fns[i].RelString(nil) < a.fns[j].RelString(nil)
		}
		return a.fns[i].Pos() < a.fns[j].Pos()
	})
	// variables that are given a value when the package is initialised
	for rel, sp := range p.pkgs {
		f := sp.Func("init")
		if f == nil || rel == "testutil" { // not part of the library
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				v := st.Addr
				for {
					switch x := v.(type) {
					case *ssa.FieldAddr:
						v = x.X
						continue
					case *ssa.IndexAddr:
						v = x.X
						continue
					}
					break
				}
				if g, ok := v.(*ssa.Global); ok && g.Name() != "init$guard" && g.Pkg == sp {
					t := g.Type().Underlying().(*types.Pointer).Elem()
					if !syncType(t) {
						a.roots[g] = true
					}
				}
			}
		}
	}
	var gs []*ssa.Global
	for g := range a.roots {
		gs = append(gs, g)
		add2(a.cell, g, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for a.dirty = true; a.dirty; {
		a.dirty = false
		for _, f := range a.fns {
			a.flow(f)
		}
	}
	for _, f := range a.fns {
		if isInit(f) {
			continue
		}
		a.sinks(f)
		res.Funcs = append(res.Funcs, short(f.RelString(nil)))
	}
	for _, g := range gs {
		if a.bad[g] == 0 {
			rep.ok("X02", "never-written", shortG(g))
		}
	}
	res.Steps = a.uses
	rep.paths["aliases"] = len(a.mem) + len(a.cell)
}

func shortG(g *ssa.Global) string {
	return strings.TrimPrefix(strings.TrimPrefix(g.String(), modPath), "/")
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "init" && f.Synthetic != ""
}

func (a *aliases) taint(m map[ssa.Value]map[*ssa.Global]bool, to ssa.Value, from map[*ssa.Global]bool) {
	for g := range from {
		if add2(m, to, g) {
			a.dirty = true
		}
	}
}

func fieldKey(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return fmt.Sprintf("%s.%d", types.TypeString(t, nil), i)
}

func (a *aliases) taintField(k string, from map[*ssa.Global]bool) {
	if len(from) == 0 {
		return
	}
	if a.field[k] == nil {
		a.field[k] = map[*ssa.Global]bool{}
	}
	for g := range from {
		if !a.field[k][g] {
			a.field[k][g] = true
			a.dirty = true
		}
	}
}

func calleesOf(p *Program, c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	var out []*ssa.Function
	if c.IsInvoke() {
		for f := range p.allFuncs() {
			if f.Signature.Recv() == nil || f.Name() != c.Method.Name() {
				continue
			}
			if i, ok := c.Value.Type().Underlying().(*types.Interface); ok && types.Implements(f.Signature.Recv().Type(), i) {
				out = append(out, f)
			}
		}
		return out
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	// a function value: any function of that type
	for f := range p.allFuncs() {
		if f.Signature.Recv() == nil && types.Identical(f.Signature, c.Value.Type().Underlying()) {
			out = append(out, f)
		}
	}
	return out
}

func (a *aliases) flow(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					a.taint(a.mem, x, a.mem[e])
					a.taint(a.cell, x, a.cell[e])
					a.taint(a.inside, x, a.inside[e])
				}
			case *ssa.Slice:
				a.taint(a.mem, x, a.mem[x.X])
				a.taint(a.mem, x, a.cell[x.X]) // a variable of array type
				a.taint(a.inside, x, a.inside[x.X])
			case *ssa.ChangeType:
				a.taint(a.mem, x, a.mem[x.X])
				a.taint(a.inside, x, a.inside[x.X])
			case *ssa.Convert:
				if refs(x.Type()) && refs(x.X.Type()) {
					a.taint(a.mem, x, a.mem[x.X])
				}
			case *ssa.MakeInterface:
				a.taint(a.mem, x, a.mem[x.X])
				a.taint(a.cell, x, a.cell[x.X])
				a.taint(a.inside, x, a.inside[x.X])
			case *ssa.ChangeInterface:
				a.taint(a.mem, x, a.mem[x.X])
			case *ssa.TypeAssert:
				a.taint(a.mem, x, a.mem[x.X])
			case *ssa.Extract:
				if refs(x.Type()) {
					a.taint(a.mem, x, a.mem[x.Tuple])
				}
				if c, ok := x.Tuple.(*ssa.Call); ok {
					for _, fn := range calleesOf(a.p, &c.Call) {
						a.taint(a.mem, x, a.rets[fn][x.Index])
					}
				}
			case *ssa.FieldAddr:
				a.taint(a.mem, x, a.mem[x.X])
				a.taint(a.mem, x, a.cell[x.X])
			case *ssa.IndexAddr:
				a.taint(a.mem, x, a.mem[x.X])
				a.taint(a.mem, x, a.cell[x.X])
			case *ssa.Field:
				if refs(x.Type()) {
					a.taint(a.mem, x, a.mem[x.X])
					a.taint(a.mem, x, a.field[fieldKey(x.X.Type(), x.Field)])
				}
			case *ssa.Index:
				if refs(x.Type()) {
					a.taint(a.mem, x, a.mem[x.X])
				}
			case *ssa.Lookup:
				if refs(x.Type()) {
					a.taint(a.mem, x, a.mem[x.X])
					a.taint(a.mem, x, a.inside[x.X])
				}
			case *ssa.Range:
				a.taint(a.mem, x, a.mem[x.X])
			case *ssa.Next:
				a.taint(a.mem, x, a.mem[x.Iter])
			case *ssa.UnOp:
				if x.Op != token.MUL || !refs(x.Type()) {
					break
				}
				a.taint(a.mem, x, a.mem[x.X])
				a.taint(a.mem, x, a.cell[x.X])
				a.taint(a.mem, x, a.inside[x.X])
				switch ad := x.X.(type) {
				case *ssa.FieldAddr:
					a.taint(a.mem, x, a.field[fieldKey(ad.X.Type(), ad.Field)])
				case *ssa.IndexAddr:
					a.taint(a.mem, x, a.inside[ad.X])
				}
			case *ssa.Store:
				if !refs(x.Val.Type()) || len(a.mem[x.Val]) == 0 || isInit(f) {
					break
				}
				switch ad := x.Addr.(type) {
				case *ssa.FieldAddr:
					a.taintField(fieldKey(ad.X.Type(), ad.Field), a.mem[x.Val])
				case *ssa.IndexAddr:
					a.taint(a.inside, ad.X, a.mem[x.Val])
				default:
					a.taint(a.inside, x.Addr, a.mem[x.Val])
				}
			case *ssa.MapUpdate:
				a.taint(a.inside, x.Map, a.mem[x.Value])
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, v := range x.Bindings {
					a.taint(a.mem, fn.FreeVars[i], a.mem[v])
					a.taint(a.cell, fn.FreeVars[i], a.cell[v])
					a.taint(a.inside, fn.FreeVars[i], a.inside[v])
				}
			case *ssa.Return:
				for i, v := range x.Results {
					if len(a.mem[v]) == 0 {
						continue
					}
					if a.rets[f] == nil {
						a.rets[f] = map[int]map[*ssa.Global]bool{}
					}
					if a.rets[f][i] == nil {
						a.rets[f][i] = map[*ssa.Global]bool{}
					}
					for g := range a.mem[v] {
						if !a.rets[f][i][g] {
							a.rets[f][i][g] = true
							a.dirty = true
						}
					}
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				c := ci.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if v, ok := in.(ssa.Value); ok && bi.Name() == "append" {
						a.taint(a.mem, v, a.mem[c.Args[0]])
						a.taint(a.inside, v, a.inside[c.Args[0]])
					}
					continue
				}
				args := c.Args
				if c.IsInvoke() {
					args = append([]ssa.Value{c.Value}, args...)
				}
				fns := calleesOf(a.p, c)
				for _, fn := range fns {
					for i, v := range args {
						if i < len(fn.Params) {
							a.taint(a.mem, fn.Params[i], a.mem[v])
							a.taint(a.cell, fn.Params[i], a.cell[v])
							a.taint(a.inside, fn.Params[i], a.inside[v])
						}
					}
					if v, ok := in.(ssa.Value); ok {
						if _, isT := v.Type().(*types.Tuple); !isT {
							a.taint(a.mem, v, a.rets[fn][0])
						}
					}
				}
				if len(fns) == 1 && !a.p.isModule(fns[0].Package()) {
					// results of other packages may share memory with what they were given
					n := fns[0].RelString(nil)
					if v, ok := in.(ssa.Value); ok && refs(v.Type()) && sharing(n) {
						for _, x := range args {
							a.taint(a.mem, v, a.mem[x])
						}
					}
				}
			}
		}
	}
}

// sharing: the result of the function is part of its argument.
func sharing(n string) bool {
	if strings.HasPrefix(n, "bytes.Trim") || strings.HasPrefix(n, "bytes.Split") || strings.HasPrefix(n, "bytes.Fields") || strings.HasPrefix(n, "bytes.Cut") {
		return true
	}
	return n == "errors.Unwrap" || n == "slices.Clip" || n == "slices.Grow" || n == "bytes.NewBuffer"
}

func (a *aliases) report(g *ssa.Global, f *ssa.Function, pos token.Pos, format string, x ...interface{}) {
	a.bad[g]++
	fn := short(f.RelString(nil))
	a.rep.bad("X02", "never-written", shortG(g)+" in "+fn, pos, nil, format, x...)
}

func exportedAPI(f *ssa.Function) bool {
	if f.Object() == nil || !f.Object().Exported() || f.Parent() != nil {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Exported()
		}
	}
	return true
}

func (a *aliases) sinks(f *ssa.Function) {
	each := func(m map[*ssa.Global]bool, do func(g *ssa.Global)) {
		var l []*ssa.Global
		for g := range m {
			l = append(l, g)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
		for _, g := range l {
			a.uses++
			do(g)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				each(a.cell[x.Addr], func(g *ssa.Global) { a.report(g, f, x.Pos(), "%s is written", shortG(g)) })
				each(a.mem[x.Addr], func(g *ssa.Global) { a.report(g, f, x.Pos(), "memory of %s is written", shortG(g)) })
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && len(a.mem[x.Val]) > 0 && handsOut(x.Val.Type()) {
					pt, ok := fa.X.Type().Underlying().(*types.Pointer)
					if !ok {
						break
					}
					st, ok := pt.Elem().Underlying().(*types.Struct)
					n, isN := pt.Elem().(*types.Named)
					if ok && isN && n.Obj().Exported() && st.Field(fa.Field).Exported() {
						each(a.mem[x.Val], func(g *ssa.Global) {
							a.report(g, f, x.Pos(), "%s becomes field %s of a %s that the user can write to", shortG(g), st.Field(fa.Field).Name(), n.Obj().Name())
						})
					}
				}
			case *ssa.MapUpdate:
				each(a.mem[x.Map], func(g *ssa.Global) { a.report(g, f, x.Pos(), "%s is written", shortG(g)) })
			case *ssa.Return:
				if !exportedAPI(f) {
					break
				}
				for _, v := range x.Results {
					if !handsOut(v.Type()) {
						continue
					}
					each(a.mem[v], func(g *ssa.Global) {
						a.report(g, f, x.Pos(), "%s is returned to the user, who can write to it", shortG(g))
					})
				}
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			if bi, ok := c.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "append":
					if s, ok := c.Args[0].(*ssa.Slice); ok && s.Max != nil && s.Max == s.High {
						break
					}
					if len(c.Args) < 2 {
						break
					}
					each(a.mem[c.Args[0]], func(g *ssa.Global) {
						a.report(g, f, in.Pos(), "%s is appended to, which may write to its memory", shortG(g))
					})
				case "copy", "clear", "delete":
					each(a.mem[c.Args[0]], func(g *ssa.Global) { a.report(g, f, in.Pos(), "%s is written", shortG(g)) })
				}
				continue
			}
			name := ""
			if fn := c.StaticCallee(); fn != nil {
				if a.p.isModule(fn.Package()) {
					continue
				}
				name = fn.RelString(nil)
				if fn.Origin() != nil {
					name = fn.Origin().RelString(nil)
				}
				for i, v := range c.Args {
					if writesArg(name, i) {
						each(a.mem[v], func(g *ssa.Global) { a.report(g, f, in.Pos(), "%s writes to the memory of %s", name, shortG(g)) })
					}
					if strings.HasPrefix(name, "sync/atomic.") && !strings.HasPrefix(name, "sync/atomic.Load") && i == 0 {
						each(a.cell[v], func(g *ssa.Global) { a.report(g, f, in.Pos(), "%s writes %s", name, shortG(g)) })
					}
				}
			} else if c.IsInvoke() && c.Method.Name() == "Read" && len(c.Args) == 1 {
				each(a.mem[c.Args[0]], func(g *ssa.Global) { a.report(g, f, in.Pos(), "a read fills the memory of %s", shortG(g)) })
			}
		}
	}
}

// handsOut: somebody who has a value of this type can write to what it refers to; shared errors are meant
// to be handed out.
func handsOut(t types.Type) bool {
	if isErr(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
		return true
	}
	return false
}
