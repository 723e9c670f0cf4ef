package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// thresholds collects the integer constants the (hand written) code compares
// with, indexes or slices by: list lengths around them are partitions of their own.
func (p *Program) thresholds() []int64 {
	return p.constants(func(fn *ssa.Function) bool {
		file := p.Fset.Position(fn.Pos()).Filename
		return file != "" && !strings.HasSuffix(file, ".peg.go")
	})
}

// messageThresholds are those of the code around the recognisers: messages and listings.
func (p *Program) messageThresholds() (out []int) {
	for _, n := range p.constants(func(fn *ssa.Function) bool {
		return strings.HasSuffix(p.Fset.Position(fn.Pos()).Filename, ".peg.go") && fn.Name() != "Init" && fn.Name() != "Execute"
	}) {
		out = append(out, int(n))
	}
	return out
}

// constants collects the integer constants of the functions that are of interest.
func (p *Program) constants(of func(fn *ssa.Function) bool) []int64 {
	seen := map[int64]bool{}
	add := func(v ssa.Value) {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return
		}
		if n, ok := constant.Int64Val(c.Value); ok && n >= 3 && n <= 1100 {
			seen[n], seen[n+1], seen[n+2] = true, true, true
		}
	}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if !of(fn) {
			return
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.BinOp:
					switch x.Op {
					case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ, token.REM, token.ADD, token.SUB:
						if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
							add(x.X)
							add(x.Y)
						}
					}
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
						for _, a := range x.Call.Args {
							add(a)
						}
					}
				case *ssa.Slice:
					if a, ok := x.X.(*ssa.Alloc); ok && strings.HasPrefix(a.Comment, "slicelit") || ok && a.Comment == "varargs" {
						continue
					}
					if x.Low != nil {
						add(x.Low)
					}
					if x.High != nil {
						add(x.High)
					}
				case *ssa.Alloc:
					if strings.HasPrefix(x.Comment, "slicelit") || x.Comment == "varargs" || x.Comment == "makeslice" {
						continue
					}
					if a, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && a.Len() >= 3 && a.Len() <= 1100 {
						seen[a.Len()], seen[a.Len()+1] = true, true
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, sp := range p.Repo {
		for _, f := range p.funcs(sp) {
			visit(f)
		}
	}
	var out []int64
	for n := range seen {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// stored collects the values the code puts in maps with elements of a basic
// type, nil if they can not be listed.
func (p *Program) stored(elem types.Type) []Value {
	b, ok := elem.Underlying().(*types.Basic)
	if !ok || b.Info()&(types.IsBoolean|types.IsInteger) == 0 {
		return nil
	}
	seen := map[string]bool{}
	var out []Value
	put := func(c constant.Value) {
		if seen[c.ExactString()] {
			return
		}
		seen[c.ExactString()] = true
		if c.Kind() == constant.Bool {
			out = append(out, constant.BoolVal(c))
		} else if n, ok := constant.Int64Val(c); ok {
			out = append(out, n)
		}
	}
	known := true
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.MapUpdate)
				if !ok || !types.Identical(u.Map.Type().Underlying().(*types.Map).Elem(), elem) {
					continue
				}
				switch x := u.Value.(type) {
				case *ssa.Const:
					put(x.Value)
				case *ssa.BinOp:
					// a counter
					if k, ok := x.Y.(*ssa.Const); ok && x.Op == token.ADD && k.Value.Kind() == constant.Int && constant.Sign(k.Value) > 0 {
						put(k.Value)
						put(constant.BinaryOp(k.Value, token.ADD, k.Value))
						continue
					}
					known = false
				default:
					known = false
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, sp := range p.Repo {
		for _, f := range p.funcs(sp) {
			visit(f)
		}
	}
	if !known {
		return nil
	}
	return out
}
