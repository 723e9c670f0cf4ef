package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Cell is a piece of memory with its static type.
type Cell struct {
	Ptr *Ptr
	T   types.Type
	Var token.Pos // declaration of the field or captured variable
}

// reach is everything a function can get at.
type reach struct {
	m     *Machine
	seen  map[any]bool
	bufs  []*TextBuf
	cells []Cell
	maps  []*MapObj
}

// reachable walks everything reachable from the arguments and the captured
// variables of a function.
func (m *Machine) reachable(fn *ssa.Function, args, env []Value) *reach {
	r := &reach{m: m, seen: map[any]bool{}}
	for i, p := range fn.Params {
		if i < len(args) {
			r.walk(args[i], p.Type())
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(env) {
			r.captured(env[i], p)
		}
	}
	return r
}

// captured walks a captured variable.
func (r *reach) captured(v Value, fv *ssa.FreeVar) {
	n := len(r.cells)
	r.walk(v, fv.Type())
	if p, ok := v.(*Ptr); ok && n < len(r.cells) && r.cells[n].Ptr.P == p.P {
		r.cells[n].Var = fv.Pos()
	}
}

func (r *reach) walk(v Value, T types.Type) {
	switch x := v.(type) {
	case *Iface:
		r.walk(x.V, x.T)
	case *Ptr:
		if r.seen[x.P] {
			return
		}
		r.seen[x.P] = true
		if x.Obj != nil && (x.Obj.Node != nil || x.Obj.Input || x.Obj.Data != nil) {
			return
		}
		var el types.Type
		if T != nil {
			if pt, ok := T.Underlying().(*types.Pointer); ok {
				el = pt.Elem()
			}
		}
		r.cells = append(r.cells, Cell{x, el, token.NoPos})
		r.walk(*x.P, el)
	case *Struct:
		if r.seen[x] || x.Node != nil {
			return
		}
		r.seen[x] = true
		var st *types.Struct
		if T != nil {
			st, _ = T.Underlying().(*types.Struct)
		}
		for i := range x.F {
			var ft types.Type
			var at token.Pos
			if st != nil {
				ft, at = st.Field(i).Type(), st.Field(i).Pos()
			}
			p := &Ptr{P: &x.F[i]}
			if r.seen[p.P] {
				continue
			}
			r.seen[p.P] = true
			r.cells = append(r.cells, Cell{p, ft, at})
			r.walk(x.F[i], ft)
		}
	case *Array:
		for i := range x.E {
			r.walk(x.E[i], nil)
		}
	case *Slice:
		if r.seen[x.Arr] {
			return
		}
		r.seen[x.Arr] = true
		var el types.Type
		if T != nil {
			if st, ok := T.Underlying().(*types.Slice); ok {
				el = st.Elem()
			}
		}
		for i := 0; i < x.Len; i++ {
			r.walk(x.Arr.E[x.Off+i], el)
		}
	case *Closure:
		if r.seen[x] {
			return
		}
		r.seen[x] = true
		for i, e := range x.Env {
			r.captured(e, x.Fn.FreeVars[i])
		}
	case *MapObj:
		if r.seen[x] || x.Obj != nil && (x.Obj.Input || x.Obj.Global != nil) {
			return
		}
		r.seen[x] = true
		r.maps = append(r.maps, x)
		for _, e := range x.E {
			r.walk(e.V, x.Elem)
		}
	case *TextBuf:
		if r.seen[x] {
			return
		}
		r.seen[x] = true
		r.bufs = append(r.bufs, x)
	case *Lazy:
		if x.done {
			r.walk(x.v, T)
		}
	}
}

// forget makes the cells unknown that the code may change while it visits a
// sub-tree: flags, counters and texts.
func (m *Machine) forget(r *reach) {
	for _, c := range r.cells {
		if c.T == nil || !m.P.mutated()[c.Var] {
			continue
		}
		if b, ok := c.T.Underlying().(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsInteger|types.IsString) != 0 {
			m.nsym++
			*c.Ptr.P = m.symbolic(fmt.Sprintf("state%d", m.nsym), c.T)
		}
	}
}

// failing is the variable that keeps the error of functions that return none.
func (m *Machine) failing(r *reach, fn *ssa.Function, n *ANode) {
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isErrorType(res.At(i).Type()) {
			return
		}
	}
	for _, c := range r.cells {
		if c.T == nil || !isErrorType(c.T) || !m.P.mutated()[c.Var] {
			continue
		}
		if v := m.force(*c.Ptr.P); m.isNil(v) && m.decide("fails("+n.Path+")") {
			*c.Ptr.P = m.givenError(n.Path)
		}
		return
	}
}

// mutated are the declarations of the fields and captured variables that are
// assigned to other than when they are made.
func (p *Program) mutated() map[token.Pos]bool {
	if p.mutable != nil {
		return p.mutable
	}
	p.mutable = map[token.Pos]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				switch a := st.Addr.(type) {
				case *ssa.FreeVar:
					p.mutable[a.Pos()] = true
				case *ssa.FieldAddr:
					if _, fresh := a.X.(*ssa.Alloc); fresh {
						continue
					}
					if pt, ok := a.X.Type().Underlying().(*types.Pointer); ok {
						if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
							p.mutable[s.Field(a.Field).Pos()] = true
						}
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, sp := range p.Repo {
		for _, f := range p.funcs(sp) {
			visit(f)
		}
	}
	return p.mutable
}

// counters are the declarations of integer fields that are assigned a sum in a new value.
func (p *Program) counters() map[token.Pos]bool {
	if p.counted != nil {
		return p.counted
	}
	p.counted = map[token.Pos]bool{}
	for _, sp := range p.Repo {
		p.instrs(sp, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok || !isInt(st.Val.Type()) {
				return
			}
			a, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			_, fresh := a.X.(*ssa.Alloc)
			op, sum := st.Val.(*ssa.BinOp)
			if fresh && sum && (op.Op == token.ADD || op.Op == token.SUB) {
				p.counted[a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(a.Field).Pos()] = true
			}
		})
	}
	return p.counted
}

// instrs calls a function for all instructions of a package.
func (p *Program) instrs(sp *ssa.Package, f func(in ssa.Instruction)) {
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f(in)
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, fn := range p.funcs(sp) {
		visit(fn)
	}
}

// elementOf finds an element of a list that contains the values of sub-trees,
// nil if its place is not known.
func (m *Machine) elementOf(s *Slice, idx Value) *Ptr {
	l := asLin(idx)
	if l == nil {
		return nil
	}
	total := newLin(0)
	for i := 0; i < s.Len; i++ {
		total = total.add(lenOfElem(s.Arr.E[s.Off+i]), 1)
	}
	// from the front or from the back
	at, back := l, false
	if len(at.T) > 0 {
		at, back = total.add(l, -1), true
		at.C--
	}
	if len(at.T) > 0 || at.C < 0 {
		return nil
	}
	for k := 0; k < s.Len; k++ {
		i := k
		if back {
			i = s.Len - 1 - k
		}
		e := s.Arr.E[s.Off+i]
		if sp, ok := e.(Spread); ok {
			name := fmt.Sprintf("value %d of %s", at.C, sp.Rec.Node.Path)
			if back {
				name = fmt.Sprintf("last value of %s", sp.Rec.Node.Path)
			}
			var cell Value = m.someValue(name)
			return &Ptr{P: &cell, Obj: s.Arr.Obj}
		}
		if at.C == 0 {
			return &Ptr{P: &s.Arr.E[s.Off+i], Obj: s.Arr.Obj}
		}
		at.C--
	}
	return nil
}

// someValue is the Go value of an unknown literal.
func (m *Machine) someValue(name string) Value {
	switch litKinds[m.choose(len(litKinds), name, func(i int) string { return name + " is " + litKinds[i] })] {
	case "int":
		return &Iface{T: types.Typ[types.Int], V: m.sym(name, types.Typ[types.Int], nil)}
	case "string":
		return &Iface{T: types.Typ[types.String], V: symstr(m.sym(name, types.Typ[types.String], nil))}
	case "bool":
		return &Iface{T: types.Typ[types.Bool], V: m.decide(name)}
	}
	return Nil{}
}

func isAnySlice(T types.Type) bool {
	if T == nil {
		return false
	}
	s, ok := T.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	i, ok := s.Elem().Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// spread appends the values of a sub-tree to a list.
func (m *Machine) spread(p *Ptr, rec *Rec) {
	var es []Value
	switch s := m.load(p).(type) {
	case Nil:
	case *Slice:
		for i := 0; i < s.Len; i++ {
			es = append(es, s.Arr.E[s.Off+i])
		}
	default:
		m.undecided("list of values is %s", show(s))
	}
	es = append(es, Spread{rec})
	*p.P = &Slice{&Arr{E: es, Obj: m.newObj("slice", nil)}, 0, len(es), len(es)}
}

// recSym is the text that translating a sub-tree writes.
func (m *Machine) recSym(n *ANode, fn *ssa.Function, cfg map[string]string) *Sym {
	if n.Path == "" {
		m.undecided("node without path")
	}
	m.nsym++
	return &Sym{Key: fmt.Sprintf("text(%s)", n.Path), T: types.Typ[types.String], Info: &Rec{Node: n, Fn: fn, Cfg: cfg, N: m.nsym}, Dom: &Dom{NonEmpty: true}}
}

func isRec(s *Sym, n *ANode) bool {
	r, ok := s.Info.(*Rec)
	return ok && r.Node == n
}

func recWant(n *ANode) Want {
	return symIs("text("+n.Path+")", func(s *Sym) bool { return isRec(s, n) })
}

// recResults builds the results of a recursive call: errors both ways, text as
// the text of the sub-tree.
func (m *Machine) recResults(fn *ssa.Function, n *ANode, other func(i int, T types.Type) (Value, bool)) (Value, bool) {
	res := fn.Signature.Results()
	var out Tuple
	for i := 0; i < res.Len(); i++ {
		T := res.At(i).Type()
		if other != nil {
			if v, ok := other(i, T); ok {
				out = append(out, v)
				continue
			}
		}
		if isErrorType(T) {
			if m.decide("fails(" + n.Path + ")") {
				out = append(out, m.givenError(n.Path))
			} else {
				out = append(out, Nil{})
			}
			continue
		}
		if v, ok := m.recStruct(T, i, other); ok {
			out = append(out, v)
			continue
		}
		return nil, false
	}
	switch len(out) {
	case 0:
		return Nil{}, true
	case 1:
		return out[0], true
	}
	return out, true
}

// recStruct makes a result that keeps the text and the values of a sub-tree in a struct.
func (m *Machine) recStruct(T types.Type, i int, other func(i int, T types.Type) (Value, bool)) (Value, bool) {
	el := T
	p, ptr := T.Underlying().(*types.Pointer)
	if ptr {
		el = p.Elem()
	}
	named, _ := el.(*types.Named)
	st, ok := el.Underlying().(*types.Struct)
	if !ok || other == nil || named == nil || named.Obj().Pkg() == nil || m.P.Repo[named.Obj().Pkg().Name()] == nil || st.NumFields() == 0 {
		return nil, false
	}
	v := m.zero(el).(*Struct)
	for f := range v.F {
		x, ok := other(i, st.Field(f).Type())
		if !ok {
			return nil, false
		}
		v.F[f] = x
	}
	if !ptr {
		return v, true
	}
	var cell Value = v
	return &Ptr{P: &cell, Obj: m.newObj("result", el)}, true
}

var _ = token.ADD
