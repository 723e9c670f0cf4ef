package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 200

func (m *Machine) call(fv Value, args []Value, pos token.Pos, sig *types.Signature) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		return m.callFn(f, nil, args, pos)
	case *Closure:
		return m.callFn(f.Fn, f.Env, args, pos)
	case *Native:
		return f.Fn(m, args)
	case Nil:
		m.gopanic("call of a nil function")
	case *Sym:
		if m.H.CallSym != nil {
			if v, ok := m.H.CallSym(m, f, args, sig); ok {
				return v
			}
		}
		m.undecided("call of unknown function value %s", f.Key)
	}
	m.undecided("call of %T", fv)
	return nil
}

// nodeArg finds the tree node a call is about, the innermost if there are several.
func nodeArg(args []Value) (n *ANode) {
	set := func(x *ANode) {
		if n == nil || len(x.Path) > len(n.Path) {
			n = x
		}
	}
	for _, a := range args {
		if i, ok := a.(*Iface); ok {
			a = i.V
		}
		switch a := a.(type) {
		case *Ptr:
			if a.Obj != nil && a.Obj.Node != nil {
				set(a.Obj.Node)
			}
		case *Struct:
			if a.Node != nil {
				set(a.Node)
			}
		}
	}
	return n
}

func (m *Machine) callFn(fn *ssa.Function, env []Value, args []Value, pos token.Pos) Value {
	if fn.Synthetic == "package initializer" {
		return Nil{} // packages are initialised when their variables are used
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if m.H.Call != nil {
		if v, ok := m.H.Call(m, fn, args, pos); ok {
			return v
		}
	}
	if mod, ok := models[name]; ok {
		if v, ok := mod(m, fn, args); ok {
			return v
		}
	}
	node := nodeArg(args)
	if node != nil {
		// a function that is already being analysed for another node
		active, same, times := false, false, 0
		for f := m.frame; f != nil; f = f.caller {
			if f.Fn == fn && f.Node != nil && !f.Node.inPlace {
				active = true
				times++
				if f.Node == node {
					same = true
				}
			}
		}
		if active && !same && times < 3 && m.helper(fn) {
			active = false
		}
		if active && m.H.Through && len(node.Allowed) != 1 && m.otherFlags(fn, args) {
			// not the function the hypothesis is about
			if times > 1 && !node.Root {
				m.abort("looked at one level higher")
			}
			active = times > 3
			if !node.Root {
				m.through(node)
			}
		}
		if active && (same || !node.Root) && m.H.Rec != nil {
			if v, ok := m.H.Rec(m, fn, args, env, node); ok {
				node.through = false
				return v
			}
		}
	}
	if fn.Pkg == nil && fn.Origin() != nil && fn.Origin().Pkg != nil {
		m.P.build(fn.Origin().Pkg)
	} else if fn.Pkg != nil {
		m.P.build(fn.Pkg)
	}
	if !m.interpretable(fn) || fn.Blocks == nil {
		return m.external(fn, args)
	}
	if node != nil && m.H.Rec != nil {
		args = m.deeper(fn, args)
	}
	return m.run(fn, env, args, node, pos)
}

// through makes a node one that is looked through. Names, functions and lists are left to the nodes
// with a hypothesis.
func (m *Machine) through(n *ANode) {
	ok := map[string]bool{tLit: true, tParen: true, tNot: true, tAnd: true, tOr: true, tCmp: true, tIn: true, tPred: true, tBetw: true}
	if n.Tag == "" {
		var tags []string
		for _, t := range n.Allowed {
			if ok[t] {
				tags = append(tags, t)
			}
		}
		n.Allowed = tags
	}
	if n.Tag != "" && !ok[n.Tag] || n.Tag == "" && len(n.Allowed) == 0 {
		m.abort("only with a hypothesis")
	}
	if n.Lit == "" {
		n.litOnly = []string{"int"}
	}
	n.through = true
}

// otherFlags tells whether a function is called with other flags than for the first node.
func (m *Machine) otherFlags(fn *ssa.Function, args []Value) bool {
	var first *Frame
	for f := m.frame; f != nil; f = f.caller {
		if f.Fn == fn && f.Node != nil && !f.Node.inPlace {
			first = f
		}
	}
	for i, p := range fn.Params {
		b, ok := p.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsBoolean|types.IsString) == 0 || i >= len(args) {
			continue
		}
		x, y := m.force(first.Env[p]), m.force(args[i])
		switch x := x.(type) {
		case bool:
			if y, ok := y.(bool); ok && x != y {
				return true
			}
		case Str:
			if y, ok := y.(Str); ok && x.key() != y.key() && isConstStr(x) && isConstStr(y) {
				return true
			}
		}
	}
	return false
}

func isConstStr(s Str) bool {
	for _, a := range s {
		if a.S != nil {
			return false
		}
	}
	return true
}

// helper tells whether a recursive function only serves an active one that tells the kinds of
// nodes apart. It is followed, so that the hypothesis is about that one.
func (m *Machine) helper(fn *ssa.Function) bool {
	mine := m.P.kinds(fn)
	for f := m.frame; f != nil; f = f.caller {
		if f.Fn != fn && f.Node != nil && !f.Node.inPlace {
			if k := m.P.kinds(f.Fn); k >= 5 && k > mine && m.P.through(fn, f.Fn) {
				return true
			}
		}
	}
	return false
}

// deeper makes counters of the nesting, which differ from call to call, arbitrary in the first call.
func (m *Machine) deeper(fn *ssa.Function, args []Value) []Value {
	signs := m.P.levels(fn)
	if len(signs) == 0 {
		return args
	}
	for f := m.frame; f != nil; f = f.caller {
		if f.Fn == fn {
			return args
		}
	}
	for i, sign := range signs {
		a, ok := args[i].(int64)
		if !ok || !m.decide("deeper call of "+fn.Name()) {
			continue
		}
		args = append([]Value{}, args...)
		args[i] = m.linValue(newLin(a).add(newLin(1, "levels"), sign))
	}
	return args
}

// levels are the parameters of a function that recursive calls count up or down.
func (p *Program) levels(fn *ssa.Function) map[int]int64 {
	if v, ok := p.levelsOf[fn]; ok {
		return v
	}
	out := map[int]int64{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().IsInvoke() {
					continue
				}
				c := ci.Common()
				if g := c.StaticCallee(); g != fn && (g != nil || fn.Parent() == nil || !types.Identical(c.Signature(), fn.Signature)) {
					continue
				}
				for i, a := range c.Args {
					op, ok := a.(*ssa.BinOp)
					if !ok || i >= len(fn.Params) || !isInt(op.Type()) || op.Op != token.ADD && op.Op != token.SUB {
						continue
					}
					if _, ok := op.Y.(*ssa.Const); !ok {
						continue
					}
					out[i] = 1
					if op.Op == token.SUB {
						out[i] = -1
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, sp := range p.Repo {
		if fnPkg(fn) == sp {
			for _, f := range p.funcs(sp) {
				visit(f)
			}
		}
	}
	if p.levelsOf == nil {
		p.levelsOf = map[*ssa.Function]map[int]int64{}
	}
	p.levelsOf[fn] = out
	return out
}

func isInt(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// kinds counts the kinds of nodes a function compares with.
func (p *Program) kinds(fn *ssa.Function) int {
	if n, ok := p.kindsOf[fn]; ok {
		return n
	}
	seen := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if op, ok := in.(*ssa.BinOp); ok && op.Op == token.EQL {
				for _, v := range []ssa.Value{op.X, op.Y} {
					if c, ok := v.(*ssa.Const); ok && c.Value != nil && types.Identical(c.Type(), p.Type("miniquery", "NodeType")) {
						seen[c.Value.ExactString()] = true
					}
				}
			}
		}
	}
	if p.kindsOf == nil {
		p.kindsOf = map[*ssa.Function]int{}
	}
	p.kindsOf[fn] = len(seen)
	return len(seen)
}

// through tells whether fn can call itself, and only by calling via.
func (p *Program) through(fn, via *ssa.Function) bool {
	key := [2]*ssa.Function{fn, via}
	if v, ok := p.throughOf[key]; ok {
		return v
	}
	reaches := func(skip *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(nil) {
						g, ok := (*o).(*ssa.Function)
						if !ok || g == skip {
							continue
						}
						if g == fn {
							return true
						}
						if pk := fnPkg(g); seen[g] || pk != nil && !p.isRepo(pk) {
							continue
						}
						seen[g] = true
						if walk(g) {
							return true
						}
					}
				}
			}
			return false
		}
		return walk(fn)
	}
	v := reaches(nil) && !reaches(via)
	if p.throughOf == nil {
		p.throughOf = map[[2]*ssa.Function]bool{}
	}
	p.throughOf[key] = v
	return v
}

var interpretPkgs = map[string]bool{
	"entgo.io/ent/dialect/sql": true, "entgo.io/ent/dialect/sql/sqlgraph": true, "entgo.io/ent/entql": true,
	"entgo.io/ent/dialect": true, "slices": true, "maps": true, "cmp": true, "iter": true,
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	if p := fn.Parent(); p != nil {
		return fnPkg(p)
	}
	return nil
}

func (m *Machine) interpretable(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if p == nil {
		return true // wrapper, bound method, instantiation
	}
	return m.P.isRepo(p) || interpretPkgs[p.Pkg.Path()]
}

func (m *Machine) run(fn *ssa.Function, env []Value, args []Value, node *ANode, pos token.Pos) (result Value) {
	m.depth++
	if m.depth > maxDepth {
		m.undecided("recursion of %s is not on the structure of the query", fn)
	}
	if p := fnPkg(fn); p != nil && m.P.isRepo(p) {
		m.visited[fn] = true
	}
	f := &Frame{Fn: fn, Env: make(map[ssa.Value]Value), Free: env, Node: node, caller: m.frame, pos: m.Pos}
	for i, p := range fn.Params {
		if i < len(args) {
			f.Env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		f.Env[p] = env[i]
	}
	for _, l := range fn.Locals {
		v := m.zero(l.Type().Underlying().(*types.Pointer).Elem())
		f.Env[l] = &Ptr{P: &v, Obj: m.newObj("local", nil)}
	}
	m.frame = f
	saved, depth := m.Pos, m.depth
	f.Block = fn.Blocks[0]
	func() {
		if fn.Recover == nil {
			m.exec(f)
			return
		}
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			p, ok := r.(*absPanic)
			if !ok {
				panic(r)
			}
			m.frame, m.depth = f, depth
			f.panic = p
			m.runDefers(f)
			if f.panic != nil {
				panic(f.panic)
			}
			f.Block, f.PC = fn.Recover, 0
			m.exec(f)
		}()
		m.exec(f)
	}()
	m.frame = f.caller
	m.depth--
	m.Pos = saved
	return f.result
}

func (m *Machine) runDefers(f *Frame) {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		d()
	}
}

func (m *Machine) exec(f *Frame) {
	for {
		b := f.Block
		jumped := false
		// phis first, in parallel
		n := 0
		var phis []Value
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			n++
			for i, pred := range b.Preds {
				if pred == f.Prev {
					phis = append(phis, m.get(f, phi.Edges[i]))
					break
				}
			}
		}
		for i := 0; i < n; i++ {
			f.Env[b.Instrs[i].(*ssa.Phi)] = phis[i]
		}
		for pc := n; pc < len(b.Instrs); pc++ {
			in := b.Instrs[pc]
			m.steps++
			if m.steps > m.Limit {
				m.undecided("step limit reached in %s", f.Fn)
			}
			if p := in.Pos(); p.IsValid() {
				m.Pos = p
			}
			f.PC = pc
			if m.H.Instr != nil {
				m.H.Instr(m, f, in)
			}
			switch in := in.(type) {
			case *ssa.If:
				c := m.get(f, in.Cond)
				cb, ok := c.(bool)
				if !ok {
					m.undecided("condition %s is not decided", show(c))
				}
				f.Prev = b
				if cb {
					f.Block = b.Succs[0]
				} else {
					f.Block = b.Succs[1]
				}
				jumped = true
			case *ssa.Jump:
				f.Prev = b
				f.Block = b.Succs[0]
				jumped = true
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
				case 1:
					f.result = m.get(f, in.Results[0])
				default:
					var t Tuple
					for _, r := range in.Results {
						t = append(t, m.get(f, r))
					}
					f.result = t
				}
				return
			case *ssa.Panic:
				v := m.get(f, in.X)
				panic(&absPanic{Msg: "panic(" + show(v) + ")", Pos: m.Pos, Val: v})
			default:
				m.instr(f, in)
			}
			if jumped {
				break
			}
		}
		if !jumped {
			return
		}
	}
}

func (m *Machine) get(f *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return m.constant(v)
	case *ssa.Global:
		return m.global(v)
	case *ssa.Function, *ssa.Builtin:
		return v
	}
	if r, ok := f.Env[v]; ok {
		return r
	}
	m.undecided("no value for %s in %s", v.Name(), f.Fn)
	return nil
}

func (m *Machine) constant(c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	switch t := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case t.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return cstr(constant.StringVal(c.Value))
			}
			i, _ := constant.Int64Val(constant.ToInt(c.Value))
			return cstr(string(rune(i)))
		case t.Info()&types.IsInteger != 0:
			return constInt(c.Value)
		case t.Info()&types.IsFloat != 0:
			x, _ := constant.Float64Val(c.Value)
			return x
		}
	case *types.TypeParam:
		if c.Value.Kind() == constant.Int {
			return constInt(c.Value)
		}
	}
	m.undecided("constant %s", c)
	return nil
}

func constInt(v constant.Value) Value {
	v = constant.ToInt(v)
	if i, ok := constant.Int64Val(v); ok {
		return i
	}
	u, _ := constant.Uint64Val(v)
	return int64(u)
}

func isNamed(T types.Type, path, name string) bool {
	n, ok := types.Unalias(T).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Pkg() != nil && o.Pkg().Path() == path && o.Name() == name
}

func (m *Machine) zero(T types.Type) Value {
	if isNamed(T, "strings", "Builder") || isNamed(T, "bytes", "Buffer") {
		return &TextBuf{}
	}
	switch t := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsString != 0:
			return Str{}
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Kind() == types.UntypedNil, t.Kind() == types.UnsafePointer:
			return Nil{}
		}
	case *types.Struct:
		s := &Struct{F: make([]Value, t.NumFields())}
		for i := range s.F {
			s.F[i] = m.zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &Array{E: make([]Value, t.Len())}
		for i := range a.E {
			a.E[i] = m.zero(t.Elem())
		}
		return a
	case *types.Tuple:
		var r Tuple
		for i := 0; i < t.Len(); i++ {
			r = append(r, m.zero(t.At(i).Type()))
		}
		return r
	}
	return Nil{}
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case *Struct:
		n := &Struct{F: make([]Value, len(v.F)), Node: v.Node}
		for i, f := range v.F {
			n.F[i] = copyVal(f)
		}
		return n
	case *Array:
		n := &Array{E: make([]Value, len(v.E))}
		for i, f := range v.E {
			n.E[i] = copyVal(f)
		}
		return n
	}
	return v
}

func (m *Machine) force(v Value) Value {
	for {
		l, ok := v.(*Lazy)
		if !ok {
			return v
		}
		if !l.done {
			l.v = l.Force(m)
			l.done = true
		}
		v = l.v
	}
}

func (m *Machine) load(p *Ptr) Value {
	v := m.force(*p.P)
	*p.P = v
	return copyVal(v)
}

func (m *Machine) store(p *Ptr, v Value) {
	if p.Obj != nil && m.inInit == 0 {
		switch {
		case p.Obj.Node != nil:
			m.event("tree-write", "writes to node "+p.Obj.Node.Path+" of the given tree")
		case p.Obj.Global != nil:
			m.event("global-write", "writes to package variable "+p.Obj.Global.String())
		case p.Obj.Input:
			m.event("input-write", "writes to "+p.Obj.Desc+" of the caller")
		}
	}
	if m.H.Store != nil {
		m.H.Store(m, p, v)
	}
	// keep addresses of fields stable
	switch old := (*p.P).(type) {
	case *Struct:
		if n, ok := v.(*Struct); ok && len(n.F) == len(old.F) {
			c := copyVal(n).(*Struct)
			copy(old.F, c.F)
			old.Node = n.Node
			return
		}
	case *Array:
		if n, ok := v.(*Array); ok && len(n.E) == len(old.E) {
			copy(old.E, copyVal(n).(*Array).E)
			return
		}
	case *TextBuf:
		if n, ok := v.(*TextBuf); ok {
			old.A = append(Str{}, n.A...)
			return
		}
	}
	*p.P = copyVal(v)
}

func (m *Machine) global(g *ssa.Global) *Ptr {
	if p, ok := m.globals[g]; ok {
		return p
	}
	m.initPkg(g.Pkg)
	if p, ok := m.globals[g]; ok {
		return p
	}
	m.undecided("unknown global %s", g)
	return nil
}

func (m *Machine) initPkg(pkg *ssa.Package) {
	if m.inited[pkg] {
		return
	}
	m.inited[pkg] = true
	m.P.build(pkg)
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok {
			v := m.zero(g.Type().Underlying().(*types.Pointer).Elem())
			o := m.newObj("global", nil)
			o.Global = g
			o.Desc = g.String()
			m.globals[g] = &Ptr{P: &v, Obj: o}
		}
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	m.inInit++
	pos, frame, depth := m.Pos, m.frame, m.depth
	defer func() {
		m.inInit--
		m.Pos, m.frame, m.depth = pos, frame, depth
		if !m.P.isRepo(pkg) {
			// variables of dependencies that need more than constants stay zero
			if r := recover(); r != nil {
				if _, ok := r.(abortPath); ok {
					panic(r)
				}
			}
		}
	}()
	m.frame = nil
	m.run(init, nil, nil, nil, token.NoPos)
}

// markGlobal marks everything reachable from package variables.
func (m *Machine) globalObj(o *Object) bool { return o != nil && o.Global != nil }

func (m *Machine) asInt(v Value) (int64, bool) {
	switch v := v.(type) {
	case int64:
		return v, true
	}
	return 0, false
}

func (m *Machine) needInt(v Value, what string) int {
	if i, ok := m.asInt(v); ok {
		return int(i)
	}
	m.undecided("%s is not a known number: %s", what, show(v))
	return 0
}

func (m *Machine) deref(v Value) *Ptr {
	switch p := v.(type) {
	case *Ptr:
		return p
	case Nil:
		m.gopanic("nil pointer dereference")
	}
	m.undecided("dereference of %s", show(v))
	return nil
}

func (m *Machine) instr(f *Frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		f.Env[in] = m.unop(f, in)
	case *ssa.BinOp:
		f.Env[in] = m.binop(in.Op, m.get(f, in.X), m.get(f, in.Y), in.X.Type())
	case *ssa.Call:
		v := m.doCall(f, &in.Call, in.Pos())
		if v == nil {
			v = Nil{}
		}
		f.Env[in] = v
	case *ssa.ChangeInterface:
		f.Env[in] = m.get(f, in.X)
	case *ssa.ChangeType:
		f.Env[in] = m.get(f, in.X)
	case *ssa.Convert:
		f.Env[in] = m.convert(m.get(f, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		f.Env[in] = m.convert(m.get(f, in.X), in.X.Type(), in.Type())
	case *ssa.SliceToArrayPointer:
		m.undecided("slice to array conversion")
	case *ssa.MakeInterface:
		f.Env[in] = m.makeIface(m.get(f, in.X), in.X.Type())
	case *ssa.Extract:
		t, ok := m.get(f, in.Tuple).(Tuple)
		if !ok || in.Index >= len(t) {
			m.undecided("extract from %s", show(m.get(f, in.Tuple)))
		}
		f.Env[in] = t[in.Index]
	case *ssa.Alloc:
		v := m.zero(in.Type().Underlying().(*types.Pointer).Elem())
		if in.Heap {
			f.Env[in] = &Ptr{P: &v, Obj: m.newObj(allocKind(in), in.Type().Underlying().(*types.Pointer).Elem())}
		} else {
			p := f.Env[in].(*Ptr)
			*p.P = v
		}
	case *ssa.Store:
		m.store(m.deref(m.get(f, in.Addr)), m.get(f, in.Val))
	case *ssa.MakeClosure:
		c := &Closure{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.Env = append(c.Env, m.get(f, b))
		}
		f.Env[in] = c
	case *ssa.MakeSlice:
		n := m.needInt(m.get(f, in.Len), "slice length")
		c := m.needInt(slots(m.get(f, in.Cap)), "slice capacity")
		if n < 0 || c < n {
			m.gopanic("makeslice: len out of range")
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		a := &Arr{E: make([]Value, c), Obj: m.newObj("slice", nil)}
		for i := range a.E {
			a.E[i] = m.zero(el)
		}
		f.Env[in] = &Slice{a, 0, n, c}
	case *ssa.MakeMap:
		f.Env[in] = &MapObj{Elem: in.Type().Underlying().(*types.Map).Elem(), Obj: m.newObj("map", nil)}
	case *ssa.Slice:
		f.Env[in] = m.slice(f, in)
	case *ssa.Field:
		x := m.force(m.get(f, in.X))
		s, ok := x.(*Struct)
		if !ok {
			m.undecided("field of %s", show(x))
		}
		v := m.force(s.F[in.Field])
		s.F[in.Field] = v
		f.Env[in] = copyVal(v)
	case *ssa.FieldAddr:
		p := m.deref(m.get(f, in.X))
		x := m.force(*p.P)
		*p.P = x
		s, ok := x.(*Struct)
		if !ok {
			m.undecided("field address of %s", show(x))
		}
		f.Env[in] = &Ptr{P: &s.F[in.Field], Obj: p.Obj}
	case *ssa.Index:
		f.Env[in] = m.index(m.get(f, in.X), m.get(f, in.Index))
	case *ssa.IndexAddr:
		f.Env[in] = m.indexAddr(m.get(f, in.X), m.get(f, in.Index))
	case *ssa.Lookup:
		x := m.get(f, in.X)
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			f.Env[in] = m.index(x, m.get(f, in.Index))
			return
		}
		v, ok := m.mapLookup(x, m.get(f, in.Index), in.X.Type().Underlying().(*types.Map).Elem())
		if in.CommaOk {
			f.Env[in] = Tuple{v, ok}
		} else {
			f.Env[in] = v
		}
	case *ssa.MapUpdate:
		x := m.get(f, in.Map)
		mo, ok := x.(*MapObj)
		if !ok {
			if _, isNil := x.(Nil); isNil {
				m.gopanic("assignment to entry in nil map")
			}
			m.undecided("map update of %s", show(x))
		}
		m.mapStore(mo, m.get(f, in.Key), m.get(f, in.Value))
	case *ssa.Range:
		f.Env[in] = m.rangeOver(m.get(f, in.X), in)
	case *ssa.Next:
		f.Env[in] = m.next(m.get(f, in.Iter), in)
	case *ssa.TypeAssert:
		f.Env[in] = m.typeAssert(in, m.get(f, in.X))
	case *ssa.Defer:
		fv, args := m.prepare(f, &in.Call)
		sig := in.Call.Signature()
		f.defers = append(f.defers, func() { m.call2(f, fv, args, sig, in.Pos()) })
	case *ssa.RunDefers:
		m.runDefers(f)
	case *ssa.Go:
		m.event("goroutine", "starts a goroutine")
		m.undecided("starts a goroutine")
	default:
		m.undecided("instruction %T", in)
	}
}

func allocKind(in *ssa.Alloc) string {
	T := in.Type().Underlying().(*types.Pointer).Elem()
	if n, ok := types.Unalias(T).(*types.Named); ok {
		return n.Obj().Name()
	}
	if in.Comment != "" {
		return "var " + in.Comment
	}
	return "alloc"
}

func (m *Machine) makeIface(v Value, T types.Type) Value {
	if types.IsInterface(T) {
		return v
	}
	return &Iface{T: T, V: v}
}

// prepare evaluates callee and arguments of a call.
func (m *Machine) prepare(f *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := m.get(f, c.Value)
		for _, a := range c.Args {
			args = append(args, m.get(f, a))
		}
		switch r := recv.(type) {
		case *Iface:
			fn := m.P.SSA.LookupMethod(r.T, c.Method.Pkg(), c.Method.Name())
			if fn == nil {
				m.undecided("no method %s on %s", c.Method.Name(), r.T)
			}
			return fn, append([]Value{copyVal(r.V)}, args...)
		case Nil:
			m.gopanic("method call %s on a nil interface", c.Method.Name())
		case *Sym:
			method := c.Method
			return &Native{Name: method.Name(), Fn: func(m *Machine, args []Value) Value {
				if m.H.Invoke != nil {
					if v, ok := m.H.Invoke(m, r, method, args); ok {
						return v
					}
				}
				return m.uninterpreted(r.Key+"."+method.Name(), method.Type().(*types.Signature), args)
			}}, args
		}
		m.undecided("method call %s on %s", c.Method.Name(), show(recv))
	}
	for _, a := range c.Args {
		args = append(args, m.get(f, a))
	}
	return m.get(f, c.Value), args
}

func (m *Machine) doCall(f *Frame, c *ssa.CallCommon, pos token.Pos) Value {
	fv, args := m.prepare(f, c)
	return m.call2(f, fv, args, c.Signature(), pos)
}

func (m *Machine) call2(f *Frame, fv Value, args []Value, sig *types.Signature, pos token.Pos) Value {
	if b, ok := fv.(*ssa.Builtin); ok {
		return m.builtin(f, b, args, sig)
	}
	if pos.IsValid() {
		m.Pos = pos
	}
	p := m.Pos
	v := m.call(fv, args, pos, sig)
	m.Pos = p
	return v
}

func (m *Machine) unop(f *Frame, in *ssa.UnOp) Value {
	x := m.get(f, in.X)
	switch in.Op {
	case token.MUL:
		return m.load(m.deref(x))
	case token.NOT:
		if b, ok := x.(bool); ok {
			return !b
		}
	case token.SUB:
		switch x := x.(type) {
		case int64:
			return wrapInt(-x, in.Type())
		case float64:
			return -x
		case *Sym:
			return m.sym("-"+x.Key, in.Type(), nil)
		}
	case token.XOR:
		if i, ok := x.(int64); ok {
			return wrapInt(^i, in.Type())
		}
	}
	m.undecided("operation %s on %s", in.Op, show(x))
	return nil
}

func wrapInt(v int64, T types.Type) int64 {
	b, ok := T.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32:
		return int64(int32(v))
	case types.Uint8:
		return int64(uint8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Uint32:
		return int64(uint32(v))
	}
	return v
}

func isUnsigned(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (m *Machine) binop(op token.Token, x, y Value, T types.Type) Value {
	if m.H.BinOp != nil {
		if r, ok := m.H.BinOp(m, op, x, y); ok {
			return r
		}
	}
	switch op {
	case token.EQL:
		return m.equal(x, y)
	case token.NEQ:
		return !m.equal(x, y)
	}
	if a, ok := x.(Str); ok {
		b := y.(Str)
		switch op {
		case token.ADD:
			return append(append(Str{}, a...), b...)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			ca, ok1 := m.resolve(a).isConst()
			cb, ok2 := m.resolve(b).isConst()
			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return ca < cb
				case token.LEQ:
					return ca <= cb
				case token.GTR:
					return ca > cb
				}
				return ca >= cb
			}
			return m.decide(fmt.Sprintf("%s %s %s", a, op, b))
		}
	}
	a, ok1 := x.(int64)
	b, ok2 := y.(int64)
	if ok1 && ok2 {
		u := isUnsigned(T)
		switch op {
		case token.ADD:
			return wrapInt(a+b, T)
		case token.SUB:
			return wrapInt(a-b, T)
		case token.MUL:
			return wrapInt(a*b, T)
		case token.QUO:
			if b == 0 {
				m.gopanic("integer divide by zero")
			}
			if u {
				return int64(uint64(a) / uint64(b))
			}
			return a / b
		case token.REM:
			if b == 0 {
				m.gopanic("integer divide by zero")
			}
			return a % b
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return a ^ b
		case token.AND_NOT:
			return a &^ b
		case token.SHL:
			return wrapInt(a<<uint64(b), T)
		case token.SHR:
			if u {
				return int64(uint64(a) >> uint64(b))
			}
			return a >> uint64(b)
		}
		if u {
			ua, ub := uint64(a), uint64(b)
			switch op {
			case token.LSS:
				return ua < ub
			case token.LEQ:
				return ua <= ub
			case token.GTR:
				return ua > ub
			case token.GEQ:
				return ua >= ub
			}
		}
		switch op {
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	fa, ok1 := x.(float64)
	fb, ok2 := y.(float64)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return fa + fb
		case token.SUB:
			return fa - fb
		case token.MUL:
			return fa * fb
		case token.QUO:
			return fa / fb
		case token.LSS:
			return fa < fb
		case token.LEQ:
			return fa <= fb
		case token.GTR:
			return fa > fb
		case token.GEQ:
			return fa >= fb
		}
	}
	if v, ok := m.linOp(op, x, y); ok {
		return v
	}
	xs, ok1 := x.(*Sym)
	ys, ok2 := y.(*Sym)
	if ok1 || ok2 {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return m.compareSym(op, x, y)
		case token.ADD, token.SUB:
			// (s + a) + b
			if ok1 && !ok2 {
				if off, ok := xs.Info.(*symOff); ok && b != 0 {
					d := b
					if op == token.SUB {
						d = -b
					}
					return m.offset(off.Base, off.Off+d, T)
				}
				d := b
				if op == token.SUB {
					d = -b
				}
				return m.offset(xs, d, T)
			}
			if ok2 && !ok1 && op == token.ADD {
				if off, ok := ys.Info.(*symOff); ok {
					return m.offset(off.Base, off.Off+a, T)
				}
				return m.offset(ys, a, T)
			}
		}
		return m.sym(fmt.Sprintf("(%s %s %s)", show(x), op, show(y)), T, nil)
	}
	m.undecided("operation %s %s %s", show(x), op, show(y))
	return nil
}

type symOff struct {
	Base *Sym
	Off  int64
}

func (m *Machine) offset(base *Sym, off int64, T types.Type) Value {
	if off == 0 {
		return base
	}
	s := m.sym(fmt.Sprintf("(%s%+d)", base.Key, off), T, nil)
	s.Info = &symOff{base, off}
	return s
}

// lenOf marks a symbol as the length of a string shape.
type lenOf struct{ S Str }

func (m *Machine) compareSym(op token.Token, x, y Value) bool {
	if c, ok := x.(int64); ok {
		// c op sym  ->  sym op' c
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}
		return m.compareSym(flip[op], y, c)
	}
	s, ok := x.(*Sym)
	if c, ok2 := y.(int64); ok && ok2 {
		if l, ok := s.Info.(*lenOf); ok {
			// normalise to len >= k
			k, neg := c, false
			switch op {
			case token.GTR:
				k = c + 1
			case token.LSS:
				neg = true
			case token.LEQ:
				k, neg = c+1, true
			}
			return m.lenAtLeast(l.S, int(k)) != neg
		}
		k, neg := c, false
		switch op {
		case token.GTR:
			k = c + 1
		case token.LSS:
			neg = true
		case token.LEQ:
			k, neg = c+1, true
		}
		return m.decide(fmt.Sprintf("%s >= %d", s.Key, k)) != neg
	}
	return m.decide(fmt.Sprintf("%s %s %s", show(x), op, show(y)))
}

func (m *Machine) lenAtLeast(s Str, k int) bool {
	s = m.resolve(s)
	if s.minLen() >= k {
		return true
	}
	if c, ok := s.isConst(); ok {
		return len(c) >= k
	}
	if k == 1 {
		return !m.eqStr(s, Str{})
	}
	return m.decide(fmt.Sprintf("len(%s) >= %d", s, k))
}

func (m *Machine) equal(x, y Value) bool {
	x, y = m.force(x), m.force(y)
	switch a := x.(type) {
	case Nil:
		return m.isNil(y)
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
	case int64:
		if b, ok := y.(int64); ok {
			return a == b
		}
		if b, ok := y.(*Sym); ok {
			return m.equal(b, a)
		}
	case float64:
		if b, ok := y.(float64); ok {
			return a == b
		}
	case Str:
		if b, ok := y.(Str); ok {
			return m.eqStr(a, b)
		}
	case *Ptr:
		switch b := y.(type) {
		case *Ptr:
			return a.P == b.P
		case Nil:
			return false
		}
	case *Slice, *MapObj, *Closure, *ssa.Function, *Native:
		if _, ok := y.(Nil); ok {
			return false
		}
		return x == y
	case *Iface:
		switch b := y.(type) {
		case Nil:
			return false
		case *Iface:
			return types.Identical(a.T, b.T) && m.equal(a.V, b.V)
		case *Sym:
			if b.Info == "error" {
				return false
			}
			return m.decide(fmt.Sprintf("%s == %s", show(a), b.Key))
		}
	case *Struct:
		if b, ok := y.(*Struct); ok {
			for i := range a.F {
				if !m.equal(a.F[i], b.F[i]) {
					return false
				}
			}
			return true
		}
	case *Array:
		if b, ok := y.(*Array); ok {
			for i := range a.E {
				if !m.equal(a.E[i], b.E[i]) {
					return false
				}
			}
			return true
		}
	case *Sym:
		switch b := y.(type) {
		case *Sym:
			if a == b || a.Key == b.Key {
				return true
			}
			given := a.Info == "given error" || b.Info == "given error"
			if !given && (a.Info == "error" || b.Info == "error") {
				return false
			}
			k1, k2 := a.Key, b.Key
			if k1 > k2 {
				k1, k2 = k2, k1
			}
			return m.decide(k1 + " == " + k2)
		case Nil:
			return false
		case int64:
			if l, ok := a.Info.(*lenOf); ok {
				if b == 0 {
					return m.eqStr(l.S, Str{})
				}
				if l.S.minLen() > int(b) || b < 0 {
					return false
				}
			}
			return m.decide(fmt.Sprintf("%s == %d", a.Key, b))
		default:
			return m.equal2(a, y)
		}
	}
	if s, ok := y.(*Sym); ok {
		return m.equal2(s, x)
	}
	m.undecided("comparison of %s and %s", show(x), show(y))
	return false
}

func (m *Machine) equal2(a *Sym, y Value) bool {
	return m.decide(fmt.Sprintf("%s == %s", a.Key, show(y)))
}

func (m *Machine) isNil(v Value) bool {
	switch v := v.(type) {
	case Nil:
		return true
	case *Slice:
		return v == nil
	}
	return false
}

func (m *Machine) convert(v Value, from, to types.Type) Value {
	if m.H.Convert != nil {
		if r, ok := m.H.Convert(m, v, to); ok {
			return r
		}
	}
	fu, tu := from.Underlying(), to.Underlying()
	if fb, ok := fu.(*types.Basic); ok {
		if tb, ok := tu.(*types.Basic); ok {
			switch {
			case tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0:
				return v
			case tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0:
				if i, ok := v.(int64); ok {
					return cstr(string(rune(i)))
				}
				return symstr(m.sym("string("+show(v)+")", to, &Dom{NonEmpty: true}))
			case tb.Info()&types.IsInteger != 0:
				switch x := v.(type) {
				case int64:
					return wrapInt(x, to)
				case float64:
					return int64(x)
				case *Sym:
					return m.convSym(x, fb, tb, to)
				}
				return v
			case tb.Info()&types.IsFloat != 0:
				switch x := v.(type) {
				case int64:
					return float64(x)
				case float64:
					return x
				case *Sym:
					return m.sym("float("+x.Key+")", to, nil)
				}
			case tb.Kind() == types.UnsafePointer:
				return v
			}
		}
		if ts, ok := tu.(*types.Slice); ok {
			if s, ok := v.(Str); ok {
				if c, ok := m.resolve(s).isConst(); ok {
					return m.bytesOf(c, ts)
				}
				return &Sym{Key: "chars(" + s.key() + ")", T: to, Info: s}
			}
		}
		if fb.Kind() == types.UnsafePointer {
			return v
		}
	}
	if _, ok := fu.(*types.Pointer); ok {
		return v
	}
	if fs, ok := fu.(*types.Slice); ok {
		switch x := v.(type) {
		case *Sym:
			if s, ok := x.Info.(Str); ok {
				return s
			}
			return symstr(m.sym("string("+x.Key+")", to, nil))
		case Nil:
			return Str{}
		case *Slice:
			eb := fs.Elem().Underlying().(*types.Basic)
			var out Str
			for i := 0; i < x.Len; i++ {
				e := m.force(x.Arr.E[x.Off+i])
				switch e := e.(type) {
				case int64:
					if eb.Kind() == types.Uint8 {
						out = append(out, Atom{C: string([]byte{byte(e)})})
					} else {
						out = append(out, Atom{C: string(rune(e))})
					}
				case *Sym:
					out = append(out, Atom{S: m.sym("string("+e.Key+")", to, &Dom{NonEmpty: true})})
				default:
					m.undecided("string from %s", show(e))
				}
			}
			return out.norm()
		}
	}
	m.undecided("conversion of %s from %s to %s", show(v), from, to)
	return nil
}

func (m *Machine) convSym(x *Sym, fb, tb *types.Basic, to types.Type) Value {
	size := func(b *types.Basic) (bits int, uns bool) {
		uns = b.Info()&types.IsUnsigned != 0
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8, uns
		case types.Int16, types.Uint16:
			return 16, uns
		case types.Int32, types.Uint32, types.UntypedRune:
			return 32, uns
		}
		return 64, uns
	}
	if fb.Info()&types.IsInteger != 0 {
		fs, fu := size(fb)
		ts, tu := size(tb)
		if ts > fs || ts == fs && fu == tu {
			return x // value preserving
		}
	}
	return m.sym(tb.Name()+"("+x.Key+")", to, nil)
}

func (m *Machine) bytesOf(c string, ts *types.Slice) Value {
	a := &Arr{Obj: m.newObj("slice", nil)}
	if ts.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
		for i := 0; i < len(c); i++ {
			a.E = append(a.E, int64(c[i]))
		}
	} else {
		for _, r := range c {
			a.E = append(a.E, int64(r))
		}
	}
	return &Slice{a, 0, len(a.E), len(a.E)}
}

func (m *Machine) slice(f *Frame, in *ssa.Slice) Value {
	x := m.get(f, in.X)
	opt := func(v ssa.Value) Value {
		if v == nil {
			return nil
		}
		return m.get(f, v)
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if m.H.SliceOf != nil {
		if r, ok := m.H.SliceOf(m, x, lo, hi); ok {
			return r
		}
	}
	if p, ok := x.(*Ptr); ok { // pointer to array
		a, ok := (*p.P).(*Array)
		if !ok {
			m.undecided("slice of %s", show(x))
		}
		x = &Slice{&Arr{E: a.E, Obj: p.Obj}, 0, len(a.E), len(a.E)}
	}
	switch s := x.(type) {
	case Str:
		return m.substr(s, lo, hi)
	case *Sym:
		return &Sym{Key: fmt.Sprintf("%s[%s:%s]", s.Key, show(lo), show(hi)), T: in.Type(), Info: &symSlice{s, lo, hi}}
	case Nil:
		if lo != nil && m.needInt(lo, "slice bound") != 0 || hi != nil && m.needInt(hi, "slice bound") != 0 {
			m.gopanic("slice bounds out of range")
		}
		return x
	case *Slice:
		l, h, c := 0, s.Len, s.Cap
		if lo != nil {
			l = m.needInt(lo, "slice bound")
		}
		if hi != nil {
			h = m.needInt(hi, "slice bound")
		}
		if mx != nil {
			c = m.needInt(mx, "slice bound")
		}
		if l < 0 || h < l || h > s.Cap || c < h || c > s.Cap {
			m.gopanic("slice bounds out of range [%d:%d] with capacity %d", l, h, s.Cap)
		}
		return &Slice{s.Arr, s.Off + l, h - l, c - l}
	}
	m.undecided("slice of %s", show(x))
	return nil
}

type symSlice struct {
	Base   *Sym
	Lo, Hi Value
}

func (m *Machine) indexAddr(x, idx Value) Value {
	if m.H.Index != nil {
		if v, ok := m.H.Index(m, x, idx); ok {
			return v
		}
	}
	switch s := x.(type) {
	case *Ptr:
		v := m.force(*s.P)
		*s.P = v
		a, ok := v.(*Array)
		if !ok {
			m.undecided("index of %s", show(v))
		}
		i := m.needInt(idx, "index")
		if i < 0 || i >= len(a.E) {
			m.gopanic("index out of range [%d] with length %d", i, len(a.E))
		}
		return &Ptr{P: &a.E[i], Obj: s.Obj}
	case *Slice:
		for i := 0; i < s.Len; i++ {
			if _, ok := s.Arr.E[s.Off+i].(Spread); ok {
				if p := m.elementOf(s, idx); p != nil {
					return p
				}
				break
			}
		}
		i := m.needInt(idx, "index")
		if i < 0 || i >= s.Len {
			m.gopanic("index out of range [%d] with length %d", i, s.Len)
		}
		if _, ok := s.Arr.E[s.Off+i].(Spread); ok {
			m.undecided("index into values of a sub-expression")
		}
		for j := 0; j < i; j++ {
			if _, ok := s.Arr.E[s.Off+j].(Spread); ok {
				m.undecided("index behind values of a sub-expression")
			}
		}
		return &Ptr{P: &s.Arr.E[s.Off+i], Obj: s.Arr.Obj}
	case Nil:
		m.gopanic("index out of range of an empty slice or nil array")
	}
	m.undecided("index of %s", show(x))
	return nil
}

func (m *Machine) index(x, idx Value) Value {
	switch s := x.(type) {
	case Str:
		s = m.resolve(s)
		i, ok := idx.(int64)
		if c, isC := s.isConst(); isC {
			if !ok {
				m.undecided("index %s", show(idx))
			}
			if i < 0 || int(i) >= len(c) {
				m.gopanic("index out of range [%d] with length %d", i, len(c))
			}
			return int64(c[i])
		}
		if ok {
			n := s.norm()
			if len(n) > 0 && n[0].S == nil && int(i) < len(n[0].C) {
				return int64(n[0].C[i])
			}
			if !m.lenAtLeast(s, int(i)+1) {
				m.gopanic("index out of range [%d] of %s", i, s)
			}
		} else if off, isOff := idx.(*Sym); !isOff || !m.safeIndex(s, off) {
			m.undecided("index %s of %s", show(idx), s)
		}
		return m.sym(fmt.Sprintf("%s[%s]", s.key(), show(idx)), types.Typ[types.Byte], nil)
	case *Array:
		i := m.needInt(idx, "index")
		if i < 0 || i >= len(s.E) {
			m.gopanic("index out of range [%d] with length %d", i, len(s.E))
		}
		v := m.force(s.E[i])
		s.E[i] = v
		return copyVal(v)
	}
	m.undecided("index of %s", show(x))
	return nil
}

// safeIndex: s[len(s)-k]
func (m *Machine) safeIndex(s Str, idx *Sym) bool {
	o, ok := idx.Info.(*symOff)
	if !ok || o.Off >= 0 {
		return false
	}
	l, ok := o.Base.Info.(*lenOf)
	if !ok || l.S.key() != s.key() {
		return false
	}
	if !m.lenAtLeast(s, int(-o.Off)) {
		m.gopanic("index out of range [%d] of %s", o.Off, s)
	}
	return true
}

func (m *Machine) mapLookup(x, k Value, elem types.Type) (Value, bool) {
	mo, ok := x.(*MapObj)
	if !ok {
		if _, isNil := x.(Nil); isNil {
			return m.zero(elem), false
		}
		m.undecided("lookup in %s", show(x))
	}
	for i := len(mo.E) - 1; i >= 0; i-- {
		if m.equal(mo.E[i].K, k) {
			v := m.force(mo.E[i].V)
			mo.E[i].V = v
			return copyVal(v), true
		}
	}
	if mo.Sym != "" || mo.Havoc > 0 {
		kk := keyText(m, k)
		name := mo.Sym
		if mo.Havoc > 0 {
			name = fmt.Sprintf("map#%d'%d", mo.Obj.ID, mo.Havoc)
		}
		for _, x := range mo.miss {
			if m.equal(x, k) {
				return m.zero(elem), false
			}
		}
		if m.decide(fmt.Sprintf("has %s[%s]", name, kk)) {
			v := m.symbolic(fmt.Sprintf("%s[%s]", name, kk), elem)
			if mo.Havoc > 0 {
				if vals := m.P.stored(elem); len(vals) > 0 {
					i := m.choose(len(vals), fmt.Sprintf("value %s[%s]", name, kk), func(i int) string { return show(vals[i]) })
					v = vals[i]
				}
			} else if m.H.Entry != nil {
				m.H.Entry(m, name, k, v)
			}
			mo.E = append(mo.E, MapEntry{k, v})
			return copyVal(v), true
		}
		mo.miss = append(mo.miss, k)
	}
	return m.zero(elem), false
}

func keyText(m *Machine, k Value) string {
	if i, ok := k.(*Iface); ok {
		k = i.V
	}
	if s, ok := k.(Str); ok {
		s = m.resolve(s)
		if c, ok := s.isConst(); ok {
			return fmt.Sprintf("%q", c)
		}
		return s.key()
	}
	return show(k)
}

func (m *Machine) mapStore(mo *MapObj, k, v Value) {
	if mo.Obj != nil && m.inInit == 0 {
		if mo.Obj.Global != nil {
			m.event("global-write", "writes to the map in package variable "+mo.Obj.Global.String())
		} else if mo.Obj.Input {
			m.event("input-write", "writes to the map "+mo.Obj.Desc+" of the caller")
		}
	}
	for i := range mo.E {
		if m.equal(mo.E[i].K, k) {
			mo.E[i].V = v
			return
		}
	}
	mo.E = append(mo.E, MapEntry{k, v})
}

type iterator struct {
	keys []Value
	vals []Value
	i    int
	str  bool
	s    string
	live *MapObj
}

func (m *Machine) rangeOver(x Value, in *ssa.Range) Value {
	switch v := x.(type) {
	case Str:
		c, ok := m.resolve(v).isConst()
		if !ok {
			m.undecided("iteration over the characters of %s", v)
		}
		return &iterator{str: true, s: c}
	case Nil:
		return &iterator{}
	case *MapObj:
		it := &iterator{live: v}
		if v.Sym != "" || v.Havoc > 0 {
			n := m.choose(3, "entries of "+v.Sym, func(i int) string { return fmt.Sprintf("%d further entries in %s", i, v.Sym) })
			mt := in.X.Type().Underlying().(*types.Map)
			for j := 0; j < n; j++ {
				kk := fmt.Sprintf("%s.key%d", v.Sym, j)
				v.E = append(v.E, MapEntry{m.symbolic(kk, mt.Key()), m.symbolic(v.Sym+"["+kk+"]", mt.Elem())})
			}
		}
		for _, e := range v.E {
			it.keys = append(it.keys, e.K)
			it.vals = append(it.vals, e.V)
		}
		m.event("map-order", "iterates over a map")
		if len(it.keys) > 1 {
			if m.choose(2, "map order", func(i int) string { return []string{"map in order", "map in reverse order"}[i] }) == 1 {
				for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
					it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
					it.vals[i], it.vals[j] = it.vals[j], it.vals[i]
				}
			}
		}
		return it
	}
	m.undecided("iteration over %s", show(x))
	return nil
}

func (m *Machine) next(x Value, in *ssa.Next) Value {
	it := x.(*iterator)
	if it.str {
		if it.i >= len(it.s) {
			return Tuple{false, int64(0), int64(0)}
		}
		r, n := utf8.DecodeRuneInString(it.s[it.i:])
		k := it.i
		it.i += n
		return Tuple{true, int64(k), int64(r)}
	}
	if it.i >= len(it.keys) {
		return Tuple{false, m.zeroOr(in.Type().(*types.Tuple).At(1).Type()), m.zeroOr(in.Type().(*types.Tuple).At(2).Type())}
	}
	it.i++
	return Tuple{true, it.keys[it.i-1], copyVal(m.force(it.vals[it.i-1]))}
}

func (m *Machine) zeroOr(T types.Type) Value {
	if b, ok := T.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Nil{}
	}
	return m.zero(T)
}

func (m *Machine) typeAssert(in *ssa.TypeAssert, x Value) Value {
	T := in.AssertedType
	ok := false
	var v Value
	switch i := x.(type) {
	case Nil:
	case *Iface:
		if it, isI := T.Underlying().(*types.Interface); isI {
			if types.Implements(i.T, it) {
				ok, v = true, i
			}
		} else if types.Identical(i.T, T) {
			ok, v = true, copyVal(i.V)
		}
	case *Sym:
		if isSym, yes := m.symIs(i, T); isSym {
			ok = yes
		} else {
			ok = m.decide(fmt.Sprintf("%s is %s", i.Key, types.TypeString(T, func(p *types.Package) string { return p.Name() })))
		}
		if ok {
			if types.IsInterface(T) {
				v = i
			} else {
				v = m.symbolic(i.Key+".("+T.String()+")", T)
			}
		}
	default:
		m.undecided("type assertion on %s", show(x))
	}
	if !ok {
		if !in.CommaOk {
			m.gopanic("type assertion to %s fails for %s", T, show(x))
		}
		return Tuple{m.zero(T), false}
	}
	if in.CommaOk {
		return Tuple{v, true}
	}
	return v
}

// SymTyper lets an analysis decide type assertions on its symbols.
type SymTyper interface {
	Is(m *Machine, T types.Type) (known, yes bool)
}

func (m *Machine) symIs(s *Sym, T types.Type) (known, yes bool) {
	if st, ok := s.Info.(SymTyper); ok {
		return st.Is(m, T)
	}
	if s.T != nil && types.IsInterface(s.T) {
		if it, ok := T.Underlying().(*types.Interface); ok && types.Implements(s.T, it) {
			return true, true
		}
	}
	return false, false
}

func (m *Machine) builtin(f *Frame, b *ssa.Builtin, args []Value, sig *types.Signature) Value {
	if m.H.Builtin != nil {
		if r, ok := m.H.Builtin(m, b.Name(), args); ok {
			return r
		}
	}
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case Str:
			return m.strLen(x)
		case *Slice:
			for i := 0; i < x.Len; i++ {
				if sp, ok := x.Arr.E[x.Off+i].(Spread); ok {
					_ = sp
					return m.linLen(x)
				}
			}
			if b.Name() == "cap" {
				return int64(x.Cap)
			}
			return int64(x.Len)
		case Nil:
			return int64(0)
		case *MapObj:
			if x.Sym != "" || x.Havoc > 0 {
				name := x.Sym
				if x.Havoc > 0 {
					name = fmt.Sprintf("map#%d'%d.%d", x.Obj.ID, x.Havoc, len(x.E))
				}
				return m.sym("len("+name+")", types.Typ[types.Int], nil)
			}
			return int64(len(x.E))
		case *Array:
			return int64(len(x.E))
		case *Ptr:
			if a, ok := (*x.P).(*Array); ok {
				return int64(len(a.E))
			}
		case *Sym:
			if s, ok := x.Info.(Str); ok {
				return m.strLen(s)
			}
			return m.sym("len("+x.Key+")", types.Typ[types.Int], nil)
		}
		m.undecided("len of %s", show(args[0]))
	case "append":
		return m.append(args[0], args[1], sig)
	case "copy":
		dst, ok1 := args[0].(*Slice)
		if !ok1 {
			return int64(0)
		}
		switch src := args[1].(type) {
		case *Slice:
			n := min(dst.Len, src.Len)
			tmp := append([]Value{}, src.Arr.E[src.Off:src.Off+n]...)
			for i, v := range tmp {
				m.store(&Ptr{P: &dst.Arr.E[dst.Off+i], Obj: dst.Arr.Obj}, m.force(v))
			}
			return int64(n)
		case Nil:
			return int64(0)
		}
		m.undecided("copy from %s", show(args[1]))
	case "delete":
		if mo, ok := args[0].(*MapObj); ok {
			if mo.Obj != nil && mo.Obj.Global != nil && m.inInit == 0 {
				m.event("global-write", "deletes from the map in package variable "+mo.Obj.Global.String())
			}
			for i := range mo.E {
				if m.equal(mo.E[i].K, args[1]) {
					mo.E = append(append([]MapEntry{}, mo.E[:i]...), mo.E[i+1:]...)
					break
				}
			}
			return Nil{}
		}
		return Nil{}
	case "print", "println":
		return Nil{}
	case "panic":
		panic(&absPanic{Msg: "panic(" + show(args[0]) + ")", Pos: m.Pos, Val: args[0]})
	case "recover":
		// called directly by the deferred function
		if c := f.caller; c != nil && c.panic != nil {
			v := c.panic.Val
			if v == nil {
				v = m.newError("runtime error")
			}
			c.panic = nil
			return v
		}
		return Nil{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if m.binop(token.LSS, a, r, sig.Params().At(0).Type()) == (b.Name() == "min") {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if m.isNil(args[0]) {
			m.gopanic("method called using nil pointer")
		}
		return args[0]
	case "clear":
		if mo, ok := args[0].(*MapObj); ok {
			mo.E = nil
			mo.Sym, mo.Havoc = "", 0
			return Nil{}
		}
		if s, ok := args[0].(*Slice); ok {
			T := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := 0; i < s.Len; i++ {
				m.store(&Ptr{P: &s.Arr.E[s.Off+i], Obj: s.Arr.Obj}, m.zero(T))
			}
			return Nil{}
		}
		if m.isNil(args[0]) {
			return Nil{}
		}
	case "close":
	}
	m.undecided("builtin %s", b.Name())
	return nil
}

func keyOfSlice(x *Slice) string {
	var b strings.Builder
	for i := 0; i < x.Len; i++ {
		if sp, ok := x.Arr.E[x.Off+i].(Spread); ok {
			fmt.Fprintf(&b, ",%s/%d", sp.Rec.Node.Path, sp.Rec.N)
		} else {
			b.WriteString(",.")
		}
	}
	return b.String()
}

func (m *Machine) append(s, t Value, sig *types.Signature) Value {
	var add []Value
	switch x := t.(type) {
	case Nil:
	case *Slice:
		for i := 0; i < x.Len; i++ {
			add = append(add, copyVal(m.force(x.Arr.E[x.Off+i])))
		}
	case Str:
		c, ok := m.resolve(x).isConst()
		if !ok {
			// []byte(nil) + string
			if b, ok2 := s.(*Sym); ok2 {
				if bs, ok3 := b.Info.(Str); ok3 {
					n := append(append(Str{}, bs...), x...)
					return &Sym{Key: "chars(" + n.key() + ")", T: sig.Params().At(0).Type(), Info: n}
				}
			}
			bs, ok4 := m.bytesConst(s)
			if !ok4 {
				m.undecided("append of %s", x)
			}
			n := append(cstr(bs), x...)
			return &Sym{Key: "chars(" + n.key() + ")", T: sig.Params().At(0).Type(), Info: n}
		}
		if b, ok2 := s.(*Sym); ok2 {
			if bs, ok3 := b.Info.(Str); ok3 {
				n := append(append(Str{}, bs...), x...)
				return &Sym{Key: "chars(" + n.key() + ")", T: sig.Params().At(0).Type(), Info: n}
			}
		}
		for i := 0; i < len(c); i++ {
			add = append(add, int64(c[i]))
		}
	case *Sym:
		if bs, ok := x.Info.(Str); ok {
			return m.append(s, bs, sig)
		}
		m.undecided("append of %s", show(t))
	default:
		m.undecided("append of %s", show(t))
	}
	switch x := s.(type) {
	case Nil:
		if len(add) == 0 {
			return s
		}
		a := &Arr{E: add, Obj: m.newObj("slice", nil)}
		return &Slice{a, 0, len(add), len(add)}
	case *Slice:
		if len(add) == 0 {
			return x
		}
		n := x.Len + len(add)
		if n <= x.Cap {
			for i, v := range add {
				m.store(&Ptr{P: &x.Arr.E[x.Off+x.Len+i], Obj: x.Arr.Obj}, v)
			}
			return &Slice{x.Arr, x.Off, n, x.Cap}
		}
		c := 2 * x.Cap
		if c < n {
			c = n
		}
		a := &Arr{E: make([]Value, c), Obj: m.newObj("slice", nil)}
		copy(a.E, x.Arr.E[x.Off:x.Off+x.Len])
		copy(a.E[x.Len:], add)
		st, _ := sig.Params().At(0).Type().Underlying().(*types.Slice)
		for i := n; i < c; i++ {
			if st != nil {
				a.E[i] = m.zero(st.Elem())
			} else {
				a.E[i] = Nil{}
			}
		}
		return &Slice{a, 0, n, c}
	case *Sym:
		if bs, ok := x.Info.(Str); ok {
			c, ok := m.bytesConst(&Slice{&Arr{E: add}, 0, len(add), len(add)})
			if ok {
				n := append(append(Str{}, bs...), Atom{C: c})
				return &Sym{Key: "chars(" + n.key() + ")", T: x.T, Info: n}
			}
		}
	}
	m.undecided("append to %s", show(s))
	return nil
}

func (m *Machine) bytesConst(v Value) (string, bool) {
	switch x := v.(type) {
	case Nil:
		return "", true
	case *Slice:
		var b []byte
		for i := 0; i < x.Len; i++ {
			c, ok := x.Arr.E[x.Off+i].(int64)
			if !ok {
				return "", false
			}
			b = append(b, byte(c))
		}
		return string(b), true
	}
	return "", false
}
