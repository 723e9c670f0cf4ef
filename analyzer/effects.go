package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect analysis: a flow-insensitive, field-sensitive, inclusion-based
// points-to analysis of the repository's SSA, with every write classified by
// the memory it can reach.

func init() {
	rules["X02"] = &Rule{
		Level:     "other",
		Technique: "effect analysis on an inclusion-based (Andersen) points-to analysis of the whole repository",
		Explanation: "Starting from the exported functions, the memory every pointer can refer to is computed over the SSA form of all repository functions (flow-insensitive, field-sensitive, allocation sites, function values resolved). " +
			"Every store, map update, append, copy, delete and every call that hands memory to a dependency is an obligation: its target must not be a package variable or memory reachable from one, a node of a given tree, a given schema, or a given list of queries.",
		Assumptions: []string{"functions of dependencies on the list of readers (fmt, errors, strings, strconv, regexp matching, lookups in slices and maps, slog) do not write to their arguments", "code run before main (package initialisation) is not concurrent with calls"},
		Run:         func(c *Ctx) { analyseEffects(c) },
	}
	rules["X03"] = &Rule{
		Level:     "other",
		Technique: "effect lint over the SSA of the whole repository: sources of nondeterminism",
		Explanation: "Every instruction of every repository function is inspected: iteration over maps (unless each iteration only fills another map under its own key, or the collected keys are sorted before use), goroutines, channels, select, clocks, random numbers, environment, process state, addresses turned into numbers or text. " +
			"Every instruction that can introduce such a dependence is an obligation.",
		Assumptions: []string{"functions of dependencies are deterministic unless they are on the list of sources", "shared state does not change between calls (X02)"},
		Run:         func(c *Ctx) { analyseSources(c) },
	}
}

type eobj struct {
	kind string // global, alloc, func, tree, list, caller
	desc string
	fn   *ssa.Function
	T    types.Type
	init bool
}

type eloc struct {
	o    *eobj
	path string
}

type ekey struct {
	v ssa.Value
	i int
}

type eset map[eloc]bool

type effects struct {
	c       *Ctx
	p       *Program
	pts     map[ekey]eset
	cont    map[eloc]eset
	rets    map[*ssa.Function][]eset
	objs    map[any]*eobj
	tree    *eobj
	list    *eobj
	callers map[string]*eobj
	fns     map[*ssa.Function]bool // to be analysed
	api     map[*ssa.Function]bool // reachable from exported functions
	order   []*ssa.Function
	changed bool
	nodeT   types.Type
	calls   map[*ssa.Function]map[*ssa.Function]bool
}

func (e *effects) obj(key any, kind, desc string) *eobj {
	if o := e.objs[key]; o != nil {
		return o
	}
	o := &eobj{kind: kind, desc: desc}
	e.objs[key] = o
	return o
}

func (e *effects) add(s eset, l eloc) {
	if !s[l] {
		s[l] = true
		e.changed = true
	}
}

func (e *effects) addAll(s, t eset) {
	for l := range t {
		e.add(s, l)
	}
}

func (e *effects) set(v ssa.Value, i int) eset {
	k := ekey{v, i}
	s := e.pts[k]
	if s == nil {
		s = eset{}
		e.pts[k] = s
	}
	return s
}

func (e *effects) content(l eloc) eset {
	s := e.cont[l]
	if s == nil {
		s = eset{}
		e.cont[l] = s
	}
	return s
}

func aggregate(T types.Type) bool {
	switch T.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func isNodePtr(T types.Type, nodeT types.Type) bool {
	p, ok := T.Underlying().(*types.Pointer)
	return ok && nodeT != nil && types.Identical(p.Elem(), nodeT)
}

// fromCaller is what memory handed in from outside can hold.
func (e *effects) fromCaller(T types.Type) eset {
	s := eset{}
	switch t := T.Underlying().(type) {
	case *types.Pointer:
		if isNodePtr(T, e.nodeT) {
			s[eloc{e.tree, ""}] = true
			return s
		}
		s[eloc{e.caller(T), ""}] = true
	case *types.Slice:
		if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			s[eloc{e.list, ""}] = true
			return s
		}
		if isNodePtr(t.Elem(), e.nodeT) {
			s[eloc{e.tree, ""}] = true
			return s
		}
		s[eloc{e.caller(T), ""}] = true
	case *types.Map, *types.Struct, *types.Array:
		if e.nodeT != nil && types.Identical(T, e.nodeT) {
			s[eloc{e.tree, ""}] = true
			return s
		}
		s[eloc{e.caller(T), ""}] = true
	}
	return s
}

func (e *effects) caller(T types.Type) *eobj {
	k := "caller " + T.String()
	o := e.callers[k]
	if o == nil {
		o = &eobj{kind: "caller", desc: k, T: T}
		e.callers[k] = o
	}
	return o
}

// typePkg is the package that defines a type.
func typePkg(T types.Type) string {
	for {
		switch t := T.(type) {
		case *types.Pointer:
			T = t.Elem()
			continue
		case *types.Slice:
			T = t.Elem()
			continue
		case *types.Map:
			T = t.Elem()
			continue
		case *types.Array:
			T = t.Elem()
			continue
		case *types.Named:
			if t.Obj().Pkg() != nil {
				return t.Obj().Pkg().Path()
			}
		}
		return ""
	}
}

func (e *effects) repoType(T types.Type) bool {
	path := typePkg(T)
	for _, sp := range e.p.Repo {
		if sp.Pkg.Path() == path {
			return true
		}
	}
	return false
}

// schemaPart is a list of texts inside a type of a dependency.
func (e *effects) schemaPart(T types.Type) *eobj {
	k := "part of " + T.String()
	o := e.callers[k]
	if o == nil {
		o = &eobj{kind: "caller", desc: k, T: T}
		e.callers[k] = o
	}
	return o
}

func isSchema(o *eobj) bool {
	if o.kind != "caller" {
		return false
	}
	p := typePkg(o.T)
	return p == "gorm.io/gorm/schema" || p == "entgo.io/ent/dialect/sql/sqlgraph"
}

func opaque(o *eobj) bool { return o.kind == "tree" || o.kind == "list" }

func (e *effects) sub(l eloc, p string) eloc {
	if opaque(l.o) || strings.Count(l.path, ".")+strings.Count(l.path, "[") > 6 {
		return l
	}
	return eloc{l.o, l.path + p}
}

// load is what a location of a type can hold.
func (e *effects) load(l eloc, T types.Type) eset {
	if aggregate(T) {
		return eset{l: true}
	}
	if l.o.kind == "tree" {
		switch T.Underlying().(type) {
		case *types.Pointer, *types.Slice:
			return eset{eloc{e.tree, ""}: true}
		}
		return nil
	}
	if l.o.kind == "list" {
		return nil
	}
	if l.o.kind == "caller" {
		s := eset{}
		for k := range e.fromCaller(T) {
			// lists inside the types of dependencies are not lists of queries
			if k.o == e.list && !e.repoType(l.o.T) {
				k = eloc{e.schemaPart(l.o.T), ""}
			}
			s[k] = true
		}
		for k := range e.cont[l] {
			s[k] = true
		}
		return s
	}
	return e.cont[l]
}

// assign stores a value of a type into a location.
func (e *effects) assign(l eloc, v eset, T types.Type) {
	switch t := T.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			for s := range v {
				e.assign(e.sub(l, fmt.Sprintf(".%d", i)), e.load(e.sub(s, fmt.Sprintf(".%d", i)), t.Field(i).Type()), t.Field(i).Type())
			}
		}
	case *types.Array:
		for s := range v {
			e.assign(e.sub(l, "[]"), e.load(e.sub(s, "[]"), t.Elem()), t.Elem())
		}
	default:
		if len(v) == 0 || l.o.kind == "tree" || l.o.kind == "list" {
			return
		}
		e.addAll(e.content(l), v)
	}
}

func (e *effects) val(v ssa.Value) eset {
	switch x := v.(type) {
	case *ssa.Global:
		o := e.obj(x, "global", x.String())
		return eset{eloc{o, ""}: true}
	case *ssa.Function:
		o := e.obj(x, "func", x.String())
		o.fn = x
		return eset{eloc{o, ""}: true}
	case *ssa.Const:
		return nil
	}
	return e.set(v, 0)
}

func (e *effects) use(fn *ssa.Function) {
	if fn.Blocks == nil || e.fns[fn] {
		return
	}
	p := fnPkg(fn)
	if p != nil && !e.p.isRepo(p) {
		return
	}
	if p == nil && fn.Synthetic == "" {
		return
	}
	e.fns[fn] = true
	e.order = append(e.order, fn)
	e.changed = true
}

func analyseEffects(c *Ctx) {
	p := c.P
	e := &effects{c: c, p: p, pts: map[ekey]eset{}, cont: map[eloc]eset{}, rets: map[*ssa.Function][]eset{}, objs: map[any]*eobj{},
		tree: &eobj{kind: "tree", desc: "the given tree"}, list: &eobj{kind: "list", desc: "the given list"}, callers: map[string]*eobj{},
		fns: map[*ssa.Function]bool{}, api: map[*ssa.Function]bool{}, nodeT: p.Type("miniquery", "Node"), calls: map[*ssa.Function]map[*ssa.Function]bool{}}
	if e.nodeT == nil {
		c.failAt("X02", "miniquery", "", nil, nil, "type Node not found in the source")
		return
	}
	var roots []*ssa.Function
	for _, name := range sortedKeys(p.Repo) {
		sp := p.Repo[name]
		if init := sp.Func("init"); init != nil {
			e.use(init)
		}
		for _, mn := range sortedKeys(sp.Members) {
			switch m := sp.Members[mn].(type) {
			case *ssa.Function:
				if token.IsExported(mn) {
					roots = append(roots, m)
				}
			case *ssa.Type:
				if name == "miniquery" && !publicType(e, mn) {
					continue
				}
				for _, f := range p.methods(m) {
					if token.IsExported(f.Name()) {
						roots = append(roots, f)
					}
				}
			}
		}
	}
	for _, r := range roots {
		e.use(r)
		for _, prm := range r.Params {
			e.addAll(e.set(prm, 0), e.fromCaller(prm.Type()))
		}
	}
	rounds := 0
	for e.changed = true; e.changed; rounds++ {
		e.changed = false
		for i := 0; i < len(e.order); i++ {
			e.function(e.order[i])
		}
		if rounds > 200 {
			c.failAt("X02", "", "", nil, nil, "points-to analysis does not stabilise")
			return
		}
	}
	// reachable from the API
	var mark func(f *ssa.Function)
	mark = func(f *ssa.Function) {
		if e.api[f] {
			return
		}
		e.api[f] = true
		for g := range e.calls[f] {
			mark(g)
		}
		for _, a := range f.AnonFuncs {
			if e.fns[a] {
				mark(a)
			}
		}
	}
	for _, r := range roots {
		mark(r)
	}
	// memory reachable from package variables
	shared := map[*eobj]string{}
	byObj := map[*eobj][]eset{}
	for l, s := range e.cont {
		byObj[l.o] = append(byObj[l.o], s)
	}
	var reach func(o *eobj, from string)
	reach = func(o *eobj, from string) {
		if shared[o] != "" || o.kind == "tree" || o.kind == "list" || o.kind == "caller" {
			return
		}
		shared[o] = from
		for _, s := range byObj[o] {
			for l := range s {
				reach(l.o, from)
			}
		}
	}
	for _, o := range e.objs {
		if o.kind == "global" {
			reach(o, o.desc)
		}
	}
	for _, fn := range e.order {
		if !e.api[fn] {
			continue
		}
		c.Funcs[fn.String()] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				e.check(fn, in, shared)
			}
		}
	}
	c.Partitions["points-to rounds"] = rounds
	c.count("X02", "pointer_variables", len(e.pts))
	c.count("X02", "memory_locations", len(e.cont))
	c.count("X02", "roots", len(roots))
}

// publicType: types of package miniquery that users work with; the others are
// the state of one parse.
func publicType(e *effects, name string) bool {
	T := e.p.Type("miniquery", name)
	n, ok := T.(*types.Named)
	if !ok || !token.IsExported(name) {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return true
	}
	// the parser and its state hold a stack of nodes or the buffer
	if types.Identical(T, e.nodeT) {
		return true
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if s, ok := f.Type().Underlying().(*types.Slice); ok && (isNodePtr(s.Elem(), e.nodeT)) {
			return false
		}
		if f.Embedded() && !publicType2(e, f.Type()) {
			return false
		}
	}
	return true
}

func publicType2(e *effects, T types.Type) bool {
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	n, ok := T.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg() != e.nodeT.(*types.Named).Obj().Pkg() {
		return true
	}
	return publicType(e, n.Obj().Name())
}

func (e *effects) function(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			e.instr(fn, in)
		}
	}
}

func (e *effects) instr(fn *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		o := e.obj(x, "alloc", "memory allocated in "+fn.String())
		e.add(e.set(x, 0), eloc{o, ""})
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		o := e.obj(x, "alloc", "memory allocated in "+fn.String())
		e.add(e.set(x.(ssa.Value), 0), eloc{o, ""})
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		o := e.obj(x, "func", f.String())
		o.fn = f
		e.add(e.set(x, 0), eloc{o, ""})
		for i, bd := range x.Bindings {
			e.addAll(e.set(f.FreeVars[i], 0), e.val(bd))
			e.addAll(e.content(eloc{o, fmt.Sprintf("$%d", i)}), e.val(bd))
		}
		e.use(f)
		e.call(fn, f)
		e.anonParams(f)
	case *ssa.MakeInterface:
		e.addAll(e.set(x, 0), e.val(x.X))
	case *ssa.ChangeType:
		e.addAll(e.set(x, 0), e.val(x.X))
	case *ssa.ChangeInterface:
		e.addAll(e.set(x, 0), e.val(x.X))
	case *ssa.Convert:
		if _, ok := x.Type().Underlying().(*types.Basic); !ok || x.Type().Underlying() == types.Typ[types.UnsafePointer] {
			e.addAll(e.set(x, 0), e.val(x.X))
		}
	case *ssa.SliceToArrayPointer:
		e.addAll(e.set(x, 0), e.val(x.X))
	case *ssa.Slice:
		e.addAll(e.set(x, 0), e.val(x.X))
	case *ssa.Phi:
		for _, v := range x.Edges {
			e.addAll(e.set(x, 0), e.val(v))
		}
	case *ssa.TypeAssert:
		s := e.val(x.X)
		e.addAll(e.set(x, 0), s)
	case *ssa.Extract:
		e.addAll(e.set(x, 0), e.set(x.Tuple, x.Index))
	case *ssa.FieldAddr:
		for l := range e.val(x.X) {
			e.add(e.set(x, 0), e.sub(l, fmt.Sprintf(".%d", x.Field)))
		}
	case *ssa.IndexAddr:
		for l := range e.val(x.X) {
			e.add(e.set(x, 0), e.sub(l, "[]"))
		}
	case *ssa.Field:
		for l := range e.val(x.X) {
			e.addAll(e.set(x, 0), e.load(e.sub(l, fmt.Sprintf(".%d", x.Field)), x.Type()))
		}
	case *ssa.Index:
		for l := range e.val(x.X) {
			e.addAll(e.set(x, 0), e.load(e.sub(l, "[]"), x.Type()))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			for l := range e.val(x.X) {
				e.addAll(e.set(x, 0), e.load(l, x.Type()))
			}
		}
	case *ssa.Lookup:
		T := x.Type()
		if t, ok := T.(*types.Tuple); ok {
			T = t.At(0).Type()
		}
		for l := range e.val(x.X) {
			e.addAll(e.set(x, 0), e.load(e.sub(l, "{}"), T))
		}
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok && !x.IsString {
			T := x.Type().(*types.Tuple).At(2).Type()
			for l := range e.val(r.X) {
				e.addAll(e.set(x, 2), e.load(e.sub(l, "{}"), T))
			}
		}
	case *ssa.Store:
		v := e.val(x.Val)
		for l := range e.val(x.Addr) {
			e.assign(l, v, x.Val.Type())
		}
	case *ssa.MapUpdate:
		v := e.val(x.Value)
		for l := range e.val(x.Map) {
			e.assign(e.sub(l, "{}"), v, x.Value.Type())
		}
	case *ssa.Return:
		r := e.rets[fn]
		if r == nil {
			r = make([]eset, len(x.Results))
			for i := range r {
				r[i] = eset{}
			}
			e.rets[fn] = r
		}
		for i, v := range x.Results {
			e.addAll(r[i], e.val(v))
		}
	case ssa.CallInstruction:
		e.callInstr(fn, x)
	}
}

func (e *effects) call(from, to *ssa.Function) {
	m := e.calls[from]
	if m == nil {
		m = map[*ssa.Function]bool{}
		e.calls[from] = m
	}
	m[to] = true
}

// anonParams: a function literal can be called from a dependency.
func (e *effects) anonParams(f *ssa.Function) {
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Struct); ok {
			continue
		}
		if isNodePtr(p.Type(), e.nodeT) {
			continue // called with nodes of the caller only by repository code
		}
		e.addAll(e.set(p, 0), e.fromCaller(p.Type()))
	}
}

// callees resolves a call inside the repository; external tells if something
// else can be called.
func (e *effects) callees(c *ssa.CallCommon) (fns []*ssa.Function, external *ssa.Function) {
	if c.IsInvoke() {
		for _, sp := range e.p.Repo {
			for _, mem := range sp.Members {
				t, ok := mem.(*ssa.Type)
				if !ok {
					continue
				}
				for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					it, ok := c.Value.Type().Underlying().(*types.Interface)
					if !ok || types.IsInterface(T) || !types.Implements(T, it) {
						continue
					}
					if f := e.p.SSA.LookupMethod(T, c.Method.Pkg(), c.Method.Name()); f != nil {
						fns = append(fns, f)
					}
				}
			}
		}
		return fns, nil
	}
	if f := c.StaticCallee(); f != nil {
		if pk := fnPkg(f); pk != nil && !e.p.isRepo(pk) {
			return nil, f
		}
		return []*ssa.Function{f}, nil
	}
	for l := range e.val(c.Value) {
		if l.o.fn != nil {
			if pk := fnPkg(l.o.fn); pk != nil && !e.p.isRepo(pk) {
				continue
			}
			fns = append(fns, l.o.fn)
		}
	}
	return fns, nil
}

func (e *effects) callInstr(fn *ssa.Function, in ssa.CallInstruction) {
	c := in.Common()
	res := in.Value()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			o := e.obj(in, "alloc", "memory allocated in "+fn.String())
			s := e.set(res, 0)
			e.add(s, eloc{o, ""})
			// a list without capacity is never appended to in place
			if !noCapacity(c.Args[0]) {
				e.addAll(s, e.val(c.Args[0]))
			}
			if len(c.Args) > 1 {
				st, ok := c.Args[1].Type().Underlying().(*types.Slice)
				if ok {
					for l := range s {
						for _, a := range c.Args {
							for t := range e.val(a) {
								e.assign(e.sub(l, "[]"), e.load(e.sub(t, "[]"), st.Elem()), st.Elem())
							}
						}
					}
				}
			}
		case "copy":
			st, ok := c.Args[1].Type().Underlying().(*types.Slice)
			if ok {
				for l := range e.val(c.Args[0]) {
					for t := range e.val(c.Args[1]) {
						e.assign(e.sub(l, "[]"), e.load(e.sub(t, "[]"), st.Elem()), st.Elem())
					}
				}
			}
		}
		return
	}
	fns, ext := e.callees(c)
	// parsing from outside gives a tree of its own
	if ext == nil && len(fns) == 1 && fns[0] == e.p.Func("miniquery", "Parse") && fnPkg(fn) != e.p.Repo["miniquery"] {
		e.use(fns[0])
		e.call(fn, fns[0])
		if res != nil {
			e.add(e.set(res, 0), eloc{e.tree, ""})
		}
		return
	}
	for _, f := range fns {
		e.use(f)
		e.call(fn, f)
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, c.Args...)
		}
		for i, a := range args {
			if i < len(f.Params) {
				e.addAll(e.set(f.Params[i], 0), e.val(a))
			}
		}
		if res == nil {
			continue
		}
		for i, r := range e.rets[f] {
			e.addAll(e.set(res, i), r)
		}
	}
	// function values handed to dependencies are called by them
	for _, a := range c.Args {
		for l := range e.val(a) {
			if l.o.fn != nil {
				e.use(l.o.fn)
				e.call(fn, l.o.fn)
			}
		}
	}
	if ext != nil && res != nil {
		name := ext.String()
		if o := ext.Origin(); o != nil {
			name = o.String()
		}
		switch name {
		case "slices.Clone", "slices.Concat", "slices.Collect", "slices.Sorted", "slices.Repeat", "maps.Clone", "maps.Collect", "bytes.Clone":
			o := eloc{e.obj(in, "alloc", "memory allocated in "+fn.String()), ""}
			e.add(e.set(res, 0), o)
			// the elements are shared
			for _, a := range c.Args {
				var T types.Type
				switch t := a.Type().Underlying().(type) {
				case *types.Slice:
					T = t.Elem()
				case *types.Map:
					T = t.Elem()
				default:
					continue
				}
				for t := range e.val(a) {
					e.assign(e.sub(o, "[]"), e.load(e.sub(t, "[]"), T), T)
				}
			}
		default:
			// results of dependencies may alias memory given to them
			if n := ext.Name(); fnPkg(ext) != nil {
				switch fnPkg(ext).Pkg.Path() {
				case "slices", "maps", "sync", "sync/atomic", "reflect":
					_ = n
					for _, a := range c.Args {
						if _, ok := res.Type().(*types.Tuple); !ok && !aggregate(res.Type()) {
							e.addAll(e.set(res, 0), e.val(a))
						}
					}
				}
			}
		}
	}
}

// x[:0:0]
func noCapacity(v ssa.Value) bool {
	x, ok := v.(*ssa.Slice)
	if !ok || x.Max == nil {
		return false
	}
	c, ok := x.Max.(*ssa.Const)
	return ok && c.Value != nil && c.Value.String() == "0"
}

var readers = map[string]bool{
	"fmt": true, "errors": true, "strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "github.com/pkg/errors": true,
	"log/slog": true, "reflect": true, "github.com/huandu/xstrings": true, "math": true,
}

var sliceReaders = map[string]bool{
	"Contains": true, "ContainsFunc": true, "Index": true, "IndexFunc": true, "Clone": true, "Equal": true, "EqualFunc": true, "Concat": true,
	"Sorted": true, "SortedFunc": true, "Collect": true, "Keys": true, "Values": true, "All": true, "Backward": true, "IsSorted": true, "Max": true, "Min": true, "BinarySearch": true, "Repeat": true,
}

// check classifies the write effects of an instruction.
func (e *effects) check(fn *ssa.Function, in ssa.Instruction, shared map[*eobj]string) {
	var targets []ssa.Value
	what, call := "", false
	switch x := in.(type) {
	case *ssa.Store:
		targets, what = []ssa.Value{x.Addr}, "writes to"
	case *ssa.MapUpdate:
		targets, what = []ssa.Value{x.Map}, "writes to"
	case *ssa.Send:
		targets, what = []ssa.Value{x.Chan}, "sends on"
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if !noCapacity(c.Args[0]) {
					targets, what = c.Args[:1], "appends to"
				}
			case "copy", "delete", "clear":
				targets, what = c.Args[:1], "changes"
			}
			break
		}
		_, ext := e.callees(c)
		if ext == nil {
			break
		}
		pk := fnPkg(ext)
		path := ""
		if pk != nil {
			path = pk.Pkg.Path()
		}
		if readers[path] && !strings.Contains(ext.String(), "Builder)") && !strings.HasPrefix(ext.Name(), "Fprint") && !strings.HasPrefix(ext.Name(), "Set") && ext.Name() != "Sscan" {
			break
		}
		if (path == "slices" || path == "maps") && sliceReaders[originName(ext)] {
			break
		}
		if path == "regexp" && ext.Name() != "Longest" {
			break
		}
		std := !strings.Contains(strings.SplitN(path, "/", 2)[0], ".")
		for _, a := range c.Args {
			switch a.Type().Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map:
				targets = append(targets, a)
			case *types.Interface:
				if mi, ok := a.(*ssa.MakeInterface); ok && std {
					targets = append(targets, mi.X)
				}
			}
		}
		call = !std
		what = "lets " + ext.String() + " change"
	}
	if what == "" {
		return
	}
	e.c.Obligations["X02"]++
	e.c.count("X02", "writes "+strings.SplitN(what, " ", 2)[0], 1)
	bad := ""
	for _, t := range targets {
		for l := range e.val(t) {
			switch {
			case l.o.kind == "global":
				bad = "package variable " + l.o.desc
			case l.o.kind == "tree" || l.o.kind == "list":
				bad = l.o.desc
			case isSchema(l.o) && !call:
				bad = "the given schema (" + typeName(l.o.T) + ")"
			case shared[l.o] != "" && l.o.kind != "func":
				bad = "memory shared through package variable " + shared[l.o]
			}
		}
	}
	if bad == "" {
		e.c.Discharged["X02"]++
		if e.c.Discharged["X02"]%50 == 1 && len(e.c.Samples["X02"]) < 12 {
			e.c.Samples["X02"] = append(e.c.Samples["X02"], fmt.Sprintf("%s in %s: %s", e.p.position(in.Pos()), fn, in))
		}
		return
	}
	pos := in.Pos()
	if !pos.IsValid() {
		pos = fn.Pos()
	}
	e.c.failAt("X02", e.p.position(pos), fn.String(), nil, nil, what+" "+bad)
}

func typeName(T types.Type) string {
	return types.TypeString(T, func(p *types.Package) string { return p.Name() })
}

func originName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.Name()
	}
	return f.Name()
}

// --- sources of nondeterminism

var ndCalls = map[string]string{
	"time.Now": "the clock", "time.Since": "the clock", "time.Until": "the clock", "time.After": "the clock", "time.Tick": "the clock", "time.NewTimer": "the clock", "time.NewTicker": "the clock", "time.AfterFunc": "the clock",
	"os.Getenv": "the environment", "os.LookupEnv": "the environment", "os.Environ": "the environment", "os.ExpandEnv": "the environment", "os.Getpid": "the process", "os.Hostname": "the host", "os.Getwd": "the process", "os.ReadFile": "files", "os.Open": "files", "os.Stat": "files",
	"os.Executable": "the process", "os.Getuid": "the process",
	"runtime.NumGoroutine": "goroutines", "runtime.GC": "the garbage collector", "runtime.NumCPU": "the host", "runtime.GOMAXPROCS": "the host", "runtime.Caller": "the build", "runtime.Callers": "the build", "runtime.ReadMemStats": "the process",
	"hash/maphash.MakeSeed": "a random seed", "hash/maphash.String": "a random seed",
	"(reflect.Value).MapKeys": "the iteration order of a map", "(reflect.Value).MapRange": "the iteration order of a map", "(*sync.Map).Range": "the iteration order of a map",
	"(reflect.Value).Pointer": "an address", "(reflect.Value).UnsafePointer": "an address",
	"(*sync.Pool).Get": "the garbage collector", "context.WithTimeout": "the clock", "context.WithDeadline": "the clock",
}

func analyseSources(c *Ctx) {
	const prop = "X03"
	p := c.P
	oblig := func(pos token.Pos, fn *ssa.Function, bad string) {
		c.Obligations[prop]++
		if bad == "" {
			c.Discharged[prop]++
			return
		}
		if !pos.IsValid() {
			pos = fn.Pos()
		}
		c.failAt(prop, p.position(pos), fn.String(), nil, nil, bad)
	}
	var visit func(fn *ssa.Function)
	seen := map[*ssa.Function]bool{}
	visit = func(fn *ssa.Function) {
		if seen[fn] || fn.Blocks == nil {
			return
		}
		seen[fn] = true
		c.Funcs[fn.String()] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c.count(prop, "instructions_inspected", 1)
				switch x := in.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						bad := ""
						if !orderFree(x) {
							bad = "the result can depend on the iteration order of a map"
						}
						oblig(x.Pos(), fn, bad)
						c.count(prop, "map_iterations", 1)
					}
				case *ssa.Go:
					oblig(x.Pos(), fn, "the result can depend on the scheduling of a goroutine")
				case *ssa.Select:
					oblig(x.Pos(), fn, "the result can depend on which channel is ready")
				case *ssa.Send:
					oblig(x.Pos(), fn, "the result can depend on a channel")
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						oblig(x.Pos(), fn, "the result can depend on a channel")
					}
					if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && g.Name() == "Args" {
						oblig(x.Pos(), fn, "the result can depend on the process arguments")
					}
				case *ssa.Convert:
					if isUintptr(x.Type()) && x.X.Type().Underlying() == types.Typ[types.UnsafePointer] {
						oblig(x.Pos(), fn, "an address is used as a number")
					} else if isUintptr(x.X.Type()) {
						bad := ""
						if x.Type().Underlying() != types.Typ[types.UnsafePointer] {
							bad = "an address is used as a number"
						}
						oblig(x.Pos(), fn, bad)
					}
				case ssa.CallInstruction:
					cc := x.Common()
					f := cc.StaticCallee()
					if f == nil || fnPkg(f) == nil || p.isRepo(fnPkg(f)) {
						break
					}
					name := f.String()
					if o := f.Origin(); o != nil {
						name = o.String()
					}
					path := fnPkg(f).Pkg.Path()
					bad := ""
					switch {
					case ndCalls[name] != "":
						bad = "the result can depend on " + ndCalls[name]
					case path == "math/rand" || path == "math/rand/v2" || path == "crypto/rand":
						bad = "the result can depend on random numbers"
					case path == "maps" && (f.Name() == "Keys" || originName(f) == "Keys" || originName(f) == "Values" || originName(f) == "All"):
						if !sortedIter(x) {
							bad = "the result can depend on the iteration order of a map"
						}
					case path == "fmt" || name == "github.com/pkg/errors.Errorf":
						for _, a := range cc.Args {
							if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
								bad = "an address is written as text"
							}
						}
					}
					oblig(x.Pos(), fn, bad)
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, name := range sortedKeys(p.Repo) {
		sp := p.Repo[name]
		if f := sp.Func("init"); f != nil {
			visit(f)
		}
		for _, f := range p.funcs(sp) {
			visit(f)
		}
	}
	c.Samples[prop] = append(c.Samples[prop], fmt.Sprintf("%d functions inspected", len(seen)))
}

func isUintptr(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uintptr
}

// sortedIter: the iterator is only handed to a function that sorts.
func sortedIter(in ssa.CallInstruction) bool {
	v := in.Value()
	if v == nil || v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case ssa.CallInstruction:
			f := x.Common().StaticCallee()
			if f == nil || fnPkg(f) == nil || fnPkg(f).Pkg.Path() != "slices" || !strings.HasPrefix(originName(f), "Sorted") {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// orderFree tells if a loop over a map gives the same result in every order:
// it only fills maps under the key of the iteration, or collects into a list
// that is sorted right after the loop, or answers a question with a constant.
func orderFree(r *ssa.Range) bool {
	var next *ssa.Next
	for _, ref := range *r.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return true
	}
	header := next.Block()
	loop := naturalLoop(header)
	var key ssa.Value
	fromIter := map[ssa.Value]bool{next: true}
	for _, ref := range *next.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok {
			if ex.Index == 1 {
				key = ex
			}
		}
	}
	var ret []ssa.Instruction
	var appended []ssa.Value
	for b := range loop {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if x.Key != key {
					return false
				}
			case *ssa.Store:
				return false
			case *ssa.Return:
				ret = append(ret, x)
			case *ssa.Phi:
				if b == header {
					// a value carried around the loop: only lists that are sorted later
					if _, ok := x.Type().Underlying().(*types.Slice); !ok {
						return false
					}
					appended = append(appended, x)
				}
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "len", "cap":
						continue
					}
					return false
				}
				f := c.StaticCallee()
				if f == nil || fnPkg(f) == nil || !(readers[fnPkg(f).Pkg.Path()] && f.Signature.Recv() == nil && !strings.Contains(f.Name(), "rint")) {
					return false
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic:
				return false
			}
		}
	}
	_ = fromIter
	// early exits: blocks outside the loop reached from inside other than
	// through the header
	for b := range loop {
		if b == header {
			continue
		}
		for _, s := range b.Succs {
			if loop[s] {
				continue
			}
			// only a constant may be returned
			if len(s.Instrs) == 0 {
				return false
			}
			rt, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return)
			if !ok || len(s.Instrs) > 1 {
				return false
			}
			for _, v := range rt.Results {
				if _, ok := v.(*ssa.Const); !ok {
					return false
				}
			}
		}
	}
	for _, v := range appended {
		if !sortedAfter(v, loop) {
			return false
		}
	}
	return true
}

func sortedAfter(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	ok := false
	for _, r := range *v.Referrers() {
		if loop[r.Block()] && r.Block() != v.(*ssa.Phi).Block() {
			continue
		}
		if c, isCall := r.(ssa.CallInstruction); isCall {
			f := c.Common().StaticCallee()
			if f != nil && fnPkg(f) != nil {
				switch fnPkg(f).Pkg.Path() {
				case "sort", "slices":
					if strings.HasPrefix(originName(f), "Sort") || originName(f) == "Strings" || originName(f) == "Ints" || originName(f) == "Slice" {
						ok = true
					}
				}
			}
		}
	}
	return ok
}

func naturalLoop(header *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	loop := map[*ssa.BasicBlock]bool{header: true}
	var work []*ssa.BasicBlock
	for _, p := range header.Preds {
		if header.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if loop[b] {
			continue
		}
		loop[b] = true
		work = append(work, b.Preds...)
	}
	return loop
}
