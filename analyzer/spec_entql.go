package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const entQL = "entgo.io/ent/entql"

var entqlProps = []string{"Q01", "Q02", "X01"}

func init() {
	expl := "The entql builder is interpreted over its SSA form, together with ent's entql constructors, on an arbitrary tree (kind, operator, literal type and list lengths partitioned, sub-trees replaced by the induction hypothesis that they push one expression of their kind or fail). "
	add := func(id, tech, e string) {
		rules[id] = &Rule{Level: "other", Technique: tech, Explanation: expl + e, Assumptions: []string{
			"the syntax trees are those the grammar allows (P01, P02)",
			"list lengths are partitioned into 0 to 3 and the neighbourhood of integer constants in the source",
		}, Run: func(c *Ctx) { analyseEntQL(c) }}
	}
	add("Q01", "heap-shape abstract interpretation with induction on sub-trees, compared with the predicate of each node kind", "The expression built has to be the required one for the node kind, with the operands in their places.")
	add("Q02", "error-flow analysis of the predicate and error results", "On every path exactly one of predicate and error is returned, an error exactly when the construct can not be expressed or a sub-tree fails.")
	rules["Q04"] = &Rule{Level: "other", Technique: "typestate analysis of a builder that was used before, compared with what a new one has to return", Explanation: expl + "The builder first builds, once or three times, another query or the same one (empty, with a syntax error, a comparison whose operands fail or not, a bare name, a between or a not), then the query to look at; the second result has to be the one required of a new builder.", Assumptions: []string{
		"the syntax trees are those the grammar allows (P01, P02)",
		"the first query is empty, wrong, or of one of five kinds with arbitrary sub-trees; it is built once or three times before",
	}, Run: func(c *Ctx) { analyseReuseEntQL(c) }}
	rules["Q03"] = &Rule{Level: "other", Technique: "effect analysis of the calls on the target for lists of queries", Explanation: expl + "The calls of Where on the unknown target have to be one per non-empty query, in order, up to the first query that can not be built.", Assumptions: []string{
		"list lengths are partitioned into 0 to 3 and the neighbourhood of integer constants in the source",
	}, Run: func(c *Ctx) { analyseApplyEntQL(c) }}
}

// qlRec is the expression a sub-tree becomes.
type qlRec struct {
	n   *ANode
	neg bool
}

func (r *qlRec) Is(m *Machine, T types.Type) (known, yes bool) {
	if types.Identical(T, m.P.Type(entQL, "P")) {
		return true, qlCond(m, r.n)
	}
	if types.Identical(T, m.P.Type(entQL, "Expr")) {
		return true, true
	}
	is := func(name string) bool { return types.Identical(T, types.NewPointer(m.P.Type(entQL, name))) }
	switch r.n.tag(m) {
	case tLit, tArr:
		return true, is("Value")
	case tIdent:
		return true, is("Field")
	case tCmp, tIn, tAnd, tOr:
		return true, is("BinaryExpr")
	}
	return false, false
}

// qlCond tells if the expression of a sub-tree is a predicate.
func qlCond(m *Machine, n *ANode) bool {
	switch n.tag(m) {
	case tLit, tArr, tIdent:
		return false
	case tParen:
		return m.decide(n.Path + " is a condition")
	}
	return true
}

// qlFails tells if a sub-tree can not be expressed.
func qlFails(m *Machine, n *ANode) bool {
	switch n.tag(m) {
	case tLit, tArr, tIdent:
		return false
	case tFunc, tRef, tPred:
		return true
	case tCmp:
		op := n.op(m)
		if op == "like" || op == "not like" {
			return true
		}
	}
	return m.decide("fails(" + n.Path + ")")
}

type qlData struct {
	parseData
	where []Value
	pos   []token.Pos
}

func entqlHooks(c *Ctx) *Hooks {
	h := &Hooks{}
	parse := c.P.Func("miniquery", "Parse")
	lens := c.lens(0, 3)
	h.ListLens = func(string) []int { return lens }
	h.NonNil = func(string, types.Type) bool { return true }
	h.Call = func(m *Machine, fn *ssa.Function, args []Value, pos token.Pos) (Value, bool) {
		d, _ := m.Data.(*qlData)
		if d != nil && fn == parse {
			return d.parse(m, m.str(args[0])), true
		}
		return nil, false
	}
	h.Invoke = func(m *Machine, recv *Sym, method *types.Func, args []Value) (Value, bool) {
		d, _ := m.Data.(*qlData)
		switch method.Name() {
		case "Error", "String":
			return symstr(m.sym(recv.Key+"."+method.Name()+"()", types.Typ[types.String], nil)), true
		case "Negate":
			if r, ok := recv.Info.(*qlRec); ok {
				return &Sym{Key: "not " + recv.Key, T: m.P.Type(entQL, "P"), Info: &qlRec{r.n, !r.neg}}, true
			}
		case "Where":
			if recv.Key == "target" && d != nil {
				d.where = append(d.where, args[len(args)-1])
				d.pos = append(d.pos, m.repoPos())
				return Nil{}, true
			}
		}
		return nil, false
	}
	h.Rec = func(m *Machine, fn *ssa.Function, args, env []Value, n *ANode) (Value, bool) {
		if p := fnPkg(fn); p == nil || !m.P.isRepo(p) || p == m.P.Repo["miniquery"] {
			if fn.Signature.Results().Len() == 1 && types.Identical(fn.Signature.Results().At(0).Type(), types.Typ[types.String]) {
				return symstr(m.sym(fmt.Sprintf("%s(%s)", fn.Name(), n.Path), types.Typ[types.String], nil)), true
			}
			return nil, false
		}
		d, _ := m.Data.(*qlData)
		if n.Tag == tOp || n.parent != nil && n.parent.Tag == tArr || d != nil && d.inline != nil && d.inline(n) || qlLeafKind(m, n) {
			return nil, false
		}
		expr := m.P.Type(entQL, "Expr")
		res := fn.Signature.Results()
		isExpr := func(T types.Type) bool {
			return types.IsInterface(T) && types.Implements(T, expr.Underlying().(*types.Interface))
		}
		hasErr, hasExpr := false, false
		for i := 0; i < res.Len(); i++ {
			T := res.At(i).Type()
			switch {
			case isErrorType(T):
				hasErr = true
			case isExpr(T):
				hasExpr = true
			default:
				return nil, false
			}
		}
		reach := m.reachable(fn, args, env)
		fails := qlFails(m, n)
		if !hasErr {
			m.Facts["fails("+n.Path+")"] = fails
			m.failing(reach, fn, n)
		}
		m.forget(reach)
		sym := &Sym{Key: "expr(" + n.Path + ")", T: expr, Info: &qlRec{n: n}}
		var out Tuple
		for i := 0; i < res.Len(); i++ {
			T := res.At(i).Type()
			switch {
			case isErrorType(T) && fails:
				out = append(out, m.givenError(n.Path))
			case isErrorType(T):
				out = append(out, Nil{})
			case fails:
				out = append(out, Nil{})
			default:
				if types.Identical(T, m.P.Type(entQL, "P")) && !qlCond(m, n) {
					m.undecided("%s returns predicates only, but %s is none", fn, n.Path)
				}
				out = append(out, sym)
			}
		}
		if !hasExpr && !fails {
			// pushed on the stack of expressions
			var stacks []*Ptr
			for _, c := range reach.cells {
				if c.T == nil {
					continue
				}
				if s, ok := c.T.Underlying().(*types.Slice); ok && types.Identical(s.Elem(), expr) {
					stacks = append(stacks, c.Ptr)
				}
			}
			if len(stacks) != 1 {
				m.undecided("%s has %d stacks of expressions", fn, len(stacks))
			}
			es := append(append([]Value{}, m.variadic(m.load(stacks[0]))...), sym)
			*stacks[0].P = &Slice{&Arr{E: es, Obj: m.newObj("slice", nil)}, 0, len(es), len(es)}
		}
		if len(out) == 1 {
			return out[0], true
		}
		return out, true
	}
	return h
}

var qlOps = map[string]string{"and": "OpAnd", "or": "OpOr", "eq": "OpEQ", "neq": "OpNEQ", "gt": "OpGT", "gte": "OpGTE", "lt": "OpLT", "lte": "OpLTE", "in": "OpIn", "not in": "OpNotIn"}

func qlOp(m *Machine, v Value) string {
	sp := m.P.Paths[entQL]
	i, ok := v.(int64)
	if ok {
		for _, name := range append(sortedKeys(map[string]bool{"OpNot": true}), "OpAnd", "OpOr", "OpEQ", "OpNEQ", "OpGT", "OpGTE", "OpLT", "OpLTE", "OpIn", "OpNotIn") {
			if c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok && c.Val().ExactString() == fmt.Sprint(i) {
				return name
			}
		}
	}
	return "?" + show(v)
}

// qlNorm writes an expression as text, n-ary ones as binary ones.
func qlNorm(m *Machine, v Value) string {
	v = m.force(v)
	switch x := v.(type) {
	case Nil:
		return "nil"
	case *Sym:
		if r, ok := x.Info.(*qlRec); ok {
			if r.neg {
				return "(OpNot " + r.n.Path + ")"
			}
			return r.n.Path
		}
	case *Iface:
		pt, ok := x.T.(*types.Pointer)
		if !ok {
			break
		}
		nt, ok := pt.Elem().(*types.Named)
		if !ok || nt.Obj().Pkg() == nil || nt.Obj().Pkg().Path() != entQL {
			break
		}
		f := func(name string) Value { v, _ := m.fieldOf(x.V, x.T, name); return m.force(v) }
		switch nt.Obj().Name() {
		case "UnaryExpr":
			return "(" + qlOp(m, f("Op")) + " " + qlNorm(m, f("X")) + ")"
		case "BinaryExpr":
			return "(" + qlOp(m, f("Op")) + " " + qlNorm(m, f("X")) + " " + qlNorm(m, f("Y")) + ")"
		case "NaryExpr":
			op := qlOp(m, f("Op"))
			xs := m.variadic(f("Xs"))
			if len(xs) == 0 {
				return "(" + op + ")"
			}
			s := qlNorm(m, xs[0])
			for _, y := range xs[1:] {
				s = "(" + op + " " + s + " " + qlNorm(m, y) + ")"
			}
			return s
		case "Field":
			return "field " + m.resolve(f("Name").(Str)).key()
		case "Value":
			return "value " + valueText(m, f("V"))
		}
	}
	return "?" + show(v)
}

func valueText(m *Machine, v Value) string {
	v = m.force(v)
	if i, ok := v.(*Iface); ok {
		if s, ok := i.V.(Str); ok {
			return i.T.String() + " " + m.resolve(s).key()
		}
		return i.T.String() + " " + show(m.force(i.V))
	}
	return show(v)
}

// qlLeafKind tells if a node is looked at where it is used.
func qlLeafKind(m *Machine, n *ANode) bool {
	t := n.tag(m)
	return t == tLit || t == tIdent
}

// qlName is how qlNorm writes a sub-tree.
func qlName(m *Machine, n *ANode) string {
	if !qlLeafKind(m, n) {
		return n.Path
	}
	if n.Tag == tIdent {
		return "field " + m.resolve(n.nameSym(m, n.Path+".Name")).key()
	}
	T := map[string]types.Type{"int": types.Typ[types.Int], "string": types.Typ[types.String], "bool": types.Typ[types.Bool]}[n.lit(m)]
	if T == nil {
		return "value " + valueText(m, Nil{})
	}
	return "value " + valueText(m, &Iface{T, n.litValue(m)})
}

type qlExpect struct {
	err   bool
	why   string
	want  []string // accepted forms
	known string
}

func entqlSpec(m *Machine, d *qlData, n *ANode) *qlExpect {
	e := &qlExpect{}
	fail := func(f string, a ...any) *qlExpect { e.err, e.why = true, fmt.Sprintf(f, a...); return e }
	rec := func(k *ANode) bool {
		if qlFails(m, k) {
			fail("sub-expression %s can not be expressed", k.Path)
			return false
		}
		return true
	}
	switch n.tag(m) {
	case tAnd, tOr, tCmp, tIn:
		op := n.op(m)
		if qlOps[op] == "" {
			return fail("%q can not be expressed", op)
		}
		l, r := n.kid(m, "Left"), n.kid(m, "Right")
		if !rec(l) {
			return e
		}
		if d.inline != nil && d.inline(r) {
			in := entqlSpec(m, d, r)
			if in.err {
				return in
			}
			if in.known != "" {
				m.abort("known finding")
			}
			for _, w := range in.want {
				e.want = append(e.want, fmt.Sprintf("(%s %s %s)", qlOps[op], qlName(m, l), w))
			}
			return e
		}
		if !rec(r) {
			return e
		}
		e.want = append(e.want, fmt.Sprintf("(%s %s %s)", qlOps[op], qlName(m, l), qlName(m, r)))
		if op == "not in" {
			e.want = append(e.want, fmt.Sprintf("(OpNot (OpIn %s %s))", qlName(m, l), qlName(m, r)))
		}
	case tNot:
		k := n.kid(m, "Expression")
		if !rec(k) {
			return e
		}
		if !qlCond(m, k) {
			return fail("%s is not a condition", k.Path)
		}
		e.want = append(e.want, fmt.Sprintf("(OpNot %s)", qlName(m, k)))
	case tBetw:
		l, ps := n.kid(m, "Left"), n.list(m, "Params")
		if !rec(l) {
			return e
		}
		in := fmt.Sprintf("(OpAnd (OpGTE %s %s) (OpLTE %s %s))", qlName(m, l), qlName(m, ps[0]), qlName(m, l), qlName(m, ps[1]))
		if n.op(m) == "between" {
			e.want = append(e.want, in)
		} else {
			e.want = append(e.want, "(OpNot "+in+")", fmt.Sprintf("(OpOr (OpLT %s %s) (OpGT %s %s))", qlName(m, l), qlName(m, ps[0]), qlName(m, l), qlName(m, ps[1])))
			e.known = fmt.Sprintf("(OpAnd (OpLT %s %s) (OpGT %s %s))", qlName(m, l), qlName(m, ps[0]), qlName(m, l), qlName(m, ps[1]))
		}
	case tParen:
		k := n.kid(m, "Expression")
		if !rec(k) {
			return e
		}
		if n.Root && !qlCond(m, k) {
			return fail("%s is not a condition", k.Path)
		}
		e.want = append(e.want, qlName(m, k))
	case tLit, tArr, tIdent:
		return fail("a %s is not a condition", n.tag(m))
	default:
		return fail("a %s can not be expressed", n.tag(m))
	}
	return e
}

// exprThresholds are the sizes that lists of expressions are compared with, and the next ones.
func (p *Program) exprThresholds() (out []int) {
	seen := map[int]bool{}
	p.instrs(p.Repo["entmq"], func(in ssa.Instruction) {
		op, ok := in.(*ssa.BinOp)
		if !ok {
			return
		}
		for _, v := range [][2]ssa.Value{{op.X, op.Y}, {op.Y, op.X}} {
			k, ok1 := v[0].(*ssa.Const)
			call, ok2 := v[1].(*ssa.Call)
			if !ok1 || !ok2 || k.Value == nil || !isInt(k.Type()) {
				continue
			}
			if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
				continue
			}
			l, ok := call.Call.Args[0].Type().Underlying().(*types.Slice)
			if !ok || !types.Identical(l.Elem(), p.Type(entQL, "Expr")) {
				continue
			}
			for d := int64(0); d < 3; d++ {
				if n := k.Int64() + d; n > 0 && n <= 66 && !seen[int(n)] {
					seen[int(n)] = true
					out = append(out, int(n))
				}
			}
		}
	})
	sort.Ints(out)
	return
}

func analyseEntQL(c *Ctx) {
	h := entqlHooks(c)
	T := c.P.Type("entmq", "MiniQLToEntQLBuilder")
	build, top := c.P.Func("entmq", "*MiniQLToEntQLBuilder.Build"), c.P.Func("entmq", "BuildEntQL")
	run := func(entry string, behind int, fn *ssa.Function, call func(q *Part, text Str) (Value, *absPanic)) {
		c.analyse(entry, entqlProps, h, fns(fn), func(q *Part) {
			m := q.Machine
			d := &qlData{parseData: newParseData()}
			m.Data = d
			text := symstr(m.sym("query", types.Typ[types.String], nil))
			if behind > 0 {
				m.behindSome(&d.parseData, behind)
				m.Facts["syntax error in "+text.key()] = false
				inline := d.inline
				d.inline = func(n *ANode) bool {
					if !inline(n) {
						return false
					}
					t := n.tag(m)
					return t != tLit && t != tArr && t != tIdent
				}
			}
			ret, p := call(q, text)
			if p != nil {
				for _, id := range entqlProps {
					q.fail(id, p.Pos, "panics: %s", p.Msg)
				}
				return
			}
			checkEntQL(q, d, fn, ret, text)
		})
	}
	method := func(q *Part, text Str) (Value, *absPanic) {
		m := q.Machine
		var cell Value = m.zero(T)
		mb := &Ptr{P: &cell, Obj: m.newObj("builder", T)}
		m.setField(mb, T, "Query", text)
		return q.callRepo(build, mb)
	}
	run("MiniQLToEntQLBuilder.Build", 0, build, method)
	run("MiniQLToEntQLBuilder.Build behind another part", 1, build, method)
	for _, n := range c.P.exprThresholds() {
		if n > 1 {
			run(fmt.Sprintf("MiniQLToEntQLBuilder.Build behind %d parts", n), n, build, method)
		}
	}
	run("BuildEntQL", 0, top, func(q *Part, text Str) (Value, *absPanic) { return q.callRepo(top, text) })
	// what a literal and a name become as an operand
	c.analyse("operands", []string{"Q01", "X01"}, h, fns(build), func(q *Part) {
		m := q.Machine
		d := &qlData{parseData: newParseData()}
		d.setup = func(n *ANode) {
			n.Allowed = []string{tCmp}
			n.Tag = tCmp
			n.kid(m, "Op").Ops = []string{"eq"}
			n.kid(m, "Left").Allowed = []string{tIdent, tLit}
			n.kid(m, "Right").Allowed = []string{tIdent, tLit, tArr}
		}
		m.Data = d
		h2 := *h
		h2.Rec = func(m *Machine, fn *ssa.Function, args, env []Value, n *ANode) (Value, bool) {
			return nil, false
		}
		m.H = &h2
		text := symstr(m.sym("query", types.Typ[types.String], &Dom{NonEmpty: true}))
		var cell Value = m.zero(T)
		mb := &Ptr{P: &cell, Obj: m.newObj("builder", T)}
		m.setField(mb, T, "Query", text)
		ret, p := q.callRepo(build, mb)
		if p != nil {
			q.fail("Q01", p.Pos, "panics: %s", p.Msg)
			q.fail("X01", p.Pos, "panics: %s", p.Msg)
			return
		}
		root := d.root(m, m.resolve(text).key())
		t := ret.(Tuple)
		if root == nil || !m.isNil(t[1]) {
			return // Q02
		}
		pred, ok := t[0].(*Iface)
		if !ok || !strings.HasSuffix(pred.T.String(), "entql.BinaryExpr") {
			q.fail("Q01", build.Pos(), "the comparison becomes %s", show(t[0]))
			return
		}
		for _, f := range [][2]string{{"X", "Left"}, {"Y", "Right"}} {
			x, _ := m.fieldOf(pred.V, pred.T, f[0])
			if msg := qlLeaf(m, m.force(x), root.kid(m, f[1])); msg != "" {
				q.fail("Q01", build.Pos(), "%s", msg)
			}
		}
	})
}

// analyseReuseEntQL: a builder that was used before is as good as a new one.
func analyseReuseEntQL(c *Ctx) {
	h := entqlHooks(c)
	T := c.P.Type("entmq", "MiniQLToEntQLBuilder")
	build := c.P.Func("entmq", "*MiniQLToEntQLBuilder.Build")
	c.analyse("MiniQLToEntQLBuilder.Build again", []string{"Q04"}, h, fns(build), func(q *Part) {
		m := q.Machine
		d := &qlData{parseData: newParseData()}
		m.Data = d
		first := symstr(m.sym("first", types.Typ[types.String], nil))
		second := first
		if m.choose(2, "queries", func(i int) string { return []string{"another query", "the same query"}[i] }) == 0 {
			second = symstr(m.sym("query", types.Typ[types.String], nil))
			m.Facts[fmt.Sprintf("%s == %s", first.key(), second.key())] = false
			m.Facts[fmt.Sprintf("%s == %s", second.key(), first.key())] = false
		}
		d.setup = func(n *ANode) {
			if len(d.roots) == 0 && second.key() != first.key() {
				n.Allowed = []string{tCmp, tBetw, tNot, tIdent, tParen}
				n.kidOps = []string{"eq"}
			}
			// a sub-tree is a value, a condition, or fails
			var kids []string
			switch n.tag(m) {
			case tNot, tParen:
				kids = []string{"Expression"}
			case tAnd, tOr, tCmp:
				kids = []string{"Left", "Right"}
			case tIn, tBetw:
				kids = []string{"Left"}
			}
			for _, k := range kids {
				n.kid(m, k).Allowed = []string{tIdent, tParen}
			}
		}
		var cell Value = m.zero(T)
		mb := &Ptr{P: &cell, Obj: m.newObj("builder", T)}
		builds := []Str{first, second}
		if m.choose(2, "builds", func(i int) string { return []string{"built once before", "built three times before"}[i] }) == 1 {
			builds = []Str{first, first, first, second}
		}
		for _, text := range builds {
			m.setField(mb, T, "Query", text)
			ret, p := q.callRepo(build, mb)
			if p != nil {
				q.fail("Q04", p.Pos, "panics: %s", p.Msg)
				return
			}
			if r := d.roots[m.resolve(text).key()]; r != nil && r.tag(m) == tBetw && r.op(m) != "between" {
				m.abort("known finding of Q01")
			}
			if text.key() == second.key() {
				q.remap(func() { checkEntQL(q, d, build, ret, text) })
			}
		}
	})
}

// qlLeaf compares an operand with a literal or name.
func qlLeaf(m *Machine, v Value, n *ANode) string {
	i, ok := v.(*Iface)
	if !ok {
		return fmt.Sprintf("%s becomes %s", n.Path, show(v))
	}
	switch n.tag(m) {
	case tIdent:
		if !strings.HasSuffix(i.T.String(), "entql.Field") {
			return fmt.Sprintf("the name %s becomes a %s", n.Path, i.T)
		}
		f, _ := m.fieldOf(i.V, i.T, "Name")
		if m.resolve(f.(Str)).key() != m.resolve(n.nameSym(m, n.Path+".Name")).key() {
			return fmt.Sprintf("the name %s becomes the field %s", n.Path, f)
		}
	default:
		if !strings.HasSuffix(i.T.String(), "entql.Value") {
			return fmt.Sprintf("the literal %s becomes a %s", n.Path, i.T)
		}
		f, _ := m.fieldOf(i.V, i.T, "V")
		return sameLiteral(m, f, n)
	}
	return ""
}

func checkEntQL(q *Part, d *qlData, fn *ssa.Function, ret Value, text Str) {
	m := q.Machine
	pos := fn.Pos()
	t, ok := ret.(Tuple)
	if !ok || len(t) != 2 {
		q.fail("Q02", pos, "returns %s", show(ret))
		return
	}
	pred, hasErr := m.force(t[0]), !m.isNil(t[1])
	hasPred := !m.isNil(pred)
	if m.eqStr(text, Str{}) {
		if hasPred || hasErr {
			q.fail("Q02", pos, "the empty query returns a predicate or an error")
		}
		return
	}
	root := d.root(m, m.resolve(text).key())
	why := "the query has a syntax error"
	var e *qlExpect
	if root != nil {
		e = entqlSpec(m, d, root)
		why = e.why
	}
	if root == nil || e.err {
		if !hasErr {
			q.fail("Q02", pos, "no error although %s", why)
		}
		if hasPred {
			q.fail("Q02", pos, "a predicate is returned although %s", why)
			q.fail("Q01", pos, "a predicate is returned although %s", why)
		}
		return
	}
	if hasErr {
		q.fail("Q02", pos, "a %s that can be expressed gives an error", root.tag(m))
		q.fail("Q01", pos, "a %s that can be expressed gives an error", root.tag(m))
		return
	}
	if !hasPred {
		q.fail("Q02", pos, "a %s gives neither predicate nor error", root.tag(m))
		return
	}
	got := qlNorm(m, pred)
	if i, ok := pred.(*Iface); ok {
		if pt, ok := i.V.(*Ptr); ok && pt.Obj != nil && m.P.inRepo(pt.Obj.Pos) {
			pos = pt.Obj.Pos
		}
	}
	for _, w := range e.want {
		if w == got {
			return
		}
	}
	if e.known != "" && got == e.known {
		q.fail("Q01", pos, "not between becomes x < low && x > high, which is never true")
		return
	}
	q.fail("Q01", pos, "%s becomes %s instead of %s", root.tag(m), got, e.want[0])
}

func analyseApplyEntQL(c *Ctx) {
	h := entqlHooks(c)
	fn := c.P.Func("entmq", "ApplyEntQL")
	c.analyse("ApplyEntQL", []string{"Q03", "X01"}, h, fns(fn), func(q *Part) {
		m := q.Machine
		d := &qlData{parseData: newParseData()}
		// one query that can be built and one that can not; all others are Q01 and Q02
		list := m.symbolic("queries", types.NewSlice(types.Typ[types.String]))
		size := len(m.variadic(list))
		m.plainQueries("queries", size)
		d.setup = func(n *ANode) {
			n.Allowed = []string{tIn, tRef}
			if size > 3 {
				n.kidOps = []string{"in"}
				if len(d.roots) < size-2 {
					n.Allowed = []string{tIn}
				}
				if n.tag(m) == tIn {
					n.kid(m, "Left").Tag = tIdent
					n.kid(m, "Right").ListN = 0
				}
			}
		}
		m.Data = d
		target := m.sym("target", fn.Params[0].Type(), nil)
		ret, p := q.callRepo(fn, target, list)
		if p != nil {
			q.fail("Q03", p.Pos, "panics: %s", p.Msg)
			q.fail("X01", p.Pos, "panics: %s", p.Msg)
			return
		}
		hasErr := !m.isNil(ret)
		pos := fn.Pos()
		if len(d.pos) > 0 {
			pos = d.pos[len(d.pos)-1]
		}
		var want []string
		bad := -1
		for i, e := range m.variadic(list) {
			s := e.(Str)
			if m.eqStr(s, Str{}) {
				continue
			}
			root := d.root(m, m.resolve(s).key())
			if root == nil {
				bad = i
				break
			}
			x := entqlSpec(m, d, root)
			if x.err {
				bad = i
				break
			}
			want = append(want, x.want[0])
		}
		if hasErr != (bad >= 0) {
			if hasErr {
				q.fail("Q03", pos, "returns an error although all queries can be built")
			} else {
				q.fail("Q03", pos, "returns no error although query %d can not be built", bad)
			}
			return
		}
		var got []string
		for _, v := range d.where {
			got = append(got, qlNorm(m, v))
		}
		if len(got) != len(want) {
			q.fail("Q03", pos, "%d predicates are added instead of %d", len(got), len(want))
			return
		}
		for i := range got {
			if got[i] != want[i] && !(strings.HasPrefix(got[i], "(OpNot (OpIn") && strings.HasPrefix(want[i], "(OpNotIn")) {
				q.fail("Q03", d.pos[i], "predicate %d is %s instead of %s", i, got[i], want[i])
			}
		}
	})
}
