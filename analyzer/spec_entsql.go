package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const entSQL = "entgo.io/ent/dialect/sql"

var entsqlProps = []string{"S01", "S02", "S03", "S04", "S05", "S06", "X01"}

func init() {
	expl := "The ent SQL builder is interpreted over its SSA form, together with ent's own string builder, on an arbitrary tree (kind, operator, literal type and list lengths partitioned, sub-trees replaced by the induction hypothesis), an unknown schema node, every dialect, with and without a target builder and with casting on and off. "
	add := func(id, tech, e string) {
		rules[id] = &Rule{Level: "other", Technique: tech, Explanation: expl + e, Assumptions: []string{
			"sqlgraph.HasNeighbors and HasNeighborsWith are modelled: they add one predicate for the step they are given, with the predicate of the filter inside",
			"every edge of a schema node has a target type and a specification",
			"list lengths are partitioned into 0 to 3 and the neighbourhood of integer constants in the source",
		}, Run: func(c *Ctx) { analyseEntSQL(c) }}
	}
	add("S01", "taint and string-shape analysis of the SQL text and arguments written to ent's builder", "Every atom of the text has to be a fixed keyword, a quoted snake case name, an edge sub-query, a placeholder made by ent, or the text of a sub-tree; placeholders and arguments have to correspond one to one in order and number.")
	add("S02", "string-shape abstract interpretation with induction on sub-trees, compared with the SQL production of each node kind", "The text has to be the SQL production of the node kind, grouped where SQL precedence needs it.")
	add("S03", "error-flow analysis: every failing construct has to end in empty SQL and a reported error", "On every failing path the returned text is empty and the builder has an error, on every other path it has none.")
	add("S04", "abstract interpretation of has_edge over an unknown schema graph", "The step given to ent has to hold the fields of the named edge of the current type, the filter has to be translated with the target type, dialect and casting setting.")
	add("S05", "abstract interpretation of argument formatting for every literal type, dialect and casting setting", "The placeholder has to carry exactly the cast of its type, and the bound value has to be the literal.")
	add("S06", "effect analysis of the two builders: which one is written", "All text and arguments have to be written to the selected builder, with its dialect, and nothing to the other one.")
}

// placeholder made by ent's Arg.
type placeholder struct {
	Arg     Value
	Suffix  string
	Dialect Str
	Total   Value
}

// edgeInfo is a sub-query made by sqlgraph.
type edgeInfo struct {
	Step    Value
	Table   Str
	Schema  Str
	Dialect Str
	Filter  bool
}

// sqlCfg is the configuration a sub-tree is translated with.
type sqlCfg struct {
	mb      *Ptr
	node    Value
	casting Value
	dialect Str
	sink    *Value
}

type sqlData struct {
	parseData
	mb       *Ptr
	own      *Ptr
	target   *Ptr
	node     Value
	recs     map[*Rec]*sqlCfg
	nph      int
	nedge    int
	disabled *Lazy
	dialect  Str // of the builder written to
}

func (m *Machine) entMethod(T types.Type, name string) *ssa.Function {
	sp := m.P.Paths[entSQL]
	m.P.build(sp)
	fn := m.P.SSA.LookupMethod(T, sp.Pkg, name)
	if fn == nil {
		m.undecided("method %s of %s not found", name, T)
	}
	return fn
}

func (m *Machine) builderT() types.Type { return m.P.Type(entSQL, "Builder") }

func (m *Machine) builderCall(b Value, name string, args ...Value) Value {
	fn := m.entMethod(types.NewPointer(m.builderT()), name)
	return m.callFn(fn, nil, append([]Value{b}, args...), m.Pos)
}

func (m *Machine) builderField(b *Ptr, name string) Value {
	v, _ := m.fieldOf(b, types.NewPointer(m.builderT()), name)
	return v
}

func (m *Machine) setField(p *Ptr, T types.Type, name string, v Value) {
	s := m.force(*p.P).(*Struct)
	*p.P = s
	for i, f := range structFields(T) {
		if f == name {
			s.F[i] = v
			return
		}
	}
	m.undecided("no field %s in %s", name, T)
}

// fieldPtr is the address of a field.
func (m *Machine) fieldPtr(p *Ptr, T types.Type, name string) *Ptr {
	s := m.force(*p.P).(*Struct)
	*p.P = s
	for i, f := range structFields(T) {
		if f == name {
			return &Ptr{P: &s.F[i], Obj: p.Obj}
		}
	}
	m.undecided("no field %s in %s", name, T)
	return nil
}

func (m *Machine) sqlBuilderT() types.Type { return m.P.Type("entmq", "MiniQLToEntSQLBuilder") }

// sinkOf is the builder that is written to.
func (m *Machine) sinkOf(mb *Ptr) *Ptr {
	T := m.sqlBuilderT()
	t, _ := m.fieldOf(mb, types.NewPointer(T), "SQLBuilder")
	if p, ok := t.(*Ptr); ok {
		return p
	}
	p := m.fieldPtr(mb, T, "Builder")
	*p.P = m.force(*p.P)
	return p
}

func implements(T types.Type, method string) *types.Func {
	if T == nil {
		return nil
	}
	obj, _, _ := types.LookupFieldOrMethod(T, true, nil, method)
	f, _ := obj.(*types.Func)
	if f == nil {
		return nil
	}
	// pointer methods need a pointer
	if r := f.Type().(*types.Signature).Recv(); r != nil {
		if _, isPtr := r.Type().(*types.Pointer); isPtr {
			if _, ok := T.Underlying().(*types.Pointer); !ok {
				return nil
			}
		}
	}
	return f
}

func entsqlHooks(c *Ctx) *Hooks {
	h := &Hooks{}
	h.NonNil = func(key string, T types.Type) bool {
		// edges have a target and a specification
		return strings.HasSuffix(key, "].To") || strings.HasSuffix(key, "].Spec")
	}
	h.ListLens = func(key string) []int { return []int{1, 2} }
	h.StrDom = func(key string) *Dom {
		return nil
	}
	parse := c.P.Func("miniquery", "Parse")
	h.Call = func(m *Machine, fn *ssa.Function, args []Value, pos token.Pos) (Value, bool) {
		d, _ := m.Data.(*sqlData)
		if d == nil {
			return nil, false
		}
		if fn == parse {
			return d.parse(m, m.str(args[0])), true
		}
		switch fn.String() {
		case "(*" + entSQL + ".Builder).Arg":
			return sqlArg(m, d, args)
		case entSQL + "/sqlgraph.HasNeighbors":
			sqlEdge(m, d, args[0], args[1], nil)
			return Nil{}, true
		case entSQL + "/sqlgraph.HasNeighborsWith":
			sqlEdge(m, d, args[0], args[1], args[2])
			return Nil{}, true
		}
		return nil, false
	}
	h.Invoke = func(m *Machine, recv *Sym, method *types.Func, args []Value) (Value, bool) {
		if method.Name() == "Error" {
			return symstr(m.sym(recv.Key+".Error()", types.Typ[types.String], &Dom{NonEmpty: true})), true
		}
		return nil, false
	}
	h.Through = true
	h.Rec = func(m *Machine, fn *ssa.Function, args, env []Value, n *ANode) (Value, bool) {
		d := m.Data.(*sqlData)
		if p := fnPkg(fn); p == nil || !m.P.isRepo(p) || p == m.P.Repo["miniquery"] {
			// helpers of the tree itself
			if fn.Signature.Results().Len() == 1 && types.Identical(fn.Signature.Results().At(0).Type(), types.Typ[types.String]) {
				return symstr(m.sym(fmt.Sprintf("%s(%s)", fn.Name(), n.Path), types.Typ[types.String], nil)), true
			}
			return nil, false
		}
		if n.Tag == tOp || n.parent != nil && n.parent.Tag == tArr || d.inline != nil && d.inline(n) {
			return nil, false
		}
		rec := m.recSym(n, fn, nil)
		ri := rec.Info.(*Rec)
		str, list := false, false
		v, ok := m.recResults(fn, n, func(i int, T types.Type) (Value, bool) {
			if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && !str {
				str = true
				return Str{{S: rec, Pos: m.Pos}}, true
			}
			if isAnySlice(T) && !list {
				list = true
				var cell Value = Nil{}
				m.spread(&Ptr{P: &cell}, ri)
				return cell, true
			}
			return nil, false
		})
		if !ok {
			return nil, false
		}
		// the builder and its configuration
		var mb, sink *Ptr
		r := m.reachable(fn, args, env)
		for _, cell := range r.cells {
			if cell.T != nil && types.Identical(cell.T, m.sqlBuilderT()) && mb == nil {
				mb = cell.Ptr
			}
		}
		for i, p := range fn.Params {
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), m.builderT()) {
				if bp, ok := args[i].(*Ptr); ok {
					sink = bp
				}
			}
		}
		if mb == nil {
			m.undecided("%s has no builder", fn)
		}
		m.forget(r)
		m.failing(r, fn, n)
		if sink == nil {
			sink = m.sinkOf(mb)
		}
		cfg := &sqlCfg{mb: mb, sink: sink.P}
		cfg.dialect = m.builderField(sink, "dialect").(Str)
		if mb.P != d.mb.P {
			T := types.NewPointer(m.sqlBuilderT())
			cfg.node, _ = m.fieldOf(mb, T, "Node")
			cfg.casting, _ = m.fieldOf(mb, T, "DisableTypeCasting")
		}
		d.recs[ri] = cfg
		if !str {
			m.builderCall(sink, "WriteString", symstr(rec))
		}
		if !list {
			af := m.fieldPtr(sink, m.builderT(), "args")
			*af.P = m.force(*af.P)
			m.spread(af, ri)
			m.setField(sink, m.builderT(), "total", m.binop(token.ADD, m.builderField(sink, "total"), m.linValue(newLin(0, countOf(n))), types.Typ[types.Int]))
		}
		return v, true
	}
	return h
}

// sqlArg models ent's Arg for plain values: one placeholder, one argument.
func sqlArg(m *Machine, d *sqlData, args []Value) (Value, bool) {
	b := m.deref(args[0])
	a, ok := m.force(args[1]).(*Iface)
	if !ok {
		if _, isNil := m.force(args[1]).(Nil); isNil {
			return nil, false
		}
		m.undecided("argument %s", show(args[1]))
	}
	if implements(a.T, "Query") != nil || strings.HasSuffix(a.T.String(), "sql.raw") {
		return nil, false
	}
	d.nph++
	ph := &Sym{Key: fmt.Sprintf("placeholder%d", d.nph), T: types.Typ[types.String], Dom: &Dom{NonEmpty: true, Charset: charset("?$0-9")}}
	info := &placeholder{Arg: a, Dialect: m.resolve(m.builderField(b, "dialect").(Str)), Total: m.builderField(b, "total")}
	ph.Info = info
	text := symstr(ph)
	if f := implements(a.T, "FormatParam"); f != nil {
		fn := m.P.SSA.LookupMethod(a.T, f.Pkg(), f.Name())
		if fn == nil {
			m.undecided("FormatParam of %s not found", a.T)
		}
		si := m.P.Type(entSQL, "StmtInfo")
		st := m.zero(si).(*Struct)
		for i, name := range structFields(si) {
			if name == "Dialect" {
				st.F[i] = info.Dialect
			}
		}
		var cell Value = st
		r := m.callFn(fn, nil, []Value{copyVal(a.V), text, &Ptr{P: &cell, Obj: m.newObj("StmtInfo", si)}}, m.Pos)
		text = m.resolve(m.str(r)).norm()
		if len(text) == 2 && text[0].S == ph && text[1].S == nil {
			info.Suffix = text[1].C
			text = text[:1]
		}
	}
	af := m.fieldPtr(b, m.builderT(), "args")
	*af.P = m.force(*af.P)
	es := append(m.variadic(*af.P), a)
	*af.P = &Slice{&Arr{E: es, Obj: m.newObj("slice", nil)}, 0, len(es), len(es)}
	m.setField(b, m.builderT(), "total", m.binop(token.ADD, info.Total, int64(1), types.Typ[types.Int]))
	m.builderCall(args[0], "WriteString", text)
	return args[0], true
}

// sqlEdge models HasNeighbors and HasNeighborsWith.
func sqlEdge(m *Machine, d *sqlData, sel, step, pred Value) {
	sp := m.deref(sel)
	selT := m.P.Type(entSQL, "Selector")
	e := &edgeInfo{Filter: pred != nil}
	sv := m.deref(step)
	e.Step = copyVal(m.force(*sv.P))
	e.Dialect = m.callFn(m.entMethod(types.NewPointer(selT), "Dialect"), nil, []Value{sel}, m.Pos).(Str)
	from, _ := m.fieldOf(sp, types.NewPointer(selT), "from")
	tables := m.variadic(from)
	if len(tables) != 1 {
		m.undecided("selector with %d tables", len(tables))
	}
	ti, ok := tables[0].(*Iface)
	if !ok || !strings.HasSuffix(ti.T.String(), "SelectTable") {
		m.undecided("selector from %s", show(tables[0]))
	}
	n, _ := m.fieldOf(ti.V, ti.T, "name")
	s, _ := m.fieldOf(ti.V, ti.T, "schema")
	e.Table, e.Schema = n.(Str), s.(Str)
	d.nedge++
	sym := &Sym{Key: fmt.Sprintf("edge%d", d.nedge), T: types.Typ[types.String], Info: e, Dom: &Dom{NonEmpty: true}}
	var where Value
	if pred != nil {
		// the selector of the matching rows
		db := m.callFn(m.P.Paths[entSQL].Func("Dialect"), nil, []Value{e.Dialect}, m.Pos)
		matches := m.callFn(m.entMethod(types.NewPointer(m.P.Type(entSQL, "DialectBuilder")), "Select"), nil, []Value{db, Nil{}}, m.Pos)
		m.call(pred, []Value{matches}, m.Pos, nil)
		where, _ = m.fieldOf(matches, types.NewPointer(selT), "where")
	}
	predT := m.P.Type(entSQL, "Predicate")
	pv := m.zero(predT)
	var cell Value = pv
	pp := &Ptr{P: &cell, Obj: m.newObj("Predicate", predT)}
	body := &Native{Name: "edge", Fn: func(m *Machine, args []Value) Value {
		m.builderCall(args[0], "WriteString", symstr(sym))
		if pred != nil {
			m.builderCall(args[0], "Wrap", &Native{Name: "filter", Fn: func(m *Machine, args []Value) Value {
				if m.isNil(where) {
					return Nil{}
				}
				q := &Iface{T: types.NewPointer(predT), V: where}
				m.builderCall(args[0], "Join", &Slice{&Arr{E: []Value{q}, Obj: m.newObj("slice", nil)}, 0, 1, 1})
				return Nil{}
			}})
		}
		return Nil{}
	}}
	m.setField(pp, predT, "fns", &Slice{&Arr{E: []Value{body}, Obj: m.newObj("slice", nil)}, 0, 1, 1})
	m.callFn(m.entMethod(types.NewPointer(selT), "Where"), nil, []Value{sel, pp}, m.Pos)
}

var entOps = map[string][]string{
	"and": {"and"}, "or": {"or"}, "eq": {"="}, "neq": {"<>", "!="}, "gt": {">"}, "gte": {">="}, "lt": {"<"}, "lte": {"<="},
}

type sqlExpect struct {
	err    bool
	why    string
	edge   bool // about has_edge
	text   []Want
	known  []Want // a known wrong text
	nodes  []*ANode
	filter *ANode
	target Value // type of the filter
	step   func(q *Part, e *edgeInfo) string
}

func phWant(m *Machine, n *ANode) Want {
	null := n.lit(m) == "null"
	w := symIs("placeholder("+n.Path+")", func(s *Sym) bool {
		p, ok := s.Info.(*placeholder)
		return ok && boundTo(m, p.Arg, n) == ""
	})
	if null {
		w.Words = []string{"null"}
	}
	return w
}

// boundTo compares the value an argument has for the database with a literal.
func boundTo(m *Machine, a Value, n *ANode) string {
	i, ok := a.(*Iface)
	if ok {
		if f := implements(i.T, "Value"); f != nil {
			fn := m.P.SSA.LookupMethod(i.T, f.Pkg(), f.Name())
			if fn == nil {
				m.undecided("Value of %s not found", i.T)
			}
			t, ok := m.callFn(fn, nil, []Value{copyVal(i.V)}, token.NoPos).(Tuple)
			if !ok || len(t) != 2 || !m.isNil(t[1]) {
				return "the argument has no value"
			}
			a = t[0]
		}
	}
	return sameLiteral(m, a, n)
}

func snakeOf(m *Machine, s Str) Str {
	v, _ := models["github.com/huandu/xstrings.ToSnakeCase"](m, nil, []Value{s})
	return v.(Str)
}

// entsqlSpec is what a node has to become.
func entsqlSpec(q *Part, d *sqlData, n *ANode, postgres func() bool) *sqlExpect {
	m := q.Machine
	e := &sqlExpect{}
	reject := func(format string, a ...any) bool {
		e.err, e.why = true, fmt.Sprintf(format, a...)
		return false
	}
	rec := func(k *ANode, need bool) bool {
		if k.through || d.inline != nil && d.inline(k) {
			in := entsqlSpec(q, d, k, postgres)
			if in.known != nil {
				m.abort("known finding")
			}
			text, nodes := append(e.text, grouped(need, in.text...)), append(e.nodes, in.nodes...)
			*e = *in
			e.text, e.nodes = text, nodes
			return !e.err
		}
		if m.decide("fails(" + k.Path + ")") {
			return reject("sub-expression %s is rejected", k.Path)
		}
		e.text = append(e.text, grouped(need, recWant(k)))
		e.nodes = append(e.nodes, k)
		return true
	}
	operand := func(k *ANode, parent string) bool {
		t := k.tag(m)
		need := t == tBetw
		if parent == tCmp || parent == tIn || parent == tPred {
			need = need || t == tCmp || t == tIn || t == tPred
		}
		return rec(k, need)
	}
	switch t := n.tag(m); t {
	case tAnd, tOr, tCmp, tIn:
		if !operand(n.kid(m, "Left"), t) {
			return e
		}
		e.text = append(e.text, opWants(n.op(m), entOps)...)
		if !operand(n.kid(m, "Right"), t) {
			return e
		}
		if t == tOr && n.Root {
			// combined with other conditions
			e.text = []Want{grouped(true, e.text...)}
		}
	case tPred:
		op := n.op(m)
		if op != "is null" && op != "is not null" {
			reject("%q is not supported", op)
			return e
		}
		if !operand(n.kid(m, "Left"), t) {
			return e
		}
		e.text = append(e.text, words(op)...)
	case tNot:
		e.text = append(e.text, kw("not"))
		operand(n.kid(m, "Expression"), t)
	case tBetw:
		l, ps := n.kid(m, "Left"), n.list(m, "Params")
		not := n.op(m) == "not between"
		lo, hi, con := ">=", "<=", "and"
		if not {
			lo, hi, con = "<", ">", "or"
		}
		if !rec(l, false) {
			return e
		}
		e.text = append(e.text, kw(lo))
		if !rec(ps[0], false) {
			return e
		}
		e.text = append(e.text, kw(con))
		mid := len(e.text) - 1
		if !rec(l, false) {
			return e
		}
		e.text = append(e.text, kw(hi))
		if !rec(ps[1], false) {
			return e
		}
		if not {
			e.known = append([]Want{}, e.text...)
			e.known[mid] = kw("and")
			e.text = []Want{grouped(true, e.text...)}
		}
	case tParen:
		rec(n.kid(m, "Expression"), true)
	case tLit:
		e.text = append(e.text, phWant(m, n))
		e.nodes = append(e.nodes, n)
	case tArr:
		e.text = append(e.text, kw("("))
		for i, k := range n.list(m, "Array") {
			if i > 0 {
				e.text = append(e.text, kw(","))
			}
			e.text = append(e.text, phWant(m, k))
			e.nodes = append(e.nodes, k)
		}
		e.text = append(e.text, kw(")"))
	case tIdent:
		qc := "`"
		if postgres() {
			qc = `"`
		}
		name := snakeOf(m, n.nameSym(m, n.Path+".Name"))
		e.text = append(e.text, Want{Quote: name, QuoteBy: qc, Desc: "quoted " + name.key()})
	case tRef:
		reject("references are not supported")
	case tFunc:
		name := n.nameSym(m, n.Path+".Name")
		if m.eqStr(name, cstr("date")) {
			ps := n.list(m, "Params")
			if len(ps) != 1 {
				reject("date has %d arguments", len(ps))
				return e
			}
			e.text = append(e.text, kw("date"), kw("("))
			if !rec(ps[0], false) {
				return e
			}
			e.text = append(e.text, kw(")"))
			return e
		}
		if m.eqStr(name, cstr("has_edge")) {
			e.edge = true
			edgeSpec(m, d, n, e, reject)
			return e
		}
		reject("the function is not supported")
	}
	return e
}

func edgeSpec(m *Machine, d *sqlData, n *ANode, e *sqlExpect, reject func(format string, a ...any) bool) {
	ps := n.list(m, "Params")
	if len(ps) == 0 || len(ps) > 2 {
		reject("has_edge has %d arguments", len(ps))
		return
	}
	if ps[0].tag(m) != tIdent {
		reject("the edge is not a name")
		return
	}
	if m.isNil(d.node) {
		reject("there is no schema node")
		return
	}
	nodeT := types.NewPointer(m.P.Type(entSQL+"/sqlgraph", "Node"))
	field := func(v Value, T types.Type, path ...string) (Value, types.Type) {
		for _, p := range path {
			v, T = m.fieldOf(v, T, p)
		}
		return v, T
	}
	edges, eT := field(d.node, nodeT, "Edges")
	name := ps[0].nameSym(m, ps[0].Path+".Name")
	elT := eT.Underlying().(*types.Map).Elem()
	edge, ok := m.mapLookup(edges, name, elT)
	if !ok {
		reject("the edge is unknown")
		return
	}
	to, toT := field(edge, elT, "To")
	spec, specT := field(edge, elT, "Spec")
	id, idT := field(d.node, nodeT, "NodeSpec", "ID")
	toID, _ := field(to, toT, "NodeSpec", "ID")
	if m.isNil(id) || m.isNil(toID) {
		reject("there is no id column")
		return
	}
	if len(ps) == 2 {
		switch ps[1].tag(m) {
		case tLit, tArr, tIdent, tRef:
			reject("the filter is not a condition")
			return
		}
	}
	e.text = append(e.text, symIs("edge", func(s *Sym) bool { _, ok := s.Info.(*edgeInfo); return ok }))
	e.step = func(q *Part, g *edgeInfo) string {
		stepT := m.P.Type(entSQL+"/sqlgraph", "Step")
		check := func(got, want Value, what string) string {
			if show(resolved(m, got)) != show(resolved(m, want)) {
				return fmt.Sprintf("%s is %s instead of %s", what, show(got), show(want))
			}
			return ""
		}
		get := func(v Value, T types.Type, path ...string) Value {
			x, _ := field(v, T, path...)
			return x
		}
		if g.Filter != (len(ps) == 2) {
			return "the filter is not applied"
		}
		for _, x := range []string{
			check(get(g.Step, stepT, "From", "Table"), get(d.node, nodeT, "NodeSpec", "Table"), "source table"),
			check(get(g.Step, stepT, "From", "Column"), get(id, idT, "Column"), "source column"),
			check(get(g.Step, stepT, "To", "Table"), get(to, toT, "NodeSpec", "Table"), "target table"),
			check(get(g.Step, stepT, "To", "Column"), get(toID, idT, "Column"), "target column"),
			check(get(g.Step, stepT, "Edge", "Rel"), get(spec, specT, "Rel"), "relation kind"),
			check(get(g.Step, stepT, "Edge", "Inverse"), get(spec, specT, "Inverse"), "direction"),
			check(get(g.Step, stepT, "Edge", "Table"), get(spec, specT, "Table"), "edge table"),
			check(listOf(m, get(g.Step, stepT, "Edge", "Columns")), listOf(m, get(spec, specT, "Columns")), "edge columns"),
			check(g.Table, get(d.node, nodeT, "NodeSpec", "Table"), "table of the selector"),
			check(g.Schema, get(d.node, nodeT, "NodeSpec", "Schema"), "schema of the selector"),
		} {
			if x != "" {
				return x
			}
		}
		return ""
	}
	if len(ps) == 2 {
		k := ps[1]
		if m.decide("fails(" + k.Path + ")") {
			reject("the filter is rejected")
			return
		}
		e.text = append(e.text, kw("("), grouped(k.tag(m) == tOr, recWant(k)), kw(")"))
		e.nodes = append(e.nodes, k)
		e.filter, e.target = k, to
	}
}

func resolved(m *Machine, v Value) Value {
	if s, ok := v.(Str); ok {
		return m.resolve(s).norm()
	}
	return v
}

func listOf(m *Machine, v Value) Value {
	var t Tuple
	for _, x := range m.variadic(v) {
		t = append(t, resolved(m, x))
	}
	return t
}

func analyseEntSQL(c *Ctx) {
	h := entsqlHooks(c)
	query := c.P.Func("entmq", "*MiniQLToEntSQLBuilder.Query")
	build := func(q *Part, behind bool) {
		m := q.Machine
		d := &sqlData{parseData: newParseData(), recs: map[*Rec]*sqlCfg{}}
		m.Data = d
		T := m.sqlBuilderT()
		s := m.zero(T).(*Struct)
		var cell Value = s
		d.mb = &Ptr{P: &cell, Obj: m.newObj("builder", T)}
		text := symstr(m.sym("query", types.Typ[types.String], nil))
		if behind {
			m.behind(&d.parseData)
			m.Facts["syntax error in "+text.key()] = false
		}
		nodeT := types.NewPointer(m.P.Type(entSQL+"/sqlgraph", "Node"))
		node := &Lazy{Force: func(m *Machine) Value { return m.symbolic("node", nodeT) }}
		m.setField(d.mb, T, "QueryString", text)
		m.setField(d.mb, T, "Node", node)
		m.setField(d.mb, T, "Graph", &Lazy{Force: func(m *Machine) Value {
			return m.symbolic("graph", types.NewPointer(m.P.Type(entSQL+"/sqlgraph", "Schema")))
		}})
		d.disabled = &Lazy{Force: func(m *Machine) Value { return m.decide("casting disabled") }}
		m.setField(d.mb, T, "DisableTypeCasting", d.disabled)
		// counters of nested builders
		for i, st := 0, T.Underlying().(*types.Struct); i < st.NumFields(); i++ {
			if c.P.counters()[st.Field(i).Pos()] {
				s.F[i] = m.linValue(newLin(0, "levels"))
			}
		}
		dialects := &Dom{Enum: []string{"postgres", "mysql", "sqlite3", ""}}
		d.own = m.fieldPtr(d.mb, T, "Builder")
		bt := m.builderT()
		sink, base := d.own, newLin(0, "arguments before")
		m.setField(d.own, bt, "dialect", symstr(m.sym("dialect", types.Typ[types.String], dialects)))
		var before Str
		if m.decide("target builder set") {
			var tc Value = m.zero(bt)
			d.target = &Ptr{P: &tc, Obj: m.newObj("target", bt)}
			m.setField(d.mb, T, "SQLBuilder", d.target)
			m.setField(d.target, bt, "dialect", symstr(m.sym("target dialect", types.Typ[types.String], dialects)))
			before = symstr(m.sym("text before", types.Typ[types.String], &Dom{NonEmpty: true}))
			var sb Value = &TextBuf{A: append(Str{}, before...)}
			m.setField(d.target, bt, "sb", &Ptr{P: &sb, Obj: m.newObj("text", nil)})
			sink = d.target
		}
		d.dialect = m.builderField(sink, "dialect").(Str)
		m.setField(sink, bt, "total", m.linValue(base))
		ret, p := q.callRepo(query, d.mb)
		if p != nil {
			for _, id := range entsqlProps {
				q.fail(id, p.Pos, "panics: %s", p.Msg)
			}
			return
		}
		node.Force = func(m *Machine) Value { return m.symbolic("node", nodeT) }
		d.node = m.force(node)
		checkEntSQL(q, d, query, ret, sink, base, before, text)
	}
	c.analyse("MiniQLToEntSQLBuilder.Query", entsqlProps, h, fns(query), func(q *Part) { build(q, false) })
	// everything again behind another part of the query
	c.analyse("MiniQLToEntSQLBuilder.Query behind another part", entsqlProps, h, fns(query), func(q *Part) { build(q, true) })
	// casts of all types
	cast := c.P.Func("entmq", "argWithCast")
	if cast == nil {
		return
	}
	c.analyse("argument casts", []string{"S05", "X01"}, h, nil, func(q *Part) {
		m := q.Machine
		d := &sqlData{parseData: newParseData(), recs: map[*Rec]*sqlCfg{}}
		m.Data = d
		kinds := []string{"int", "bool", "float", "string", "null", "list"}
		suffix := []string{"::int", "::bool", "::double precision", "", "", ""}
		k := m.choose(len(kinds), "type", func(i int) string { return kinds[i] })
		var v Value
		any := types.NewSlice(types.NewInterfaceType(nil, nil))
		switch kinds[k] {
		case "int":
			v = &Iface{types.Typ[types.Int], m.sym("v", types.Typ[types.Int], nil)}
		case "bool":
			v = &Iface{types.Typ[types.Bool], true}
		case "float":
			v = &Iface{types.Typ[types.Float64], m.sym("v", types.Typ[types.Float64], nil)}
		case "string":
			v = &Iface{types.Typ[types.String], symstr(m.sym("v", types.Typ[types.String], nil))}
		case "null":
			v = Nil{}
		case "list":
			v = &Iface{any, Nil{}}
		}
		bt := m.builderT()
		var bc Value = m.zero(bt)
		b := &Ptr{P: &bc, Obj: m.newObj("builder", bt)}
		m.setField(b, bt, "dialect", symstr(m.sym("dialect", types.Typ[types.String], &Dom{Enum: []string{"postgres", "mysql", "sqlite3", "gremlin", ""}})))
		_, p := q.try(func() Value {
			a := m.callFn(cast, nil, []Value{v}, token.NoPos)
			m.builderCall(b, "Arg", a)
			return Nil{}
		})
		if p != nil {
			q.fail("S05", p.Pos, "panics: %s", p.Msg)
			q.fail("X01", p.Pos, "panics: %s", p.Msg)
			return
		}
		want := ""
		if m.eqStr(m.builderField(b, "dialect").(Str), cstr("postgres")) {
			want = suffix[k]
		}
		args := m.variadic(m.builderField(b, "args"))
		if len(args) == 0 && kinds[k] == "null" {
			return
		}
		if len(args) != 1 {
			q.fail("S05", cast.Pos(), "%s gives %d arguments", kinds[k], len(args))
			return
		}
		txt := m.textbuf(m.builderField(b, "sb"))
		if txt == nil || len(txt.A) != 1 || txt.A[0].S == nil {
			q.fail("S05", cast.Pos(), "%s is not written as one placeholder", kinds[k])
			return
		}
		ph, ok := txt.A[0].S.Info.(*placeholder)
		if !ok || ph.Suffix != want {
			q.fail("S05", cast.Pos(), "%s gets the cast %q instead of %q", kinds[k], ph.Suffix, want)
		}
		if i, ok := args[0].(*Iface); ok && implements(i.T, "Value") != nil {
			fn := m.P.SSA.LookupMethod(i.T, nil, "Value")
			t, ok := m.callFn(fn, nil, []Value{copyVal(i.V)}, token.NoPos).(Tuple)
			if !ok || !m.isNil(t[1]) || show(t[0]) != show(v) {
				q.fail("S05", fn.Pos(), "the bound value of a %s is %s", kinds[k], show(t))
			}
		} else if show(args[0]) != show(v) {
			q.fail("S05", cast.Pos(), "the bound value of a %s is %s", kinds[k], show(args[0]))
		}
	})
}

func checkEntSQL(q *Part, d *sqlData, fn *ssa.Function, ret Value, sink *Ptr, base *lin, before, query Str) {
	m := q.Machine
	pos := fn.Pos()
	t, ok := ret.(Tuple)
	if !ok || len(t) != 2 {
		q.fail("S03", pos, "returns %s", show(ret))
		return
	}
	retText, retArgs := m.resolve(t[0].(Str)), m.variadic(t[1])
	errFn := m.P.SSA.LookupMethod(types.NewPointer(m.sqlBuilderT()), m.P.Repo["entmq"].Pkg, "Err")
	var hasErr bool
	if errFn != nil {
		v, p := q.try(func() Value { return m.callFn(errFn, nil, []Value{d.mb}, token.NoPos) })
		if p != nil {
			q.fail("X01", p.Pos, "panics: %s", p.Msg)
			return
		}
		hasErr = !m.isNil(v)
	}
	textOf := func(b *Ptr) Str {
		sb := m.builderField(b, "sb")
		if m.isNil(sb) {
			return nil
		}
		return m.resolve(m.textbuf(sb).A)
	}
	expectErr := func(props []string, why string) {
		for _, p := range props {
			if !hasErr {
				q.fail(p, pos, "no error although %s", why)
			}
			if len(retText) > 0 || len(retArgs) > 0 {
				q.fail(p, pos, "returns SQL although %s", why)
			}
		}
	}
	root := d.root(m, m.resolve(query).key())
	if root == nil {
		expectErr([]string{"S03"}, "the query has a syntax error")
		return
	}
	postgres := func() bool { return m.eqStr(d.dialect, cstr("postgres")) }
	e := entsqlSpec(q, d, root, postgres)
	kind := root.tag(m)
	if e.err {
		props := []string{"S03"}
		if e.edge {
			props = append(props, "S04")
		}
		expectErr(props, e.why+" ("+kind+")")
		if hasErr {
			return
		}
		// the text may come from the query as well
		text := textOf(sink)
		if d.target != nil && len(text) > 0 && text[0].S == before[0].S {
			text = text[1:]
		}
		inQuote := ""
		for _, tk := range lex(text) {
			switch {
			case tk.P == `"` || tk.P == "`":
				if inQuote == "" {
					inQuote = tk.P
				} else if inQuote == tk.P {
					inQuote = ""
				}
			case tk.W != "" && inQuote == "" && !sqlWords[tk.W]:
				q.fail("S01", tk.Pos, "unexpected word %q in the SQL", tk.W)
			case tk.S != nil:
				switch tk.S.Info.(type) {
				case *placeholder, *edgeInfo, *Rec:
				default:
					if inQuote == "" || !strings.HasPrefix(tk.S.Key, "snake(") {
						q.fail("S01", tk.Pos, "text of the query (%s) is written into the SQL", tk.S.Key)
					}
				}
			}
		}
		return
	}
	if hasErr {
		q.fail("S02", pos, "a %s that can be translated gives an error", kind)
		q.fail("S03", pos, "a %s that can be translated gives an error", kind)
		if e.edge {
			q.fail("S04", pos, "a valid has_edge gives an error")
		}
		return
	}
	if e.edge {
		for _, ev := range m.Events {
			if ev.Kind == "input-write" {
				q.fail("S04", ev.Pos, "%s", ev.Text)
			}
		}
	}
	text := textOf(sink)
	args := m.variadic(m.builderField(sink, "args"))
	// S06
	if d.target != nil {
		if own := textOf(d.own); len(own) > 0 {
			q.fail("S06", own[0].Pos, "%s is written to the own builder although a target is set", own)
			return
		}
		if len(m.variadic(m.builderField(d.own, "args"))) > 0 {
			q.fail("S06", pos, "arguments are added to the own builder although a target is set")
			return
		}
		if len(retText) > 0 || len(retArgs) > 0 {
			q.fail("S06", pos, "returns SQL although a target is set")
		}
		if !m.isNil(m.builderCall(d.target, "Err")) {
			q.fail("S06", pos, "adds an error to the target")
		}
		if len(text) == 0 || text[0].S != before[0].S {
			q.fail("S06", pos, "the text of the target is replaced")
			return
		}
		text = text[1:]
	} else {
		if retText.key() != text.key() || !sameValues(m, retArgs, args) {
			q.fail("S06", pos, "returns %s instead of what was written", retText)
			return
		}
	}
	sinkDialect := m.resolve(d.dialect).key()
	if m.resolve(m.builderField(sink, "dialect").(Str)).key() != sinkDialect {
		q.fail("S06", pos, "the dialect of the builder written to is changed")
	}
	// S01: what the text is made of, arguments in order
	i := 0
	inQuote := ""
	toks := lex(text)
	total := base
	for _, tk := range toks {
		switch {
		case tk.P == `"` || tk.P == "`":
			if inQuote == "" {
				inQuote = tk.P
			} else if inQuote == tk.P {
				inQuote = ""
			}
		case inQuote != "":
			if tk.S == nil || !strings.HasPrefix(tk.S.Key, "snake(") || tk.S.Dom == nil || tk.S.Dom.Charset == nil || tk.S.Dom.Charset['"'] || tk.S.Dom.Charset['`'] {
				q.fail("S01", tk.Pos, "%s is quoted as a name but is not one in snake case", tk)
			}
		case tk.S != nil:
			switch info := tk.S.Info.(type) {
			case *placeholder:
				if i >= len(args) || args[i] != info.Arg {
					q.fail("S01", tk.Pos, "arguments are not in the order of the placeholders")
				}
				if l := asLin(info.Total); l == nil || l.key() != total.key() {
					q.fail("S01", tk.Pos, "placeholder number does not match the arguments before it")
				}
				if m.resolve(info.Dialect).key() != sinkDialect {
					q.fail("S06", tk.Pos, "placeholder uses the dialect %s instead of the one of the builder written to", info.Dialect)
				}
				if i < len(args) {
					total = total.add(lenOfElem(args[i]), 1)
				}
				i++
			case *edgeInfo:
				if m.resolve(info.Dialect).key() != sinkDialect {
					q.fail("S06", tk.Pos, "edge uses the dialect %s instead of the one of the builder written to", info.Dialect)
					q.fail("S04", tk.Pos, "edge uses the dialect %s instead of the one of the builder written to", info.Dialect)
				}
				if !e.edge {
					q.fail("S02", tk.Pos, "edge in a %s", kind)
				} else if msg := e.step(q, info); msg != "" {
					q.fail("S04", tk.Pos, "%s", msg)
				}
			case *Rec:
				if i >= len(args) {
					q.fail("S01", tk.Pos, "arguments of %s are dropped", info.Node.Path)
				} else if sp, ok := args[i].(Spread); !ok || sp.Rec != info {
					q.fail("S01", tk.Pos, "arguments are not in the order of the placeholders")
				} else {
					total = total.add(lenOfElem(args[i]), 1)
				}
				i++
				cfg := d.recs[info]
				if m.resolve(cfg.dialect).key() != sinkDialect {
					q.fail("S06", tk.Pos, "%s is translated for the dialect %s", info.Node.Path, cfg.dialect)
					if e.edge {
						q.fail("S04", tk.Pos, "%s is translated for the dialect %s", info.Node.Path, cfg.dialect)
					}
				}
				prop := "S02"
				wantNode := d.node
				if info.Node == e.filter {
					wantNode, prop = e.target, "S04"
				}
				if cfg.mb.P != d.mb.P {
					if show(cfg.node) != show(wantNode) || !samePtr(cfg.node, wantNode) {
						q.fail(prop, tk.Pos, "%s is translated against the wrong type", info.Node.Path)
					}
					if cfg.casting != m.force(d.disabled) {
						q.fail(prop, tk.Pos, "%s is translated with another casting setting", info.Node.Path)
						q.fail("S05", tk.Pos, "%s is translated with another casting setting", info.Node.Path)
					}
				} else if info.Node == e.filter {
					q.fail("S04", tk.Pos, "the filter is translated against the current type")
				}
			default:
				q.fail("S01", tk.Pos, "text of the query (%s) is written into the SQL", tk.S.Key)
			}
		case tk.W != "":
			if !sqlWords[tk.W] {
				q.fail("S01", tk.Pos, "unexpected word %q in the SQL", tk.W)
			}
		default:
			if !sqlPunct[tk.P] || tk.P == "?" {
				q.fail("S01", tk.Pos, "unexpected %q in the SQL", tk.P)
			}
		}
	}
	if i < len(args) {
		q.fail("S01", pos, "%d arguments without placeholder", len(args)-i)
	}
	if l := asLin(m.builderField(sink, "total")); l == nil || l.key() != total.key() {
		q.fail("S01", pos, "the number of arguments of the builder is wrong")
	}
	// S05 and bound values
	k := 0
	for _, n := range e.nodes {
		if k < len(args) {
			if _, ok := args[k].(Spread); ok && (n.Tag != tLit || n.Lit != "null") {
				k++
				continue
			}
		}
		if n.tag(m) == tLit || n.tag(m) == tArr {
			off := m.force(d.disabled).(bool)
			alone := n.parent == nil || n.parent.Tag != tArr
			if n.lit(m) == "null" && (k >= len(args) || boundTo(m, args[k], n) != "") {
				// written as NULL by ent
				if alone && !off {
					q.fail("S01", pos, "null is not passed as an argument")
				}
				continue
			}
			if k >= len(args) {
				q.fail("S01", pos, "literal %s is not passed", n.Path)
				q.fail("S02", pos, "literal %s is not passed", n.Path)
				break
			}
			if msg := boundTo(m, args[k], n); msg != "" {
				q.fail("S05", pos, "%s", msg)
				q.fail("S01", pos, "%s", msg)
				q.fail("S02", pos, "%s", msg)
			}
			if alone && off && sameLiteral(m, args[k], n) != "" {
				q.fail("S05", pos, "casting is disabled but the literal is not bound directly")
			}
			want := ""
			if alone && !off && postgres() {
				want = map[string]string{"int": "::int", "bool": "::bool"}[n.lit(m)]
			}
			for _, tk := range toks {
				if tk.S != nil {
					if p, ok := tk.S.Info.(*placeholder); ok && p.Arg == args[k] && p.Suffix != want {
						q.fail("S05", tk.Pos, "the cast of a %s in a %s is %q instead of %q", n.lit(m), kind, p.Suffix, want)
					}
				}
			}
			k++
		}
	}
	// S02
	prop := "S02"
	if e.edge {
		prop = "S04"
	}
	if msg, p := match(text, e.text); msg != "" {
		if e.known != nil {
			if k, _ := match(text, e.known); k == "" {
				q.fail("S02", p, "not between is written as x < low AND x > high, which is never true")
				return
			}
		}
		if !p.IsValid() {
			p = pos
		}
		q.fail(prop, p, "%s: %s; required %s", kind, msg, wantText(e.text))
		if prop != "S02" {
			q.fail("S02", p, "%s: %s; required %s", kind, msg, wantText(e.text))
		}
	}
}

func samePtr(a, b Value) bool {
	x, ok1 := a.(*Ptr)
	y, ok2 := b.(*Ptr)
	if ok1 && ok2 {
		return x.P == y.P
	}
	return show(a) == show(b)
}

func sameValues(m *Machine, a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
