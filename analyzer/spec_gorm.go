package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var gormProps = []string{"G01", "G02", "G03", "G04", "G05", "G06"}

func init() {
	expl := "The gorm entry points are interpreted over their SSA form on an arbitrary tree (kind, operator, literal type and list lengths of the root partitioned, sub-trees replaced by the induction hypothesis), an arbitrary model (maps of fields and relations unknown) and every outcome of parsing, schema lookup and sub-tree translation; gorm is modelled by the operations applied to its handles. "
	add := func(id, tech, e string) {
		rules[id] = &Rule{Level: "other", Technique: tech, Explanation: expl + e, Assumptions: []string{
			"gorm handles are modelled by the sequence of chained operations; QuoteTo quotes the name it is given",
			"list lengths are partitioned into 0 to 3 and the neighbourhood of integer constants in the source",
		}, Run: func(c *Ctx) { analyseGorm(c, id) }}
	}
	add("G01", "taint and string-shape analysis of the SQL text and bind values given to gorm", "Every atom of the text has to be a keyword of the closed set, '?', a quoted model name, or the text of a sub-tree; placeholders and bind values have to correspond one to one in order.")
	add("G02", "string-shape abstract interpretation with induction on sub-trees, compared with the SQL production of each node kind", "The text has to be the SQL production of the node kind over the texts of its children, grouped where SQL precedence needs it.")
	add("G03", "typestate analysis of the gorm handle: error and condition operations on every path", "On every failing path the returned handle has an error and no condition, on every other path exactly one condition and no error.")
	add("G04", "abstract interpretation of name resolution over an unknown schema, compared with the required priority", "The column used has to be the one of the required lookup order, and unresolved names have to be errors.")
	add("G05", "typestate analysis of join operations on the returned handle, with repeated and different relations", "References are analysed alone, in pairs, and after an arbitrary sub-tree; joins have to appear once per relation on the returned handle.")
	add("G06", "abstract interpretation of the scope over lists of unknown queries: every query parsed on its own before the joined text is used", "All list lengths, blank and invalid positions are partitioned; the text translated has to be the conjunction.")
}

// dbHandle models a *gorm.DB.
type dbHandle struct {
	ops []dbOp
}

type dbOp struct {
	Kind string
	Text Str
	Vals []Value
	Pos  token.Pos
	Rec  *ANode
}

type gormData struct {
	parseData
	all []dbOp // operations on any handle
	db  *Ptr

	wrongModel string // what was read instead of the model
	wrongPos   token.Pos
}

func (m *Machine) dbOf(v Value) *dbHandle {
	p, ok := v.(*Ptr)
	if !ok || p.Obj == nil {
		if m.isNil(v) {
			m.gopanic("method call on a nil *gorm.DB")
		}
		m.undecided("unknown gorm handle")
	}
	h, ok := p.Obj.Data.(*dbHandle)
	if !ok {
		m.undecided("unknown gorm handle")
	}
	return h
}

func (m *Machine) newDB(from *Ptr, ops []dbOp) *Ptr {
	o := m.newObj("gorm.DB", from.Obj.T)
	o.Data = &dbHandle{ops: append([]dbOp{}, ops...)}
	v := copyVal(m.force(*from.P))
	return &Ptr{P: &v, Obj: o}
}

type quotedName struct{ S Str }

func (m *Machine) quoteSym(s Str) Str {
	s = m.resolve(s)
	x := &Sym{Key: "quote(" + s.key() + ")", T: types.Typ[types.String], Dom: &Dom{NonEmpty: true}, Info: &quotedName{s}}
	return symstr(x)
}

// columnText is the name in the argument of gorm's Quote functions.
func (m *Machine) columnText(v Value) Str {
	switch x := m.force(v).(type) {
	case *Iface:
		if s, ok := x.V.(Str); ok {
			return s
		}
		if st, ok := x.V.(*Struct); ok && isNamed(x.T, "gorm.io/gorm/clause", "Column") {
			t, ok1 := m.force(st.F[0]).(Str)
			n, ok2 := m.force(st.F[1]).(Str)
			al, ok3 := m.force(st.F[2]).(Str)
			if ok1 && ok2 && ok3 && len(al.norm()) == 0 && st.F[3] == Value(false) {
				if c, isC := t.isConst(); isC && c == "" {
					return n
				}
				return append(append(append(Str{}, t...), Atom{C: "."}), n...)
			}
		}
	case Str:
		return x
	}
	m.undecided("quotes %s", show(v))
	return nil
}

func gormHooks(c *Ctx) *Hooks {
	h := &Hooks{}
	h.NonNil = func(key string, T types.Type) bool {
		if isErrorType(T) {
			return false
		}
		for _, s := range []string{".Statement", ".Config", ".Dialector", ".FieldSchema", "].Schema"} {
			if strings.HasSuffix(key, s) {
				return true
			}
		}
		// entries of the maps and lists of a schema
		if strings.HasSuffix(key, "]") && strings.Contains(key, "chema") {
			return true
		}
		return strings.HasSuffix(key, "schema")
	}
	fields := c.lens(0, 3)
	h.ListLens = func(key string) []int {
		if strings.HasSuffix(key, ".Fields") {
			return fields
		}
		return []int{0, 1, 2}
	}
	h.Filler = func(m *Machine, key string, i int, T types.Type) (Value, bool) {
		p, ok := T.Underlying().(*types.Pointer)
		if !ok || !isNamed(p.Elem(), "gorm.io/gorm/schema", "Field") {
			return nil, false
		}
		// a column that no query can name
		v := m.zero(p.Elem())
		for k, f := range structFields(p.Elem()) {
			if f == "Name" || f == "DBName" {
				v.(*Struct).F[k] = cstr(fmt.Sprintf("#%d", i))
			}
		}
		o := m.newObj("input", p.Elem())
		o.Input, o.Desc = true, fmt.Sprintf("%s[%d]", key, i)
		return &Ptr{P: &v, Obj: o}, true
	}
	// the maps of a schema are indexes of its fields
	h.Entry = func(m *Machine, name string, k, v Value) {
		field := "Name"
		switch {
		case strings.HasSuffix(name, ".FieldsByDBName"):
			field = "DBName"
		case strings.HasSuffix(name, ".FieldsByName"):
		default:
			return
		}
		p, ok := m.force(v).(*Ptr)
		if !ok {
			return
		}
		st, ok := m.force(*p.P).(*Struct)
		if !ok {
			return
		}
		*p.P = st
		for i, f := range structFields(m.P.Type("gorm.io/gorm/schema", "Field")) {
			if f == field {
				st.F[i] = k
			}
		}
	}
	parse := c.P.Func("miniquery", "Parse")
	h.Call = func(m *Machine, fn *ssa.Function, args []Value, pos token.Pos) (Value, bool) {
		d, _ := m.Data.(*gormData)
		if d == nil {
			return nil, false
		}
		if fn == parse {
			return d.parse(m, m.str(args[0])), true
		}
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), "gorm.io/gorm") {
			return nil, false
		}
		switch fn.String() {
		case "(*gorm.io/gorm.DB).AddError":
			h := m.dbOf(args[0])
			if !m.isNil(m.force(args[1])) {
				op := dbOp{Kind: "error", Pos: m.repoPos()}
				h.ops = append(h.ops, op)
				d.all = append(d.all, op)
			}
			return args[1], true
		case "(*gorm.io/gorm.DB).Where", "(*gorm.io/gorm.DB).Joins":
			h := m.dbOf(args[0])
			op := dbOp{Kind: strings.ToLower(fn.Name()), Pos: m.repoPos()}
			if s, ok := m.unwrap(args[1]).(Str); ok {
				op.Text = append(Str{}, s...)
			} else {
				m.undecided("%s with %s", fn.Name(), show(args[1]))
			}
			if len(args) > 2 {
				op.Vals = m.variadic(args[2])
			}
			d.all = append(d.all, op)
			return m.newDB(args[0].(*Ptr), append(append([]dbOp{}, h.ops...), op)), true
		case "(*gorm.io/gorm.Statement).Parse":
			st := m.deref(args[0])
			model, _ := m.fieldOf(st, types.NewPointer(m.P.Type("gorm.io/gorm", "Statement")), "Model")
			if show(m.force(args[1])) != show(m.force(model)) {
				d.wrongModel, d.wrongPos = show(args[1]), m.repoPos()
			}
			if m.isNil(args[1]) {
				return m.newError("model"), true
			}
			if m.decide("model can not be read") {
				return m.newError("model"), true
			}
			s := m.force(*st.P).(*Struct)
			for i, f := range structFields(m.P.Type("gorm.io/gorm", "Statement")) {
				if f == "Schema" {
					s.F[i] = m.symbolic("schema", m.P.Type("gorm.io/gorm", "Statement").Underlying().(*types.Struct).Field(i).Type())
				}
			}
			return Nil{}, true
		case "(*gorm.io/gorm.Statement).QuoteTo":
			t := m.textbuf(args[1])
			if t == nil {
				m.undecided("quotes to an unknown writer")
			}
			m.write(t, m.quoteSym(m.columnText(args[2])))
			return Nil{}, true
		case "(*gorm.io/gorm.Statement).Quote":
			return m.quoteSym(m.columnText(args[1])), true
		case "(gorm.io/gorm/schema.Schema).LookUpField", "(*gorm.io/gorm/schema.Schema).LookUpField":
			return nil, false
		}
		// other chained methods are recorded by name
		res := fn.Signature.Results()
		if fn.Signature.Recv() != nil && res.Len() == 1 && strings.HasSuffix(res.At(0).Type().String(), "gorm.DB") {
			h := m.dbOf(args[0])
			op := dbOp{Kind: fn.Name(), Pos: m.repoPos()}
			d.all = append(d.all, op)
			return m.newDB(args[0].(*Ptr), append(append([]dbOp{}, h.ops...), op)), true
		}
		return nil, false
	}
	h.Invoke = func(m *Machine, recv *Sym, method *types.Func, args []Value) (Value, bool) {
		if method.Name() == "QuoteTo" && strings.HasSuffix(recv.Key, "Dialector") {
			t := m.textbuf(args[0])
			if t == nil {
				m.undecided("quotes to an unknown writer")
			}
			m.write(t, m.quoteSym(m.columnText(args[1])))
			return Nil{}, true
		}
		return nil, false
	}
	h.Through = true
	h.Rec = func(m *Machine, fn *ssa.Function, args, env []Value, n *ANode) (Value, bool) {
		d := m.Data.(*gormData)
		if n.Tag == tOp || n.parent != nil && n.parent.Tag == tArr || d.inline != nil && d.inline(n) {
			return nil, false
		}
		if n.Root {
			m.undecided("%s calls itself with the same node", fn)
		}
		rec := m.recSym(n, fn, nil)
		str, list := false, false
		v, ok := m.recResults(fn, n, func(i int, T types.Type) (Value, bool) {
			if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && !str {
				str = true
				return Str{{S: rec, Pos: m.Pos}}, true
			}
			if isAnySlice(T) && !list {
				list = true
				var cell Value = Nil{}
				m.spread(&Ptr{P: &cell}, rec.Info.(*Rec))
				return cell, true
			}
			return nil, false
		})
		if !ok {
			return nil, false
		}
		r := m.reachable(fn, args, env)
		if !str {
			if len(r.bufs) != 1 {
				m.undecided("%s writes to %d texts", fn, len(r.bufs))
			}
			m.write(r.bufs[0], symstr(rec))
		}
		m.forget(r)
		m.failing(r, fn, n)
		vals := 0
		for _, cell := range r.cells {
			if cell.T == nil {
				continue
			}
			if isAnySlice(cell.T) && !list {
				m.spread(cell.Ptr, rec.Info.(*Rec))
				vals++
			}
			if p, ok := cell.T.Underlying().(*types.Pointer); ok && isNamed(p.Elem(), "gorm.io/gorm", "DB") {
				if cur, ok := (*cell.Ptr.P).(*Ptr); ok {
					if h, ok := cur.Obj.Data.(*dbHandle); ok {
						*cell.Ptr.P = m.newDB(cur, append(append([]dbOp{}, h.ops...), dbOp{Kind: "rec", Rec: n}))
					}
				}
			}
		}
		if vals != 1 && !list {
			m.undecided("%s collects values in %d lists", fn, vals)
		}
		for _, mo := range r.maps {
			if mo.Obj != nil && !mo.Obj.Input && mo.Obj.Global == nil {
				mo.Havoc++
				mo.miss = nil
			}
		}
		return v, true
	}
	return h
}

func structFields(T types.Type) (out []string) {
	st := T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, st.Field(i).Name())
	}
	return
}

// fieldOf reads a field of a symbolic struct by name.
func (m *Machine) fieldOf(v Value, T types.Type, name string) (Value, types.Type) {
	v = m.force(v)
	if p, ok := v.(*Ptr); ok {
		x := m.force(*p.P)
		*p.P = x
		v = x
		if pt, ok := T.Underlying().(*types.Pointer); ok {
			T = pt.Elem()
		}
	}
	s, ok := v.(*Struct)
	if !ok {
		m.undecided("field %s of %s", name, show(v))
	}
	st := T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			x := m.force(s.F[i])
			s.F[i] = x
			return x, st.Field(i).Type()
		}
	}
	m.undecided("no field %s in %s", name, T)
	return nil, nil
}

// resolveColumn is the required lookup of a name in a model.
func resolveColumn(m *Machine, schema Value, T types.Type, name Str) (Str, bool) {
	byDB, mt := m.fieldOf(schema, T, "FieldsByDBName")
	if _, ok := m.mapLookup(byDB, name, mt.Underlying().(*types.Map).Elem()); ok {
		return name, true
	}
	column := func(f Value, ft types.Type) (Str, bool) {
		db, _ := m.fieldOf(f, ft, "DBName")
		if m.eqStr(db.(Str), Str{}) {
			return nil, false
		}
		return db.(Str), true
	}
	byName, mt := m.fieldOf(schema, T, "FieldsByName")
	el := mt.Underlying().(*types.Map).Elem()
	if f, ok := m.mapLookup(byName, name, el); ok {
		if c, ok := column(f, el); ok {
			return c, true
		}
	}
	fields, st := m.fieldOf(schema, T, "Fields")
	el = st.Underlying().(*types.Slice).Elem()
	for _, f := range m.variadic(fields) {
		gn, _ := m.fieldOf(f, el, "Name")
		c, ok := column(f, el)
		if ok && m.eqStr(m.mapStr(gn.(Str), "lower", strings.ToLower), m.mapStr(name, "lower", strings.ToLower)) {
			return c, true
		}
	}
	return nil, false
}

var gormOps = map[string][]string{
	"and": {"and"}, "or": {"or"}, "eq": {"="}, "neq": {"<>", "!="}, "gt": {">"}, "gte": {">="}, "lt": {"<"}, "lte": {"<="},
}

// closed set of words that may appear in SQL
var sqlWords = map[string]bool{"and": true, "or": true, "not": true, "like": true, "in": true, "between": true, "is": true, "null": true, "true": true, "false": true, "date": true}

var sqlPunct = map[string]bool{"(": true, ")": true, ",": true, "?": true, "=": true, "<>": true, "!=": true, "<": true, ">": true, "<=": true, ">=": true}

// gormExpect computes what a node has to become. err: it has to be rejected.
type gormExpect struct {
	err   bool
	why   string
	text  []Want
	vals  []Want // Spread of a node or a literal
	nodes []*ANode
	joins []Str
	prop  string // property of the failure
}

func cmpLevel(t string) bool { return t == tCmp || t == tIn || t == tPred || t == tBetw }

func opWants(op string, table map[string][]string) []Want {
	if sp := table[op]; sp != nil {
		return []Want{kw(sp...)}
	}
	return words(op)
}

func gormSpec(q *Part, d *gormData, n *ANode, schema Value, T types.Type) *gormExpect {
	m := q.Machine
	e := &gormExpect{prop: "G02"}
	var visit func(n *ANode, direct bool, need bool) bool
	rec := func(k *ANode, need bool) bool {
		if k.through || d.inline != nil && d.inline(k) {
			before := e.text
			e.text = nil
			ok := visit(k, true, need)
			e.text = append(before, grouped(need, e.text...))
			return ok
		}
		if m.decide("fails(" + k.Path + ")") {
			e.err, e.why = true, "sub-expression "+k.Path+" is rejected"
			return false
		}
		e.text = append(e.text, grouped(need, recWant(k)))
		e.nodes = append(e.nodes, k)
		return true
	}
	reject := func(prop, format string, a ...any) bool {
		e.err, e.why, e.prop = true, fmt.Sprintf(format, a...), prop
		return false
	}
	joined := func(rel Str) bool {
		for _, j := range e.joins {
			if m.eqStr(j, rel) {
				return true
			}
		}
		// known by the induction hypothesis after an arbitrary sub-tree
		for k, v := range m.Facts {
			if v && strings.HasPrefix(k, "has map#") && strings.HasSuffix(k, "["+keyText(m, rel)+"]") {
				return true
			}
		}
		return false
	}
	visit = func(n *ANode, direct bool, need bool) bool {
		switch t := n.tag(m); t {
		case tAnd, tOr, tCmp, tIn, tPred:
			operand := func(name string) bool {
				k := n.kid(m, name)
				needs := t != tAnd && t != tOr && cmpLevel(k.tag(m)) && !(t == tPred && k.tag(m) == tBetw)
				return rec(k, needs)
			}
			if !operand("Left") {
				return false
			}
			e.text = append(e.text, opWants(n.op(m), gormOps)...)
			if t != tPred && !operand("Right") {
				return false
			}
		case tNot:
			e.text = append(e.text, kw("not"))
			return rec(n.kid(m, "Expression"), false)
		case tBetw:
			if !rec(n.kid(m, "Left"), false) {
				return false
			}
			e.text = append(e.text, words(n.op(m))...)
			ps := n.list(m, "Params")
			if !rec(ps[0], false) {
				return false
			}
			e.text = append(e.text, kw("and"))
			return rec(ps[1], false)
		case tParen:
			k := n.kid(m, "Expression")
			return rec(k, true)
		case tLit, tArr:
			e.text = append(e.text, grouped(false, kw("?")))
			e.nodes = append(e.nodes, n)
		case tIdent:
			col, ok := resolveColumn(m, schema, T, n.nameSym(m, n.Path+".Name"))
			if !ok {
				return reject("G04", "the name matches no column")
			}
			e.text = append(e.text, quoteWant(col))
		case tRef:
			ns := n.names(m)
			if len(ns) != 2 {
				return reject("G05", "a name with %d parts", len(ns))
			}
			rels, rt := m.fieldOf(schema, T, "Relationships")
			rels, rt = m.fieldOf(rels, rt, "Relations")
			el := rt.Underlying().(*types.Map).Elem()
			r, ok := m.mapLookup(rels, ns[0], el)
			if !ok || m.isNil(r) {
				return reject("G05", "the relation is unknown")
			}
			fs, ft := m.fieldOf(r, el, "FieldSchema")
			col, ok := resolveColumn(m, fs, ft, ns[1])
			if !ok {
				return reject("G04", "the name matches no column of the relation")
			}
			if !joined(ns[0]) {
				e.joins = append(e.joins, ns[0])
			}
			e.text = append(e.text, quoteWant(append(append(append(Str{}, ns[0]...), Atom{C: "."}), col...)))
		case tFunc:
			if !m.eqStr(n.nameSym(m, n.Path+".Name"), cstr("date")) {
				return reject("G03", "the function is not supported")
			}
			e.text = append(e.text, kw("date"), kw("("))
			for i, k := range n.list(m, "Params") {
				if i > 0 {
					e.text = append(e.text, kw(","))
				}
				if !rec(k, false) {
					return false
				}
			}
			e.text = append(e.text, kw(")"))
		}
		return true
	}
	visit(n, true, false)
	return e
}

func quoteWant(s Str) Want {
	k := s.key()
	return symIs("quote("+k+")", func(x *Sym) bool {
		qn, ok := x.Info.(*quotedName)
		return ok && qn.S.key() == k
	})
}

// sameLiteral compares a Go value with the literal of a node.
func sameLiteral(m *Machine, v Value, n *ANode) string {
	v = m.force(v)
	if n.tag(m) == tArr {
		i, ok := v.(*Iface)
		if !ok || !isAnySlice(i.T) {
			return "the array is passed as " + show(v)
		}
		got := m.variadic(i.V)
		want := n.list(m, "Array")
		if len(got) != len(want) {
			return fmt.Sprintf("the array has %d elements instead of %d", len(got), len(want))
		}
		for k := range got {
			if s := sameLiteral(m, got[k], want[k]); s != "" {
				return s
			}
		}
		return ""
	}
	kind := n.lit(m)
	want := n.litValue(m)
	if kind == "null" {
		if !m.isNil(v) {
			return "null is passed as " + show(v)
		}
		return ""
	}
	i, ok := v.(*Iface)
	typ := map[string]types.Type{"int": types.Typ[types.Int], "string": types.Typ[types.String], "bool": types.Typ[types.Bool]}[kind]
	if !ok || !types.Identical(i.T, typ) {
		return fmt.Sprintf("%s literal is passed as %s", kind, show(v))
	}
	if w, ok := want.(Str); ok {
		g, ok := i.V.(Str)
		if !ok || m.resolve(g).key() != m.resolve(w).key() {
			return fmt.Sprintf("%s literal is passed as %s", kind, show(v))
		}
		return ""
	}
	if m.force(i.V) != want {
		return fmt.Sprintf("%s literal is passed as %s", kind, show(v))
	}
	return ""
}

// checkGorm compares the operations on the returned handle with the required ones.
func checkGorm(q *Part, d *gormData, fn *ssa.Function, ret Value, query Str) {
	m := q.Machine
	pos := fn.Pos()
	rp, ok := ret.(*Ptr)
	if !ok || rp.Obj == nil {
		q.fail("G03", pos, "returns no handle")
		return
	}
	hd, ok := rp.Obj.Data.(*dbHandle)
	if !ok {
		q.fail("G03", pos, "returns an unknown handle")
		return
	}
	var wheres, joins []dbOp
	errs := 0
	for _, o := range hd.ops {
		switch o.Kind {
		case "where":
			wheres = append(wheres, o)
		case "joins":
			joins = append(joins, o)
		case "error":
			errs++
		case "rec":
		default:
			q.fail("G03", o.Pos, "applies %s to the handle", o.Kind)
			q.fail("G02", o.Pos, "applies %s to the handle", o.Kind)
		}
	}
	nAll := 0
	for _, o := range d.all {
		if o.Kind == "where" {
			nAll++
		}
	}
	if nAll != len(wheres) {
		for _, o := range d.all {
			if o.Kind == "where" {
				pos = o.Pos
			}
		}
		q.fail("G03", pos, "a condition is added to a handle that is not the returned one")
	}
	at := func() token.Pos {
		if len(wheres) > 0 {
			return wheres[0].Pos
		}
		for _, o := range d.all {
			if o.Kind == "error" {
				return o.Pos
			}
		}
		return fn.Pos()
	}
	if m.eqStr(query, Str{}) {
		if len(hd.ops) > 0 || len(d.all) > 0 {
			q.fail("G03", at(), "an empty query changes the handle")
		}
		return
	}
	expectErr := func(prop, why string) {
		if len(wheres) > 0 {
			q.fail(prop, wheres[0].Pos, "adds a condition although %s", why)
			if prop != "G03" {
				q.fail("G03", wheres[0].Pos, "adds a condition although %s", why)
				q.fail("G01", wheres[0].Pos, "a name that is not taken from the model is used although %s", why)
			}
			// the text may come from the query as well
			for _, t := range lex(m.resolve(wheres[0].Text)) {
				if t.S == nil {
					if t.W != "" && !sqlWords[t.W] {
						q.fail("G01", t.Pos, "unexpected word %q in the SQL", t.W)
					}
					continue
				}
				switch t.S.Info.(type) {
				case *quotedName, *Rec:
				default:
					q.fail("G01", t.Pos, "text of the query (%s) is written into the SQL", t.S.Key)
				}
			}
		}
		if errs == 0 {
			q.fail(prop, at(), "the returned handle has no error although %s", why)
			if prop != "G03" {
				q.fail("G03", at(), "the returned handle has no error although %s", why)
			}
		}
	}
	if d.wrongPos.IsValid() {
		q.fail("G04", d.wrongPos, "names are resolved in %s instead of the model of the handle", d.wrongModel)
		q.fail("G03", d.wrongPos, "%s is read instead of the model of the handle", d.wrongModel)
	}
	root := d.root(m, m.resolve(query).key())
	if root == nil {
		expectErr("G03", "the query has a syntax error")
		return
	}
	dbT := m.P.Type("gorm.io/gorm", "DB")
	stat, sT := m.fieldOf(d.db, types.NewPointer(dbT), "Statement")
	schema, schT := m.fieldOf(stat, sT, "Schema")
	if m.isNil(schema) {
		model, _ := m.fieldOf(stat, sT, "Model")
		if m.isNil(model) {
			expectErr("G03", "the model is missing")
			return
		}
		if _, asked := m.Facts["model can not be read"]; !asked {
			q.fail("G03", at(), "a query on a model that can be read is not translated: the model is never read")
			return
		}
		expectErr("G03", "the model can not be read")
		return
	}
	e := gormSpec(q, d, root, schema, schT)
	if e.err {
		expectErr(e.prop, e.why+" ("+root.tag(m)+")")
		return
	}
	if errs > 0 {
		q.fail("G03", at(), "a %s that can be translated gives an error", root.tag(m))
		q.fail("G02", at(), "a %s that can be translated gives an error", root.tag(m))
		if root.tag(m) == tIdent || root.tag(m) == tRef {
			q.fail("G04", at(), "a name that matches a column gives an error")
		}
		if root.tag(m) == tIdent || len(e.joins) > 0 {
			q.fail("G05", at(), "a relation reference that can be resolved gives an error")
		}
		return
	}
	if len(wheres) != 1 {
		q.fail("G03", at(), "adds %d conditions", len(wheres))
		return
	}
	w := wheres[0]
	text := m.resolve(w.Text)
	// G01: what the text is made of
	i := 0
	for _, t := range lex(text) {
		switch {
		case t.S != nil:
			if _, ok := t.S.Info.(*quotedName); ok {
				continue
			}
			r, ok := t.S.Info.(*Rec)
			if !ok {
				q.fail("G01", t.Pos, "text of the query (%s) is written into the SQL", t.S.Key)
				continue
			}
			if i >= len(w.Vals) {
				q.fail("G01", w.Pos, "values of %s are not passed", r.Node.Path)
			} else if sp, ok := w.Vals[i].(Spread); !ok || sp.Rec.Node != r.Node {
				q.fail("G01", w.Pos, "bind values are not in the order of the placeholders: %s for %s", show(w.Vals[i]), r.Node.Path)
			}
			i++
		case t.W != "":
			if !sqlWords[t.W] {
				q.fail("G01", t.Pos, "unexpected word %q in the SQL", t.W)
			}
		default:
			if !sqlPunct[t.P] {
				q.fail("G01", t.Pos, "unexpected %q in the SQL", t.P)
			}
			if t.P == "?" {
				if i >= len(w.Vals) {
					q.fail("G01", w.Pos, "a placeholder has no value")
				} else if _, ok := w.Vals[i].(Spread); ok {
					q.fail("G01", w.Pos, "bind values are not in the order of the placeholders")
				}
				i++
			}
		}
	}
	if i < len(w.Vals) {
		q.fail("G01", w.Pos, "%d values without placeholder", len(w.Vals)-i)
	}
	// values of the literals
	if len(w.Vals) != len(e.nodes) {
		q.fail("G01", w.Pos, "%s: %d bind values or lists of a sub-tree instead of %d", root.tag(m), len(w.Vals), len(e.nodes))
		q.fail("G02", w.Pos, "%s: %d bind values or lists of a sub-tree instead of %d", root.tag(m), len(w.Vals), len(e.nodes))
	} else {
		for k, v := range w.Vals {
			n := e.nodes[k]
			if _, ok := v.(Spread); ok {
				continue
			}
			if t := n.tag(m); t == tLit || t == tArr {
				if msg := sameLiteral(m, v, n); msg != "" {
					q.fail("G01", w.Pos, "%s", msg)
					q.fail("G02", w.Pos, "%s", msg)
				}
			}
		}
	}
	// G02
	if msg, p := match(text, e.text); msg != "" {
		if !p.IsValid() {
			p = w.Pos
		}
		prop := "G02"
		switch root.tag(m) {
		case tIdent:
			prop = "G04"
		case tRef:
			prop = "G05"
			q.fail("G04", p, "%s: %s; required %s", root.tag(m), msg, wantText(e.text))
		}
		if prop != "G02" {
			q.fail("G02", p, "%s: %s; required %s", root.tag(m), msg, wantText(e.text))
		}
		q.fail(prop, p, "%s: %s; required %s", root.tag(m), msg, wantText(e.text))
	}
	// G05
	if len(joins) != len(e.joins) {
		p := w.Pos
		if len(joins) > 0 {
			p = joins[len(joins)-1].Pos
		}
		q.fail("G05", p, "%d joins on the returned handle instead of %d", len(joins), len(e.joins))
		return
	}
	for k := range joins {
		if m.resolve(joins[k].Text).key() != m.resolve(e.joins[k]).key() {
			q.fail("G05", joins[k].Pos, "joins %s instead of %s", joins[k].Text, e.joins[k])
		}
		if len(joins[k].Vals) > 0 {
			q.fail("G05", joins[k].Pos, "join with further conditions")
		}
	}
	if len(d.all) != len(wheres)+len(joins) {
		q.fail("G05", w.Pos, "an operation is applied to a handle that is not the returned one")
	}
}

func (q *Part) newGorm() *gormData {
	m := q.Machine
	d := &gormData{parseData: newParseData()}
	m.Data = d
	T := m.P.Type("gorm.io/gorm", "DB")
	var v Value = &Lazy{Force: func(m *Machine) Value { return m.symbolic("db", T) }}
	o := m.newObj("gorm.DB", T)
	o.Data = &dbHandle{}
	d.db = &Ptr{P: &v, Obj: o}
	return d
}

func analyseGorm(c *Ctx, only string) {
	h := gormHooks(c)
	wire := c.P.Func("gormq", "WireMiniQuery")
	apply := c.P.Func("gormq", "ApplyMiniQuery")
	scope := c.P.Func("gormq", "MiniQuery.Scope")
	main := []string{"G01", "G02", "G03", "G04", "G05", "X01"}
	panics := func(q *Part, p *absPanic, props []string) {
		for _, id := range props {
			q.fail(id, p.Pos, "panics: %s", p.Msg)
		}
	}
	query := func(m *Machine) Str { return symstr(m.sym("query", types.Typ[types.String], nil)) }
	c.analyse("WireMiniQuery", main, h, fns(wire), func(q *Part) {
		d := q.newGorm()
		s := query(q.Machine)
		v, p := q.callRepo(wire, d.db, s)
		if p != nil {
			panics(q, p, main)
			return
		}
		checkGorm(q, d, wire, v, s)
	})
	// everything again behind another part of the query
	c.analyse("WireMiniQuery behind another part", main, h, fns(wire), func(q *Part) {
		d := q.newGorm()
		q.behind(&d.parseData)
		s := query(q.Machine)
		q.Facts["syntax error in "+s.key()] = false
		q.Facts["db.Statement.Schema != nil"] = true
		v, p := q.callRepo(wire, d.db, s)
		if p != nil {
			panics(q, p, main)
			return
		}
		checkGorm(q, d, wire, v, s)
	})
	// references next to each other and after an arbitrary sub-tree; the lookup in a longer list of
	// fields is analysed above
	few := *h
	few.ListLens = func(key string) []int { return []int{0, 1} }
	for _, mode := range []string{"two references", "a sub-tree and a reference", "three references"} {
		c.analyse("WireMiniQuery with "+mode, []string{"G03", "G04", "G05", "X01"}, &few, fns(wire), func(q *Part) {
			d := q.newGorm()
			d.setup = func(n *ANode) {
				n.Allowed = []string{tCmp}
				n.Tag = tCmp
				op := n.kid(q.Machine, "Op")
				op.Ops = []string{"eq"}
				fix := func(k *ANode) {
					k.Tag, k.Allowed, k.ListN = tRef, []string{tRef}, 2
				}
				fix(n.kid(q.Machine, "Right"))
				left := n.kid(q.Machine, "Left")
				switch mode {
				case "two references":
					fix(left)
				case "three references":
					left.Tag, left.Allowed = tCmp, []string{tCmp}
					left.kid(q.Machine, "Op").Ops = []string{"eq"}
					fix(left.kid(q.Machine, "Left"))
					fix(left.kid(q.Machine, "Right"))
				}
			}
			d.inline = func(n *ANode) bool {
				return n.Tag == tRef || n.Tag == tCmp && mode == "three references"
			}
			q.Preset = func(key string) (bool, bool) {
				if mode == "three references" && strings.HasPrefix(key, "has ") && strings.Contains(key, "chema") {
					return true, true
				}
				return false, false
			}
			// the model is there
			q.Facts["model can not be read"] = false
			s := query(q.Machine)
			q.Facts[`query == ""`] = false
			q.Facts["syntax error in "+s.key()] = false
			v, p := q.callRepo(wire, d.db, s)
			if p != nil {
				panics(q, p, q.props)
				return
			}
			checkGorm(q, d, wire, v, s)
		})
	}
	lit := func(n *ANode) { n.Allowed, n.Tag, n.litOnly = []string{tLit}, tLit, []string{"int"} }
	c.analyse("ApplyMiniQuery", append([]string{"G06"}, main...), h, fns(apply), func(q *Part) {
		d := q.newGorm()
		d.setup = lit
		s := query(q.Machine)
		v, p := q.try(func() Value {
			f := q.callFn(apply, nil, []Value{s}, token.NoPos)
			return q.call(f, []Value{d.db}, token.NoPos, apply.Signature)
		})
		if p != nil {
			panics(q, p, q.props)
			return
		}
		q.remap(func() { checkGorm(q, d, apply, v, s) })
	})
	c.analyse("MiniQuery.Scope", []string{"G06", "X01"}, h, fns(scope), func(q *Part) {
		d := q.newGorm()
		d.setup = lit
		m := q.Machine
		n := c.lens(0, 3)[m.choose(len(c.lens(0, 3)), "queries", func(i int) string { return fmt.Sprintf("%d queries", c.lens(0, 3)[i]) })]
		m.plainQueries("q.Query", n)
		T := c.P.Type("gormq", "MiniQuery")
		st := T.Underlying().(*types.Struct)
		recv := &Struct{F: make([]Value, st.NumFields())}
		var list Value = Nil{}
		if n > 0 {
			list = m.symSliceOf("q.Query", types.Typ[types.String], n)
		}
		for i := range recv.F {
			if st.Field(i).Name() == "Query" {
				recv.F[i] = list
			} else {
				recv.F[i] = m.symbolic("q."+st.Field(i).Name(), st.Field(i).Type())
			}
		}
		var cell Value = recv
		v, p := q.callRepo(scope, recvFor(scope, &Ptr{P: &cell, Obj: m.newObj("MiniQuery", T)}), d.db)
		if p != nil {
			panics(q, p, q.props)
			return
		}
		checkScope(q, d, scope, v, list)
	})
}

// remap reports all violations of f for every property of the analysis.
func (q *Part) remap(f func()) {
	q.all = true
	f()
	q.all = false
}

// checkScope: the conjunction of all non-blank queries, each valid on its own.
func checkScope(q *Part, d *gormData, fn *ssa.Function, ret Value, list Value) {
	m := q.Machine
	es := m.variadic(list)
	if len(es) == 1 {
		q.remap(func() { checkGorm(q, d, fn, ret, es[0].(Str)) })
		return
	}
	rp, ok := ret.(*Ptr)
	if !ok || rp.Obj == nil {
		q.fail("G06", fn.Pos(), "returns no handle")
		return
	}
	hd, ok := rp.Obj.Data.(*dbHandle)
	if !ok {
		q.fail("G06", fn.Pos(), "returns an unknown handle")
		return
	}
	nw, ne := 0, 0
	pos := fn.Pos()
	for _, o := range hd.ops {
		switch o.Kind {
		case "where":
			nw++
			pos = o.Pos
		case "error":
			ne++
		}
	}
	var used []Str
	for _, e := range es {
		s := e.(Str)
		if m.eqStr(m.trimSpace(s), Str{}) {
			continue
		}
		used = append(used, s)
		if d.root(m, m.resolve(s).key()) == nil {
			if nw > 0 {
				q.fail("G06", pos, "adds a condition although one of the queries is not valid on its own")
			}
			if ne == 0 {
				q.fail("G06", pos, "the handle has no error although one of the queries is not valid on its own")
			}
			return
		}
	}
	// one condition per query is a conjunction as well
	if nw > 1 && nw == len(used) && ne == 0 {
		i := 0
		for _, o := range hd.ops {
			if o.Kind != "where" {
				continue
			}
			root := d.root(m, m.resolve(used[i]).key())
			if msg := sameLiteral(m, o.Vals[0], root); len(o.Vals) != 1 || msg != "" {
				q.fail("G06", o.Pos, "condition %d is not the one of its query", i)
			}
			i++
		}
		return
	}
	var joined Str
	for i, s := range used {
		if i > 0 {
			joined = append(joined, Atom{C: " and "})
		}
		joined = append(joined, Atom{C: "("})
		joined = append(joined, s...)
		joined = append(joined, Atom{C: ")"})
	}
	// the text that was translated
	for _, key := range d.parsed {
		if sameConjunction(key, joined) {
			q.remap(func() { checkGorm(q, d, fn, ret, joinedAs(m, joined, key)) })
			return
		}
	}
	q.remap(func() { checkGorm(q, d, fn, ret, joined) })
}

// sameConjunction compares ignoring letter case and blanks of the fixed parts.
func sameConjunction(key string, s Str) bool {
	norm := func(x string) string {
		x = strings.ReplaceAll(x, "&&", "and")
		return strings.Join(strings.Fields(strings.ReplaceAll(strings.ReplaceAll(x, "(", " ( "), ")", " ) ")), " ")
	}
	return norm(key) == norm(s.key())
}

func joinedAs(m *Machine, s Str, key string) Str {
	if s.key() == key {
		return s
	}
	return symstr(m.sym(key, types.Typ[types.String], &Dom{NonEmpty: true}))
}
