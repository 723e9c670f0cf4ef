package main

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["P13"] = &Rule{
		Level:     "other",
		Technique: "abstract interpretation of every operation of the tree builder on an arbitrary stack, compared with a stack machine",
		Explanation: "Each operation is interpreted over its SSA form on a builder that already holds 0 to 3 arbitrary nodes (more if constants in the code ask for it) and 0 to 2 errors. " +
			"The operands are nodes of any kind. Afterwards the nodes below the operands have to be the same and unchanged, the operands have to be gone, exactly the required node has to be on top and exactly the required error has to be added. " +
			"Marks are checked by setting two of them at arbitrary heights and taking them back.",
		Assumptions: []string{"operations that take operands find them, except for function calls and for taking a node, which are also analysed with too few nodes", "texts of numbers are arbitrary, texts of truth values and operators are enumerated"},
		Run:         func(c *Ctx) { analyseBuilder(c, "P13") },
	}
	models["strconv.ParseFloat"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		bits, ok := args[1].(int64)
		if !ok {
			return nil, false
		}
		if c, ok := m.str(args[0]).isConst(); ok {
			v, err := strconv.ParseFloat(c, int(bits))
			if err != nil {
				return Tuple{v, m.newError("number: " + c)}, true
			}
			return Tuple{v, Nil{}}, true
		}
		key := fmt.Sprintf("float%d(%s)", bits, m.str(args[0]).key())
		if m.decide(key + " is a number") {
			return Tuple{m.sym(key, types.Typ[types.Float64], nil), Nil{}}, true
		}
		return Tuple{m.sym(key+" clipped", types.Typ[types.Float64], nil), m.newError("number: " + key)}, true
	}
}

// operator texts and their names
var operatorNames = map[string]string{
	">=": "gte", ">": "gt", "==": "eq", "=": "eq", "!=": "neq", "<>": "neq", "<": "lt", "<=": "lte", ":": "eq",
	"&&": "and", "||": "or", ",": "and", "and": "and", "or": "or", "not": "not", "in": "in", "not in": "not in", "like": "like", "not like": "not like",
	"between": "between", "not between": "not between", "isnull": "is null", "notnull": "is not null", "is null": "is null", "is not null": "is not null",
	"is true": "is true", "is not true": "is not true", "is unknown": "is unknown", "is": "is", "gt": "gt",
}

type treeOp struct {
	name string
	kids int // operands
	arg  func(m *Machine) Value
	want func(m *Machine, arg Value, kids []*ANode) (node *spec, errs int)
	few  bool // also with too few operands
}

func analyseBuilder(c *Ctx, prop string) {
	pi := newParserInfo(c)
	treeT := c.P.Type("miniquery", "Tree")
	method := func(name string) *ssa.Function { return c.P.Func("miniquery", "*Tree."+name) }
	if treeT == nil || method("Push") == nil || method("Pop") == nil {
		c.failAt(prop, "miniquery", "", nil, nil, "the tree builder was not found in the source")
		return
	}
	kind := func(m *Machine, t string) Str { return cstr(m.repoConst("miniquery", t)) }
	text := func(m *Machine) Value { return symstr(m.sym("s", types.Typ[types.String], nil)) }
	oneOf := func(what string, list []string) func(m *Machine) Value {
		return func(m *Machine) Value {
			return cstr(list[m.choose(len(list), what, func(i int) string { return fmt.Sprintf("the text %q", list[i]) })])
		}
	}
	sub := func(ns []*ANode) (out []*spec) {
		for _, n := range ns {
			out = append(out, &spec{Sub: n})
		}
		return
	}
	// literal nodes
	literal := func(typ, field string, read func(m *Machine, s Str) (Value, bool)) func(m *Machine, arg Value, kids []*ANode) (*spec, int) {
		return func(m *Machine, arg Value, _ []*ANode) (*spec, int) {
			f := map[string]any{"ValueType": kind(m, typ)}
			errs := 0
			if field != "" {
				v, ok := read(m, m.str(arg))
				f[field] = v
				if !ok {
					errs++
				}
			}
			return &spec{Typ: "ValueNodeType", F: f}, errs
		}
	}
	model := func(name string, rest ...Value) func(m *Machine, s Str) (Value, bool) {
		return func(m *Machine, s Str) (Value, bool) {
			v, _ := models[name](m, nil, append([]Value{s}, rest...))
			return v.(Tuple)[0], m.isNil(v.(Tuple)[1])
		}
	}
	expr := func(typ string, f func(k []*spec) map[string]any) func(m *Machine, arg Value, kids []*ANode) (*spec, int) {
		return func(m *Machine, _ Value, kids []*ANode) (*spec, int) { return &spec{Typ: typ, F: f(sub(kids))}, 0 }
	}
	operator := func(m *Machine, arg Value, _ []*ANode) (*spec, int) {
		s, _ := m.str(arg).isConst()
		s = strings.ToLower(strings.Join(strings.Fields(s), " "))
		name, ok := operatorNames[s]
		if !ok {
			name = s
		}
		return &spec{Typ: "OperationNodeType", F: map[string]any{"Operation": cstr(name)}}, 0
	}
	var spellings []string
	for _, s := range sortedKeys(operatorNames) {
		spellings = append(spellings, s, " "+strings.ToUpper(strings.ReplaceAll(s, " ", " \t\n"))+" ")
	}
	ops := []treeOp{
		{name: "Push", arg: func(m *Machine) Value { return anyNamed(m, "new").Ptr }, want: func(m *Machine, arg Value, _ []*ANode) (*spec, int) {
			return &spec{Sub: arg.(*Ptr).Obj.Node}, 0
		}},
		{name: "AddName", arg: text, want: func(m *Machine, arg Value, _ []*ANode) (*spec, int) {
			return &spec{Typ: "IdentifierNodeType", F: map[string]any{"Name": m.str(arg)}}, 0
		}},
		{name: "AddString", arg: text, want: literal("StringValueType", "Str", func(m *Machine, s Str) (Value, bool) { return s, true })},
		{name: "AddNull", want: literal("NullValueType", "", nil)},
		{name: "AddInteger", arg: text, want: literal("IntValueType", "Int", model("strconv.Atoi"))},
		{name: "AddFloat", arg: text, want: literal("FloatValueType", "Float", model("strconv.ParseFloat", int64(64)))},
		{name: "AddBoolean", arg: oneOf("truth value", []string{"true", "false", "TRUE", "False", "1", "0", "t", "f", "", "yes", "maybe", "truefalse"}), want: literal("BooleanValueType", "Bool", model("strconv.ParseBool"))},
		{name: "AddOperation", arg: oneOf("operator", spellings), want: operator},
		{name: "AddCompare", arg: oneOf("operator", spellings), want: operator},
		{name: "AddLogic", arg: oneOf("operator", spellings), want: operator},
		{name: "AddMatch", arg: oneOf("operator", spellings), want: operator},
		{name: "PopNot", kids: 1, want: expr("NotExpressionType", func(k []*spec) map[string]any { return map[string]any{"Expression": k[0]} })},
		{name: "PopParentheses", kids: 1, want: expr("ParenthesesExpressionType", func(k []*spec) map[string]any { return map[string]any{"Expression": k[0]} })},
		{name: "PopPredicate", kids: 2, want: expr("PredicatesExpressionType", func(k []*spec) map[string]any { return map[string]any{"Left": k[0], "Op": k[1]} })},
		{name: "PopCompare", kids: 3, want: expr("CompareExpressionType", func(k []*spec) map[string]any { return map[string]any{"Left": k[0], "Op": k[1], "Right": k[2]} })},
		{name: "PopBetween", kids: 4, want: expr("BetweenExpressionType", func(k []*spec) map[string]any {
			return map[string]any{"Left": k[0], "Op": k[1], "Params": []*spec{k[2], k[3]}}
		})},
		{name: "PopFunction", kids: 2, few: true, want: func(m *Machine, _ Value, k []*ANode) (*spec, int) {
			if len(k) < 2 || k[0].tag(m) != tIdent || k[1].tag(m) != tArr {
				return nil, 1
			}
			return &spec{Typ: "FunctionExpressionType", F: map[string]any{"Name": (&spec{Sub: k[0]}).name(m), "Params": sub(k[1].list(m, "Array"))}}, 0
		}},
		{name: "Pop", kids: 1, few: true},
		{name: "AddError", arg: func(m *Machine) Value {
			if m.decide("there is an error") {
				return m.givenError("given")
			}
			return Nil{}
		}, want: func(m *Machine, arg Value, _ []*ANode) (*spec, int) {
			if m.isNil(arg) {
				return nil, 0
			}
			return nil, 1
		}},
	}
	heights := []int{0, 1, 2, 3}
	for _, t := range c.P.DepthThresholds {
		heights = append(heights, int(t)-1, int(t), int(t)+1)
	}
	for _, op := range ops {
		fn := method(op.name)
		if fn == nil {
			continue
		}
		c.analyse("tree."+op.name, []string{prop}, &Hooks{}, fns(fn), func(q *Part) {
			m := q.Machine
			b := newBuilder(q, treeT, heights)
			kids := op.kids
			if op.few && len(b.below) == 0 {
				kids = m.choose(op.kids+1, "operands", func(i int) string { return fmt.Sprintf("%d operands", i) })
			}
			var ks []*ANode
			for i := 0; i < kids; i++ {
				ks = append(ks, anyNamed(m, fmt.Sprintf("operand %d", i)))
			}
			b.set(m, ks)
			args := []Value{b.tree}
			var arg Value
			if op.arg != nil {
				arg = op.arg(m)
				args = append(args, arg)
			}
			m.Events = nil
			r, p := q.callRepo(fn, args...)
			if p != nil {
				q.fail(prop, p.Pos, "%s on %d nodes panics: %s", op.name, len(b.below)+kids, p.Msg)
				return
			}
			var want []*spec
			errs := 0
			if op.want != nil {
				var n *spec
				if n, errs = op.want(m, arg, ks); n != nil {
					want = append(want, n)
				}
			} else if kids == 0 {
				if !m.isNil(r) {
					q.fail(prop, fn.Pos(), "taking from an empty stack gives %s", show(r))
				}
			} else if x, ok := m.force(r).(*Ptr); !ok || x.P != ks[kids-1].Ptr.P {
				q.fail(prop, fn.Pos(), "taking a node gives %s instead of the last one", show(r))
			}
			b.check(q, pi, prop, op.name, fn.Pos(), want, errs)
			if len(want) == 1 && want[0].Typ == "ValueNodeType" {
				builtValue(q, prop, b, want[0])
			}
			if op.name == "AddError" && errs == 1 {
				es := elemsOf(m, *b.field(m, "Errors"))
				if len(es) == 0 || show(m.force(es[len(es)-1])) != show(arg) {
					q.fail(prop, fn.Pos(), "the recorded error is not the given one")
				}
			}
		})
	}

	// lists between a mark and the top
	add, take := method("AddMark"), method("PopMark")
	lists := []struct {
		name string
		kids []string
		want func(m *Machine, kids []*ANode) *spec
	}{
		{"PopArray", nil, func(m *Machine, k []*ANode) *spec {
			es := sub(k)
			if es == nil {
				es = []*spec{}
			}
			return &spec{Typ: "ValueNodeType", F: map[string]any{"ValueType": kind(m, "ArrayValueType"), "Array": es}}
		}},
		{"PopIdentifierReference", []string{tIdent}, func(m *Machine, k []*ANode) *spec {
			names := []Str{}
			for _, n := range k {
				names = append(names, (&spec{Sub: n}).name(m))
			}
			return &spec{Typ: "ReferenceNodeType", F: map[string]any{"Names": names}}
		}},
	}
	if add == nil || take == nil {
		return
	}
	c.analyse("marks", []string{prop}, &Hooks{}, fns(add, take), func(q *Part) {
		m := q.Machine
		b := newBuilder(q, treeT, heights)
		b.set(m, nil)
		n := m.choose(4, "marks", func(i int) string { return fmt.Sprintf("%d marks", i+1) }) + 1
		var at []int64
		var extra []*ANode
		for i := 0; i < n; i++ {
			if _, p := q.callRepo(add, b.tree); p != nil {
				q.fail(prop, p.Pos, "setting a mark panics: %s", p.Msg)
				return
			}
			at = append(at, int64(len(b.below)+len(extra)))
			if m.decide(fmt.Sprintf("a node is added after mark %d", i+1)) {
				extra = append(extra, anyNamed(m, fmt.Sprintf("added %d", i)))
				b.set(m, extra)
			}
		}
		for i := n - 1; i >= 0; i-- {
			r, p := q.callRepo(take, b.tree)
			if p != nil {
				q.fail(prop, p.Pos, "taking a mark back panics: %s", p.Msg)
				return
			}
			if m.force(r) != Value(at[i]) {
				q.fail(prop, take.Pos(), "mark %d is %s, %d required", i+1, show(m.force(r)), at[i])
				return
			}
		}
		b.check(q, pi, prop, "setting and taking marks", take.Pos(), sub(extra), 0)
	})
	for _, l := range lists {
		fn := method(l.name)
		if fn == nil {
			continue
		}
		c.analyse("tree."+l.name, []string{prop, "P02"}, &Hooks{}, fns(fn, add), func(q *Part) {
			m := q.Machine
			q.all = true
			b := newBuilder(q, treeT, heights)
			b.set(m, nil)
			outer := m.decide("there is an outer mark")
			if outer {
				m.callFn(add, nil, []Value{b.tree}, token.NoPos)
			}
			m.callFn(add, nil, []Value{b.tree}, token.NoPos)
			n := heights[m.choose(len(heights), "elements", func(i int) string { return fmt.Sprintf("%d elements", heights[i]) })]
			var ks []*ANode
			for i := 0; i < n; i++ {
				k := anyNamed(m, fmt.Sprintf("element %d", i))
				if l.kids != nil {
					k.Allowed = l.kids
				}
				ks = append(ks, k)
			}
			b.set(m, ks)
			m.Events = nil
			if _, p := q.callRepo(fn, b.tree); p != nil {
				q.fail(prop, p.Pos, "%s with %d elements panics: %s", l.name, n, p.Msg)
				return
			}
			b.check(q, pi, prop, l.name, fn.Pos(), []*spec{l.want(m, ks)}, 0)
			if outer {
				r, p := q.callRepo(take, b.tree)
				if p != nil || m.force(r) != Value(int64(len(b.below))) {
					q.fail(prop, fn.Pos(), "%s loses the outer mark", l.name)
				}
			}
		})
	}
}

func anyNamed(m *Machine, name string) *ANode {
	n := anyNode(m)
	n.Path, n.Root = name, false
	return n
}

// builder is a tree under construction that already holds some nodes.
type builder struct {
	tree  *Ptr
	treeT types.Type
	below []*ANode
	errs  []Value
}

func newBuilder(q *Part, T types.Type, heights []int) *builder {
	m := q.Machine
	var v Value = m.zero(T)
	b := &builder{tree: &Ptr{P: &v, Obj: m.newObj("tree", T)}, treeT: T}
	n := heights[m.choose(len(heights), "stack", func(i int) string { return fmt.Sprintf("%d nodes on the stack", heights[i]) })]
	m.Limit += 400 * n
	for i := 0; i < n; i++ {
		b.below = append(b.below, anyNamed(m, fmt.Sprintf("below %d", i)))
	}
	errs := []int{0, 1, 2}
	if n <= 3 {
		errs = append(errs, heights[4:]...)
	}
	for i := errs[m.choose(len(errs), "errors", func(i int) string { return fmt.Sprintf("%d errors", errs[i]) })]; i > 0; i-- {
		b.errs = append(b.errs, m.givenError("earlier"))
	}
	if len(b.errs) > 0 {
		*b.field(m, "Errors") = &Slice{&Arr{E: slices.Clone(b.errs), Obj: m.newObj("slice", nil)}, 0, len(b.errs), len(b.errs)}
	}
	return b
}

func (b *builder) field(m *Machine, name string) *Value {
	s := m.force(*b.tree.P).(*Struct)
	for i, n := range structFields(b.treeT) {
		if n == name {
			return &s.F[i]
		}
	}
	m.undecided("the tree has no field %s", name)
	return nil
}

// set puts nodes on top of the ones below. There may be room for more.
func (b *builder) set(m *Machine, top []*ANode) {
	a := &Arr{Obj: m.newObj("slice", nil)}
	for _, n := range append(slices.Clone(b.below), top...) {
		a.E = append(a.E, n.Ptr)
	}
	n := len(a.E)
	if n == 0 {
		*b.field(m, "Stack") = Nil{}
		return
	}
	a.E = append(a.E, Nil{})
	*b.field(m, "Stack") = &Slice{a, 0, n, n + 1}
}

func (b *builder) check(q *Part, pi *parserInfo, prop, what string, at token.Pos, want []*spec, errs int) {
	m := q.Machine
	got := elemsOf(m, *b.field(m, "Stack"))
	if len(got) != len(b.below)+len(want) {
		q.fail(prop, at, "%s leaves %d nodes, %d required", what, len(got), len(b.below)+len(want))
		return
	}
	seen := map[*Value]bool{}
	for i, n := range b.below {
		if p, ok := m.force(got[i]).(*Ptr); !ok || p.P != n.Ptr.P {
			q.fail(prop, at, "%s changes the nodes below", what)
			return
		}
		seen[n.Ptr.P] = true
	}
	pi.badPos = token.NoPos
	for i, w := range want {
		if _, msg := pi.compare(q, m.force(got[len(b.below)+i]), w, seen); msg != "" {
			if pi.badPos.IsValid() && m.P.inRepo(pi.badPos) {
				at = pi.badPos
			}
			q.fail(prop, at, "%s: %s", what, msg)
			return
		}
	}
	for _, e := range m.Events {
		if e.Kind == "tree-write" {
			q.fail(prop, e.Pos, "%s %s", what, e.Text)
			return
		}
	}
	es := elemsOf(m, *b.field(m, "Errors"))
	if len(es) != len(b.errs)+errs {
		q.fail(prop, at, "%s leaves %d errors, %d required", what, len(es), len(b.errs)+errs)
		return
	}
	for i, e := range b.errs {
		if show(m.force(es[i])) != show(e) {
			q.fail(prop, at, "%s changes the errors that were recorded before", what)
			return
		}
	}
	for _, e := range es[len(b.errs):] {
		if m.isNil(e) {
			q.fail(prop, at, "%s records a missing error", what)
			return
		}
	}
}

// builtValue checks the Go value of a literal that was added.
func builtValue(q *Part, prop string, b *builder, want *spec) {
	m := q.Machine
	fn := nodeMethod(q.c, "Value")
	es := elemsOf(m, *b.field(m, "Stack"))
	if fn == nil || len(es) == 0 {
		return
	}
	top, ok := m.force(es[len(es)-1]).(*Ptr)
	if !ok {
		return
	}
	v, p := q.callRepo(fn, recvFor(fn, top))
	if p != nil {
		q.fail(prop, p.Pos, "asking for the value of a literal panics: %s", p.Msg)
		return
	}
	for field, T := range map[string]types.BasicKind{"Int": types.Int, "Str": types.String, "Bool": types.Bool, "Float": types.Float64} {
		w, ok := want.F[field]
		if !ok {
			continue
		}
		i, ok := m.force(v).(*Iface)
		if !ok || show(m.force(i.V)) != show(w) {
			q.fail(prop, fn.Pos(), "the value of a literal is %s, %s required", show(m.force(v)), show(w))
		} else if t, ok := i.T.(*types.Basic); !ok || t.Kind() != T {
			q.fail(prop, fn.Pos(), "the value of a literal has type %s, %s required", i.T, types.Typ[T])
		}
		return
	}
	if !m.isNil(v) {
		q.fail(prop, fn.Pos(), "the value of null is %s", show(m.force(v)))
	}
}
