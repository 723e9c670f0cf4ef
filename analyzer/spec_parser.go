package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"slices"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var parserProps = []string{"P01", "P02", "P03", "P04", "P05"}

func init() {
	common := "The recogniser is analysed rule by rule on its SSA form: the characters it looks at are abstracted by sets of characters that its comparisons partition, positions by terms, the token list by its history, and calls of other rules by the assumption that they behave as the reference grammar says (which is what their own analysis shows). "
	add := func(id, technique, explanation string) {
		rules[id] = &Rule{
			Level: "other", Technique: technique, Explanation: common + explanation,
			Assumptions: []string{
				"the rules are the functions of the rule table that Init fills; a rule is a function of the position only (variables that rules share besides position and token count are treated as unknown)",
				"loops of a rule are analysed for up to three repetitions (more if constants in the code ask for it); the state carried around a loop is the position and the token list only",
				"texts shorter than 2^32 characters; stack and memory suffice",
			},
			Run: func(c *Ctx) {
				analyseParser(c)
				if id == "P02" {
					// lists longer than the repetitions of a rule that are looked at
					analyseBuilder(c, "P13")
				}
			},
		}
	}
	add("P01", "per-rule equivalence of the generated recogniser with a reference grammar (abstract interpretation over character sets, assume-guarantee between rules)",
		"In every partition the rule has to succeed exactly when the reference rule does, and end at the same position. Parse has to start the start rule on exactly the given text and to report its verdict.")
	add("P02", "abstract interpretation of the tree building actions on the tokens of every rule, compared with the reference meaning of the rule",
		"The tokens left by a successful rule are handed to Execute, sub-rules pushing an arbitrary node of their kind. Afterwards the stack has to hold exactly the required node more, with exactly the required children, and nothing else may have changed. The operations that close a list are analysed on their own for longer lists.")
	add("P03", "string shape analysis of operator normalisation for every spelling the recogniser accepts, separators being arbitrary runs of blanks and comments (automaton product with the regular expression used)",
		"For every operator spelling that reaches an operator action, with arbitrary separators between its words, the operation of the node has to be the canonical name.")
	add("P04", "abstract interpretation of the literal actions and of Node.Value over symbolic literal texts",
		"The literal nodes built from captured text of arbitrary length have to carry exactly that text or its value, an integer that does not fit has to leave an error, and the Go value of a literal has to be that value with the matching type.")
	add("P05", "index, progress and recursion check of the recogniser, panic analysis of the tree building and contract of Parse",
		"No position behind the end mark may be read, every loop iteration has to consume a character, no rule may call itself without consuming one, tree building may not panic, and Parse has to return a tree and no error or no tree and an error.")
}

func analyseParser(c *Ctx) {
	pi := newParserInfo(c)
	if pi.pegT == nil || pi.init == nil || pi.exec == nil {
		for _, p := range parserProps {
			c.failAt(p, "miniquery", "", nil, nil, "parser not found in the source")
		}
		return
	}
	// rules that fail without restoring the position make their callers restore it
	for round := 0; ; round++ {
		n := len(pi.dirty)
		pi.ruleDirt(c)
		if len(pi.dirty) == n || round > 4 {
			break
		}
	}
	for _, r := range pi.g.Order {
		pi.rule(c, r)
	}
	if cyc := pi.leftCycle(); cyc != nil {
		c.failAt("P05", "miniquery/miniquery.peg.go", "", nil, nil, "rules call each other without consuming a character: "+strings.Join(cyc, " → "))
	}
	c.count(c.Only, "grammar_rules", len(pi.g.Order))
	pi.tokenList(c)
	pi.parse(c)
	pi.value(c)
}

// run analyses one rule up to the end of its function.
func (pi *parserInfo) run(q *Part, rule string) (st *parserState, ok bool, p *absPanic) {
	m := q.Machine
	st = newParserState(pi, rule)
	st.setup(m)
	cl := st.closure(m, rule)
	if cl == nil {
		m.abort("rule is part of its callers")
	}
	*st.cells["position"].P = st.start
	*st.cells["tokenIndex"].P = &tokIdx{}
	if mx := st.cells["max"]; mx != nil {
		if s, ok := (*mx.P).(*Struct); ok {
			for i := range s.F {
				s.F[i] = m.sym(fmt.Sprintf("max.%d", i), nil, nil)
			}
		}
	}
	for n, x := range st.extra {
		*x.P = m.fresh("state "+n, nil)
	}
	var v Value
	v, p = q.try(func() Value {
		// the rule itself, not the assumption about it
		st.active = true
		return m.run(cl.Fn, cl.Env, nil, nil, token.NoPos)
	})
	st.active = false
	if p != nil {
		return st, false, p
	}
	b, isB := v.(bool)
	if !isB {
		m.undecided("rule %s returns %s", rule, show(v))
	}
	return st, b, nil
}

func (st *parserState) restored() bool {
	p, ok := (*st.cells["position"].P).(*posVal)
	t, ok2 := (*st.cells["tokenIndex"].P).(*tokIdx)
	return ok && ok2 && p.key() == st.start.key() && t.Parent == nil && t.id == 0
}

// ruleDirt finds rules that leave another position behind when they fail.
func (pi *parserInfo) ruleDirt(c *Ctx) {
	h := pi.hooks()
	for _, r := range pi.g.Order {
		n, _ := Explore(c.P, h, 200000, func(m *Machine) Value {
			q := &Part{Machine: m, c: c}
			st, ok, p := pi.run(q, r)
			if p == nil && !ok && !st.restored() {
				pi.dirty[r] = true
			}
			return nil
		}, func(*Outcome) {})
		if os.Getenv("MQTRACE") != "" {
			fmt.Fprintf(os.Stderr, "dirt %8.2fs %8d %s\n", time.Since(c.start).Seconds(), n, r)
		}
	}
}

func (pi *parserInfo) ruleFunc(q *Part, st *parserState, rule string) token.Pos {
	if f := st.funcOf(rule); f != nil {
		return f.Pos()
	}
	return pi.init.Pos()
}

func (pi *parserInfo) rule(c *Ctx, rule string) {
	h := pi.hooks()
	c.analyse("rule "+rule, parserProps, h, fns(pi.init), func(q *Part) {
		m := q.Machine
		st, ok, p := pi.run(q, rule)
		at := pi.ruleFunc(q, st, rule)
		if p != nil {
			q.fail("P05", p.Pos, "rule %s: %s", rule, p.Msg)
			return
		}
		has := map[string]bool{}
		for _, n := range st.ruleOf {
			has[n] = true
		}
		var end *posVal
		if ok {
			e, isP := (*st.cells["position"].P).(*posVal)
			if !isP || !strings.HasPrefix(rootKey(e), "p") {
				q.fail("P01", at, "rule %s ends at %s", rule, show(*st.cells["position"].P))
				return
			}
			end = e
			if !st.valid(m, end) {
				q.fail("P05", at, "rule %s ends behind the end of the text", rule)
				return
			}
		}
		ref := &refRun{st: st, m: m, has: has}
		want, wok := ref.eval(pi.g.Rules[rule], st.start)
		if ref.over != "" {
			wok, want = true, nil
		}
		switch {
		case ok && !wok:
			failSpan(q, rule, at, "rule %s accepts what the grammar rejects", rule)
			return
		case !ok && wok:
			q.fail("P01", at, "rule %s rejects what the grammar accepts", rule)
			return
		case !ok:
			return
		case want == nil:
			failSpan(q, rule, at, "rule %s ends although the grammar goes on", rule)
			return
		case want.key() != end.key():
			failSpan(q, rule, at, "rule %s ends at %s, the grammar at %s", rule, end.key(), want.key())
			return
		}
		idx, isT := (*st.cells["tokenIndex"].P).(*tokIdx)
		if !isT {
			q.fail("P02", at, "rule %s leaves the token count %s", rule, show(*st.cells["tokenIndex"].P))
			return
		}
		var toks []ptok
		if _, p := q.try(func() Value { toks = st.tokens(m, idx); return nil }); p != nil {
			q.fail("P02", at, "rule %s: %s", rule, p.Msg)
			return
		}
		pi.build(q, st, rule, toks, ref.toks, at)
	})
}

// failSpan reports that a rule takes another part of the text than it should:
// the operator or literal it stands for is another one then.
func failSpan(q *Part, rule string, at token.Pos, format string, a ...any) {
	q.fail("P01", at, format, a...)
	switch rule {
	case "Compare", "Logic", "Match", "CompareInExpression", "BetweenExpression", "__":
		q.fail("P03", at, format, a...)
	case "Literal", "String", "Integer", "Boolean", "Null", "Array", "Value":
		q.fail("P04", at, format, a...)
	default:
		q.fail("P02", at, format, a...)
	}
}

func rootKey(p *posVal) string {
	b := p.Base
	for b.From != nil {
		b = b.From.Base
	}
	return b.key
}

// --- meaning of the actions

// spec is a required node: one pushed by a sub-rule or one to be built.
type spec struct {
	Sub *ANode
	Typ string
	F   map[string]any // Str, Value, *spec, []*spec, []Str
}

// what the rules leave on the stack
var ruleTags = map[string][]string{
	"Expression": tagsAll, "LogicExpression": tagsAll, "Argument": tagsAll, "NotExpression": tagsNot, "CompareExpression": tagsCmp,
	"CompareInExpression": append([]string{tIn}, tagsPred...), "PredicateExpression": tagsPred, "BetweenExpression": append([]string{tBetw}, tagsPrimary...),
	"PrimaryExpression": tagsPrimary, "ArgumentList": {tArr}, "Reference": {tIdent, tRef}, "IdentifierReference": {tRef}, "Identifier": {tIdent},
	"Value": tagsValue, "Array": {tArr}, "Literal": {tLit}, "Integer": {tLit}, "Boolean": {tLit}, "Null": {tLit}, "String": {tLit}, "Grammar": tagsAll,
	"Compare": {tOp}, "Logic": {tOp}, "Match": {tOp},
}

var ruleOps = map[string][]string{"Compare": tagOps[tCmp], "Logic": {"and", "or"}, "Match": tagOps[tPred]}

var ruleLit = map[string]string{"Integer": "int", "Boolean": "bool", "Null": "null", "String": "string"}

// opName is the canonical name of an operator spelling given by its words.
var opName = map[string]string{
	">=": "gte", ">": "gt", "==": "eq", "=": "eq", "!=": "neq", "<>": "neq", "<": "lt", "<=": "lte", "&&": "and", "||": "or",
	"isnull": "is null", "notnull": "is not null",
}

func (pi *parserInfo) subNode(m *Machine, st *parserState, rule string, at *posVal, widen []string) *ANode {
	n := m.newNode("⟨"+rule+" "+at.key()+"⟩", ruleTags[rule])
	if widen != nil {
		n.Allowed = widen
	}
	if ops := ruleOps[rule]; ops != nil {
		n.Tag, n.Ops = tOp, ops
	}
	if l := ruleLit[rule]; l != "" {
		n.litOnly = []string{l}
	}
	if len(n.Allowed) == 1 {
		n.Tag = n.Allowed[0]
	}
	n.args = rule == "ArgumentList"
	return n
}

// words splits an operator spelling.
func (st *parserState) words(m *Machine, s Str) string {
	var b strings.Builder
	for _, a := range s {
		if a.S == nil {
			b.WriteString(strings.ToLower(a.C))
		} else if _, ok := a.S.Info.(*wsRun); ok {
			b.WriteByte(' ')
		} else {
			m.undecided("operator text %s", s)
		}
	}
	w := b.String()
	if n, ok := opName[w]; ok {
		return n
	}
	return w
}

// meaning runs the reference actions.
func (pi *parserInfo) meaning(m *Machine, st *parserState, toks []refTok, subs map[string]*ANode) (stack []*spec, overflow bool) {
	var marks []int
	pop := func() *spec {
		s := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		return s
	}
	push := func(typ string, f map[string]any) { stack = append(stack, &spec{Typ: typ, F: f}) }
	for _, t := range toks {
		if t.Sub != "" {
			if n := subs[t.Sub+t.At.key()]; n != nil {
				stack = append(stack, &spec{Sub: n})
			}
			continue
		}
		text := func() Str { return st.text(m, t.Begin, t.End) }
		switch t.Act {
		case "logic":
			r, op, l := pop(), pop(), pop()
			if specOp(m, op) == "and" && l.kind(m) == tOr {
				push("LogicExpressionType", map[string]any{"Left": l.child(m, "Left"), "Op": l.child(m, "Op"), "Right": &spec{Typ: "LogicExpressionType",
					F: map[string]any{"Left": l.child(m, "Right"), "Op": op, "Right": r}}})
			} else {
				push("LogicExpressionType", map[string]any{"Left": l, "Op": op, "Right": r})
			}
		case "compare":
			r, op, l := pop(), pop(), pop()
			push("CompareExpressionType", map[string]any{"Left": l, "Op": op, "Right": r})
		case "not":
			push("NotExpressionType", map[string]any{"Expression": pop()})
		case "parentheses":
			push("ParenthesesExpressionType", map[string]any{"Expression": pop()})
		case "predicate":
			op, l := pop(), pop()
			push("PredicatesExpressionType", map[string]any{"Left": l, "Op": op})
		case "between":
			hi, lo, op, l := pop(), pop(), pop(), pop()
			push("BetweenExpressionType", map[string]any{"Left": l, "Op": op, "Params": []*spec{lo, hi}})
		case "function":
			a, n := pop(), pop()
			push("FunctionExpressionType", map[string]any{"Name": n.name(m), "Params": a.elems(m)})
		case "open":
			marks = append(marks, len(stack))
		case "list", "reference":
			k := marks[len(marks)-1]
			marks = marks[:len(marks)-1]
			es := slices.Clone(stack[k:])
			stack = stack[:k]
			if t.Act == "list" {
				push("ValueNodeType", map[string]any{"ValueType": cstr(m.repoConst("miniquery", "ArrayValueType")), "Array": es})
			} else {
				var names []Str
				for _, e := range es {
					names = append(names, e.name(m))
				}
				push("ReferenceNodeType", map[string]any{"Names": names})
			}
		case "name":
			push("IdentifierNodeType", map[string]any{"Name": text()})
		case "op":
			push("OperationNodeType", map[string]any{"Operation": cstr(st.words(m, text()))})
		case "string":
			push("ValueNodeType", map[string]any{"ValueType": cstr(m.repoConst("miniquery", "StringValueType")), "Str": text()})
		case "null":
			push("ValueNodeType", map[string]any{"ValueType": cstr(m.repoConst("miniquery", "NullValueType"))})
		case "bool":
			b, _ := text().isConst()
			push("ValueNodeType", map[string]any{"ValueType": cstr(m.repoConst("miniquery", "BooleanValueType")), "Bool": strings.EqualFold(b, "true")})
		case "int":
			r := m.parseInt(text(), 10, 64).(Tuple)
			overflow = overflow || !m.isNil(r[1])
			push("ValueNodeType", map[string]any{"ValueType": cstr(m.repoConst("miniquery", "IntValueType")), "Int": r[0]})
		default:
			m.undecided("unknown action %s in the reference grammar", t.Act)
		}
	}
	return stack, overflow
}

func specOp(m *Machine, s *spec) string {
	if s.Sub != nil {
		c, _ := m.enum(s.Sub.opSym(m)).isConst()
		return c
	}
	c, _ := s.F["Operation"].(Str).isConst()
	return c
}

func (s *spec) kind(m *Machine) string {
	if s.Sub != nil {
		return s.Sub.tag(m)
	}
	if s.Typ == "LogicExpressionType" {
		return specOp(m, s.F["Op"].(*spec))
	}
	return s.Typ
}

func (s *spec) child(m *Machine, name string) *spec {
	if s.Sub != nil {
		return &spec{Sub: s.Sub.kid(m, name)}
	}
	return s.F[name].(*spec)
}

func (s *spec) name(m *Machine) Str {
	if s.Sub != nil {
		return s.Sub.nameSym(m, s.Sub.Path+".Name")
	}
	return s.F["Name"].(Str)
}

func (s *spec) elems(m *Machine) (out []*spec) {
	if s.Sub != nil {
		for _, k := range s.Sub.list(m, "Array") {
			out = append(out, &spec{Sub: k})
		}
		return out
	}
	return s.F["Array"].([]*spec)
}

// --- tree building

// build hands the tokens of a rule to Execute and checks what is on the stack.
func (pi *parserInfo) build(q *Part, st *parserState, rule string, toks []ptok, ref []refTok, at token.Pos) {
	m := q.Machine
	relevant := false
	for _, t := range toks {
		relevant = relevant || t.Sub != "" && ruleTags[t.Sub] != nil || t.Sub == "" && (pi.names[t.Rule] == "PegText" || strings.HasPrefix(pi.names[t.Rule], "Action"))
	}
	for _, t := range ref {
		relevant = relevant || t.Act != "" || ruleTags[t.Sub] != nil
	}
	if !relevant {
		return
	}
	// nodes of the sub-rules, the same for both sides
	subs := map[string]*ANode{}
	logics := 0
	var rest []string
	node := func(r string, at *posVal) *ANode {
		if ruleTags[r] == nil {
			return nil
		}
		k := r + at.key()
		if subs[k] == nil {
			var widen []string
			if at.key() == st.start.key() {
				switch rule {
				case "LogicExpression":
					widen = tagsAll
				case "CompareExpression":
					widen = tagsCmp
				}
			}
			subs[k] = pi.subNode(m, st, r, at, widen)
			if r == "Logic" {
				// long chains go on with the same operator
				if logics++; logics > 3 || logics > 1 && st.iterations() > 12 {
					if rest == nil {
						rest = ruleOps[r][m.choose(2, "rest of the chain", func(i int) string { return "goes on with " + ruleOps[r][i] }):][:1]
					}
					subs[k].Ops = rest
				}
			}
		}
		return subs[k]
	}
	for _, t := range toks {
		if t.Sub != "" {
			node(t.Sub, t.At)
		}
	}
	for _, t := range ref {
		if t.Sub != "" {
			node(t.Sub, t.At)
		}
	}
	push := pi.c.P.Func("miniquery", "*Tree.Push")
	mark := pi.c.P.Func("miniquery", "*Tree.AddMark")
	treeT := m.P.Type("miniquery", "Tree")
	if push == nil || treeT == nil {
		m.undecided("the tree under construction was not found")
	}
	tree := m.force(*st.field(m, st.peg, pi.pegT, "Tree").P).(*Ptr)
	// what is already there: nothing, or open lists
	sizes := []int{0, 2}
	for _, t := range m.P.DepthThresholds {
		sizes = append(sizes, int(t)-1, int(t), int(t)+1)
	}
	n := sizes[m.choose(len(sizes), "stack", func(i int) string { return fmt.Sprintf("%d nodes on the stack", sizes[i]) })]
	m.Limit += 200 * n
	for i := 0; i < n; i++ {
		s := m.newNode(fmt.Sprintf("below%d", i), tagsAll)
		m.callFn(push, nil, []Value{tree, s.Ptr}, token.NoPos)
		if mark != nil {
			m.callFn(mark, nil, []Value{tree}, token.NoPos)
		}
	}
	before := snapshot(m, tree, treeT)
	m.Events = nil
	// the tokens of a sub-rule: its last captured text and itself. Its node is
	// there as soon as Execute gets to it.
	st.seg = nil
	text := pi.nums["PegText"]
	if n > 0 {
		stale := st.endOf("Identifier", &posVal{Base: &posBase{key: "before"}})
		pads := []int{0}
		for _, t := range pi.execConsts {
			pads = append(pads, t, t+1)
		}
		k := pads[m.choose(len(pads), "tokens", func(i int) string { return fmt.Sprintf("%d tokens before", pads[i]) })]
		for i := 0; i < k; i++ {
			st.seg = append(st.seg, segTok{ptok: ptok{Rule: pi.nums["Space"], Begin: stale.Base.From, End: stale}})
		}
		st.seg = append(st.seg, segTok{ptok: ptok{Rule: text, Begin: stale.Base.From, End: stale}})
	}
	done := 0
	for _, t := range toks {
		if t.Sub == "" {
			st.seg = append(st.seg, segTok{ptok: t})
			continue
		}
		end := st.endOf(t.Sub, t.At)
		if t.Sub == "__" {
			end = st.endOf("_", t.At)
		}
		n := node(t.Sub, t.At)
		if n == nil {
			continue
		}
		st.seg = append(st.seg, segTok{ptok: ptok{Rule: text, Begin: t.At, End: end}}, segTok{ptok: ptok{Rule: pi.nums[t.Sub], Begin: t.At, End: end},
			at: func() { m.callFn(push, nil, []Value{tree, n.Ptr}, token.NoPos) }})
	}
	st.seg = append(st.seg, segTok{ptok: ptok{Rule: pi.nums["Space"], Begin: st.start, End: st.start}, at: func() { done++ }})
	_, p := q.try(func() Value {
		st.useSeg = true
		m.callFn(pi.exec, nil, []Value{st.peg}, token.NoPos)
		st.useSeg = false
		return nil
	})
	st.useSeg = false
	if p != nil {
		q.fail("P05", p.Pos, "building the tree for %s panics: %s", rule, p.Msg)
		return
	}
	if done == 0 {
		q.fail("P02", pi.exec.Pos(), "building the tree ends after the tokens of %s, whatever follows", rule)
		return
	}
	want, overflow := pi.meaning(m, st, ref, subs)
	after := snapshot(m, tree, treeT)
	pi.badPos = token.NoPos
	T := treeT.Underlying().(*types.Struct)
	for i := 0; i < T.NumFields(); i++ {
		name := T.Field(i).Name()
		b, a := before[i], after[i]
		if sl, ok := T.Field(i).Type().Underlying().(*types.Slice); ok {
			if isErrorType(sl.Elem()) {
				if overflow != (len(a) > len(b)) {
					prop := "P04"
					if overflow {
						q.fail(prop, at, "an integer that does not fit leaves no error")
						q.fail("P05", at, "an integer that does not fit leaves no error")
					} else {
						for _, prop := range []string{"P01", "P02", "P05"} {
							q.fail(prop, at, "%s leaves an error for an accepted text", rule)
						}
						if rule == "Integer" || rule == "Boolean" {
							q.fail("P04", at, "%s leaves an error for an accepted text", rule)
						}
					}
					return
				}
				continue
			}
			if isNodePtr(sl.Elem(), m.P.Type("miniquery", "Node")) {
				if len(a) < len(b) || !sameVals(a[:len(b)], b) {
					q.fail("P02", at, "%s changes nodes on the stack that are not part of it", rule)
					return
				}
				got := a[len(b):]
				if len(got) != len(want) {
					for _, prop := range []string{"P02", "P05"} {
						q.fail(prop, at, "%s leaves %d nodes on the stack, %d required", rule, len(got), len(want))
					}
					return
				}
				for j := range got {
					if prop, msg := pi.compare(q, got[j], want[j], map[*Value]bool{}); msg != "" {
						if overflow && prop == "P04" {
							continue // the text is rejected anyway
						}
						if pi.badPos.IsValid() && m.P.inRepo(pi.badPos) {
							at = pi.badPos
						}
						q.fail(prop, at, "%s: %s", rule, msg)
						if rule == "Array" && prop == "P02" {
							q.fail("P04", at, "%s: %s", rule, msg)
						}
						return
					}
				}
				continue
			}
		}
		if !sameVals(a, b) {
			q.fail("P02", at, "%s leaves %s changed: %s, before %s", rule, name, showAll(a), showAll(b))
			return
		}
	}
}

func showAll(v []Value) string {
	var s []string
	for _, x := range v {
		s = append(s, show(x))
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func sameVals(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, ok1 := a[i].(*Ptr)
		y, ok2 := b[i].(*Ptr)
		if ok1 && ok2 {
			if x.P != y.P {
				return false
			}
			continue
		}
		if show(a[i]) != show(b[i]) {
			return false
		}
	}
	return true
}

// snapshot lists the contents of every field.
func snapshot(m *Machine, p *Ptr, T types.Type) [][]Value {
	s := m.force(*p.P).(*Struct)
	var out [][]Value
	for _, f := range s.F {
		f = m.force(f)
		switch x := f.(type) {
		case *Slice:
			out = append(out, append([]Value{}, x.Arr.E[x.Off:x.Off+x.Len]...))
		case Nil:
			out = append(out, nil)
		default:
			out = append(out, []Value{x})
		}
	}
	return out
}

var literalFields = []string{"ValueType", "Int", "Bool", "Str", "Float"}

// compare checks a built node against the required one. It returns the
// property that is broken and what is wrong.
func (pi *parserInfo) compare(q *Part, got Value, want *spec, seen map[*Value]bool) (string, string) {
	m := q.Machine
	p, ok := got.(*Ptr)
	if !ok {
		return "P02", fmt.Sprintf("%s instead of %s", show(got), want.text())
	}
	if p.Obj != nil && p.Obj.Node == nil {
		pi.badPos = p.Obj.Pos
	}
	if want.Sub != nil {
		s, _ := m.force(*p.P).(*Struct)
		if s == nil || s.Node != want.Sub {
			return "P02", fmt.Sprintf("%s where %s belongs", describeNode(m, p), want.text())
		}
		if seen[p.P] {
			return "P02", want.text() + " is in the tree twice"
		}
		seen[p.P] = true
		for _, e := range m.Events {
			if e.Kind == "tree-write" && strings.Contains(e.Text, "node "+want.Sub.Path+" ") {
				return "P02", "the node of " + want.text() + " is changed"
			}
		}
		return "", ""
	}
	if seen[p.P] {
		return "P02", "a node is in the tree twice"
	}
	seen[p.P] = true
	T := m.P.Type("miniquery", "Node").Underlying().(*types.Struct)
	s, ok := m.force(*p.P).(*Struct)
	if !ok {
		return "P02", fmt.Sprintf("%s instead of a node", show(got))
	}
	typ := m.repoConst("miniquery", want.Typ)
	for i := 0; i < T.NumFields(); i++ {
		name := T.Field(i).Name()
		have := m.force(s.F[i])
		s.F[i] = have
		prop := "P02"
		if slices.Contains(literalFields, name) && want.Typ == "ValueNodeType" {
			prop = "P04"
		}
		if name == "Operation" && want.Typ == "OperationNodeType" {
			prop = "P03"
		}
		var w any
		if name == "Type" {
			w = cstr(typ)
		} else if x, ok := want.F[name]; ok {
			w = x
		} else {
			switch name {
			case "ValueType", "Int", "Bool", "Str", "Float", "Array", "Operation", "Name", "Names", "Expression", "Left", "Op", "Right", "Params":
				w = m.zero(T.Field(i).Type())
			default:
				continue // a field this analysis does not know
			}
		}
		bad := func(format string, a ...any) (string, string) {
			return prop, fmt.Sprintf("%s of the %s node is ", name, typ) + fmt.Sprintf(format, a...)
		}
		switch w := w.(type) {
		case *spec:
			if pr, msg := pi.compare(q, have, w, seen); msg != "" {
				return pr, msg
			}
		case []*spec:
			es := elemsOf(m, have)
			if len(es) != len(w) {
				return bad("a list of %d, %d required", len(es), len(w))
			}
			for j := range w {
				if pr, msg := pi.compare(q, es[j], w[j], seen); msg != "" {
					return pr, fmt.Sprintf("%s[%d]: %s", name, j, msg)
				}
			}
		case []Str:
			es := elemsOf(m, have)
			if len(es) != len(w) {
				return bad("a list of %d, %d required", len(es), len(w))
			}
			for j := range w {
				if x, ok := es[j].(Str); !ok || m.resolve(x).key() != m.resolve(w[j]).key() {
					return bad("%s at %d, %s required", show(es[j]), j, w[j])
				}
			}
		case Str:
			x, ok := have.(Str)
			if !ok || m.resolve(x).key() != m.resolve(w).key() {
				return bad("%s, %s required", show(have), w)
			}
		case Nil:
			if !m.isNil(have) && len(elemsOf(m, have)) > 0 || isPtr(have) {
				return bad("set, unset required")
			}
		default:
			if show(have) != show(w) {
				return bad("%s, %s required", show(have), show(w))
			}
		}
	}
	return "", ""
}

func isPtr(v Value) bool { _, ok := v.(*Ptr); return ok }

func elemsOf(m *Machine, v Value) []Value {
	if s, ok := v.(*Slice); ok {
		var out []Value
		for i := 0; i < s.Len; i++ {
			out = append(out, m.force(s.Arr.E[s.Off+i]))
		}
		return out
	}
	return nil
}

func (s *spec) text() string {
	if s.Sub != nil {
		return s.Sub.Path
	}
	return s.Typ
}

func describeNode(m *Machine, p *Ptr) string {
	if s, ok := m.force(*p.P).(*Struct); ok && s.Node != nil {
		return s.Node.Path
	}
	return "another node"
}

// --- the token list

// tokenList checks Add, Trim and Tokens on lists of a few sizes.
func (pi *parserInfo) tokenList(c *Ctx) {
	T := pi.toksT
	if T == nil {
		c.failAt("P02", "miniquery", "", nil, nil, "the list of tokens was not found in the source")
		return
	}
	name := types.Unalias(T).(*types.Named).Obj().Name()
	add, trim, toks := c.P.Func("miniquery", "*"+name+".Add"), c.P.Func("miniquery", "*"+name+".Trim"), c.P.Func("miniquery", "*"+name+".Tokens")
	c.analyse("token list", []string{"P02", "P05"}, &Hooks{}, fns(add, trim, toks), func(q *Part) {
		m := q.Machine
		q.all = true
		sizes := []int{0, 1, 2, 3}
		for _, t := range c.P.TokenThresholds {
			if t < 100000 {
				sizes = append(sizes, int(t)-1, int(t), int(t)+1)
			}
		}
		n := sizes[m.choose(len(sizes), "tokens", func(i int) string { return fmt.Sprintf("%d tokens", sizes[i]) })]
		m.Limit = 100000000
		var v Value = m.zero(T)
		p := &Ptr{P: &v, Obj: m.newObj("tokens", T)}
		tok := func(i int) []Value {
			return []Value{int64(1 + i%30), m.sym(fmt.Sprintf("begin%d", i), types.Typ[types.Uint32], nil), m.sym(fmt.Sprintf("end%d", i), types.Typ[types.Uint32], nil)}
		}
		var want [][]Value
		put := func(i int, t []Value) bool {
			if _, e := q.callRepo(add, p, t[0], t[1], t[2], int64(i)); e != nil {
				q.fail("", e.Pos, "adding token %d panics: %s", i, e.Msg)
				return false
			}
			if i < len(want) {
				want[i] = t
			} else {
				want = append(want, t)
			}
			return true
		}
		for i := 0; i < n; i++ {
			if !put(i, tok(i)) {
				return
			}
		}
		// backtracking overwrites tokens from some place on
		keep := 0
		if n > 0 {
			keep = m.choose(min(n, 4)+1, "keep", func(i int) string { return fmt.Sprintf("%d tokens taken back", i) })
			keep = n - keep
			for i := keep; i < n && i < keep+2; i++ {
				if !put(i, tok(1000000+i)) {
					return
				}
			}
		}
		length := len(want)
		if length > 0 && m.decide("shorter") {
			length--
		}
		if _, e := q.callRepo(trim, p, int64(length)); e != nil {
			q.fail("", e.Pos, "taking %d of %d tokens panics: %s", length, len(want), e.Msg)
			return
		}
		r, e := q.callRepo(toks, p)
		if e != nil {
			q.fail("", e.Pos, "the list of tokens: %s", e.Msg)
			return
		}
		es := elemsOf(m, r)
		if len(es) != length {
			q.fail("", toks.Pos(), "%d tokens in the list, %d required", len(es), length)
			return
		}
		st := pi.tokT.Underlying().(*types.Struct)
		for i, e := range es {
			s, ok := e.(*Struct)
			if !ok {
				q.fail("", toks.Pos(), "token is %s", show(e))
				return
			}
			for j := 0; j < st.NumFields(); j++ {
				k := pi.tokField(j)
				if k >= 0 && show(m.force(s.F[j])) != show(want[i][k]) {
					q.fail("", add.Pos(), "%s of token %d is %s, %s was added", st.Field(j).Name(), i, show(s.F[j]), show(want[i][k]))
					return
				}
			}
		}
	})
}

// --- Parse

func (pi *parserInfo) parse(c *Ctx) {
	fn := c.P.Func("miniquery", "Parse")
	push := c.P.Func("miniquery", "*Tree.Push")
	addErr := c.P.Func("miniquery", "*Tree.AddError")
	h := pi.hooks()
	c.analyse("Parse", []string{"P01", "P02", "P04", "P05"}, h, fns(fn, push, addErr), func(q *Part) {
		m := q.Machine
		st := newParserState(pi, "")
		st.m = m
		m.Data = st
		arg := symstr(m.sym("s", types.Typ[types.String], nil))
		calls, matched, executed, overflow := 0, false, false, false
		var tokEnd *tokIdx
		node := m.newRoot("tree")
		var bad string
		// the rules are known as soon as the table is filled; before, any closure
		// of Init without parameters that returns a bool is looked up in it
		st.onRule = func(m *Machine, name string) (bool, bool) { return false, false }
		hook := *h
		hook.Call = func(m *Machine, f *ssa.Function, args []Value, pos token.Pos) (Value, bool) {
			if f.Parent() == pi.table && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && isBool(f.Signature.Results().At(0).Type()) {
				name := pi.tableRule(f)
				if name == "" {
					return nil, false
				}
				calls++
				st.cellsOf(m)
				if *st.cells["position"].P != Value(int64(0)) || *st.cells["tokenIndex"].P != Value(int64(0)) {
					bad = fmt.Sprintf("Parse starts at character %s and token %s", show(*st.cells["position"].P), show(*st.cells["tokenIndex"].P))
				}
				if name != "Grammar" {
					bad = fmt.Sprintf("Parse starts with rule %s instead of Grammar", name)
				}
				matched = m.decide("the text matches the grammar")
				if matched {
					tokEnd = &tokIdx{id: 1}
					*st.cells["position"].P = &posVal{Base: &posBase{key: "end of text"}}
					*st.cells["tokenIndex"].P = tokEnd
				}
				return matched, true
			}
			if f == pi.exec {
				if !matched {
					bad = "the tree is built although the text does not match"
					return nil, false
				}
				if len(st.trims) == 0 || st.trims[len(st.trims)-1] != Value(tokEnd) {
					bad = "the tokens are not cut to those of the match before the tree is built"
				}
				executed = true
				tree := m.force(*st.field(m, args[0].(*Ptr), pi.pegT, "Tree").P)
				if overflow = m.decide("a literal can not be represented"); overflow {
					m.callFn(addErr, nil, []Value{tree, m.newError("literal")}, token.NoPos)
				}
				m.callFn(push, nil, []Value{tree, node.Ptr}, token.NoPos)
				return Nil{}, true
			}
			return h.Call(m, f, args, pos)
		}
		conv := h.Convert
		hook.Convert = func(m *Machine, v Value, to types.Type) (Value, bool) {
			s, isS := v.(Str)
			if sl, ok := to.Underlying().(*types.Slice); ok && isS {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
					if m.resolve(s).key() != m.resolve(arg).key() {
						bad = fmt.Sprintf("the text that is parsed is %s, not the given text", show(s))
					}
					return &runeBuf{S: s}, true
				}
			}
			return conv(m, v, to)
		}
		old := m.H
		m.H = &hook
		r, p := q.callRepo(fn, arg)
		m.H = old
		if p != nil {
			if bad != "" {
				q.fail("P01", fn.Pos(), "%s", bad)
			}
			q.fail("P05", p.Pos, "Parse panics: %s", p.Msg)
			return
		}
		t, ok := r.(Tuple)
		if !ok || len(t) != 2 {
			m.undecided("Parse returns %s", show(r))
		}
		tree, err := m.force(t[0]), m.force(t[1])
		isErr := !m.isNil(err)
		if isErr != m.isNil(tree) {
			what := "a tree and an error"
			if !isErr {
				what = "neither a tree nor an error"
			}
			q.fail("P05", fn.Pos(), "Parse returns %s", what)
		}
		if bad != "" {
			q.fail("P01", fn.Pos(), "%s", bad)
			return
		}
		empty := false
		if c, isC := m.resolve(arg).isConst(); isC {
			empty = c == ""
		}
		if calls == 0 && !empty {
			q.fail("P01", fn.Pos(), "Parse decides without looking at the text")
			return
		}
		switch {
		case matched && !overflow && isErr:
			q.fail("P01", fn.Pos(), "Parse rejects a text that matches the grammar")
		case !matched && !isErr:
			q.fail("P01", fn.Pos(), "Parse accepts a text that does not match the grammar")
		case overflow && !isErr:
			q.fail("P05", fn.Pos(), "Parse drops the error of a literal")
			q.fail("P04", fn.Pos(), "Parse drops the error of a literal")
		case matched && !overflow:
			tp, ok := tree.(*Ptr)
			if !executed || !ok || tp.P != node.Ptr.P {
				q.fail("P02", fn.Pos(), "Parse does not return the tree that was built")
			}
		}
	})
}

func isBool(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// cellsOf finds the parser in use and the variables of its rules.
func (st *parserState) cellsOf(m *Machine) {
	if st.peg != nil {
		return
	}
	for f := m.frame; f != nil; f = f.caller {
		for _, vs := range [][]Value{sortedVals(f.Env), f.Free} {
			for _, x := range vs {
				p, ok := x.(*Ptr)
				if !ok || p.P == nil {
					continue
				}
				if q, ok := (*p.P).(*Ptr); ok {
					p = q
				}
				s, ok := (*p.P).(*Struct)
				if ok && len(s.F) == st.pi.pegT.Underlying().(*types.Struct).NumFields() && p.Obj != nil && p.Obj.T != nil && types.Identical(p.Obj.T, st.pi.pegT) {
					st.peg = p
				}
			}
		}
	}
	if st.peg == nil {
		m.undecided("the parser in use was not found")
	}
	st.learn(m)
	st.ruleOf = map[*ssa.Function]string{}
}

func sortedVals(env map[ssa.Value]Value) (out []Value) {
	for _, v := range env {
		out = append(out, v)
	}
	return out
}

// value checks the Go values of literals.
func (pi *parserInfo) value(c *Ctx) {
	fn := c.P.Func("miniquery", "Node.Value")
	c.analyse("Node.Value", []string{"P04"}, &Hooks{}, fns(fn), func(q *Part) {
		m := q.Machine
		n := m.newNode("q", tagsValue)
		r, p := q.callRepo(fn, m.load(n.Ptr))
		if p != nil {
			q.fail("P04", p.Pos, "panics: %s", p.Msg)
			return
		}
		if msg := goValue(m, n, r); msg != "" {
			q.fail("P04", fn.Pos(), "%s", msg)
		}
	})
}

func goValue(m *Machine, n *ANode, got Value) string {
	if n.tag(m) == tArr {
		i, ok := got.(*Iface)
		if !ok {
			return fmt.Sprintf("the value of an array is %s", show(got))
		}
		if _, ok := i.T.Underlying().(*types.Slice); !ok {
			return fmt.Sprintf("the value of an array is a %s", i.T)
		}
		es := elemsOf(m, i.V)
		ks := n.list(m, "Array")
		if len(es) != len(ks) {
			return fmt.Sprintf("the value of an array of %d literals has %d elements", len(ks), len(es))
		}
		for j, k := range ks {
			if msg := goValue(m, k, es[j]); msg != "" {
				return fmt.Sprintf("element %d: %s", j, msg)
			}
		}
		return ""
	}
	kind := n.lit(m)
	want := n.litValue(m)
	if kind == "null" {
		if !m.isNil(got) {
			return fmt.Sprintf("the value of null is %s", show(got))
		}
		return ""
	}
	i, ok := got.(*Iface)
	if !ok {
		return fmt.Sprintf("the value of a %s literal is %s", kind, show(got))
	}
	b, ok := i.T.(*types.Basic)
	kinds := map[string]types.BasicKind{"int": types.Int, "string": types.String, "bool": types.Bool}
	if !ok || b.Kind() != kinds[kind] {
		return fmt.Sprintf("the value of a %s literal has type %s", kind, i.T)
	}
	if show(i.V) != show(want) {
		return fmt.Sprintf("the value of a %s literal is %s, %s required", kind, show(i.V), show(want))
	}
	return ""
}
