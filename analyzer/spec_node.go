package main

import "golang.org/x/tools/go/ssa"

func init() {
	rules["P09"] = &Rule{
		Level:       "other",
		Technique:   "abstract interpretation of the questions a node answers, per node kind, with a panic check on every operation",
		Explanation: "The methods of a node are interpreted over their SSA form on an arbitrary node of a parsed tree (kind, operator, literal type and list lengths partitioned; describing children is replaced by the induction hypothesis). The answer has to be the required one in every partition, and no partition may panic.",
		Assumptions: []string{"trees are those the reference grammar can produce (checked by P01, P02)", "list lengths are partitioned into 0 to 3 and the neighbourhood of integer constants in the source"},
		Run:         func(c *Ctx) { analyseNode(c, "P09") },
	}
}

// nodeMethod finds a method of a node, with or without pointer receiver.
func nodeMethod(c *Ctx, name string) *ssa.Function {
	if fn := c.P.Func("miniquery", "Node."+name); fn != nil {
		return fn
	}
	return c.P.Func("miniquery", "*Node."+name)
}

func analyseNode(c *Ctx, prop string) {
	leaf := map[string]bool{tIdent: true, tRef: true, tLit: true, tArr: true, tOp: true}
	ask := func(name string, want func(tag string) bool) {
		fn := nodeMethod(c, name)
		c.analyse("Node."+name, []string{prop}, &Hooks{}, fns(fn), func(q *Part) {
			m := q.Machine
			root := anyNode(m)
			v, p := q.callRepo(fn, recvFor(fn, root.Ptr))
			if p != nil {
				q.fail(prop, p.Pos, "asking a node panics: %s", p.Msg)
				return
			}
			// an answer that did not depend on the kind holds for all kinds
			tag := root.tag(m)
			if got := m.force(v); got != Value(want(tag)) {
				q.fail(prop, fn.Pos(), "%s answers %s for a node of kind %s, %v required", name, show(got), tag, want(tag))
			}
		})
	}
	ask("IsValue", func(t string) bool { return t == tLit || t == tArr })
	ask("IsExpression", func(t string) bool { return !leaf[t] })

	fn := nodeMethod(c, "String")
	c.analyse("Node.String", []string{prop}, &Hooks{Rec: textRec}, fns(fn), func(q *Part) {
		m := q.Machine
		root := anyNode(m)
		v, p := q.callRepo(fn, recvFor(fn, root.Ptr))
		if p != nil {
			q.fail(prop, p.Pos, "describing a node of kind %s panics: %s", root.tag(m), p.Msg)
			return
		}
		if _, ok := m.force(v).(Str); !ok {
			q.fail(prop, fn.Pos(), "the description of a node is %s", show(v))
		}
	})
}

func anyNode(m *Machine) *ANode {
	root := m.newRoot("q")
	root.Allowed = append(append([]string{}, tagsAll...), tOp)
	// with the spelling of every operator
	for _, t := range []string{tAnd, tOr, tCmp, tIn, tBetw, tPred} {
		root.Ops = append(root.Ops, tagOps[t]...)
	}
	return root
}
