package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["P08"] = &Rule{
		Level:       "other",
		Technique:   "typestate-style abstract interpretation of the visitor: sequence of callback calls and child visits per node kind, every subset of user callbacks, every failing position",
		Explanation: "Init and Visit are interpreted over their SSA form with every combination of set and unset callbacks, for every node kind; user callbacks are unknown functions that may fail, visits of children are replaced by the induction hypothesis. The observed sequence of calls, their arguments and the returned error have to be the required ones in every partition.",
		Run:         func(c *Ctx) { analyseVisitor(c, "P08") },
	}
}

var visitSlot = map[string]string{
	tAnd: "LogicExpression", tOr: "LogicExpression", tNot: "NotExpression", tCmp: "BinaryExpression", tIn: "BinaryExpression",
	tPred: "PredicatesExpression", tBetw: "BetweenExpression", tParen: "ParenthesesExpression", tLit: "ValueNode", tArr: "ValueNode",
	tFunc: "FunctionExpression", tIdent: "IdentifierNode", tOp: "OperationNode",
}

type visitCall struct {
	What string // callback slot or "visit"
	Node Value
	Ctx  Value
	Err  Value
	Recv Value
}

func analyseVisitor(c *Ctx, prop string) {
	visit := c.P.Func("miniquery", "Visitor.Visit")
	initFn := c.P.Func("miniquery", "*Visitor.Init")
	if initFn == nil {
		initFn = c.P.Func("miniquery", "Visitor.Init")
	}
	T := c.P.Type("miniquery", "Visitor")
	if T == nil {
		c.failAt(prop, "miniquery", "", nil, nil, "type Visitor not found in the source")
		return
	}
	st := T.Underlying().(*types.Struct)
	slotOf := func(key string) string { return key[strings.LastIndexByte(key, '.')+1:] }
	type data struct{ calls []visitCall }
	h := &Hooks{}
	h.CallSym = func(m *Machine, fn *Sym, args []Value, sig *types.Signature) (Value, bool) {
		d := m.Data.(*data)
		if len(args) != 2 {
			return nil, false
		}
		var err Value = Nil{}
		if m.decide("callback " + slotOf(fn.Key) + " fails") {
			err = m.givenError("callback")
		}
		d.calls = append(d.calls, visitCall{What: slotOf(fn.Key), Ctx: args[0], Node: args[1], Err: err})
		return err, true
	}
	h.Rec = func(m *Machine, fn *ssa.Function, args, env []Value, n *ANode) (Value, bool) {
		if n.Root {
			m.undecided("%s visits the same node again", fn)
		}
		d := m.Data.(*data)
		call := visitCall{What: "visit"}
		for _, a := range args {
			switch x := a.(type) {
			case *Struct:
				call.Recv = x
			case *Ptr:
				if x.Obj != nil && x.Obj.Node != nil {
					call.Node = x
				} else if s, ok := (*x.P).(*Struct); ok {
					call.Recv = s
				}
			case *Sym, Nil:
				call.Ctx = x
			}
		}
		v, ok := m.recResults(fn, n, nil)
		if !ok {
			return nil, false
		}
		call.Err = v
		d.calls = append(d.calls, call)
		return v, true
	}
	for _, withInit := range []bool{false, true} {
		entry := "Visitor.Visit"
		if withInit {
			entry = "Visitor.Init, Visit"
		}
		c.analyse(entry, []string{prop}, h, fns(visit, initFn), func(q *Part) {
			m := q.Machine
			d := &data{}
			m.Data = d
			root := m.newRoot("q")
			root.Allowed = append(append([]string{}, tagsAll...), tOp)
			root.Ops = []string{"and", "eq"}
			tag := root.tag(m)
			// the visitor of the user
			vs := &Struct{F: make([]Value, st.NumFields())}
			orig := map[string]Value{}
			for i := range vs.F {
				name := st.Field(i).Name()
				vs.F[i] = m.symbolic("v."+name, st.Field(i).Type())
				if !withInit && (vs.F[i] == Value(Nil{})) {
					m.abort("callbacks are set")
				}
				orig[name] = vs.F[i]
			}
			var cell Value = vs
			ptr := &Ptr{P: &cell, Obj: m.newObj("Visitor", T)}
			if withInit {
				if _, p := q.callRepo(initFn, recvFor(initFn, ptr)); p != nil {
					q.fail(prop, p.Pos, "Init panics: %s", p.Msg)
					return
				}
				cur := cell.(*Struct)
				for i := range cur.F {
					name := st.Field(i).Name()
					if s, ok := orig[name].(*Sym); ok {
						if cur.F[i] != Value(s) {
							q.fail(prop, initFn.Pos(), "Init replaces the callback %s set by the user", name)
							return
						}
					} else if slotUsed(name) && m.isNil(cur.F[i]) {
						q.fail(prop, initFn.Pos(), "Init leaves the callback %s unset", name)
						return
					}
				}
			}
			plain := true // all callbacks are set, or none
			for _, v := range orig {
				plain = plain && (v == Value(Nil{})) == withInit
			}
			var ctx Value = Nil{}
			if !plain || m.decide("context set") {
				ctx = m.sym("ctx", nil, nil)
			}
			// variables of default callbacks that earlier or outer visits have changed
			m.forget(m.reachable(visit, []Value{ptr}, nil))
			v, p := q.callRepo(visit, recvFor(visit, ptr), ctx, root.Ptr)
			if p != nil {
				q.fail(prop, p.Pos, "visiting a %s node panics: %s", tag, p.Msg)
				return
			}
			slot := visitSlot[tag]
			if slot == "" {
				if len(d.calls) > 0 {
					q.fail(prop, visit.Pos(), "a %s node has no callback but %s is called", tag, d.calls[0].What)
				}
				if m.isNil(v) {
					q.fail(prop, visit.Pos(), "visiting a %s node gives no error", tag)
				}
				return
			}
			// required sequence
			type step struct {
				what string
				node *ANode
			}
			var want []step
			if _, user := orig[slot].(*Sym); user {
				want = []step{{slot, root}}
			} else {
				for _, k := range visitChildren(m, root) {
					want = append(want, step{"visit", k})
				}
			}
			var last Value = Nil{}
			for i, w := range want {
				if i >= len(d.calls) {
					q.fail(prop, visit.Pos(), "visiting a %s node leaves out %s", tag, describe(w.what, w.node))
					return
				}
				g := d.calls[i]
				np, _ := g.Node.(*Ptr)
				if g.What != w.what || np == nil || np.Obj == nil || np.Obj.Node != w.node {
					q.fail(prop, visit.Pos(), "visiting a %s node: %s instead of %s", tag, describe(g.What, nodeOf(np)), describe(w.what, w.node))
					return
				}
				if g.Ctx != ctx {
					q.fail(prop, visit.Pos(), "visiting a %s node passes another context", tag)
				}
				if g.What == "visit" {
					if s, ok := g.Recv.(*Struct); !ok || !sameFields(s, cell.(*Struct)) {
						q.fail(prop, visit.Pos(), "children of a %s node are visited with other callbacks", tag)
					}
				}
				last = g.Err
				if !m.isNil(g.Err) {
					want = want[:i+1]
					break
				}
			}
			if len(d.calls) > len(want) {
				g := d.calls[len(want)]
				np, _ := g.Node.(*Ptr)
				if !m.isNil(last) {
					q.fail(prop, visit.Pos(), "visiting a %s node goes on after an error with %s", tag, describe(g.What, nodeOf(np)))
				} else {
					q.fail(prop, visit.Pos(), "visiting a %s node: additional %s", tag, describe(g.What, nodeOf(np)))
				}
				return
			}
			if m.isNil(last) != m.isNil(v) || !m.isNil(v) && v != last {
				q.fail(prop, visit.Pos(), "visiting a %s node returns %s instead of %s", tag, errText(m, v), errText(m, last))
			}
		})
	}
}

func errText(m *Machine, v Value) string {
	if m.isNil(v) {
		return "no error"
	}
	return "an error"
}

func nodeOf(p *Ptr) *ANode {
	if p == nil || p.Obj == nil {
		return nil
	}
	return p.Obj.Node
}

func describe(what string, n *ANode) string {
	if n == nil {
		return what
	}
	return what + "(" + n.Path + ")"
}

func slotUsed(name string) bool {
	for _, s := range visitSlot {
		if s == name {
			return true
		}
	}
	return false
}

func sameFields(a, b *Struct) bool {
	for i := range a.F {
		if a.F[i] != b.F[i] {
			return false
		}
	}
	return true
}

// recvFor passes a receiver as pointer or value, as the method wants it.
func recvFor(fn *ssa.Function, p *Ptr) Value {
	if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
		return p
	}
	return copyVal(*p.P)
}

// visitChildren lists the children of a node in source order.
func visitChildren(m *Machine, n *ANode) []*ANode {
	var out []*ANode
	add := func(k *ANode) {
		if k != nil {
			out = append(out, k)
		}
	}
	switch n.tag(m) {
	case tParen, tNot:
		add(n.kid(m, "Expression"))
	case tAnd, tOr, tCmp, tIn:
		add(n.kid(m, "Left"))
		add(n.kid(m, "Op"))
		add(n.kid(m, "Right"))
	case tPred:
		add(n.kid(m, "Left"))
		add(n.kid(m, "Op"))
	case tBetw:
		add(n.kid(m, "Left"))
		add(n.kid(m, "Op"))
		out = append(out, n.list(m, "Params")...)
	case tFunc:
		out = append(out, n.list(m, "Params")...)
	case tArr:
		out = append(out, n.list(m, "Array")...)
	}
	return out
}
