package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["P06"] = &Rule{
		Level:       "other",
		Technique:   "abstract interpretation of Build per node kind with induction on sub-trees; the written text has to be a derivation of the same node in the reference grammar",
		Explanation: "Build is interpreted over its SSA form on an arbitrary tree: the kind, operator, literal type and list length of the root are partitioned, calls on sub-trees are replaced by the induction hypothesis that they write the text of that sub-tree. In every partition the written text has to be the production of the reference grammar that yields exactly this node from its children.",
		Assumptions: []string{"trees are those the reference grammar can produce (checked by P01, P02)"},
		Run:         func(c *Ctx) { analyseBuild(c, "P06") },
	}
}

// spellings that the grammar maps to an operator, most specific first
var opSpellings = map[string][]string{
	"and": {"and", "&&"}, "or": {"or", "||"},
	"eq": {"==", "=", "eq"}, "neq": {"!=", "<>", "neq"}, "gt": {">", "gt"}, "gte": {">=", "gte"}, "lt": {"<", "lt"}, "lte": {"<=", "lte"},
}

// textRec is the induction hypothesis of functions that write text.
func textRec(m *Machine, fn *ssa.Function, args, env []Value, n *ANode) (Value, bool) {
	if n.Tag == tOp {
		return nil, false // leaf, analysed in place
	}
	if n.Root {
		m.undecided("%s calls itself with the same node", fn)
	}
	str := false
	v, ok := m.recResults(fn, n, func(i int, T types.Type) (Value, bool) {
		if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && !str {
			str = true
			return Str{{S: m.recSym(n, fn, nil), Pos: m.Pos}}, true
		}
		return nil, false
	})
	if !ok {
		return nil, false
	}
	if !str {
		r := m.reachable(fn, args, env)
		if len(r.bufs) != 1 {
			m.undecided("%s writes to %d texts", fn, len(r.bufs))
		}
		m.write(r.bufs[0], symstr(m.recSym(n, fn, nil)))
	}
	m.forget(m.reachable(fn, args, env))
	return v, true
}

func analyseBuild(c *Ctx, prop string) {
	fn := c.P.Func("miniquery", "Build")
	for _, behind := range []bool{false, true} {
		buildEntry(c, prop, fn, behind)
	}
}

func buildEntry(c *Ctx, prop string, fn *ssa.Function, behind bool) {
	d := newParseData()
	name := "Build"
	if behind {
		name = "Build behind another part"
	}
	h := &Hooks{Rec: func(m *Machine, fn *ssa.Function, args, env []Value, n *ANode) (Value, bool) {
		if behind && n.Path == "q.Right" {
			return nil, false
		}
		return textRec(m, fn, args, env, n)
	}}
	c.analyse(name, []string{prop}, h, fns(fn), func(q *Part) {
		root := q.newRoot("q")
		if behind {
			q.behind(&d)
			d.setup(root)
			root.inlined = true
		}
		v, p := q.callRepo(fn, root.Ptr)
		if p != nil {
			q.fail(prop, p.Pos, "panics: %s", p.Msg)
			return
		}
		got, ok := v.(Str)
		if !ok {
			q.fail(prop, fn.Pos(), "result is not a text")
			return
		}
		want := buildWant(q, root, got)
		if msg, at := match(q.resolve(got), want); msg != "" {
			if !at.IsValid() {
				at = fn.Pos()
			}
			q.fail(prop, at, "the text of a %s node does not parse back: %s", root.tag(q.Machine), msg)
		}
	})
}

func caseWords(s string) (out []Want) {
	for _, w := range strings.Fields(s) {
		out = append(out, Want{Words: []string{w}, Desc: w, Case: true})
	}
	return
}

func sep(ws []Want, s Want) (out []Want) {
	for i, w := range ws {
		if i > 0 {
			out = append(out, s)
		}
		out = append(out, w)
	}
	return
}

// buildWant is the text of a node in the grammar.
func buildWant(q *Part, n *ANode, got Str) []Want {
	m := q.Machine
	rec := func(name string) Want {
		k := n.kid(m, name)
		if k.Path == "q.Right" && n.inlined {
			return grouped(false, buildWant(q, k, got)...)
		}
		return recWant(k)
	}
	list := func(name string) (out []Want) {
		for _, k := range n.list(m, name) {
			out = append(out, recWant(k))
		}
		return
	}
	var out []Want
	switch t := n.tag(m); t {
	case tAnd, tOr, tCmp, tIn:
		op := n.op(m)
		out = append(out, rec("Left"))
		if sp := opSpellings[op]; sp != nil {
			out = append(out, kw(sp...))
		} else {
			out = append(out, words(op)...)
		}
		out = append(out, rec("Right"))
	case tNot:
		out = append(out, kw("not"), rec("Expression"))
	case tPred:
		out = append(out, rec("Left"))
		op := n.op(m)
		toks := lex(m.resolve(got))
		if op == "is null" && len(toks) > 1 && toks[len(toks)-1].Raw == "isnull" {
			out = append(out, caseWords("isnull")...)
		} else if op == "is not null" && len(toks) > 1 && toks[len(toks)-1].Raw == "notnull" {
			out = append(out, caseWords("notnull")...)
		} else {
			out = append(out, caseWords(op)...)
		}
	case tBetw:
		out = append(out, rec("Left"))
		if n.op(m) == "not between" {
			out = append(out, kw("not"))
		}
		out = append(out, caseWords("between")...)
		ps := list("Params")
		out = append(out, ps[0], kw("and"), ps[1])
	case tParen:
		out = append(out, kw("("), rec("Expression"), kw(")"))
	case tFunc:
		open := kw("(")
		open.Glued = true
		out = append(out, exactly(n.nameSym(m, n.Path+".Name")), open)
		out = append(out, sep(list("Params"), kw(","))...)
		out = append(out, kw(")"))
	case tIdent:
		out = append(out, exactly(n.nameSym(m, n.Path+".Name")))
	case tRef:
		dot := kw(".")
		dot.Glued = true
		var ns []Want
		for i, s := range n.names(m) {
			w := exactly(s)
			w.Glued = i > 0
			ns = append(ns, w)
		}
		out = append(out, sep(ns, dot)...)
	case tArr:
		out = append(out, kw("["))
		out = append(out, sep(list("Array"), kw(","))...)
		out = append(out, kw("]"))
	case tLit:
		switch n.lit(m) {
		case "int":
			out = append(out, exactly(m.itoa(n.litValue(m))))
		case "bool":
			if n.litValue(m) == true {
				out = append(out, Want{Words: []string{"true", "TRUE"}, Case: true, Desc: "true"})
			} else {
				out = append(out, Want{Words: []string{"false", "FALSE"}, Case: true, Desc: "false"})
			}
		case "null":
			out = append(out, Want{Words: []string{"null", "NULL"}, Case: true, Desc: "null"})
		case "string":
			s := n.litValue(m).(Str)
			quote := `"`
			toks := lex(m.resolve(got))
			if len(toks) > 0 && toks[len(toks)-1].P == "'" {
				quote = "'"
			}
			safe := false
			if quote == `"` {
				safe = !m.contains(s, `"`)
			} else {
				// a string has at most one kind of quotes
				safe = m.contains(s, `"`) || !m.contains(s, "'")
			}
			if !safe {
				quote = "other quotes than " + quote
			}
			w := exactly(s)
			w.Glued = true
			end := kw(quote)
			end.Glued = true
			if x, ok := m.resolve(s).isConst(); ok {
				// the code singled out a fixed value
				return append(out, Want{Raw: cstr(quote + x + quote), Desc: quote + x + quote})
			}
			out = append(out, kw(quote), w, end)
		}
	}
	return out
}
