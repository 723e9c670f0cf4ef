package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["P11"] = &Rule{
		Level:     "other",
		Technique: "abstract interpretation of initialising, resetting and starting the parser, from an arbitrary state left behind by earlier parsing (typestate of the parser object)",
		Explanation: "All variables shared by the recognisers, the text and the token list of the parser are replaced by unknown ones, as if any text had been parsed or rejected before. Then a new text is set, the parser is reset and parsing is started: when the first recogniser is entered, the position, token index, furthest part and text have to be those of a new parser, and after it the tokens it added, cut to its end, have to be the ones the tree is built from. " +
			"The options are interpreted on a parser with unknown fields and may change only what they are for; initialisation is interpreted with a list of options of which any may fail.",
		Assumptions: []string{"the caller empties the tree before parsing another text", "lists of options have up to 3 elements"},
		Run:         func(c *Ctx) { analyseReuse(c, "P11") },
	}
}

func analyseReuse(c *Ctx, prop string) {
	pi := newParserInfo(c)
	parse, reset := c.P.Func("miniquery", "*MiniQueryPeg.Parse"), c.P.Func("miniquery", "*MiniQueryPeg.Reset")
	if pi.init == nil || parse == nil || reset == nil {
		c.failAt(prop, "miniquery", "", nil, nil, "the parser was not found in the source")
		return
	}
	h := pi.hooks()
	c.analyse("parsing another text", []string{prop}, h, fns(reset, parse, pi.init), func(q *Part) {
		m := q.Machine
		st := newParserState(pi, "")
		st.setup(m)
		delete(m.Facts, "len(text) == 0")
		fresh := map[string]string{}
		for n, p := range st.extra {
			fresh[n] = show(m.force(*p.P))
		}
		field := func(name string) *Ptr { return st.field(m, st.peg, pi.pegT, name) }
		used := m.decide("the parser was used before")
		text := m.resolve(m.str(*field("Buffer").P))
		if used {
			old := &runeBuf{S: symstr(m.sym("old text", types.Typ[types.String], nil)), End: true}
			for _, n := range sortedKeys(st.cells) {
				p := st.cells[n]
				switch v := m.force(*p.P).(type) {
				case *runeBuf:
					*p.P = old
				case int64:
					*p.P = m.sym("old "+n, types.Typ[types.Uint32], nil)
				case bool:
					*p.P = m.decide("old " + n)
				case *Struct:
					if n == "max" {
						for i := range v.F {
							v.F[i] = m.sym(fmt.Sprintf("old %s.%d", n, i), types.Typ[types.Uint32], nil)
						}
					}
				}
			}
			*field("buffer").P = old
			if s, ok := m.force(*field("tokens32").P).(*Struct); ok && len(s.F) == 1 {
				T := pi.tokT
				s.F[0] = &Slice{&Arr{E: []Value{m.zero(T), m.zero(T)}, Obj: m.newObj("old tokens", nil)}, 0, 2, 2}
			}
			text = symstr(m.sym("next text", types.Typ[types.String], nil))
			*field("Buffer").P = text
		}
		before := pi.fields(m, st.peg)
		start := "Grammar"
		var arg Value = Nil{}
		if m.decide("a rule is named") {
			var names []string
			for i := int64(1); i < int64(len(pi.names)); i++ {
				if st.closure(m, pi.names[i]) != nil {
					names = append(names, pi.names[i])
				}
			}
			start = names[m.choose(len(names), "rule", func(i int) string { return "the rule " + names[i] })]
			arg = &Slice{&Arr{E: []Value{pi.nums[start]}, Obj: m.newObj("slice", nil)}, 0, 1, 1}
		}
		entered, bad := 0, ""
		matched := false
		end := &tokIdx{id: 1}
		marks := &Slice{&Arr{E: []Value{}, Obj: m.newObj("tokens of this match", nil)}, 0, 0, 0}
		hook := *h
		hook.Call = func(m *Machine, f *ssa.Function, args []Value, pos token.Pos) (Value, bool) {
			name, ok := st.ruleOf[f]
			if !ok {
				return h.Call(m, f, args, pos)
			}
			entered++
			if name != start {
				bad = fmt.Sprintf("parsing starts with rule %s instead of %s", name, start)
			}
			for _, n := range []string{"position", "tokenIndex"} {
				if v := m.force(*st.cells[n].P); v != Value(int64(0)) {
					bad = fmt.Sprintf("parsing starts with %s %s instead of 0", n, show(v))
				}
			}
			if p := st.cells["max"]; p != nil {
				if s, ok := m.force(*p.P).(*Struct); ok {
					for _, x := range s.F {
						if m.force(x) != Value(int64(0)) {
							bad = "parsing starts with the furthest part of another text"
						}
					}
				}
			}
			for _, v := range []Value{*st.cells["buffer"].P, *field("buffer").P} {
				b, ok := m.force(v).(*runeBuf)
				if !ok || m.resolve(b.S).key() != m.resolve(text).key() {
					bad = fmt.Sprintf("the text that is parsed is %s instead of %s", show(m.force(v)), text)
				} else if r, ok := st.chars["last"].single(); !b.End && (!ok || r != endRune) {
					bad = "the text that is parsed has no end mark"
				}
			}
			for n, p := range st.extra {
				if g := show(m.force(*p.P)); g != fresh[n] {
					bad = fmt.Sprintf("parsing starts with %s %s instead of %s", n, g, fresh[n])
				}
			}
			matched = m.decide("the text matches")
			if matched {
				*st.cells["position"].P = &posVal{Base: &posBase{key: "end of text"}}
				*st.cells["tokenIndex"].P = end
				if p := st.cells["tree"]; p != nil {
					if s, ok := m.force(*p.P).(*Struct); ok && len(s.F) == 1 {
						s.F[0] = marks
					}
				}
			}
			return matched, true
		}
		m.H = &hook
		if used {
			if _, p := q.callRepo(reset, st.peg); p != nil {
				q.fail(prop, p.Pos, "resetting the parser panics: %s", p.Msg)
				return
			}
		}
		r, p := q.callRepo(parse, st.peg, arg)
		if p != nil {
			q.fail(prop, p.Pos, "parsing panics: %s", p.Msg)
			return
		}
		at := parse.Pos()
		if used {
			at = reset.Pos()
		}
		switch {
		case bad != "":
			q.fail(prop, at, "%s", bad)
		case entered != 1:
			q.fail(prop, parse.Pos(), "the start rule is tried %d times", entered)
		case matched != m.isNil(r):
			q.fail(prop, parse.Pos(), "the result of parsing is %s although the text matches: %v", show(r), matched)
		}
		if matched {
			list, ok := m.force(*field("tokens32").P).(*Struct)
			if !ok || len(list.F) != 1 || m.force(list.F[0]) != Value(marks) {
				q.fail(prop, parse.Pos(), "the tokens of the match are not the ones of the parser")
			} else if len(st.trims) == 0 || st.trims[len(st.trims)-1] != Value(end) {
				q.fail(prop, parse.Pos(), "the tokens are not cut to those of the match")
			}
		}
		after := pi.fields(m, st.peg)
		for _, n := range sortedKeys(before) {
			switch n {
			case "buffer", "tokens32", "parse", "reset":
			default:
				if before[n] != after[n] {
					q.fail(prop, at, "field %s of the parser is changed from %s to %s", n, before[n], after[n])
				}
			}
		}
	})

	for _, name := range []string{"Pretty", "Size"} {
		fn := c.P.Func("miniquery", name)
		if fn == nil {
			continue
		}
		c.analyse("option "+name, []string{prop}, h, fns(fn), func(q *Part) {
			m := q.Machine
			st := newParserState(pi, "")
			st.setup(m)
			var arg Value
			*st.field(m, st.peg, pi.pegT, "Pretty").P = m.decide("coloured before")
			if name == "Pretty" {
				arg = m.decide("coloured")
			} else {
				ns := []int64{0, 1, 2, 1000}
				arg = ns[m.choose(len(ns), "size", func(i int) string { return fmt.Sprintf("size %d", ns[i]) })]
			}
			before := pi.fields(m, st.peg)
			r, p := q.try(func() Value {
				o := m.callFn(fn, nil, []Value{arg}, token.NoPos)
				return m.call(o, []Value{st.peg}, token.NoPos, nil)
			})
			if p != nil {
				q.fail(prop, p.Pos, "the option panics: %s", p.Msg)
				return
			}
			if !m.isNil(r) {
				q.fail(prop, fn.Pos(), "the option gives an error")
			}
			after := pi.fields(m, st.peg)
			if name == "Pretty" {
				if v := m.force(*st.field(m, st.peg, pi.pegT, "Pretty").P); v != arg {
					q.fail(prop, fn.Pos(), "messages are coloured: %s, asked for %s", show(v), show(arg))
				}
			} else {
				s, ok := m.force(*st.field(m, st.peg, pi.pegT, "tokens32").P).(*Struct)
				if !ok || len(s.F) != 1 {
					m.undecided("token list of another form")
				}
				// zero tokens cover no text and are overwritten while parsing
				for _, e := range elemsOf(m, m.force(s.F[0])) {
					if show(m.force(e)) != show(m.zero(pi.tokT)) {
						q.fail(prop, fn.Pos(), "the list of tokens contains %s before parsing", show(m.force(e)))
					}
				}
			}
			for _, n := range sortedKeys(before) {
				if n != "Pretty" && name == "Pretty" || n != "tokens32" && name == "Size" {
					if before[n] != after[n] {
						q.fail(prop, fn.Pos(), "the option changes field %s of the parser from %s to %s", n, before[n], after[n])
					}
				}
			}
		})
	}

	c.analyse("initialising with options", []string{prop}, h, fns(pi.init), func(q *Part) {
		m := q.Machine
		st := newParserState(pi, "")
		m.Data, st.m = st, m
		var v Value = m.zero(pi.pegT)
		peg := &Ptr{P: &v, Obj: m.newObj("parser", pi.pegT)}
		*st.field(m, peg, pi.pegT, "Buffer").P = symstr(m.sym("s", types.Typ[types.String], nil))
		n := m.choose(4, "options", func(i int) string { return fmt.Sprintf("%d options", i) })
		var called []int
		var want []int
		var wantErr Value = Nil{}
		fails := make([]Value, n)
		var es []Value
		for i := 0; i < n; i++ {
			fails[i] = Nil{}
			if m.decide(fmt.Sprintf("option %d fails", i)) {
				fails[i] = m.givenError(fmt.Sprintf("option %d", i))
			}
			if m.isNil(wantErr) {
				want = append(want, i)
				wantErr = fails[i]
			}
			es = append(es, &Native{Name: fmt.Sprintf("option %d", i), Fn: func(m *Machine, args []Value) Value {
				called = append(called, i)
				if p, ok := args[0].(*Ptr); !ok || p.P != peg.P {
					q.fail(prop, pi.init.Pos(), "an option gets another parser")
				}
				return fails[i]
			}})
		}
		var list Value = Nil{}
		if n > 0 {
			list = &Slice{&Arr{E: es, Obj: m.newObj("slice", nil)}, 0, n, n}
		}
		r, p := q.callRepo(pi.init, peg, list)
		if p != nil {
			q.fail(prop, p.Pos, "initialising panics: %s", p.Msg)
			return
		}
		if fmt.Sprint(called) != fmt.Sprint(want) {
			q.fail(prop, pi.init.Pos(), "options %v are applied, %v required", called, want)
		}
		if show(m.force(r)) != show(wantErr) {
			q.fail(prop, pi.init.Pos(), "initialising returns %s instead of %s", show(r), show(wantErr))
		}
	})
}

// fields shows the fields of the parser.
func (pi *parserInfo) fields(m *Machine, p *Ptr) map[string]string {
	out := map[string]string{}
	s := m.force(*p.P).(*Struct)
	for i, n := range structFields(pi.pegT) {
		n = pi.canonical(n)
		switch v := m.force(s.F[i]).(type) {
		case *Array:
			t := ""
			for _, e := range v.E {
				if c, ok := m.force(e).(*Closure); ok {
					t += c.Fn.Name()
				}
				t += ","
			}
			out[n] = t
		case *Closure:
			out[n] = v.Fn.Name()
		default:
			out[n] = show(v)
		}
	}
	return out
}
