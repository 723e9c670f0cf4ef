package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["P12"] = &Rule{
		Level:     "other",
		Technique: "abstract interpretation of the listing of the recognised parts, partitioned by every nesting of up to four parts of a text of unknown characters",
		Explanation: "The token list of a successful parse is one in which the parts of a part come before it and the start rule comes last. For every such list of up to four non-empty parts, with and without empty ones in between, the functions that write the listing are interpreted: " +
			"it has to have one line per non-empty part, a part before its own parts, these in the order of the text, indented by one blank per level, with the name of the rule and the quoted text of exactly this part.",
		Assumptions: []string{"lists have up to four non-empty parts in a text of up to three characters, and chains and rows of six parts and of the neighbourhood of integer constants in the source", "rule names are taken from the rule table of the source by number, the table itself is compared with the names of the rule numbers"},
		Run:         func(c *Ctx) { analyseListing(c, "P12") },
	}
}

type span struct{ b, e int }

// nestings lists the token lists of a text with n characters: parts of a part come before it.
func nestings(n, most int) (out [][]span) {
	var walk func(list, stack []span)
	walk = func(list, stack []span) {
		if len(stack) == 1 && len(list) > 0 {
			out = append(out, append([]span{}, list...))
		}
		if len(list) == most {
			return
		}
		for b := 0; b < n; b++ {
			for e := b + 1; e <= n; e++ {
				k := len(stack)
				for k > 0 && stack[k-1].b >= b && stack[k-1].e <= e {
					k--
				}
				if k > 0 && stack[k-1].e > b {
					continue
				}
				walk(append(append([]span{}, list...), span{b, e}), append(append([]span{}, stack[:k]...), span{b, e}))
			}
		}
	}
	walk(nil, nil)
	return out
}

type listingData struct{ chars int }

func analyseListing(c *Ctx, prop string) {
	pi := newParserInfo(c)
	sprint, write, print := c.P.Func("miniquery", "*MiniQueryPeg.SprintSyntaxTree"), c.P.Func("miniquery", "*MiniQueryPeg.WriteSyntaxTree"), c.P.Func("miniquery", "*MiniQueryPeg.PrintSyntaxTree")
	tokT := pi.tokT
	if pi.pegT == nil || tokT == nil || sprint == nil || write == nil || print == nil {
		c.failAt(prop, "miniquery", "", nil, nil, "the listing was not found in the source")
		return
	}
	lists := append([][]span{nil}, nestings(3, 4)...)
	for _, n := range append([]int{6}, c.P.messageThresholds()...) {
		// a part in a part in ..., and a row of parts
		var chain, row []span
		for i := 0; i < n; i++ {
			chain = append(chain, span{0, 3})
			row = append(row, span{i, i + 1})
		}
		lists = append(lists, chain, append(row, span{0, n}))
	}
	h := &Hooks{}
	var stdout *TextBuf
	var console *Iface
	h.Convert = func(m *Machine, v Value, to types.Type) (Value, bool) {
		switch x := v.(type) {
		case *Slice:
			if !isStringT(to) {
				return nil, false
			}
			out := Str{}
			for i := 0; i < x.Len; i++ {
				s, ok := m.force(x.Arr.E[x.Off+i]).(*Sym)
				if !ok {
					return nil, false
				}
				out = append(out, Atom{S: m.sym(s.Key, types.Typ[types.String], &Dom{NonEmpty: true})})
			}
			return out, true
		case Str:
			sl, ok := to.Underlying().(*types.Slice)
			if !ok || m.resolve(x).key() != symstr(m.sym("text", types.Typ[types.String], nil)).key() {
				return nil, false
			}
			if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Int32 {
				return nil, false
			}
			arr := &Arr{Obj: m.newObj("text", nil)}
			chars := m.Data.(*listingData).chars
			for i := 0; i < chars; i++ {
				arr.E = append(arr.E, m.sym(fmt.Sprintf("char %d", i), types.Typ[types.Int32], nil))
			}
			return &Slice{arr, 0, chars, chars}, true
		}
		return nil, false
	}
	run := func(entry string, fn *ssa.Function, call func(q *Part, peg *Ptr) (Value, *absPanic), colour func(m *Machine) bool) {
		c.analyse(entry, []string{prop}, h, fns(fn), func(q *Part) {
			m := q.Machine
			d := &listingData{chars: 3}
			m.Data = d
			stdout = nil
			list := lists[m.choose(len(lists), "parts", func(i int) string { return fmt.Sprintf("recognised parts %v", lists[i]) })]
			for _, s := range list {
				d.chars = max(d.chars, s.e)
			}
			empty := len(list) == 0 || m.decide("empty parts in between")
			coloured := m.decide("coloured")
			var v Value = m.zero(pi.pegT)
			peg := &Ptr{P: &v, Obj: m.newObj("parser", pi.pegT)}
			m.setField(peg, pi.pegT, "Buffer", symstr(m.sym("text", types.Typ[types.String], nil)))
			m.setField(peg, pi.pegT, "Pretty", coloured)
			arr := &Arr{Obj: m.newObj("tokens", nil)}
			add := func(rule int64, s span) {
				t := m.zero(tokT).(*Struct)
				for i := range structFields(tokT) {
					switch pi.tokField(i) {
					case 0:
						t.F[i] = rule
					case 1:
						t.F[i] = int64(s.b)
					case 2:
						t.F[i] = int64(s.e)
					}
				}
				arr.E = append(arr.E, t)
			}
			rule := func(i int) int64 {
				if len(list) == 1 {
					return int64(1 + m.choose(len(pi.names)-1, "rule", func(i int) string { return "recognised by rule " + pi.names[int64(i+1)] }))
				}
				return int64(1 + i%19)
			}
			rulesOf := make([]int64, len(list))
			for i, s := range list {
				if empty {
					add(int64(20), span{s.b, s.b})
				}
				rulesOf[i] = rule(i)
				add(rulesOf[i], s)
				if empty {
					add(int64(21), span{s.e, s.e})
				}
			}
			if p := m.fieldPtr(peg, pi.pegT, pi.alias["tokens32"]); len(arr.E) > 0 {
				s, ok := m.force(*p.P).(*Struct)
				if !ok || len(s.F) != 1 {
					m.undecided("the token list is %s", show(*p.P))
				}
				s.F[0] = &Slice{arr, 0, len(arr.E), len(arr.E)}
				*p.P = s
			}
			r, p := call(q, peg)
			if p != nil {
				q.fail(prop, p.Pos, "the listing panics: %s", p.Msg)
				return
			}
			var got Str
			if s, ok := m.force(r).(Str); ok {
				got = s
			} else if stdout != nil {
				got = stdout.A
			}
			// the parts in the order of the listing: a part before its own ones
			var want Str
			var out func(lo, hi, depth int)
			out = func(lo, hi, depth int) {
				// list[lo:hi] is a row of parts; the last of each group is the outer one
				var groups [][2]int
				for k := hi; k > lo; {
					i := k - 1
					for i > lo && list[i-1].b >= list[k-1].b && list[i-1].e <= list[k-1].e {
						i--
					}
					groups = append([][2]int{{i, k}}, groups...)
					k = i
				}
				for _, g := range groups {
					i := g[1] - 1
					name := pi.names[rulesOf[i]]
					if colour(m) && coloured {
						name = "\x1B[36m" + name + "\x1B[m"
					}
					want = append(want, Atom{C: strings.Repeat(" ", depth) + name + " "})
					var part Str
					for x := list[i].b; x < list[i].e; x++ {
						part = append(part, Atom{S: m.sym(fmt.Sprintf("char %d", x), types.Typ[types.String], &Dom{NonEmpty: true})})
					}
					want = append(want, m.callFn(m.P.Paths["strconv"].Func("Quote"), nil, []Value{part}, token.NoPos).(Str)...)
					want = append(want, Atom{C: "\n"})
					out(g[0], i, depth+1)
				}
			}
			out(0, len(list), 0)
			if g, w := m.resolve(got).norm().key(), m.resolve(want).norm().key(); g != w {
				q.fail(prop, fn.Pos(), "the listing is %s instead of %s", g, w)
			}
		})
	}
	never, always := func(m *Machine) bool { return false }, func(m *Machine) bool { return true }
	run("SprintSyntaxTree", sprint, func(q *Part, peg *Ptr) (Value, *absPanic) { return q.callRepo(sprint, peg) }, never)
	writer := func(m *Machine) *Iface {
		T := m.P.Type("strings", "Builder")
		stdout = &TextBuf{}
		var b Value = stdout
		return &Iface{types.NewPointer(T), &Ptr{P: &b, Obj: m.newObj("writer", T)}}
	}
	run("WriteSyntaxTree", write, func(q *Part, peg *Ptr) (Value, *absPanic) { return q.callRepo(write, peg, writer(q.Machine)) }, never)
	h.Call = func(m *Machine, fn *ssa.Function, args []Value, pos token.Pos) (Value, bool) {
		if fn.String() == "os.NewFile" {
			T := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			v := m.zero(T)
			return &Ptr{P: &v, Obj: m.newObj("file", T)}, true
		}
		if len(args) == 0 || stdout == nil {
			return nil, false
		}
		i, ok := args[0].(*Iface)
		if f := models[fn.String()]; ok && f != nil && i.T.String() == "*os.File" {
			return f(m, fn, append([]Value{console}, args[1:]...))
		}
		return nil, false
	}
	run("PrintSyntaxTree", print, func(q *Part, peg *Ptr) (Value, *absPanic) {
		console = writer(q.Machine)
		return q.callRepo(print, peg)
	}, always)
}
