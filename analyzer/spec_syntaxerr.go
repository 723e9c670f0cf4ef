package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["P10"] = &Rule{
		Level:     "other",
		Technique: "abstract interpretation of the rejecting path of the parser and of the error it returns, over texts of unknown characters with every placement of line breaks; order-type partition of the bookkeeping of the furthest match",
		Explanation: "The function that records a recognised part is interpreted for every order of the begin and end of the part and the end of the furthest part so far. The parser is interpreted up to the rejection of the text by its start rule, with an arbitrary furthest part, and then the text of the returned error: " +
			"characters are unknown apart from being a line break or not, the four numbers in the error have to be the line and symbol of the begin and end of that part, and the quoted text has to be exactly that part.",
		Assumptions: []string{"texts are partitioned by length 0 to 4 (and the neighbourhood of integer constants in the source) and the placement of line breaks", "rules record what they match through the one shared recording function (checked)"},
		Run:         func(c *Ctx) { analyseSyntaxError(c, "P10") },
	}
}

type syntaxData struct {
	*parserState
	breaks  map[string]bool
	reject  func(m *Machine)
	entered int
}

var numberRe = regexp.MustCompile(`[0-9]+`)

func analyseSyntaxError(c *Ctx, prop string) {
	pi := newParserInfo(c)
	parse := c.P.Func("miniquery", "*MiniQueryPeg.Parse")
	h := pi.hooks()
	if pi.init == nil || parse == nil || pi.tokT == nil {
		c.failAt(prop, "miniquery", "", nil, nil, "the parser was not found in the source")
		return
	}

	// the furthest part so far
	c.analyse("recording a recognised part", []string{prop}, h, fns(pi.init), func(q *Part) {
		m := q.Machine
		st := newParserState(pi, "")
		st.setup(m)
		max := st.cells["max"]
		if max == nil {
			q.fail(prop, pi.init.Pos(), "no rule records the furthest part that was recognised")
			return
		}
		add := recorder(m, st)
		if add == nil {
			q.fail(prop, pi.init.Pos(), "no function records the furthest part that was recognised")
			return
		}
		if w := otherWriter(st, add); w != nil {
			q.fail(prop, w.Pos(), "the furthest part is changed outside of the recording function")
			return
		}
		pick := func(what string, lo, hi int) int64 {
			return int64(lo + m.choose(hi-lo+1, what, func(i int) string { return fmt.Sprintf("%s is %d", what, lo+i) }))
		}
		vals := 4
		far := pick("end of the furthest part", 0, vals)
		end := pick("position", 0, vals)
		begin := pick("begin", 0, int(end))
		const oldRule, rule = int64(2), int64(3)
		old := []Value{oldRule, int64(0), far}
		*max.P = &Struct{F: append([]Value{}, old...)}
		*st.cells["position"].P = end
		*st.cells["tokenIndex"].P = &tokIdx{}
		args := []Value{rule, begin}
		if len(add.Fn.Params) == 3 {
			args = append(args, end)
		}
		if _, p := q.try(func() Value { return m.callFn(add.Fn, add.Env, args, token.NoPos) }); p != nil {
			q.fail(prop, p.Pos, "recording a part panics: %s", p.Msg)
			return
		}
		want := old
		if begin != end && end > far {
			want = []Value{rule, begin, end}
		}
		got, ok := m.force(*max.P).(*Struct)
		if !ok || len(got.F) != 3 {
			m.undecided("the furthest part is %s", show(*max.P))
		}
		for i := range want {
			if m.force(got.F[i]) != want[i] {
				q.fail(prop, add.Fn.Pos(), "after recognising characters %d to %d with the furthest part ending at %d, the furthest part is %s from %s to %s; %s from %s to %s required",
					begin, end, far, show(got.F[0]), show(got.F[1]), show(got.F[2]), show(want[0]), show(want[1]), show(want[2]))
				return
			}
		}
	})

	// the error of a rejected text
	hook := *h
	hook.Call = func(m *Machine, f *ssa.Function, args []Value, pos token.Pos) (Value, bool) {
		d, ok := m.Data.(*syntaxData)
		if !ok {
			return h.Call(m, f, args, pos)
		}
		if _, ok := d.ruleOf[f]; ok {
			d.entered++
			d.reject(m)
			return false, true
		}
		return nil, false
	}
	hook.BinOp = func(m *Machine, op token.Token, x, y Value) (Value, bool) {
		d, ok := m.Data.(*syntaxData)
		if !ok {
			return h.BinOp(m, op, x, y)
		}
		a, okA := x.(*Sym)
		b, okB := y.(int64)
		if !okA {
			a, okA = y.(*Sym)
			b, okB = x.(int64)
		}
		if okA && okB && b == '\n' && strings.HasPrefix(a.Key, "char ") && (op == token.EQL || op == token.NEQ) {
			return d.breaks[a.Key] == (op == token.EQL), true
		}
		return nil, false
	}
	hook.Convert = func(m *Machine, v Value, to types.Type) (Value, bool) {
		if _, ok := m.Data.(*syntaxData); !ok {
			return h.Convert(m, v, to)
		}
		s, ok := v.(*Slice)
		if !ok || !isStringT(to) {
			return nil, false
		}
		out := Str{}
		for i := 0; i < s.Len; i++ {
			e := m.force(s.Arr.E[s.Off+i])
			x, ok := e.(*Sym)
			if !ok {
				x = m.sym("end mark", types.Typ[types.String], &Dom{NonEmpty: true})
			}
			out = append(out, Atom{S: m.sym(x.Key, types.Typ[types.String], &Dom{NonEmpty: true})})
		}
		return out, true
	}
	lens := append([]int{0, 1, 2, 3, 4}, c.P.messageThresholds()...)
	c.analyse("syntax error of a rejected text", []string{prop}, &hook, fns(parse), func(q *Part) {
		m := q.Machine
		st := newParserState(pi, "")
		st.setup(m)
		max := st.cells["max"]
		if max == nil {
			m.undecided("no variable for the furthest part")
		}
		d := &syntaxData{parserState: st, breaks: map[string]bool{}}
		n := lens[m.choose(len(lens), "length", func(i int) string { return fmt.Sprintf("the text has %d characters", lens[i]) })]
		begin, end := 0, 0
		rule := int64(0)
		isBreak := func(i int) bool { return m.decide(fmt.Sprintf("char %d is a line break", i)) }
		if n > 4 {
			// long texts: few breaks, long and short parts
			breaks := m.choose(3, "breaks", func(i int) string {
				return []string{"no line breaks", "only line breaks", "a line break at the beginning"}[i]
			})
			isBreak = func(i int) bool { return breaks == 1 || breaks == 2 && i == 0 }
			rule, end = 1, n
			if m.decide("a short part at the end") {
				begin = n - 1
			} else if m.decide("one character is left") {
				end = n - 1
			}
		} else if n > 0 && m.decide("a part is recognised") {
			begin = m.choose(n, "begin", func(i int) string { return fmt.Sprintf("the furthest part begins at %d", i) })
			end = begin + 1 + m.choose(n-begin, "end", func(i int) string { return fmt.Sprintf("and ends at %d", begin+1+i) })
			rule = 1
			if n == 1 {
				rule = int64(1 + m.choose(len(pi.names)-1, "rule", func(i int) string { return "recognised by rule " + pi.names[int64(i+1)] }))
			}
		}
		arr := &Arr{Obj: m.newObj("text", nil)}
		line, symbol := 1, 0
		type place struct{ line, symbol int }
		var at []place
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("char %d", i)
			arr.E = append(arr.E, m.sym(k, types.Typ[types.Int32], nil))
			if d.breaks[k] = isBreak(i); d.breaks[k] {
				line, symbol = line+1, 0
			} else {
				symbol++
			}
			at = append(at, place{line, symbol})
		}
		arr.E = append(arr.E, int64(endRune))
		at = append(at, place{line, symbol + 1})
		*st.field(m, st.peg, pi.pegT, "buffer").P = &Slice{arr, 0, len(arr.E), len(arr.E)}
		*st.field(m, st.peg, pi.pegT, "Pretty").P = m.decide("coloured messages")
		m.Data = d
		d.reject = func(m *Machine) { *max.P = &Struct{F: []Value{rule, int64(begin), int64(end)}} }
		r, p := q.callRepo(parse, st.peg, Nil{})
		if p != nil {
			q.fail(prop, p.Pos, "rejecting a text panics: %s", p.Msg)
			return
		}
		if d.entered == 0 {
			q.fail(prop, parse.Pos(), "the text is not looked at")
			return
		}
		e, ok := m.force(r).(*Iface)
		if !ok {
			q.fail(prop, parse.Pos(), "a rejected text gives no error")
			return
		}
		fn := m.P.SSA.LookupMethod(e.T, nil, "Error")
		if fn == nil {
			m.undecided("error type %s", e.T)
		}
		r, p = q.callRepo(fn, e.V)
		if p != nil {
			q.fail(prop, p.Pos, "the text of the error panics: %s", p.Msg)
			return
		}
		got, ok := m.force(r).(Str)
		if !ok {
			m.undecided("the text of the error is %s", show(r))
		}
		checkSyntaxText(q, prop, fn, m.resolve(got), arr.E[begin:end], pi.names[rule], rule,
			[]int{at[begin].line, at[begin].symbol, at[end].line, at[end].symbol})
	})
}

// checkSyntaxText: four numbers, the rule, and the quoted part
func checkSyntaxText(q *Part, prop string, fn *ssa.Function, got Str, part []Value, name string, rule int64, nums []int) {
	var quoted []string
	text := ""
	for _, a := range got.norm() {
		if a.S == nil {
			text += a.C
			continue
		}
		quoted = append(quoted, a.S.Key)
	}
	text = strings.NewReplacer("\x1b[34m", "", "\x1b[m", "").Replace(text)
	if rule > 0 && !strings.Contains(text, name) {
		q.fail(prop, fn.Pos(), "the error does not name the rule %s: %q", name, text)
		return
	}
	text = strings.Replace(text, name, "", 1)
	if want := fmt.Sprint(nums); fmt.Sprint(numberRe.FindAllString(text, -1)) != want {
		q.fail(prop, fn.Pos(), "the error gives the place %s, %s required (line and symbol of the begin and the end)", fmt.Sprint(numberRe.FindAllString(text, -1)), want)
		return
	}
	var want Str
	for _, v := range part {
		want = append(want, Atom{S: q.sym(v.(*Sym).Key, types.Typ[types.String], &Dom{NonEmpty: true})})
	}
	if len(part) == 0 {
		if len(quoted) != 0 {
			q.fail(prop, fn.Pos(), "the error quotes %s although nothing was recognised", quoted)
		}
		return
	}
	key := q.format(want, 'q')
	var ks []string
	for _, a := range key.norm() {
		if a.S != nil {
			ks = append(ks, a.S.Key)
		}
	}
	if fmt.Sprint(ks) != fmt.Sprint(quoted) {
		q.fail(prop, fn.Pos(), "the error quotes %s instead of %s", quoted, ks)
	}
}

// recorder finds the function of the parser that records a recognised part.
func recorder(m *Machine, st *parserState) *Closure {
	for _, n := range sortedKeys(st.cells) {
		c, ok := (*st.cells[n].P).(*Closure)
		if !ok || !writes(c.Fn) {
			continue
		}
		if ps := c.Fn.Signature.Params(); ps.Len() == 2 || ps.Len() == 3 && isBasic(ps.At(2).Type(), types.Uint32) {
			return c
		}
	}
	return nil
}

// writes tells if a function changes the furthest part.
func writes(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fv, ok := rootVar(s.Addr).(*ssa.FreeVar); ok && sharedRole(fv) == "max" {
					return true
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if writes(a) {
			return true
		}
	}
	return false
}

func rootVar(v ssa.Value) ssa.Value {
	for {
		f, ok := v.(*ssa.FieldAddr)
		if !ok {
			return v
		}
		v = f.X
	}
}

// otherWriter finds a rule that changes the furthest part itself.
func otherWriter(st *parserState, add *Closure) *ssa.Function {
	for f := range st.ruleOf {
		if f != add.Fn && writes(f) {
			return f
		}
	}
	return nil
}

func isStringT(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
