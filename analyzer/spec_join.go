package main

import (
	"go/types"
)

func init() {
	rules["P07"] = &Rule{
		Level:       "other",
		Technique:   "abstract interpretation of Join over string shapes, compared with the required shape",
		Explanation: "Join is interpreted over its SSA form with lists of unknown texts (every list length of the partition, every combination of blank and non-blank texts); the shape of the returned text has to be the required shape in every partition.",
		Assumptions: []string{"list lengths are partitioned into 0 to 4 and the neighbourhood of integer constants in the source"},
		Run:         func(c *Ctx) { analyseJoin(c, "P07") },
	}
}

func (c *Ctx) lens(lo, hi int) []int {
	var l []int
	for i := lo; i <= hi; i++ {
		l = append(l, i)
	}
	for _, t := range c.P.Thresholds {
		if int(t) > hi {
			l = append(l, int(t))
		}
	}
	return l
}

func analyseJoin(c *Ctx, prop string) {
	fn := c.P.Func("miniquery", "Join")
	lens := c.lens(0, 4)
	h := &Hooks{ListLens: func(string) []int { return lens }}
	c.analyse("Join", []string{prop}, h, fns(fn), func(q *Part) {
		list := q.symbolic("s", types.NewSlice(types.Typ[types.String]))
		q.plainQueries("s", len(q.variadic(list)))
		v, p := q.callRepo(fn, list)
		if p != nil {
			q.fail(prop, p.Pos, "panics: %s", p.Msg)
			return
		}
		got, ok := v.(Str)
		if !ok {
			q.fail(prop, fn.Pos(), "result is not a text")
			return
		}
		es := q.variadic(list)
		if len(es) == 1 {
			if q.resolve(got).key() != q.resolve(es[0].(Str)).key() {
				q.fail(prop, fn.Pos(), "a single query is returned as %s", got)
			}
			return
		}
		var want []Want
		n := 0
		for _, e := range es {
			s := e.(Str)
			if q.eqStr(q.trimSpace(s), Str{}) {
				continue
			}
			if n > 0 {
				want = append(want, kw("and", "&&"))
			}
			n++
			want = append(want, kw("("), exactly(s), kw(")"))
		}
		if n == 0 {
			want = nil
		}
		if msg, at := match(q.resolve(got), want); msg != "" {
			if !at.IsValid() {
				at = fn.Pos()
			}
			q.fail(prop, at, "%s; required %s", msg, wantText(want))
		}
	})
}

func exactly(s Str) Want {
	if len(s) == 1 && s[0].S != nil {
		k := s[0].S.Key
		return symIs(k, func(x *Sym) bool { return x.Key == k })
	}
	return kw(s.key())
}
