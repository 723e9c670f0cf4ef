package main

import (
	"fmt"
	"go/token"
	"go/types"
)

// lin is a sum of a constant and unknown non-negative counts, used for the
// number of arguments a sub-tree adds.
type lin struct {
	C int64
	T map[string]int64
}

func newLin(c int64, terms ...string) *lin {
	l := &lin{C: c, T: map[string]int64{}}
	for _, t := range terms {
		l.T[t]++
	}
	return l
}

func (l *lin) add(o *lin, sign int64) *lin {
	r := newLin(l.C + sign*o.C)
	for k, n := range l.T {
		r.T[k] += n
	}
	for k, n := range o.T {
		r.T[k] += sign * n
		if r.T[k] == 0 {
			delete(r.T, k)
		}
	}
	return r
}

func (l *lin) key() string {
	s := fmt.Sprint(l.C)
	for _, k := range sortedKeys(l.T) {
		s += fmt.Sprintf("+%d*%s", l.T[k], k)
	}
	return s
}

func (m *Machine) linValue(l *lin) Value {
	if len(l.T) == 0 {
		return l.C
	}
	s := m.sym("sum("+l.key()+")", types.Typ[types.Int], nil)
	s.Info = l
	return s
}

func asLin(v Value) *lin {
	switch x := v.(type) {
	case int64:
		return newLin(x)
	case *Sym:
		if l, ok := x.Info.(*lin); ok {
			return l
		}
	}
	return nil
}

// countOf is the number of values a sub-tree adds.
func countOf(n *ANode) string { return "args(" + n.Path + ")" }

func (m *Machine) linLen(s *Slice) Value {
	l := newLin(0)
	for i := 0; i < s.Len; i++ {
		l = l.add(lenOfElem(s.Arr.E[s.Off+i]), 1)
	}
	return m.linValue(l)
}

// slots is the number of elements a list needs for a number of values, where the values of a
// sub-tree are one element.
func slots(v Value) Value {
	l := asLin(v)
	if l == nil {
		return v
	}
	n := l.C
	for _, k := range l.T {
		if k < 0 {
			return v
		}
		n += k
	}
	return n
}

func lenOfElem(v Value) *lin {
	if sp, ok := v.(Spread); ok {
		return newLin(0, countOf(sp.Rec.Node))
	}
	return newLin(1)
}

func (m *Machine) linOp(op token.Token, x, y Value) (Value, bool) {
	_, c1 := x.(int64)
	_, c2 := y.(int64)
	a, b := asLin(x), asLin(y)
	if a == nil || b == nil || c1 && c2 {
		return nil, false
	}
	switch op {
	case token.ADD:
		return m.linValue(a.add(b, 1)), true
	case token.SUB:
		return m.linValue(a.add(b, -1)), true
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		d := a.add(b, -1)
		if op == token.LSS || op == token.LEQ {
			d = b.add(a, -1)
		}
		// d > 0 or d >= 0
		min := int64(1)
		if op == token.GEQ || op == token.LEQ {
			min = 0
		}
		pos, neg := true, true
		for _, n := range d.T {
			if n < 0 {
				pos = false
			} else {
				neg = false
			}
		}
		if pos && d.C >= min {
			return true, true
		}
		if neg && d.C < min {
			return false, true
		}
		return m.decide(fmt.Sprintf("%s >= %d", d.key(), min)), true
	}
	return nil, false
}
