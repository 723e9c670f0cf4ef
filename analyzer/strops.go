package main

import (
	"fmt"
	"go/types"
	"strings"
)

// resolve replaces symbols whose value is known in this partition.
func (m *Machine) resolve(s Str) Str {
	var out Str
	for _, a := range s {
		if a.S != nil {
			if b, ok := m.Bind[a.S.Key]; ok {
				for _, x := range m.resolve(b) {
					x.Pos = a.Pos
					out = append(out, x)
				}
				continue
			}
		}
		out = append(out, a)
	}
	return out
}

func (m *Machine) eqStr(a, b Str) bool {
	a, b = m.resolve(a).norm(), m.resolve(b).norm()
	ca, ok1 := a.isConst()
	cb, ok2 := b.isConst()
	if ok1 && ok2 {
		return ca == cb
	}
	if a.key() == b.key() {
		return true
	}
	if ok1 {
		a, b, ca, cb, ok1, ok2 = b, a, cb, ca, ok2, ok1
	}
	if ok2 {
		// shape against constant
		if len(a) == 1 {
			return m.eqSymConst(a[0].S, cb)
		}
		if a.minLen() > len(cb) {
			return false
		}
		if a[0].S == nil && !strings.HasPrefix(cb, a[0].C) {
			return false
		}
		if l := a[len(a)-1]; l.S == nil && !strings.HasSuffix(cb, l.C) {
			return false
		}
		if cb == "" {
			for _, x := range a {
				if !m.eqSymConst(x.S, "") {
					return false
				}
			}
			return true
		}
		if len(a) == 2 {
			if a[0].S == nil {
				return m.eqSymConst(a[1].S, cb[len(a[0].C):])
			}
			if a[1].S == nil {
				return m.eqSymConst(a[0].S, cb[:len(cb)-len(a[1].C)])
			}
		}
	} else {
		// common fixed ends
		for len(a) > 0 && len(b) > 0 && a[0].S != nil && a[0].S == b[0].S {
			a, b = a[1:], b[1:]
		}
		for len(a) > 0 && len(b) > 0 && a[len(a)-1].S != nil && a[len(a)-1].S == b[len(b)-1].S {
			a, b = a[:len(a)-1], b[:len(b)-1]
		}
		if len(a) == 1 && len(b) == 1 && a[0].S != nil && b[0].S != nil {
			x, y := a[0].S, b[0].S
			if x.Dom != nil && x.Dom.Enum != nil {
				return m.eqStr(m.enum(x), b)
			}
			if y.Dom != nil && y.Dom.Enum != nil {
				return m.eqStr(a, m.enum(y))
			}
		}
		if len(a) == 0 || len(b) == 0 {
			return m.eqStr(a, b)
		}
	}
	k1, k2 := a.String(), b.String()
	if k1 > k2 {
		k1, k2 = k2, k1
	}
	if same, ok := m.equated(k1, k2); ok {
		return same
	}
	same := m.decide(k1 + " == " + k2)
	m.eqs = append(m.eqs, eqFact{k1, k2, same})
	return same
}

type eqFact struct {
	a, b string
	same bool
}

// equated derives whether two texts are equal from what is known about others.
func (m *Machine) equated(a, b string) (same, known bool) {
	if len(m.eqs) == 0 {
		return false, false
	}
	class := func(x string) map[string]bool {
		in := map[string]bool{x: true}
		for grown := true; grown; {
			grown = false
			for _, e := range m.eqs {
				if e.same && in[e.a] != in[e.b] {
					in[e.a], in[e.b], grown = true, true, true
				}
			}
		}
		return in
	}
	ca, cb := class(a), class(b)
	if ca[b] {
		return true, true
	}
	for _, e := range m.eqs {
		if !e.same && (ca[e.a] && cb[e.b] || ca[e.b] && cb[e.a]) {
			return false, true
		}
	}
	return false, false
}

// enum fixes a symbol with a finite domain to one of its values.
func (m *Machine) enum(s *Sym) Str {
	if b, ok := m.Bind[s.Key]; ok {
		return b
	}
	c := m.pickStr(s.Key, s.Dom.Enum)
	m.Bind[s.Key] = cstr(c)
	return cstr(c)
}

func (m *Machine) eqSymConst(s *Sym, c string) bool {
	if !s.Dom.mayEqual(c) {
		return false
	}
	if s.Dom != nil && s.Dom.Enum != nil {
		v, _ := m.enum(s).isConst()
		return v == c
	}
	if ci, ok := s.Info.(*ciWord); ok && !strings.EqualFold(ci.W, c) {
		return false
	}
	if r, ok := s.Info.(*Rec); ok && c == "" && r != nil {
		return false
	}
	if c == "" && m.blank["!"+s.Key] {
		return false
	}
	if tr, ok := s.Info.(*trimmed); ok {
		if strings.TrimSpace(c) != c {
			return false
		}
		if c == "" {
			if _, ok := m.Bind[tr.S.Key]; !ok && m.Facts[fmt.Sprintf("%s == %q", s.Key, "")] {
				return true
			}
		}
	}
	eq := m.decide(fmt.Sprintf("%s == %q", s.Key, c))
	if eq {
		if _, ok := s.Info.(*trimmed); !ok {
			m.Bind[s.Key] = cstr(c)
		} else {
			m.Bind[s.Key] = cstr(c)
		}
	} else if tr, ok := s.Info.(*trimmed); ok && c == "" {
		m.blank["!"+tr.S.Key] = true
	}
	return eq
}

// ciWord is a word in any letter case.
type ciWord struct{ W string }

// trimmed is strings.TrimSpace of a symbol.
type trimmed struct{ S *Sym }

func (m *Machine) strLen(s Str) Value {
	s = m.resolve(s)
	if c, ok := s.isConst(); ok {
		return int64(len(c))
	}
	x := m.sym("len("+s.String()+")", types.Typ[types.Int], nil)
	x.Info = &lenOf{s}
	return x
}

func (m *Machine) substr(s Str, lo, hi Value) Value {
	s = m.resolve(s).norm()
	c, isC := s.isConst()
	li, lok := int64(0), true
	if lo != nil {
		li, lok = lo.(int64)
	}
	if isC {
		h, hok := int64(len(c)), true
		if hi != nil {
			h, hok = hi.(int64)
		}
		if lok && hok {
			if li < 0 || h < li || h > int64(len(c)) {
				m.gopanic("slice bounds out of range [%d:%d] with length %d", li, h, len(c))
			}
			return cstr(c[li:h])
		}
		m.undecided("substring of %s", s)
	}
	if lok && li == 0 && hi == nil {
		return s
	}
	if lok && hi == nil && s[0].S == nil && int(li) <= len(s[0].C) {
		n := append(Str{{C: s[0].C[li:]}}, s[1:]...)
		return n.norm()
	}
	if lok && li >= 0 {
		// bounds have to be inside
		switch h := hi.(type) {
		case nil:
			if !m.lenAtLeast(s, int(li)) {
				m.gopanic("slice bounds out of range of %s", s)
			}
			return symstr(m.sym(fmt.Sprintf("%s[%d:]", s.key(), li), types.Typ[types.String], nil))
		case int64:
			if h < li {
				m.gopanic("slice bounds out of range of %s", s)
			}
			if s[0].S == nil && int(h) <= len(s[0].C) {
				return cstr(s[0].C[li:h])
			}
			if !m.lenAtLeast(s, int(h)) {
				m.gopanic("slice bounds out of range of %s", s)
			}
			return symstr(m.sym(fmt.Sprintf("%s[%d:%d]", s.key(), li, h), types.Typ[types.String], nil))
		case *Sym:
			if o, ok := h.Info.(*symOff); ok && o.Off < 0 {
				if l, ok := o.Base.Info.(*lenOf); ok && l.S.key() == s.key() {
					if !m.lenAtLeast(s, int(li-o.Off)) {
						m.gopanic("slice bounds out of range of %s", s)
					}
					last := s[len(s)-1]
					if li == 0 && last.S == nil && len(last.C) >= int(-o.Off) {
						n := append(append(Str{}, s[:len(s)-1]...), Atom{C: last.C[:len(last.C)+int(o.Off)]})
						return n.norm()
					}
					return symstr(m.sym(fmt.Sprintf("%s[%d:%d]", s.key(), li, o.Off), types.Typ[types.String], nil))
				}
			}
		}
	}
	m.undecided("substring of %s", s)
	return nil
}

// contains decides whether a shape contains a fixed text.
func (m *Machine) contains(s Str, c string) bool {
	s = m.resolve(s).norm()
	if v, ok := s.isConst(); ok {
		return strings.Contains(v, c)
	}
	if c == "" {
		return true
	}
	possible := false
	for _, a := range s {
		if a.S == nil {
			if strings.Contains(a.C, c) {
				return true
			}
			for i := range len(c) {
				if strings.IndexByte(a.C, c[i]) >= 0 && len(c) > 1 {
					possible = true
				}
			}
		} else if a.S.Dom == nil || a.S.Dom.Charset == nil {
			possible = true
		} else if a.S.Dom.onlyAllowed(c) {
			possible = true
		} else if len(c) > 1 {
			for i := range len(c) {
				if a.S.Dom.Charset[c[i]] {
					possible = true
				}
			}
			// every byte of c has to come from somewhere
			for i := range len(c) {
				found := false
				for _, b := range s {
					if b.S == nil && strings.IndexByte(b.C, c[i]) >= 0 || b.S != nil && (b.S.Dom == nil || b.S.Dom.Charset == nil || b.S.Dom.Charset[c[i]]) {
						found = true
					}
				}
				if !found {
					return false
				}
			}
		}
	}
	if !possible {
		return false
	}
	return m.decide(fmt.Sprintf("%s contains %q", s, c))
}

func (m *Machine) hasPrefix(s Str, c string) bool {
	s = m.resolve(s).norm()
	if v, ok := s.isConst(); ok {
		return strings.HasPrefix(v, c)
	}
	if c == "" {
		return true
	}
	if s[0].S == nil {
		n := min(len(c), len(s[0].C))
		if s[0].C[:n] != c[:n] {
			return false
		}
		if len(s[0].C) >= len(c) {
			return true
		}
	} else if d := s[0].S.Dom; d != nil && d.Charset != nil && d.NonEmpty && !d.Charset[c[0]] {
		return false
	} else if d != nil && d.Charset != nil && len(s) == 1 && !d.onlyAllowed(c) {
		return false
	}
	return m.decide(fmt.Sprintf("%s has prefix %q", s, c))
}

func (m *Machine) hasSuffix(s Str, c string) bool {
	s = m.resolve(s).norm()
	if v, ok := s.isConst(); ok {
		return strings.HasSuffix(v, c)
	}
	if c == "" {
		return true
	}
	l := s[len(s)-1]
	if l.S == nil {
		n := min(len(c), len(l.C))
		if l.C[len(l.C)-n:] != c[len(c)-n:] {
			return false
		}
		if len(l.C) >= len(c) {
			return true
		}
	} else if d := l.S.Dom; d != nil && d.Charset != nil && d.NonEmpty && !d.Charset[c[len(c)-1]] {
		return false
	}
	return m.decide(fmt.Sprintf("%s has suffix %q", s, c))
}

func (m *Machine) mapStr(s Str, fn string, cf func(string) string) Str {
	s = m.resolve(s).norm()
	var out Str
	for _, a := range s {
		if a.S == nil {
			out = append(out, Atom{C: cf(a.C)})
			continue
		}
		if ci, ok := a.S.Info.(*ciWord); ok {
			if fn == "lower" {
				out = append(out, Atom{C: strings.ToLower(ci.W)})
			} else {
				out = append(out, Atom{C: strings.ToUpper(ci.W)})
			}
			continue
		}
		if ws, ok := a.S.Info.(*wsRun); ok {
			out = append(out, Atom{S: m.wsSym(fn+"("+a.S.Key+")", ws)})
			continue
		}
		d := &Dom{}
		if a.S.Dom != nil {
			d.NonEmpty = a.S.Dom.NonEmpty
			if a.S.Dom.Charset != nil {
				var c [256]bool
				for b := range 256 {
					if a.S.Dom.Charset[b] {
						c[cf(string([]byte{byte(b)}))[0]] = true
					}
				}
				d.Charset = &c
			}
			if a.S.Dom.Enum != nil {
				v, _ := m.enum(a.S).isConst()
				out = append(out, Atom{C: cf(v)})
				continue
			}
		}
		if strings.HasPrefix(a.S.Key, fn+"(") {
			out = append(out, a)
			continue
		}
		out = append(out, Atom{S: m.sym(fn+"("+a.S.Key+")", types.Typ[types.String], d)})
	}
	return out
}

// wsRun is a non-empty run of blanks and comments of the grammar.
type wsRun struct{ Lang string }

func (m *Machine) wsSym(key string, w *wsRun) *Sym {
	s := m.sym(key, types.Typ[types.String], &Dom{NonEmpty: true})
	s.Info = w
	return s
}

func (m *Machine) trimSpace(s Str) Str {
	s = m.resolve(s).norm()
	if c, ok := s.isConst(); ok {
		return cstr(strings.TrimSpace(c))
	}
	edge := func(a Atom, left bool) (clean bool) {
		if a.S == nil {
			if left {
				return strings.TrimLeft(a.C, " \t\r\n\v\f") == a.C
			}
			return strings.TrimRight(a.C, " \t\r\n\v\f") == a.C
		}
		if _, ok := a.S.Info.(*ciWord); ok {
			return true
		}
		if _, ok := a.S.Info.(*Rec); ok {
			return true
		}
		if _, ok := a.S.Info.(*trimmed); ok {
			return true
		}
		d := a.S.Dom
		return d != nil && d.NonEmpty && d.Charset != nil && !d.Charset[' '] && !d.Charset['\t'] && !d.Charset['\n'] && !d.Charset['\r']
	}
	// fixed blanks at the ends
	for len(s) > 0 && s[0].S == nil {
		c := strings.TrimLeft(s[0].C, " \t\r\n\v\f")
		if c == "" {
			s = s[1:]
			continue
		}
		s = append(Str{{C: c}}, s[1:]...)
		break
	}
	for len(s) > 0 && s[len(s)-1].S == nil {
		c := strings.TrimRight(s[len(s)-1].C, " \t\r\n\v\f")
		if c == "" {
			s = s[:len(s)-1]
			continue
		}
		s = append(append(Str{}, s[:len(s)-1]...), Atom{C: c})
		break
	}
	if len(s) == 0 || edge(s[0], true) && edge(s[len(s)-1], false) {
		return s
	}
	if len(s) == 1 {
		x := m.sym("trim("+s[0].S.Key+")", types.Typ[types.String], nil)
		x.Info = &trimmed{s[0].S}
		return symstr(x)
	}
	return symstr(m.sym("trim("+s.key()+")", types.Typ[types.String], nil))
}

// symbolic makes an arbitrary value of a type, known only by its access path.
func (m *Machine) symbolic(key string, T types.Type) Value {
	if isNamed(T, "strings", "Builder") {
		return &TextBuf{}
	}
	nonNil := func() bool {
		if m.H.NonNil != nil && m.H.NonNil(key, T) {
			return true
		}
		return m.decide(key + " != nil")
	}
	switch t := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return m.decide(key)
		case t.Info()&types.IsString != 0:
			var d *Dom
			if m.H.StrDom != nil {
				d = m.H.StrDom(key)
			}
			return symstr(m.sym(key, T, d))
		default:
			return m.sym(key, T, nil)
		}
	case *types.Pointer:
		if !nonNil() {
			return Nil{}
		}
		var v Value = &Lazy{Force: func(m *Machine) Value { return m.symbolic(key, t.Elem()) }}
		o := m.newObj("input", t.Elem())
		o.Input, o.Desc = true, key
		return &Ptr{P: &v, Obj: o}
	case *types.Struct:
		s := &Struct{F: make([]Value, t.NumFields())}
		for i := range s.F {
			f := t.Field(i)
			s.F[i] = &Lazy{Force: func(m *Machine) Value { return m.symbolic(key+"."+f.Name(), f.Type()) }}
		}
		return s
	case *types.Array:
		a := &Array{E: make([]Value, t.Len())}
		for i := range a.E {
			a.E[i] = &Lazy{Force: func(m *Machine) Value { return m.symbolic(fmt.Sprintf("%s[%d]", key, i), t.Elem()) }}
		}
		return a
	case *types.Slice:
		lens := []int{0, 1, 2}
		if m.H.ListLens != nil {
			if l := m.H.ListLens(key); l != nil {
				lens = l
			}
		}
		n := lens[m.choose(len(lens), "len "+key, func(i int) string { return fmt.Sprintf("len(%s)=%d", key, lens[i]) })]
		if n == 0 {
			return Nil{}
		}
		return m.symSliceOf(key, t.Elem(), n)
	case *types.Map:
		o := m.newObj("map", nil)
		o.Input, o.Desc = true, key
		return &MapObj{Sym: key, Elem: t.Elem(), Obj: o}
	case *types.Interface:
		if !nonNil() {
			return Nil{}
		}
		if isErrorType(T) {
			return m.newError(key)
		}
		return m.sym(key, T, nil)
	case *types.Signature:
		if !nonNil() {
			return Nil{}
		}
		return m.sym(key, T, nil)
	case *types.Tuple:
		var r Tuple
		for i := 0; i < t.Len(); i++ {
			r = append(r, m.symbolic(fmt.Sprintf("%s.%d", key, i), t.At(i).Type()))
		}
		return r
	}
	m.undecided("unknown value of type %s", T)
	return nil
}

func (m *Machine) symSliceOf(key string, el types.Type, n int) Value {
	o := m.newObj("slice", nil)
	o.Input, o.Desc = true, key
	a := &Arr{E: make([]Value, n), Obj: o}
	for i := range a.E {
		if n > 4 && i < n-2 && m.H.Filler != nil {
			if v, ok := m.H.Filler(m, key, i, el); ok {
				a.E[i] = v
				continue
			}
		}
		a.E[i] = &Lazy{Force: func(m *Machine) Value { return m.symbolic(fmt.Sprintf("%s[%d]", key, i), el) }}
	}
	return &Slice{a, 0, n, n}
}

// plainQueries: in long lists only the last two queries vary, all others are
// valid queries.
func (m *Machine) plainQueries(key string, n int) {
	for i := 0; n > 4 && i < n-2; i++ {
		k := fmt.Sprintf("%s[%d]", key, i)
		m.Facts[fmt.Sprintf("trim(%s) == \"\"", k)] = false
		m.Facts[fmt.Sprintf("%s == \"\"", k)] = false
		m.Facts[fmt.Sprintf("syntax error in ⟨%s⟩", k)] = false
		m.blank["!"+k] = true
	}
}

func isErrorType(T types.Type) bool {
	return types.Identical(T, types.Universe.Lookup("error").Type())
}
