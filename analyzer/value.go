package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value. The possible dynamic types are
//
//	Nil, bool, int64, float64, Str, *Sym, *Ptr, *Slice, *MapObj, *Iface,
//	*Closure, *ssa.Function, *ssa.Builtin, *Native, *Struct, *Array, Tuple,
//	*TextBuf, *Lazy, *Regexp, Spread, *iterator
type Value interface{}

// Nil is the nil value of every type that has one.
type Nil struct{}

// Sym is a value that is only known by its origin (an access path or an
// uninterpreted operation on other values).
type Sym struct {
	Key  string
	T    types.Type
	Dom  *Dom
	Info any
}

func (s *Sym) String() string { return s.Key }

// Dom restricts what a string symbol can be.
type Dom struct {
	Name     string
	Charset  *[256]bool // nil: any byte
	NonEmpty bool
	May      func(string) bool // nil: any
	Enum     []string          // finite set of values
}

func charset(spec string) *[256]bool {
	var c [256]bool
	for i := 0; i < len(spec); i++ {
		if i+2 < len(spec) && spec[i+1] == '-' {
			for b := spec[i]; b <= spec[i+2]; b++ {
				c[b] = true
			}
			i += 2
			continue
		}
		c[spec[i]] = true
	}
	return &c
}

func (d *Dom) mayEqual(c string) bool {
	if d == nil {
		return true
	}
	if d.NonEmpty && c == "" {
		return false
	}
	if d.Charset != nil && !d.onlyAllowed(c) {
		return false
	}
	if d.Enum != nil {
		for _, e := range d.Enum {
			if e == c {
				return true
			}
		}
		return false
	}
	if d.May != nil {
		return d.May(c)
	}
	return true
}

func (d *Dom) onlyAllowed(c string) bool {
	if d == nil || d.Charset == nil {
		return true
	}
	for i := 0; i < len(c); i++ {
		if !d.Charset[c[i]] {
			return false
		}
	}
	return true
}

// Atom is a piece of a string: fixed text or a symbol.
type Atom struct {
	C   string
	S   *Sym
	Pos token.Pos // where it was written, for reports
}

// Str is a string shape.
type Str []Atom

func cstr(s string) Str {
	if s == "" {
		return Str{}
	}
	return Str{{C: s}}
}

func symstr(s *Sym) Str { return Str{{S: s}} }

func (s Str) isConst() (string, bool) {
	var b strings.Builder
	for _, a := range s {
		if a.S != nil {
			return "", false
		}
		b.WriteString(a.C)
	}
	return b.String(), true
}

func (s Str) norm() Str {
	var out Str
	for _, a := range s {
		if a.S == nil {
			if a.C == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].S == nil {
				out[n-1].C += a.C
				continue
			}
		}
		out = append(out, a)
	}
	return out
}

func (s Str) key() string {
	var b strings.Builder
	for _, a := range s.norm() {
		if a.S != nil {
			b.WriteString("⟨" + a.S.Key + "⟩")
		} else {
			b.WriteString(a.C)
		}
	}
	return b.String()
}

func (s Str) String() string { return fmt.Sprintf("%q", s.key()) }

// minLen is a lower bound of the length.
func (s Str) minLen() int {
	n := 0
	for _, a := range s {
		if a.S == nil {
			n += len(a.C)
		} else if a.S.Dom != nil && a.S.Dom.NonEmpty {
			n++
		}
	}
	return n
}

// Object identifies a piece of memory.
type Object struct {
	ID     int
	Kind   string
	Desc   string
	Node   *ANode // part of the analysed syntax tree
	Global *ssa.Global
	Input  bool // handed in by the caller of the analysed function
	Data   any
	T      types.Type
	Pos    token.Pos // where it was allocated
}

type Ptr struct {
	P   *Value
	Obj *Object
}

type Slice struct {
	Arr           *Arr
	Off, Len, Cap int
}

type Arr struct {
	E   []Value
	Obj *Object
}

// Spread stands for the unknown number of elements that the translation of a
// sub-tree appends to a list.
type Spread struct{ Rec *Rec }

type MapEntry struct{ K, V Value }

type MapObj struct {
	E     []MapEntry
	Sym   string // not empty: further entries are unknown
	Havoc int
	Elem  types.Type
	Obj   *Object
	Gone  map[string]bool
	miss  []Value
}

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn  *ssa.Function
	Env []Value
}

// Native is a function value implemented by the analyser.
type Native struct {
	Name string
	Fn   func(m *Machine, args []Value) Value
}

type Struct struct {
	F    []Value
	Node *ANode // value copy of a node of the analysed tree
}

type Array struct{ E []Value }

type Tuple []Value

// TextBuf models strings.Builder and bytes.Buffer.
type TextBuf struct {
	A Str
}

// Lazy is a field of a symbolic object that was not looked at yet.
type Lazy struct {
	Force func(m *Machine) Value
	done  bool
	v     Value
}

type Regexp struct{ Pattern string }

type RValue struct { // reflect.Value
	Ptr *Ptr // addressable
	V   Value
	T   types.Type
}

// Rec is the result of translating a sub-tree by a function that is already
// being analysed: the induction hypothesis.
type Rec struct {
	Node *ANode
	Fn   *ssa.Function
	Cfg  map[string]string
	N    int
}

func show(v Value) string {
	switch v := v.(type) {
	case nil:
		return "<unset>"
	case Nil:
		return "nil"
	case bool, int64, float64:
		return fmt.Sprint(v)
	case Str:
		return v.String()
	case *Sym:
		return v.Key
	case *Ptr:
		if v.Obj != nil {
			if v.Obj.Node != nil {
				return "&" + v.Obj.Node.Path
			}
			return fmt.Sprintf("&%s#%d", v.Obj.Kind, v.Obj.ID)
		}
		return "&?"
	case *Slice:
		var s []string
		for i := 0; i < v.Len; i++ {
			s = append(s, show(v.Arr.E[v.Off+i]))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case *Iface:
		return show(v.V)
	case *Struct:
		var s []string
		for _, f := range v.F {
			s = append(s, show(f))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case Tuple:
		var s []string
		for _, f := range v {
			s = append(s, show(f))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case Spread:
		return "values(" + v.Rec.Node.Path + ")..."
	case *TextBuf:
		return "text" + v.A.String()
	case *MapObj:
		var s []string
		for _, e := range v.E {
			s = append(s, show(e.K)+":"+show(e.V))
		}
		return "map{" + strings.Join(s, ",") + "}"
	case *Lazy:
		if v.done {
			return show(v.v)
		}
		return "…"
	case *Closure:
		return "func " + v.Fn.Name()
	case *ssa.Function:
		return "func " + v.Name()
	}
	return fmt.Sprintf("%T", v)
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
