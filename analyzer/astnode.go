package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"strings"
)

// Tags of tree nodes: the node kind, split where the grammar allows different
// children.
const (
	tAnd    = "and"
	tOr     = "or"
	tNot    = "not"
	tCmp    = "compare"
	tIn     = "in"
	tPred   = "predicate"
	tBetw   = "between"
	tParen  = "parentheses"
	tLit    = "literal"
	tArr    = "array"
	tFunc   = "function"
	tIdent  = "identifier"
	tRef    = "reference"
	tOp     = "operation"
	tNameOp = "" // placeholder
)

// what the grammar allows in each place
var (
	tagsPrimary = []string{tParen, tLit, tArr, tFunc, tIdent, tRef}
	tagsPred    = append([]string{tPred, tBetw}, tagsPrimary...)
	tagsCmp     = append([]string{tCmp, tIn}, tagsPred...)
	tagsNot     = append([]string{tNot}, tagsCmp...)
	tagsAll     = append([]string{tOr, tAnd}, tagsNot...)
	tagsValue   = []string{tLit, tArr}
)

var tagOps = map[string][]string{
	tAnd:  {"and"},
	tOr:   {"or"},
	tCmp:  {"eq", "neq", "gt", "gte", "lt", "lte", "like", "not like"},
	tIn:   {"in", "not in"},
	tBetw: {"between", "not between"},
	tPred: {"is null", "is not null", "is true", "is false", "is not true", "is not false"},
}

// name of the exported constant of each node kind
var tagConst = map[string]string{
	tAnd: "LogicExpressionType", tOr: "LogicExpressionType", tNot: "NotExpressionType", tCmp: "CompareExpressionType",
	tIn: "CompareExpressionType", tPred: "PredicatesExpressionType", tBetw: "BetweenExpressionType", tParen: "ParenthesesExpressionType",
	tLit: "ValueNodeType", tArr: "ValueNodeType", tFunc: "FunctionExpressionType", tIdent: "IdentifierNodeType",
	tRef: "ReferenceNodeType", tOp: "OperationNodeType",
}

var litConst = map[string]string{"int": "IntValueType", "string": "StringValueType", "bool": "BooleanValueType", "null": "NullValueType", "float": "FloatValueType"}

var litKinds = []string{"int", "string", "bool", "null"}

// ANode is a node of an arbitrary tree that parsing can return. What kind of
// node it is, its operator, literal type and list lengths are decided when
// they are looked at.
type ANode struct {
	Path    string
	Root    bool
	Allowed []string
	Ops     []string // for operation nodes
	Tag     string
	Lit     string
	Uniform bool // all list elements are integer literals
	ListN   int  // length of Params, Array or Names, -1 unknown
	Kids    map[string]*ANode
	Ptr     *Ptr
	parent  *ANode
	litOnly []string
	args    bool     // list of arguments, before the function is built
	inPlace bool     // looked at as part of its parent
	through bool     // no hypothesis applies to it
	inlined bool     // the right child is looked at in place
	kidOps  []string // restricts the operators of the node
}

func (m *Machine) newNode(path string, allowed []string) *ANode {
	n := &ANode{Path: path, Allowed: allowed, ListN: -1, Kids: map[string]*ANode{}}
	T := m.P.Type("miniquery", "Node")
	if T == nil {
		m.undecided("type miniquery.Node not found")
	}
	st := T.Underlying().(*types.Struct)
	s := &Struct{F: make([]Value, st.NumFields()), Node: n}
	for i := range s.F {
		name, ft := st.Field(i).Name(), st.Field(i).Type()
		s.F[i] = &Lazy{Force: func(m *Machine) Value { return n.field(m, name, ft) }}
	}
	var v Value = s
	o := m.newObj("node", T)
	o.Node = n
	n.Ptr = &Ptr{P: &v, Obj: o}
	return n
}

func (m *Machine) newRoot(path string) *ANode {
	n := m.newNode(path, tagsAll)
	n.Root = true
	return n
}

func (m *Machine) repoConst(pkg, name string) string {
	sp := m.P.Repo[pkg]
	if sp != nil {
		if c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok && c.Val().Kind() == constant.String {
			return constant.StringVal(c.Val())
		}
	}
	m.undecided("constant %s.%s not found", pkg, name)
	return ""
}

// tag decides the kind of the node.
func (n *ANode) tag(m *Machine) string {
	if n.Tag == "" {
		n.Tag = n.Allowed[m.choose(len(n.Allowed), n.Path, func(i int) string { return n.Path + " is " + n.Allowed[i] })]
	}
	return n.Tag
}

func (n *ANode) lit(m *Machine) string {
	if n.Lit == "" {
		k := litKinds
		if n.litOnly != nil {
			k = n.litOnly
		}
		n.Lit = k[m.choose(len(k), n.Path, func(i int) string { return n.Path + " is " + k[i] })]
	}
	return n.Lit
}

// op decides the operator of a node that has one.
func (n *ANode) op(m *Machine) string {
	o := n.kid(m, "Op")
	s, _ := m.enum(o.opSym(m)).isConst()
	return s
}

func (n *ANode) opSym(m *Machine) *Sym {
	return m.sym(n.Path+".Operation", types.Typ[types.String], &Dom{Enum: n.Ops})
}

func (n *ANode) child(m *Machine, name string, allowed []string) *ANode {
	if k := n.Kids[name]; k != nil {
		return k
	}
	k := m.newNode(n.Path+"."+name, allowed)
	k.parent = n
	n.Kids[name] = k
	return k
}

// kid returns the child in a place, nil if nodes of this kind have none.
func (n *ANode) kid(m *Machine, name string) *ANode {
	t := n.tag(m)
	switch name {
	case "Expression":
		switch t {
		case tParen:
			return n.child(m, name, tagsAll)
		case tNot:
			return n.child(m, name, tagsCmp)
		}
	case "Op":
		if ops := tagOps[t]; ops != nil {
			k := n.child(m, name, []string{tOp})
			k.Tag = tOp
			if k.Ops == nil {
				k.Ops = ops
				if n.kidOps != nil {
					k.Ops = n.kidOps
				}
			}
			return k
		}
	case "Left":
		switch t {
		case tAnd:
			return n.child(m, name, append([]string{tAnd}, tagsNot...))
		case tOr:
			return n.child(m, name, tagsAll)
		case tCmp:
			return n.child(m, name, tagsCmp)
		case tIn:
			return n.child(m, name, tagsPred)
		case tPred:
			return n.child(m, name, append([]string{tBetw}, tagsPrimary...))
		case tBetw:
			return n.child(m, name, tagsPrimary)
		}
	case "Right":
		switch t {
		case tAnd:
			return n.child(m, name, tagsNot)
		case tOr:
			return n.child(m, name, append([]string{tAnd}, tagsNot...))
		case tCmp:
			return n.child(m, name, append([]string{tIn}, tagsPred...))
		case tIn:
			k := n.child(m, name, []string{tArr})
			k.Tag = tArr
			return k
		}
	}
	return nil
}

// list returns the list children (Params, Array).
func (n *ANode) list(m *Machine, name string) []*ANode {
	t := n.tag(m)
	var out []*ANode
	switch {
	case name == "Params" && t == tBetw:
		for i := 0; i < 2; i++ {
			out = append(out, n.child(m, fmt.Sprintf("Params[%d]", i), tagsValue))
		}
	case name == "Params" && t == tFunc:
		for i := 0; i < n.listN(m, name, 0); i++ {
			out = append(out, n.child(m, fmt.Sprintf("Params[%d]", i), tagsAll))
		}
	case name == "Array" && t == tArr:
		for i := 0; i < n.listN(m, name, 0); i++ {
			if n.args {
				out = append(out, n.child(m, fmt.Sprintf("Array[%d]", i), tagsAll))
				continue
			}
			k := n.child(m, fmt.Sprintf("Array[%d]", i), []string{tLit})
			k.Tag = tLit
			if n.ListN > 3 {
				k.litOnly = []string{"int"}
			}
			out = append(out, k)
		}
	default:
		return nil
	}
	return out
}

func (n *ANode) listN(m *Machine, name string, lo int) int {
	if n.ListN < 0 {
		var lens []int
		for i := lo; i <= lo+3; i++ {
			lens = append(lens, i)
		}
		for _, t := range m.P.Thresholds {
			if int(t) > lo+3 {
				lens = append(lens, int(t))
			}
		}
		n.ListN = lens[m.choose(len(lens), n.Path+"."+name, func(i int) string { return fmt.Sprintf("len(%s.%s)=%d", n.Path, name, lens[i]) })]
	}
	return n.ListN
}

var identRe = regexp.MustCompile(`^[a-zA-Z][_a-zA-Z0-9]*$`)

func identDom() *Dom {
	return &Dom{Name: "identifier", NonEmpty: true, Charset: charset("a-zA-Z0-9_"), May: func(s string) bool {
		return identRe.MatchString(s) && !strings.HasPrefix(strings.ToLower(s), "not")
	}}
}

func (n *ANode) nameSym(m *Machine, key string) Str {
	return symstr(m.sym(key, types.Typ[types.String], identDom()))
}

func (n *ANode) names(m *Machine) []Str {
	if n.tag(m) != tRef {
		return nil
	}
	var out []Str
	for i := 0; i < n.listN(m, "Names", 2); i++ {
		out = append(out, n.nameSym(m, fmt.Sprintf("%s.Names[%d]", n.Path, i)))
	}
	return out
}

// field gives the value of a field of the node.
func (n *ANode) field(m *Machine, name string, T types.Type) Value {
	t := n.tag(m)
	switch name {
	case "Type":
		return cstr(m.repoConst("miniquery", tagConst[t]))
	case "ValueType":
		switch t {
		case tArr:
			return cstr(m.repoConst("miniquery", "ArrayValueType"))
		case tLit:
			return cstr(m.repoConst("miniquery", litConst[n.lit(m)]))
		}
	case "Int":
		if t == tLit && n.lit(m) == "int" {
			return m.sym(n.Path+".Int", T, nil)
		}
	case "Float":
		if t == tLit && n.lit(m) == "float" {
			return m.sym(n.Path+".Float", T, nil)
		}
	case "Str":
		if t == tLit && n.lit(m) == "string" {
			return symstr(m.sym(n.Path+".Str", T, nil))
		}
	case "Bool":
		if t == tLit && n.lit(m) == "bool" {
			return m.decide(n.Path + ".Bool")
		}
	case "Operation":
		if t == tOp {
			return symstr(n.opSym(m))
		}
	case "Name":
		if t == tIdent || t == tFunc {
			return n.nameSym(m, n.Path+".Name")
		}
	case "Names":
		if t == tRef {
			a := &Arr{Obj: n.Ptr.Obj}
			for _, s := range n.names(m) {
				a.E = append(a.E, s)
			}
			return &Slice{a, 0, len(a.E), len(a.E)}
		}
	case "Params", "Array":
		if name == "Params" && (t == tBetw || t == tFunc) || name == "Array" && t == tArr {
			a := &Arr{Obj: n.Ptr.Obj}
			for _, k := range n.list(m, name) {
				a.E = append(a.E, k.Ptr)
			}
			return &Slice{a, 0, len(a.E), len(a.E)}
		}
	case "Left", "Right", "Op", "Expression":
		if k := n.kid(m, name); k != nil {
			return k.Ptr
		}
	}
	return m.zero(T)
}

// litValue is the Go value of a literal.
func (n *ANode) litValue(m *Machine) Value {
	switch n.lit(m) {
	case "int":
		return m.sym(n.Path+".Int", types.Typ[types.Int], nil)
	case "string":
		return symstr(m.sym(n.Path+".Str", types.Typ[types.String], nil))
	case "bool":
		return m.decide(n.Path + ".Bool")
	}
	return Nil{}
}

// find looks up a node of the tree by its path.
func (n *ANode) find(path string) *ANode {
	if n.Path == path {
		return n
	}
	for _, k := range n.Kids {
		if strings.HasPrefix(path, k.Path) {
			if r := k.find(path); r != nil {
				return r
			}
		}
	}
	return nil
}
