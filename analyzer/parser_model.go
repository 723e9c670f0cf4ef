package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- abstract values of the recogniser

// posBase is where a position is measured from: the start of the rule under
// analysis or the end of what another rule matched.
type posBase struct {
	Rule string // "" for the start
	From *posVal
	key  string
}

type posVal struct {
	Base *posBase
	Off  int
}

func (p *posVal) key() string {
	if p.Off == 0 {
		return p.Base.key
	}
	return fmt.Sprintf("%s%+d", p.Base.key, p.Off)
}

func (p *posVal) add(n int) *posVal { return &posVal{p.Base, p.Off + n} }

// chrVal is the character at a position.
type chrVal struct{ Pos *posVal }

// tokIdx is a place in the list of tokens, known by the tokens in front of it.
type tokIdx struct {
	Parent  *tokIdx
	Tok     ptok
	gen     int // of the parent when this was made
	writes  int
	pending *ptok
	id      int
}

// ptok is a token: one added by the code or all tokens of a matched rule.
type ptok struct {
	Rule       int64
	Begin, End Value
	Sub        string
	At         *posVal
}

// segTok is a token for tree building; at is called when it is looked at.
type segTok struct {
	ptok
	at func()
}

// runeBuf is the text as characters.
type runeBuf struct {
	S   Str
	End bool
}

// runeSpan is a part of the text.
type runeSpan struct{ Begin, End *posVal }

// --- the parser in the source

type parserInfo struct {
	c          *Ctx
	g          *pegGrammar
	init       *ssa.Function
	table      *ssa.Function // fills the table of rules
	tokT       types.Type    // a token
	toksT      types.Type    // the list of tokens
	alias      map[string]string
	exec       *ssa.Function
	pegT       types.Type       // MiniQueryPeg
	names      map[int64]string // rule number to rule name
	nums       map[string]int64
	dirty      map[string]bool // rules that do not restore the position when they fail
	callees    map[string]map[string]bool
	loops      map[*ssa.Function]map[*ssa.BasicBlock]bool
	noTok      map[string]bool
	maxIter    int
	iters      map[string]int // other bounds for some rules
	execConsts []int
	badPos     token.Pos
	quiet      map[*ssa.If]bool
	cases      map[*ssa.BinOp]runeSet
}

func newParserInfo(c *Ctx) *parserInfo {
	pi := &parserInfo{c: c, g: parsePeg(referencePeg), names: map[int64]string{}, nums: map[string]int64{}, dirty: map[string]bool{},
		callees: map[string]map[string]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, quiet: map[*ssa.If]bool{}, cases: map[*ssa.BinOp]runeSet{}, maxIter: 3}
	sp := c.P.Repo["miniquery"]
	if sp == nil {
		return pi
	}
	if t := sp.Type("MiniQueryPeg"); t != nil {
		pi.pegT = t.Type()
		pi.layout()
	}
	pi.ruleNames(sp)
	pi.init = c.P.Func("miniquery", "*MiniQueryPeg.Init")
	pi.exec = c.P.Func("miniquery", "*MiniQueryPeg.Execute")
	pi.table = pi.init
	most := 0
	var find func(f *ssa.Function)
	find = func(f *ssa.Function) {
		if n := tableStores(f); n > most {
			pi.table, most = f, n
		}
		for _, a := range f.AnonFuncs {
			find(a)
		}
	}
	for _, f := range c.P.funcs(sp) {
		find(f)
	}
	pi.bounds()
	return pi
}

// layout finds the fields of the parser and of a token by their types.
func (pi *parserInfo) layout() {
	pi.alias = map[string]string{}
	T, ok := pi.pegT.Underlying().(*types.Struct)
	if !ok {
		return
	}
	set := func(as, name string) {
		if pi.alias[as] == "" || name == as {
			pi.alias[as] = name
		}
	}
	for i := 0; i < T.NumFields(); i++ {
		f := T.Field(i)
		if isTokensT(f.Type()) {
			set("tokens32", f.Name())
			pi.toksT = f.Type()
			pi.tokT = tokenElem(f.Type())
			continue
		}
		switch t := f.Type().Underlying().(type) {
		case *types.Slice:
			if isBasic(t.Elem(), types.Int32) {
				set("buffer", f.Name())
			}
			if isRuleFunc(t.Elem()) {
				set("rules", f.Name())
			}
		case *types.Array:
			if isRuleFunc(t.Elem()) {
				set("rules", f.Name())
			}
		case *types.Signature:
			if t.Variadic() {
				set("parse", f.Name())
			} else if t.Params().Len() == 0 && t.Results().Len() == 0 {
				set("reset", f.Name())
			}
		}
	}
}

func isBasic(T types.Type, k types.BasicKind) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

func isRuleFunc(T types.Type) bool {
	s, ok := T.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 0 && s.Results().Len() == 1 && isBool(s.Results().At(0).Type())
}

// isTokenT: a rule and two positions
func isTokenT(T types.Type) bool {
	_, ok := types.Unalias(T).(*types.Named)
	s, ok2 := T.Underlying().(*types.Struct)
	if !ok || !ok2 || s.NumFields() < 3 {
		return false
	}
	if _, ok := types.Unalias(s.Field(0).Type()).(*types.Named); !ok {
		return false
	}
	for i := 0; i < 3; i++ {
		b, ok := s.Field(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return false
		}
	}
	return true
}

// isTokensT: a list of tokens
func isTokensT(T types.Type) bool { return tokenElem(T) != nil }

func tokenElem(T types.Type) types.Type {
	if _, ok := types.Unalias(T).(*types.Named); !ok {
		return nil
	}
	s, ok := T.Underlying().(*types.Struct)
	if !ok || s.NumFields() == 0 {
		return nil
	}
	if l, ok := s.Field(0).Type().Underlying().(*types.Slice); ok && isTokenT(l.Elem()) {
		return l.Elem()
	}
	return nil
}

// tokField tells what a field of a token is: 0 the rule, 1 the begin, 2 the end.
func (pi *parserInfo) tokField(i int) int {
	s := pi.tokT.Underlying().(*types.Struct)
	names := []string{s.Field(0).Name(), "begin", "end"}
	for _, n := range names[1:] {
		if !slices.Contains(structFields(pi.tokT), n) {
			if i < 3 {
				return i
			}
			return -1
		}
	}
	return slices.Index(names, s.Field(i).Name())
}

// canonical is the name of a field of the parser in this analysis.
func (pi *parserInfo) canonical(name string) string {
	for as, n := range pi.alias {
		if n == name {
			return as
		}
	}
	return name
}

// ruleNames numbers the rules: by the constants, or else by the list of names.
func (pi *parserInfo) ruleNames(sp *ssa.Package) {
	if pi.tokT == nil {
		return
	}
	ruleT := pi.tokT.Underlying().(*types.Struct).Field(0).Type()
	for _, n := range sp.Pkg.Scope().Names() {
		k, ok := sp.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok || !strings.HasPrefix(n, "rule") || !types.Identical(k.Type(), ruleT) {
			continue
		}
		if v, ok := constant.Int64Val(k.Val()); ok {
			pi.names[v] = strings.TrimPrefix(n, "rule")
			pi.nums[strings.TrimPrefix(n, "rule")] = v
		}
	}
	if _, ok := pi.nums["Grammar"]; ok {
		return
	}
	lists := map[ssa.Value]map[int64]string{}
	for _, b := range sp.Func("init").Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			k, ok1 := ia.Index.(*ssa.Const)
			v, ok2 := st.Val.(*ssa.Const)
			if !ok1 || !ok2 || v.Value == nil || v.Value.Kind() != constant.String {
				continue
			}
			if lists[ia.X] == nil {
				lists[ia.X] = map[int64]string{}
			}
			lists[ia.X][k.Int64()] = constant.StringVal(v.Value)
		}
	}
	for _, l := range lists {
		nums := map[string]int64{}
		for k, n := range l {
			nums[n] = k
		}
		if _, ok := nums["Grammar"]; ok {
			pi.names, pi.nums = l, nums
		}
	}
}

// tableStores counts the functions of rules that are put in a table.
func tableStores(f *ssa.Function) (n int) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if _, ok := s.Addr.(*ssa.IndexAddr); ok && isRuleFunc(s.Val.Type()) {
					n++
				}
			}
		}
	}
	return
}

// bounds finds the constants that counters in parsing and tree building are
// compared with. Lists get longer and stacks deeper than these.
func (pi *parserInfo) bounds() {
	p := pi.c.P
	pi.iters = map[string]int{}
	list := 0
	for _, f := range p.funcs(p.Repo["miniquery"]) {
		file := p.Fset.Position(f.Pos()).Filename
		name := f.Name()
		recv := ""
		if r := f.Signature.Recv(); r != nil {
			recv = types.TypeString(r.Type(), func(*types.Package) string { return "" })
		}
		if f == pi.init {
			f = pi.table
		}
		switch {
		case f == pi.table:
			for _, a := range f.AnonFuncs {
				if r := pi.tableRule(a); r != "" {
					for _, k := range counterConsts(a) {
						if k <= 300 {
							pi.iters[r] = max(pi.iters[r], k+2)
						}
					}
				}
			}
		case f == pi.exec:
			pi.execConsts = counterConsts(f)
		case f.Signature.Recv() != nil && isTokensT(deref(f.Signature.Recv().Type())):
			for _, k := range counterConsts(f) {
				p.TokenThresholds = append(p.TokenThresholds, int64(k))
			}
		case file != "" && !strings.HasSuffix(file, ".peg.go") && (recv == "*Tree" || recv == "" || name == "Parse"):
			for _, k := range counterConsts(f) {
				if k <= 2000 {
					p.DepthThresholds = append(p.DepthThresholds, int64(k))
				}
				if k <= 128 {
					list = max(list, k)
				}
			}
		}
	}
	if list > 0 {
		for _, r := range []string{"ArgumentList", "Array", "IdentifierReference", "LogicExpression", "CompareExpression"} {
			if r != "LogicExpression" || list <= 100 {
				pi.iters[r] = max(pi.iters[r], list+2)
			}
		}
	}
}

// counterConsts are the integer constants above 1 that a function (and the
// functions in it) compares numbers with, and the sizes of its arrays.
func counterConsts(fn *ssa.Function) (out []int) {
	seen := map[int]bool{}
	add := func(n int64) {
		if n > 1 && n <= 100000 && !seen[int(n)] {
			seen[int(n)] = true
			out = append(out, int(n))
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment != "varargs" && a.Comment != "slicelit" && a.Comment != "makeslice" {
				if t, ok := a.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
					add(t.Len())
				}
			}
			if s, ok := in.(*ssa.Slice); ok {
				for _, v := range []ssa.Value{s.Low, s.High, s.Max} {
					if k, ok := v.(*ssa.Const); ok && k.Value != nil {
						add(k.Int64())
					}
				}
			}
			if call, ok := in.(*ssa.Call); ok {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
					for _, v := range call.Call.Args {
						if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
							add(k.Int64())
						}
					}
				}
			}
			x, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch x.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ, token.REM:
			default:
				continue
			}
			t, ok := x.X.Type().(*types.Basic)
			if !ok || t.Info()&types.IsInteger == 0 || t.Kind() == types.Int32 || t.Kind() == types.Uint8 {
				continue
			}
			for _, v := range []ssa.Value{x.X, x.Y} {
				if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
					if n, ok := constant.Int64Val(k.Value); ok {
						add(n)
					}
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		out = append(out, counterConsts(a)...)
	}
	return out
}

// iterations is how often the loops of the rule under analysis are repeated.
func (st *parserState) iterations() int { return max(st.pi.maxIter, st.pi.iters[st.rule]) }

// loopHeaders finds the blocks that are entered again from inside the loop.
func (pi *parserInfo) loopHeaders(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	if h, ok := pi.loops[fn]; ok {
		return h
	}
	h := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				h[s] = true
			}
		}
	}
	pi.loops[fn] = h
	return h
}

// parserState is the state of one partition.
type parserState struct {
	m       *Machine
	pi      *parserInfo
	rule    string // under analysis, "" for Parse
	ruleOf  map[*ssa.Function]string
	chars   map[string]runeSet
	cells   map[string]*Ptr // captured variables by name
	extra   map[string]*Ptr // captured variables that rules write besides these
	start   *posVal
	ntok    int
	active  bool // a rule is running
	visits  map[*Frame]map[*ssa.BasicBlock]*loopVisit
	bases   map[string]*posBase
	peg     *Ptr
	seg     []segTok // what Tokens returns
	useSeg  bool
	noLoop  []string
	matched bool
	root    *ANode
	onRule  func(m *Machine, name string) (bool, bool)
	trims   []Value
	execs   int
	onExec  func(m *Machine, recv Value)
}

type loopVisit struct {
	n   int
	pos *posVal
}

func newParserState(pi *parserInfo, rule string) *parserState {
	st := &parserState{pi: pi, rule: rule, ruleOf: map[*ssa.Function]string{}, chars: map[string]runeSet{}, cells: map[string]*Ptr{}, extra: map[string]*Ptr{},
		visits: map[*Frame]map[*ssa.BasicBlock]*loopVisit{}, bases: map[string]*posBase{}}
	st.start = &posVal{Base: &posBase{key: "p"}}
	return st
}

func state(m *Machine) *parserState { st, _ := m.Data.(*parserState); return st }

// in decides whether the character at a position is in a set.
func (st *parserState) in(m *Machine, p *posVal, set runeSet) bool {
	cur, ok := st.chars[p.key()]
	if !ok {
		cur = allRunes
	}
	yes, no := cur.inter(set), cur.minus(set)
	if len(yes) == 0 {
		return false
	}
	if len(no) == 0 {
		return true
	}
	sets := [2]runeSet{yes, no}
	i := m.choose(2, "char at "+p.key(), func(i int) string { return fmt.Sprintf("char at %s in %s", p.key(), sets[i]) })
	st.chars[p.key()] = sets[i]
	return i == 0
}

// valid checks that a position is not behind the end of the text.
func (st *parserState) valid(m *Machine, p *posVal) bool {
	for i := 0; i < p.Off; i++ {
		if st.in(m, &posVal{p.Base, i}, onlyEnd) {
			return false
		}
	}
	return p.Off >= 0
}

// consumed: is a strictly behind b, with b on the way to a
func (st *parserState) consumed(b, a *posVal) (path, strict bool) {
	cur := a
	for {
		if cur.Base == b.Base && cur.Off >= b.Off {
			return true, strict || cur.Off > b.Off
		}
		if cur.Off > 0 {
			strict = true
		}
		if cur.Base.Rule == "" {
			return false, false
		}
		if !st.pi.g.nullable[cur.Base.Rule] {
			strict = true
		}
		if cur.Base.Rule == "_" && st.m.Facts["SpaceComment matches at "+cur.Base.From.key()] {
			strict = true
		}
		cur = cur.Base.From
	}
}

// endOf is the position behind what a rule matched.
func (st *parserState) endOf(rule string, p *posVal) *posVal {
	k := fmt.Sprintf("⟨%s %s⟩", rule, p.key())
	b := st.bases[k]
	if b == nil {
		b = &posBase{Rule: rule, From: p, key: k}
		st.bases[k] = b
	}
	return &posVal{Base: b}
}

// match is the assumption about other rules: whether one matches at a position
// and where it ends. Both sides of the comparison use the same answers.
func (st *parserState) match(m *Machine, rule string, p *posVal) (*posVal, bool) {
	blank := p.Off == 0 && p.Base.Rule == "_"
	switch rule {
	case "_":
		if blank {
			return p, true
		}
		return st.endOf("_", p), true
	case "__", "SpaceComment":
		if blank {
			return nil, false
		}
	}
	g := st.pi.g
	if !g.nullable[rule] {
		cur, ok := st.chars[p.key()]
		if !ok {
			cur = allRunes
		}
		first := cur.inter(g.first[rule])
		if len(first) == 0 {
			return nil, false
		}
		key := rule
		if rule == "__" {
			key = "SpaceComment"
		}
		if !m.decide(fmt.Sprintf("%s matches at %s", key, p.key())) {
			return nil, false
		}
		st.chars[p.key()] = first
	} else if rule == "EndOfFile" {
		if !st.in(m, p, onlyEnd) {
			return nil, false
		}
		return p, true
	} else if !m.decide(fmt.Sprintf("%s matches at %s", rule, p.key())) {
		return nil, false
	}
	if rule == "__" {
		return st.endOf("_", p), true
	}
	return st.endOf(rule, p), true
}

// --- hooks

func (pi *parserInfo) hooks() *Hooks {
	return &Hooks{
		Call: func(m *Machine, fn *ssa.Function, args []Value, pos token.Pos) (Value, bool) {
			st := state(m)
			if st == nil {
				return nil, false
			}
			if r, ok := st.ruleOf[fn]; ok {
				return st.callRule(m, r, fn)
			}
			switch pi.tokensMethod(fn) {
			case "Add":
				return st.addToken(m, args)
			case "Trim":
				if _, ok := args[1].(*tokIdx); ok {
					st.trims = append(st.trims, args[1])
					return Nil{}, true
				}
			case "Tokens":
				if st.useSeg {
					return st.tokenSlice(m), true
				}
			}
			if fn == pi.exec && st.onExec != nil {
				st.onExec(m, args[0])
				return Nil{}, true
			}
			return nil, false
		},
		BinOp:   pi.binop,
		Convert: pi.convert,
		SliceOf: func(m *Machine, x, lo, hi Value) (Value, bool) {
			if b, ok := x.(*runeBuf); ok {
				l, ok1 := lo.(*posVal)
				h, ok2 := hi.(*posVal)
				if !ok1 || !ok2 {
					m.undecided("part %s:%s of the text", show(lo), show(hi))
				}
				if !b.End {
					m.undecided("part of a text without end mark")
				}
				if path, _ := state(m).consumed(l, h); !path {
					m.gopanic("slice bounds out of range: %s:%s of the text", l.key(), h.key())
				}
				return &runeSpan{l, h}, true
			}
			return nil, false
		},
		Builtin: func(m *Machine, name string, args []Value) (Value, bool) {
			if len(args) == 0 {
				return nil, false
			}
			b, ok := args[0].(*runeBuf)
			if !ok {
				return nil, false
			}
			switch name {
			case "len":
				return m.sym("len(text)", types.Typ[types.Int], nil), true
			case "append":
				if s, ok := args[1].(*Slice); ok && s.Len == 1 && s.Arr.E[s.Off] == Value(int64(endRune)) && !b.End {
					return &runeBuf{b.S, true}, true
				}
			}
			m.undecided("%s of the text", name)
			return nil, false
		},
		Index: func(m *Machine, base, idx Value) (Value, bool) {
			b, ok := base.(*runeBuf)
			if !ok {
				return nil, false
			}
			if s, ok := idx.(*Sym); ok && s.Key == "(len(text)-1)" && !b.End {
				var v Value = &chrVal{&posVal{Base: &posBase{key: "last"}}}
				state(m).chars["last"] = anyRune
				return &Ptr{P: &v, Obj: m.newObj("char", nil)}, true
			}
			p, ok := idx.(*posVal)
			if !ok {
				m.undecided("index %s of the text", show(idx))
			}
			if !b.End {
				m.gopanic("the text is read without end mark")
			}
			if !state(m).valid(m, p) {
				m.gopanic("index out of range: character %s behind the end of the text", p.key())
			}
			var v Value = &chrVal{p}
			return &Ptr{P: &v, Obj: m.newObj("char", nil)}, true
		},
		Instr: func(m *Machine, f *Frame, in ssa.Instruction) {
			st := state(m)
			if st == nil || !st.active {
				return
			}
			st.atBlock(m, f, in)
		},
	}
}

// tokensMethod names a method of the list of tokens.
func (pi *parserInfo) tokensMethod(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil && pi.toksT != nil && types.Identical(deref(r.Type()), pi.toksT) && fn.Synthetic == "" {
		return fn.Name()
	}
	return ""
}

func deref(T types.Type) types.Type {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return T
}

// atBlock bounds the iterations of loops and checks that they advance.
func (st *parserState) atBlock(m *Machine, f *Frame, in ssa.Instruction) {
	b := f.Block
	first := 0
	for first < len(b.Instrs) {
		if _, ok := b.Instrs[first].(*ssa.Phi); !ok {
			break
		}
		first++
	}
	if f.PC != first || !m.P.inRepo(f.Fn.Pos()) || !st.pi.loopHeaders(f.Fn)[b] {
		return
	}
	rule := f.Fn.Parent() == st.pi.table || st.ruleOf[f.Fn] != ""
	v := st.visits[f]
	if v == nil {
		v = map[*ssa.BasicBlock]*loopVisit{}
		st.visits[f] = v
	}
	pos, ok := (*st.cells["position"].P).(*posVal)
	if !ok {
		if !rule {
			return
		}
		m.undecided("position is %s in a loop", show(*st.cells["position"].P))
	}
	l := v[b]
	if l == nil {
		v[b] = &loopVisit{n: 1, pos: pos}
		return
	}
	if !rule && pos.key() == l.pos.key() {
		return // a loop over something else
	}
	if _, strict := st.consumed(l.pos, pos); !strict {
		st.noLoop = append(st.noLoop, fmt.Sprintf("the loop can repeat without consuming a character (from %s to %s)", l.pos.key(), pos.key()))
		m.gopanic("endless loop: repeats without consuming a character")
	}
	l.n++
	l.pos = pos
	if l.n > st.iterations()+1 {
		m.abort("loop bound")
	}
}

func (st *parserState) callRule(m *Machine, r string, fn *ssa.Function) (Value, bool) {
	if st.onRule != nil {
		v, ok := st.onRule(m, r)
		return v, ok
	}
	ref := st.pi.g.Rules[r] != nil
	top := !st.active
	if top {
		return nil, false
	}
	pos, ok := (*st.cells["position"].P).(*posVal)
	if !ok {
		m.undecided("rule %s is called at position %s", r, show(*st.cells["position"].P))
	}
	if !ref {
		if m.depth > 60 {
			m.undecided("recursion through rule %s, which is not in the reference grammar", r)
		}
		return nil, false // actions and additional rules are part of the caller
	}
	if path, strict := st.consumed(st.start, pos); !path || !strict {
		k := st.pi.callees[st.rule]
		if k == nil {
			k = map[string]bool{}
			st.pi.callees[st.rule] = k
		}
		k[r] = true
	}
	if !st.valid(m, pos) {
		m.gopanic("rule %s is tried behind the end of the text", r)
	}
	for n, p := range st.extra {
		*p.P = m.fresh("state "+n, nil)
	}
	end, ok := st.match(m, r, pos)
	if !ok {
		if st.pi.dirty[r] {
			*st.cells["position"].P = &posVal{Base: &posBase{key: "somewhere after " + r}}
			*st.cells["tokenIndex"].P = &tokIdx{id: -1}
		}
		return false, true
	}
	*st.cells["position"].P = end
	idx, ok := (*st.cells["tokenIndex"].P).(*tokIdx)
	if !ok {
		m.undecided("number of tokens is %s", show(*st.cells["tokenIndex"].P))
	}
	*st.cells["tokenIndex"].P = st.next(idx, ptok{Sub: r, At: pos})
	return true, true
}

func (st *parserState) next(i *tokIdx, t ptok) *tokIdx {
	st.ntok++
	i.writes++
	return &tokIdx{Parent: i, Tok: t, gen: i.writes, id: st.ntok}
}

func (st *parserState) addToken(m *Machine, args []Value) (Value, bool) {
	idx, ok := args[4].(*tokIdx)
	if !ok {
		return nil, false
	}
	rule, ok := args[1].(int64)
	if !ok {
		m.undecided("token of unknown rule %s", show(args[1]))
	}
	idx.pending = &ptok{Rule: rule, Begin: args[2], End: args[3]}
	idx.writes++
	return Nil{}, true
}

// tokens lists the tokens up to a place.
func (st *parserState) tokens(m *Machine, i *tokIdx) []ptok {
	var out []ptok
	for i.Parent != nil {
		if i.gen != i.Parent.writes {
			m.gopanic("a token was overwritten that is still in use")
		}
		out = append(out, i.Tok)
		i = i.Parent
	}
	if i.id != 0 {
		m.gopanic("tokens of an abandoned match are used")
	}
	for a, b := 0, len(out)-1; a < b; a, b = a+1, b-1 {
		out[a], out[b] = out[b], out[a]
	}
	return out
}

func (pi *parserInfo) binop(m *Machine, op token.Token, x, y Value) (Value, bool) {
	st := state(m)
	if st == nil {
		return nil, false
	}
	flip := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
	if _, ok := y.(*chrVal); ok {
		if _, ok := x.(*chrVal); !ok {
			x, y = y, x
			op = flip[op]
		}
	}
	switch a := x.(type) {
	case *chrVal:
		c, ok := y.(int64)
		if !ok {
			m.undecided("comparison of a character with %s", show(y))
		}
		lo, hi := rune(0), rune(endRune)
		if c < -1 {
			c = -1
		} else if c > endRune+1 {
			c = endRune + 1
		}
		r := rune(c)
		set := func(l, h rune) runeSet {
			if l < lo {
				l = lo
			}
			if h > hi {
				h = hi
			}
			if l > h {
				return nil
			}
			return runeSet{{l, h}}
		}
		switch op {
		case token.EQL:
			if same := pi.sameCase(m); same != nil && same.has(r) {
				return st.in(m, a.Pos, same), true
			}
			return st.in(m, a.Pos, set(r, r)), true
		case token.NEQ:
			return !st.in(m, a.Pos, set(r, r)), true
		case token.LSS:
			return st.in(m, a.Pos, set(lo, r-1)), true
		case token.LEQ:
			return st.in(m, a.Pos, set(lo, r)), true
		case token.GTR:
			return st.in(m, a.Pos, set(r+1, hi)), true
		case token.GEQ:
			return st.in(m, a.Pos, set(r, hi)), true
		}
		m.undecided("operation %s on a character", op)
	case *posVal:
		if n, ok := y.(int64); ok {
			switch op {
			case token.ADD:
				return a.add(int(n)), true
			case token.SUB:
				if a.Off < int(n) {
					m.undecided("position %s-%d", a.key(), n)
				}
				return a.add(-int(n)), true
			}
		}
		return st.unknownCmp(m, op, a.key(), st.posKey(y), func() (bool, bool) {
			b, ok := y.(*posVal)
			if !ok {
				return false, false
			}
			cmp, known := st.order(a, b)
			if !known {
				return false, false
			}
			return cmpInt(op, cmp), true
		}), true
	case *tokIdx:
		if n, ok := y.(int64); ok && op == token.ADD && n == 1 {
			if a.pending == nil {
				m.undecided("the number of tokens grows without a token")
			}
			st.ntok++
			return &tokIdx{Parent: a, Tok: *a.pending, gen: a.writes, id: st.ntok}, true
		}
		if b, ok := y.(*tokIdx); ok && a == b {
			return cmpInt(op, 0), true
		}
		return st.unknownCmp(m, op, fmt.Sprintf("tokens#%d", a.id), st.posKey(y), nil), true
	}
	switch b := y.(type) {
	case *posVal, *tokIdx:
		if o, ok := flip[op]; ok {
			return pi.binop(m, o, b, x)
		}
		m.undecided("%s %s %s", show(x), op, show(y))
	}
	return nil, false
}

// sameCase collects the characters of a chain of comparisons that all lead to
// the same place, as in a case with several values. Which of them it is makes
// no difference.
func (pi *parserInfo) sameCase(m *Machine) runeSet {
	f := m.frame
	b, ok := f.Block.Instrs[f.PC].(*ssa.BinOp)
	if !ok {
		return nil
	}
	if s, ok := pi.cases[b]; ok {
		return s
	}
	var out runeSet
	var target *ssa.BasicBlock
	val := b.X
	for cur := b; ; {
		k, ok := cur.Y.(*ssa.Const)
		if !ok || cur.X != val || cur.Op != token.EQL || k.Value == nil || k.Value.Kind() != constant.Int {
			break
		}
		blk := cur.Block()
		br, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok || br.Cond != cur || cur != b && len(blk.Instrs) != 2 || cur == b && blk.Instrs[len(blk.Instrs)-2] != ssa.Instruction(b) || cur.Referrers() == nil || len(*cur.Referrers()) != 1 {
			break
		}
		if target == nil {
			target = blk.Succs[0]
			if len(target.Instrs) > 0 {
				if _, phi := target.Instrs[0].(*ssa.Phi); phi {
					break
				}
			}
		}
		if blk.Succs[0] != target {
			break
		}
		if n := k.Int64(); n >= 0 && n <= endRune {
			out = out.union(oneRune(rune(n)))
		}
		next := blk.Succs[1]
		nb, ok := next.Instrs[0].(*ssa.BinOp)
		if !ok || len(next.Preds) != 1 {
			break
		}
		cur = nb
	}
	pi.cases[b] = out
	return out
}

func cmpInt(op token.Token, c int) bool {
	switch op {
	case token.EQL:
		return c == 0
	case token.NEQ:
		return c != 0
	case token.LSS:
		return c < 0
	case token.LEQ:
		return c <= 0
	case token.GTR:
		return c > 0
	}
	return c >= 0
}

func (st *parserState) posKey(v Value) string {
	switch v := v.(type) {
	case *posVal:
		return v.key()
	case *tokIdx:
		return fmt.Sprintf("tokens#%d", v.id)
	}
	return show(v)
}

// order compares positions if that is known.
func (st *parserState) order(a, b *posVal) (int, bool) {
	if a.key() == b.key() {
		return 0, true
	}
	if path, strict := st.consumed(b, a); path && strict {
		return 1, true
	}
	if path, strict := st.consumed(a, b); path && strict {
		return -1, true
	}
	return 0, false
}

// unknownCmp decides a comparison of positions or counts. If nothing but the
// position for the error message depends on it, it is not partitioned.
func (st *parserState) unknownCmp(m *Machine, op token.Token, x, y string, known func() (bool, bool)) bool {
	if known != nil {
		if r, ok := known(); ok {
			return r
		}
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		m.undecided("%s %s %s", x, op, y)
	}
	if b, ok := m.frame.Block.Instrs[m.frame.PC].(*ssa.BinOp); ok && b.Referrers() != nil {
		all := len(*b.Referrers()) > 0
		for _, r := range *b.Referrers() {
			i, ok := r.(*ssa.If)
			if !ok || !st.pi.irrelevant(i) {
				all = false
			}
		}
		if all {
			return false
		}
	}
	return m.decide(fmt.Sprintf("%s %s %s", x, op, y))
}

// irrelevant: the branch only changes the position kept for error messages.
func (pi *parserInfo) irrelevant(in *ssa.If) bool {
	if r, ok := pi.quiet[in]; ok {
		return r
	}
	b := in.Block()
	reach := func(s *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		out := map[*ssa.BasicBlock]bool{}
		var walk func(s *ssa.BasicBlock)
		walk = func(s *ssa.BasicBlock) {
			if out[s] || s == b {
				return
			}
			out[s] = true
			for _, x := range s.Succs {
				walk(x)
			}
		}
		walk(s)
		return out
	}
	r0, r1 := reach(b.Succs[0]), reach(b.Succs[1])
	ok := true
	n := 0
	for _, blk := range b.Parent().Blocks {
		if r0[blk] == r1[blk] {
			if r0[blk] {
				if _, phi := blk.Instrs[0].(*ssa.Phi); phi {
					ok = false
				}
			}
			continue
		}
		n++
		for _, x := range blk.Instrs {
			switch x := x.(type) {
			case *ssa.Store:
				if !isMax(x.Addr) {
					ok = false
				}
			case *ssa.UnOp, *ssa.BinOp, *ssa.FieldAddr, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.Alloc:
			default:
				ok = false
			}
		}
	}
	pi.quiet[in] = ok && n > 0
	return pi.quiet[in]
}

// isMax: the captured variable with the furthest match, or a temporary copy
func isMax(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.FreeVar:
			return sharedRole(x) == "max"
		case *ssa.Alloc:
			return !x.Heap || isTokenT(deref(x.Type()))
		}
		return false
	}
}

func (pi *parserInfo) convert(m *Machine, v Value, to types.Type) (Value, bool) {
	st := state(m)
	if st == nil {
		return nil, false
	}
	switch x := v.(type) {
	case *posVal, *tokIdx, *chrVal:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			switch b.Kind() {
			case types.Int, types.Int64, types.Uint32, types.Uint64, types.Uint, types.Int32:
				return v, true
			}
		}
		m.undecided("conversion of a position to %s", to)
	case *runeSpan:
		return st.text(m, x.Begin, x.End), true
	case Str:
		if s, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 && st.ruleBuffer(x) {
				return &runeBuf{S: x}, true
			}
		}
	}
	return nil, false
}

func (st *parserState) ruleBuffer(s Str) bool {
	_, c := s.isConst()
	return !c
}

// text is the captured text between two positions.
func (st *parserState) text(m *Machine, begin, end *posVal) Str {
	type piece struct {
		chr  *posVal
		rule *posBase
	}
	var ps []piece
	cur := end
	for cur.key() != begin.key() {
		if cur.Off > 0 {
			ps = append(ps, piece{chr: cur.add(-1)})
			cur = cur.add(-1)
			continue
		}
		if cur.Base.Rule == "" {
			m.gopanic("text from %s to %s", begin.key(), end.key())
		}
		ps = append(ps, piece{rule: cur.Base})
		cur = cur.Base.From
	}
	var out Str
	general := false
	for i := len(ps) - 1; i >= 0; i-- {
		if ps[i].rule != nil {
			b := ps[i].rule
			k := "text" + b.key
			if b.Rule == "_" {
				w := m.wsSym(k, &wsRun{})
				if !m.Facts["SpaceComment matches at "+b.From.key()] {
					if _, decided := m.Facts["SpaceComment matches at "+b.From.key()]; decided {
						continue // nothing
					}
					m.undecided("captured text with optional blanks")
				}
				out = append(out, Atom{S: w})
				continue
			}
			out = append(out, Atom{S: m.sym(k, types.Typ[types.String], nil)})
			continue
		}
		set, ok := st.chars[ps[i].chr.key()]
		if !ok {
			set = allRunes
		}
		if r, ok := set.single(); ok && r != endRune {
			out = append(out, Atom{C: string(r)})
			continue
		}
		general = true
		out = append(out, Atom{S: m.sym("char at "+ps[i].chr.key(), types.Typ[types.String], &Dom{NonEmpty: true})})
	}
	out = out.norm()
	if general {
		// the loops were unrolled a few times only: any text of this kind
		class, _ := st.pi.g.textClass(st.rule)
		d := &Dom{NonEmpty: len(ps) > 0}
		if class != nil && class[len(class)-1].Hi < 128 {
			var cs [256]bool
			for _, r := range class {
				for x := r.Lo; x <= r.Hi; x++ {
					cs[x] = true
				}
			}
			d.Charset = &cs
			if st.rule == "Integer" {
				d.Name = "decimal" // no leading zero
			}
		}
		return symstr(m.sym(fmt.Sprintf("text %s to %s", begin.key(), end.key()), types.Typ[types.String], d))
	}
	return out
}

func (st *parserState) tokenSlice(m *Machine) Value {
	T := st.pi.tokT
	if T == nil {
		m.undecided("type of tokens not found")
	}
	s := T.Underlying().(*types.Struct)
	a := &Arr{Obj: m.newObj("slice", nil)}
	for _, t := range st.seg {
		v := m.zero(T).(*Struct)
		for i := 0; i < s.NumFields(); i++ {
			switch st.pi.tokField(i) {
			case 0:
				v.F[i] = t.Rule
			case 1:
				v.F[i] = t.Begin
			case 2:
				v.F[i] = t.End
			}
		}
		if at := t.at; at != nil {
			a.E = append(a.E, &Lazy{Force: func(*Machine) Value { at(); return v }})
			continue
		}
		a.E = append(a.E, v)
	}
	if len(a.E) == 0 {
		return Nil{}
	}
	return &Slice{a, 0, len(a.E), len(a.E)}
}

// setup runs Init, so that the functions of the rules are known.
func (st *parserState) setup(m *Machine) {
	pi := st.pi
	m.Data, st.m = st, m
	T, ok := pi.pegT.Underlying().(*types.Struct)
	if !ok {
		m.undecided("the parser is not a struct")
	}
	v := m.zero(pi.pegT)
	s := v.(*Struct)
	for i := 0; i < T.NumFields(); i++ {
		switch T.Field(i).Name() {
		case "Tree":
			if p, ok := T.Field(i).Type().Underlying().(*types.Pointer); ok {
				t := m.zero(p.Elem())
				s.F[i] = &Ptr{P: &t, Obj: m.newObj("Tree", p.Elem())}
			}
		case "Buffer":
			s.F[i] = symstr(m.sym("s", types.Typ[types.String], nil))
		}
	}
	m.Facts["len(text) == 0"] = false
	st.peg = &Ptr{P: &v, Obj: m.newObj("parser", pi.pegT)}
	if r := m.callFn(pi.init, nil, []Value{st.peg, Nil{}}, token.NoPos); !m.isNil(r) {
		m.undecided("Init returns an error")
	}
	st.learn(m)
}

func (st *parserState) field(m *Machine, p *Ptr, T types.Type, name string) *Ptr {
	s := T.Underlying().(*types.Struct)
	if n := st.pi.alias[name]; n != "" && T == st.pi.pegT {
		name = n
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			x := m.force(*p.P).(*Struct)
			return &Ptr{P: &x.F[i], Obj: p.Obj}
		}
	}
	m.undecided("no field %s in %s", name, T)
	return nil
}

// learn finds the function of every rule and the variables they share.
func (st *parserState) learn(m *Machine) {
	rp := st.field(m, st.peg, st.pi.pegT, "rules")
	var es []Value
	switch a := m.force(*rp.P).(type) {
	case *Array:
		es = a.E
	case *Slice:
		es = a.Arr.E[a.Off : a.Off+a.Len]
	default:
		m.undecided("no table of rules")
	}
	closures := map[string]*Closure{}
	for i, e := range es {
		if c, ok := m.force(e).(*Closure); ok {
			name := st.pi.names[int64(i)]
			if name == "" {
				name = fmt.Sprintf("rule %d", i)
			}
			st.ruleOf[c.Fn] = name
			closures[name] = c
		}
	}
	seen := map[*ssa.Function]bool{}
	written := map[string]*Ptr{}
	roles := map[string]string{}
	role := func(name, as string) {
		if as != "" && (name == as || roles[as] == "") {
			roles[as] = name
		}
	}
	var visit func(c *Closure)
	visit = func(c *Closure) {
		if seen[c.Fn] {
			return
		}
		seen[c.Fn] = true
		for i, fv := range c.Fn.FreeVars {
			p, ok := c.Env[i].(*Ptr)
			if !ok {
				continue
			}
			if st.cells[fv.Name()] == nil {
				st.cells[fv.Name()] = p
			}
			role(fv.Name(), sharedRole(fv))
			if x, ok := (*p.P).(*Closure); ok {
				visit(x)
			}
			if fv.Referrers() != nil {
				for _, r := range *fv.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == fv {
						written[fv.Name()] = p
					}
				}
			}
		}
		for _, e := range c.Env {
			if x, ok := e.(*Closure); ok {
				visit(x)
			}
		}
	}
	for _, n := range sortedKeys(closures) {
		visit(closures[n])
	}
	// the variables by what they are used for
	for _, n := range sortedKeys(st.cells) {
		p := st.cells[n]
		if as := roles["counter"]; as != "" && n != roles["position"] {
			if _, ok := m.force(*p.P).(int64); ok && written[n] != nil && (roles["tokenIndex"] == "" || n == "tokenIndex") {
				roles["tokenIndex"] = n
			}
		}
	}
	known := map[string]bool{}
	for _, as := range []string{"position", "tokenIndex", "max", "tree", "buffer"} {
		if n := roles[as]; n != "" {
			known[n] = as != "buffer"
			st.cells[as] = st.cells[n]
		}
	}
	for n, p := range written {
		if !known[n] {
			st.extra[n] = p
		}
	}
	for _, n := range []string{"position", "tokenIndex", "buffer"} {
		if st.cells[n] == nil {
			m.undecided("the rules have no variable %s", n)
		}
	}
}

// sharedRole tells what a variable shared by the rules is for.
func sharedRole(fv *ssa.FreeVar) string {
	pt, ok := fv.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	if isTokenT(pt.Elem()) {
		return "max"
	}
	if isTokensT(pt.Elem()) {
		return "tree"
	}
	switch t := pt.Elem().Underlying().(type) {
	case *types.Slice:
		if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			return "buffer"
		}
	case *types.Basic:
		if t.Info()&types.IsInteger == 0 {
			return ""
		}
		if fv.Referrers() != nil {
			for _, r := range *fv.Referrers() {
				if l, ok := r.(*ssa.UnOp); ok && l.Op == token.MUL && indexesText(l, 0) {
					return "position"
				}
			}
		}
		return "counter"
	}
	return ""
}

// indexesText tells if a number is an index of a list of characters.
func indexesText(v ssa.Value, depth int) bool {
	if v.Referrers() == nil || depth > 3 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			if t, ok := x.X.Type().Underlying().(*types.Slice); ok && x.Index == v {
				if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
					return true
				}
			}
		case *ssa.Convert:
			if indexesText(x, depth+1) {
				return true
			}
		}
	}
	return false
}

// funcOf finds the function of a rule.
func (st *parserState) funcOf(rule string) *ssa.Function {
	for f, n := range st.ruleOf {
		if n == rule {
			return f
		}
	}
	return nil
}

func (st *parserState) closure(m *Machine, rule string) *Closure {
	rp := st.field(m, st.peg, st.pi.pegT, "rules")
	var es []Value
	switch a := m.force(*rp.P).(type) {
	case *Array:
		es = a.E
	case *Slice:
		es = a.Arr.E[a.Off : a.Off+a.Len]
	}
	for i, e := range es {
		if c, ok := m.force(e).(*Closure); ok && st.pi.names[int64(i)] == rule {
			return c
		}
	}
	return nil
}

// --- the reference side

type refTok struct {
	Act        string
	Begin, End *posVal // captured text
	Sub        string
	At         *posVal
}

type refRun struct {
	st    *parserState
	m     *Machine
	has   map[string]bool // rules that are assumed
	toks  []refTok
	tb    *posVal
	te    *posVal
	depth int
	over  string // more iterations than analysed
}

func (r *refRun) eval(e *pegExpr, p *posVal) (*posVal, bool) {
	st, m := r.st, r.m
	switch e.Kind {
	case pgSeq:
		for _, s := range e.Sub {
			q, ok := r.eval(s, p)
			if !ok {
				return nil, false
			}
			p = q
		}
		return p, true
	case pgAlt:
		for _, s := range e.Sub {
			n, tb, te := len(r.toks), r.tb, r.te
			if q, ok := r.eval(s, p); ok {
				return q, true
			}
			r.toks, r.tb, r.te = r.toks[:n], tb, te
		}
		return nil, false
	case pgOpt, pgStar, pgPlus:
		count := 0
		for {
			n, tb, te := len(r.toks), r.tb, r.te
			q, ok := r.eval(e.Sub[0], p)
			if !ok {
				r.toks, r.tb, r.te = r.toks[:n], tb, te
				break
			}
			p = q
			count++
			if e.Kind == pgOpt {
				break
			}
			if count > st.iterations()+3 {
				r.over = "goes on"
				return nil, false
			}
		}
		return p, e.Kind != pgPlus || count > 0
	case pgNot:
		n, tb, te := len(r.toks), r.tb, r.te
		_, ok := r.eval(e.Sub[0], p)
		r.toks, r.tb, r.te = r.toks[:n], tb, te
		return p, !ok
	case pgSet:
		if st.in(m, p, e.Set) {
			return p.add(1), true
		}
		return nil, false
	case pgText:
		q, ok := r.eval(e.Sub[0], p)
		if ok {
			r.tb, r.te = p, q
		}
		return q, ok
	case pgAct:
		r.toks = append(r.toks, refTok{Act: e.Name, Begin: r.tb, End: r.te})
		return p, true
	case pgCall:
		if !r.has[e.Name] {
			if r.depth++; r.depth > 20 {
				m.undecided("rule %s is missing in the source", e.Name)
			}
			q, ok := r.eval(st.pi.g.Rules[e.Name], p)
			r.depth--
			return q, ok
		}
		q, ok := st.match(m, e.Name, p)
		if ok {
			r.toks = append(r.toks, refTok{Sub: e.Name, At: p})
		}
		return q, ok
	}
	return nil, false
}

// leftCycle finds a rule that can call itself without consuming anything.
func (pi *parserInfo) leftCycle() []string {
	const (
		grey  = 1
		black = 2
	)
	color := map[string]int{}
	var path, found []string
	var walk func(n string)
	walk = func(n string) {
		if found != nil {
			return
		}
		color[n] = grey
		path = append(path, n)
		var next []string
		for k := range pi.callees[n] {
			next = append(next, k)
		}
		sort.Strings(next)
		for _, k := range next {
			if color[k] == grey && found == nil {
				found = append(append([]string{}, path...), k)
				return
			}
			if color[k] == 0 {
				walk(k)
			}
		}
		path = path[:len(path)-1]
		color[n] = black
	}
	for _, n := range sortedKeys(pi.callees) {
		if color[n] == 0 {
			walk(n)
		}
	}
	return found
}

// tableRule names the rule of a function by its place in the table, a
// composite literal in Init.
func (pi *parserInfo) tableRule(f *ssa.Function) string {
	for _, b := range pi.table.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			mc, ok := s.Val.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
				if k, ok := ia.Index.(*ssa.Const); ok {
					return pi.names[k.Int64()]
				}
			}
		}
	}
	return ""
}
