package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded source of the repository and its dependencies.
type Program struct {
	Dir   string
	SSA   *ssa.Program
	Fset  *token.FileSet
	Repo  map[string]*ssa.Package // by last path element
	Pkgs  map[string]*packages.Package
	Paths map[string]*ssa.Package
	built map[*ssa.Package]bool
	// integer constants of the repository, used as list length thresholds
	Thresholds []int64
	// constants that tree building and the token list compare sizes with
	DepthThresholds, TokenThresholds []int64
	mutable                          map[token.Pos]bool // see mutated
	kindsOf                          map[*ssa.Function]int
	throughOf                        map[[2]*ssa.Function]bool
	counted                          map[token.Pos]bool // see counters
	levelsOf                         map[*ssa.Function]map[int]int64
	Stats                            struct{ Functions, Instructions, Files int }
}

func LoadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: dir, Tests: false,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{Dir: dir, SSA: prog, Fset: prog.Fset, Repo: map[string]*ssa.Package{},
		Pkgs: map[string]*packages.Package{}, Paths: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}}
	for _, sp := range prog.AllPackages() {
		p.Paths[sp.Pkg.Path()] = sp
	}
	for _, pk := range pkgs {
		sp := prog.Package(pk.Types)
		if sp == nil {
			continue
		}
		name := pk.PkgPath[strings.LastIndex(pk.PkgPath, "/")+1:]
		p.Repo[name] = sp
		p.Pkgs[name] = pk
		p.build(sp)
		p.Stats.Files += len(pk.Syntax)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || !p.isRepo(fn.Pkg) {
			continue
		}
		p.Stats.Functions++
		for _, b := range fn.Blocks {
			p.Stats.Instructions += len(b.Instrs)
		}
	}
	p.Thresholds = p.thresholds()
	p.mutated()
	return p, nil
}

func (p *Program) build(sp *ssa.Package) {
	if !p.built[sp] {
		p.built[sp] = true
		sp.Build()
	}
}

func (p *Program) isRepo(sp *ssa.Package) bool {
	for _, r := range p.Repo {
		if r == sp {
			return true
		}
	}
	return false
}

func (p *Program) position(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else if i := strings.Index(f, "/pkg/mod/"); i >= 0 {
		f = f[i+len("/pkg/mod/"):]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Program) inRepo(pos token.Pos) bool {
	if !pos.IsValid() {
		return false
	}
	r, err := filepath.Rel(p.Dir, p.Fset.Position(pos).Filename)
	return err == nil && !strings.HasPrefix(r, "..")
}

// Func finds a package-level function or method: "Parse", "Node.Value" or
// "*Tree.Push".
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.Repo[pkg]
	if sp == nil {
		return nil
	}
	i := strings.IndexByte(name, '.')
	if i < 0 {
		return sp.Func(name)
	}
	tn, mn := name[:i], name[i+1:]
	ptr := strings.HasPrefix(tn, "*")
	tn = strings.TrimPrefix(tn, "*")
	t := sp.Type(tn)
	if t == nil {
		return nil
	}
	var T types.Type = t.Type()
	if ptr {
		T = types.NewPointer(T)
	}
	return p.SSA.LookupMethod(T, sp.Pkg, mn)
}

func (p *Program) Type(pkgPath, name string) types.Type {
	sp := p.Paths[pkgPath]
	if sp == nil {
		if r := p.Repo[pkgPath]; r != nil {
			sp = r
		}
	}
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// --- one partition of the analysis

type Choice struct {
	Label string
	N     int
	Taken int
	Text  string
	Pos   token.Pos
}

type absPanic struct {
	Msg string
	Pos token.Pos
	Val Value
}

type abortPath struct{ why string }

// stopAnalysis ends the enumeration of partitions.
type stopAnalysis struct{}

type undecided struct {
	Msg string
	Pos token.Pos
}

// Effect is an externally visible step of a partition.
type Effect struct {
	Kind string
	Text string
	Pos  token.Pos
	Args []Value
}

type Hooks struct {
	// Call may take over a call. ok=false: not handled.
	Call func(m *Machine, fn *ssa.Function, args []Value, pos token.Pos) (Value, bool)
	// CallSym is called for calls of unknown function values.
	CallSym func(m *Machine, fn *Sym, args []Value, sig *types.Signature) (Value, bool)
	// Invoke is called for interface method calls on unknown receivers.
	Invoke func(m *Machine, recv *Sym, method *types.Func, args []Value) (Value, bool)
	// Through is set if nodes without hypothesis are looked through by the specification.
	Through bool
	// Rec applies the induction hypothesis for a recursive call on a sub-tree.
	Rec func(m *Machine, fn *ssa.Function, args, env []Value, node *ANode) (Value, bool)
	// NonNil tells which symbolic pointers are never nil.
	NonNil func(key string, T types.Type) bool
	// StrDom gives the domain of symbolic strings.
	StrDom func(key string) *Dom
	// ListLens gives the partition of the length of symbolic lists.
	ListLens func(key string) []int
	// Entry completes an entry found in a symbolic map.
	Entry func(m *Machine, name string, k, v Value)
	// Filler gives the elements of long symbolic lists apart from the last two.
	Filler func(m *Machine, key string, i int, T types.Type) (Value, bool)
	Store  func(m *Machine, p *Ptr, v Value)
	Instr  func(m *Machine, f *Frame, in ssa.Instruction)
	Index  func(m *Machine, base Value, idx Value) (Value, bool)
	// BinOp, Convert, SliceOf and Builtin let an analysis define operations on
	// its own values.
	BinOp   func(m *Machine, op token.Token, x, y Value) (Value, bool)
	Convert func(m *Machine, v Value, to types.Type) (Value, bool)
	SliceOf func(m *Machine, x, lo, hi Value) (Value, bool)
	Builtin func(m *Machine, name string, args []Value) (Value, bool)
}

type Frame struct {
	Fn     *ssa.Function
	Env    map[ssa.Value]Value
	Free   []Value
	Block  *ssa.BasicBlock
	Prev   *ssa.BasicBlock
	PC     int
	Node   *ANode
	defers []func()
	result Value
	caller *Frame
	pos    token.Pos
	panic  *absPanic
	rec    bool
}

type Machine struct {
	P       *Program
	H       *Hooks
	prefix  []int
	Trace   []Choice
	Facts   map[string]bool
	Bind    map[string]Str
	eqs     []eqFact
	globals map[*ssa.Global]*Ptr
	inited  map[*ssa.Package]bool
	nobj    int
	nsym    int
	Effects []Effect
	frame   *Frame
	depth   int
	steps   int
	Limit   int
	Pos     token.Pos
	Events  []Effect // facts about how the result was computed (map order, ...)
	inInit  int
	Data    any // analysis specific
	blank   map[string]bool
	quiet   int
	syms    map[string]*Sym
	visited map[*ssa.Function]bool
	// Preset fixes conditions that are covered by another analysis.
	Preset func(key string) (bool, bool)
}

func newMachine(p *Program, h *Hooks, prefix []int) *Machine {
	return &Machine{P: p, H: h, prefix: prefix, Facts: map[string]bool{}, Bind: map[string]Str{},
		globals: map[*ssa.Global]*Ptr{}, inited: map[*ssa.Package]bool{}, Limit: 400000, blank: map[string]bool{}, syms: map[string]*Sym{}, visited: map[*ssa.Function]bool{}}
}

// Outcome of one partition.
type Outcome struct {
	M     *Machine
	Value Value
	Panic *absPanic
	Undec *undecided
	Abort bool
}

// Explore enumerates all partitions of run.
func Explore(p *Program, h *Hooks, max int, run func(m *Machine) Value, done func(o *Outcome)) (n int, complete bool) {
	var prefix []int
	stop := false
	for {
		m := newMachine(p, h, prefix)
		o := &Outcome{M: m}
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case *absPanic:
						o.Panic = r
					case *undecided:
						o.Undec = r
					case abortPath:
						o.Abort = true
					case stopAnalysis:
						o.Abort, stop = true, true
					default:
						if os.Getenv("MQDEBUG") != "" {
							panic(r)
						}
						o.Undec = &undecided{Msg: fmt.Sprintf("analysis error: %v", r), Pos: m.Pos}
					}
				}
			}()
			o.Value = run(m)
		}()
		if stop {
			return n, false
		}
		n++
		if !o.Abort {
			done(o)
		}
		t := m.Trace
		i := len(t) - 1
		for i >= 0 && t[i].Taken == t[i].N-1 {
			i--
		}
		if i < 0 {
			return n, true
		}
		if n >= max {
			return n, false
		}
		prefix = make([]int, 0, i+1)
		for j := 0; j < i; j++ {
			prefix = append(prefix, t[j].Taken)
		}
		prefix = append(prefix, t[i].Taken+1)
	}
}

func (m *Machine) choose(n int, label string, text func(i int) string) int {
	if n <= 0 {
		panic(abortPath{"empty choice " + label})
	}
	if n == 1 {
		return 0
	}
	k := len(m.Trace)
	t := 0
	if k < len(m.prefix) {
		t = m.prefix[k]
		if t >= n {
			panic(&undecided{Msg: "unstable partitioning at " + label, Pos: m.Pos})
		}
	}
	m.Trace = append(m.Trace, Choice{Label: label, N: n, Taken: t, Text: text(t), Pos: m.Pos})
	return t
}

func (m *Machine) pickStr(label string, opts []string) string {
	i := m.choose(len(opts), label, func(i int) string { return label + "=" + opts[i] })
	return opts[i]
}

// decide takes an unknown condition both ways, once per partition.
func (m *Machine) decide(key string) bool {
	if v, ok := m.Facts[key]; ok {
		return v
	}
	if m.Preset != nil {
		if v, ok := m.Preset(key); ok {
			m.Facts[key] = v
			return v
		}
	}
	i := m.choose(2, key, func(i int) string {
		if i == 0 {
			return key
		}
		return "not " + key
	})
	m.Facts[key] = i == 0
	return i == 0
}

func (m *Machine) undecided(format string, a ...any) {
	panic(&undecided{Msg: fmt.Sprintf(format, a...), Pos: m.Pos})
}

func (m *Machine) abort(why string) { panic(abortPath{why}) }

func (m *Machine) gopanic(format string, a ...any) {
	panic(&absPanic{Msg: fmt.Sprintf(format, a...), Pos: m.Pos})
}

func (m *Machine) effect(kind, text string, args ...Value) {
	m.Effects = append(m.Effects, Effect{kind, text, m.Pos, args})
}

func (m *Machine) event(kind, text string) {
	if m.quiet > 0 || m.inInit > 0 {
		return
	}
	m.Events = append(m.Events, Effect{Kind: kind, Text: text, Pos: m.repoPos()})
}

// repoPos is the innermost position inside the repository.
func (m *Machine) repoPos() token.Pos {
	if m.P.inRepo(m.Pos) {
		return m.Pos
	}
	for f := m.frame; f != nil; f = f.caller {
		if m.P.inRepo(f.pos) {
			return f.pos
		}
	}
	return m.Pos
}

func (m *Machine) newObj(kind string, T types.Type) *Object {
	m.nobj++
	return &Object{ID: m.nobj, Kind: kind, T: T, Pos: m.Pos}
}

func (m *Machine) fresh(prefix string, T types.Type) *Sym {
	m.nsym++
	return &Sym{Key: fmt.Sprintf("%s#%d", prefix, m.nsym), T: T}
}

// sym returns the symbol of a key, the same one every time.
func (m *Machine) sym(key string, T types.Type, dom *Dom) *Sym {
	if s, ok := m.syms[key]; ok {
		return s
	}
	s := &Sym{Key: key, T: T, Dom: dom}
	m.syms[key] = s
	return s
}

func (m *Machine) newError(desc string) Value {
	m.nsym++
	return &Sym{Key: fmt.Sprintf("error#%d(%s)", m.nsym, desc), T: types.Universe.Lookup("error").Type(), Info: "error"}
}

// givenError is an error that comes from outside, it may be any known error.
func (m *Machine) givenError(desc string) Value {
	e := m.newError(desc).(*Sym)
	e.Info = "given error"
	return e
}

// pathText describes the partition.
func (m *Machine) pathText() []string {
	var s []string
	for _, c := range m.Trace {
		s = append(s, c.Text)
	}
	return s
}

func (m *Machine) stack() []string {
	var s []string
	for f := m.frame; f != nil; f = f.caller {
		s = append(s, f.Fn.String())
	}
	return s
}

// methods lists the declared methods of a named type.
func (p *Program) methods(t *ssa.Type) (out []*ssa.Function) {
	for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := p.SSA.MethodSets.MethodSet(T)
		for i := 0; i < ms.Len(); i++ {
			fn := p.SSA.MethodValue(ms.At(i))
			if fn != nil && fn.Syntax() != nil && fn.Pkg == t.Package() {
				out = append(out, fn)
			}
		}
	}
	return out
}
