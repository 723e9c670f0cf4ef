package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Violation is a construct of the source that breaks a property.
type Violation struct {
	Property string   `json:"property"`
	Where    string   `json:"where"`
	Function string   `json:"function"`
	Message  string   `json:"message"`
	Path     []string `json:"path,omitempty"`
	Stack    []string `json:"stack,omitempty"`
	Times    int      `json:"partitions"`
	Known    string   `json:"known,omitempty"`
}

// Ctx collects the results of the analyses of one run.
type Ctx struct {
	P           *Program
	Thorough    bool
	Only        string // the property to decide
	Viol        map[string]*Violation
	order       []string
	Obligations map[string]int // per property
	Discharged  map[string]int
	Samples     map[string][]string
	Partitions  map[string]int // per entry
	Complete    map[string]bool
	Funcs       map[string]bool
	Forks       int
	Steps       int
	Counts      map[string]map[string]int // per property
	want        map[string]bool
	cells       map[string]bool
	Known       []KnownFinding
	start       time.Time
	found       time.Time // when the first violation of Only was found
	Stopped     bool
}

func newCtx(p *Program) *Ctx {
	return &Ctx{P: p, start: time.Now(), Viol: map[string]*Violation{}, Obligations: map[string]int{}, Discharged: map[string]int{}, Samples: map[string][]string{},
		Partitions: map[string]int{}, Complete: map[string]bool{}, Funcs: map[string]bool{}, Counts: map[string]map[string]int{}, cells: map[string]bool{}}
}

func (c *Ctx) count(prop, name string, n int) {
	if c.Counts[prop] == nil {
		c.Counts[prop] = map[string]int{}
	}
	c.Counts[prop][name] += n
}

func (c *Ctx) fail(prop string, pos token.Pos, fn, path []string, format string, a ...any) {
	f := ""
	if len(fn) > 0 {
		f = fn[0]
	}
	c.failAt(prop, c.P.position(pos), f, path, fn, fmt.Sprintf(format, a...))
}

func (c *Ctx) failAt(prop, where, fn string, path, stack []string, msg string) {
	key := prop + "|" + where + "|" + msg
	if v, ok := c.Viol[key]; ok {
		v.Times++
		return
	}
	c.Viol[key] = &Violation{Property: prop, Where: where, Function: fn, Message: msg, Path: path, Stack: stack, Times: 1}
	c.order = append(c.order, key)
	if prop == c.Only && c.found.IsZero() && !c.isKnown(prop, msg) {
		c.found = time.Now()
	}
}

// isKnown finds the listed finding of a message. A finding is identified by its
// message, which names the construct.
func (c *Ctx) isKnown(prop, msg string) bool {
	for _, f := range c.Known {
		if f.Property == prop && f.Text == msg {
			return true
		}
	}
	return false
}

// enough tells that the property is violated and the rest need not be analysed.
func (c *Ctx) enough() bool {
	if !c.Stopped && !c.found.IsZero() && time.Since(c.found) > 5*time.Second {
		c.Stopped = true
	}
	return c.Stopped
}

// funcAt names the repository function around a position.
func (c *Ctx) funcAt(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	best := ""
	size := token.Pos(1 << 30)
	for _, sp := range c.P.Repo {
		var walk func(fn *ssa.Function)
		walk = func(fn *ssa.Function) {
			if s := fn.Syntax(); s != nil && s.Pos() <= pos && pos <= s.End() && s.End()-s.Pos() < size {
				best, size = fn.String(), s.End()-s.Pos()
			}
			for _, a := range fn.AnonFuncs {
				walk(a)
			}
		}
		for _, f := range c.P.funcs(sp) {
			walk(f)
		}
	}
	return best
}

// funcs lists the functions and methods declared in a package.
func (p *Program) funcs(sp *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for _, name := range sortedKeys(sp.Members) {
		switch mem := sp.Members[name].(type) {
		case *ssa.Function:
			out = append(out, mem)
		case *ssa.Type:
			out = append(out, p.methods(mem)...)
		}
	}
	return out
}

// Part is one partition under check.
type Part struct {
	*Machine
	c     *Ctx
	props []string
	pend  []func()
	entry string
	oblig map[string]bool
	bad   map[string]bool
	all   bool
}

// fail reports a violation of a property in this partition.
func (q *Part) fail(prop string, pos token.Pos, format string, a ...any) {
	if q.all {
		// the part is about several properties as a whole
		q.all = false
		for _, p := range q.props {
			if p != "X01" {
				q.fail(p, pos, format, a...)
			}
		}
		q.all = true
		return
	}
	if !slices.Contains(q.props, prop) {
		return
	}
	msg := fmt.Sprintf(format, a...)
	path := q.pathText()
	if !pos.IsValid() {
		pos = q.Pos
	}
	q.bad[prop] = true
	q.pend = append(q.pend, func() {
		c := q.c
		c.failAt(prop, c.P.position(pos), c.funcAt(pos), path, nil, msg)
	})
}

// want registers an obligation.
func (q *Part) want(prop string) { q.oblig[prop] = true }

// try runs code of the repository.
func (q *Part) try(f func() Value) (v Value, p *absPanic) {
	frame, depth, pos := q.frame, q.depth, q.Pos
	defer func() {
		if r := recover(); r != nil {
			ap, ok := r.(*absPanic)
			if !ok {
				panic(r)
			}
			q.frame, q.depth, q.Pos = frame, depth, pos
			p = ap
		}
	}()
	return f(), nil
}

// call runs a function of the repository from the outside.
func (q *Part) callRepo(fn *ssa.Function, args ...Value) (Value, *absPanic) {
	return q.try(func() Value { return q.callFn(fn, nil, args, token.NoPos) })
}

// analyse enumerates the partitions of an analysis. Undecided partitions count
// against every property of the analysis.
func (c *Ctx) analyse(entry string, props []string, h *Hooks, fns []*ssa.Function, body func(q *Part)) {
	if c.Only != "" && !slices.Contains(props, c.Only) {
		return
	}
	for _, f := range fns {
		if f == nil {
			for _, p := range props {
				c.failAt(p, entry, "", nil, nil, "function not found in the source")
			}
			return
		}
	}
	if c.enough() {
		return
	}
	max := 4000000
	var q *Part
	deadline := c.start.Add(700 * time.Second)
	late := false
	n, complete := Explore(c.P, h, max, func(m *Machine) Value {
		q = &Part{Machine: m, c: c, props: props, entry: entry, oblig: map[string]bool{}, bad: map[string]bool{}}
		for _, p := range props {
			q.want(p)
		}
		if late = late || time.Now().After(deadline); late || c.enough() {
			panic(stopAnalysis{})
		}
		body(q)
		return nil
	}, func(o *Outcome) {
		c.Forks += len(o.M.Trace)
		c.Steps += o.M.steps
		for _, f := range q.pend {
			f()
		}
		for f := range o.M.visited {
			c.Funcs[f.String()] = true
		}
		fail := func(pos token.Pos, msg string) {
			for _, p := range props {
				q.bad[p] = true
				c.failAt(p, c.P.position(pos), c.funcAt(pos), o.M.pathText(), o.M.stack(), msg)
			}
		}
		if o.Undec != nil {
			pos := o.Undec.Pos
			if !c.P.inRepo(pos) {
				pos = o.M.repoPos()
			}
			fail(pos, "cannot be decided: "+o.Undec.Msg)
		}
		if o.Panic != nil {
			fail(o.M.repoPos(), "analysis error: "+o.Panic.Msg)
		}
		for p := range q.oblig {
			c.Obligations[p]++
			if !q.bad[p] {
				c.Discharged[p]++
				if c.Discharged[p]&(c.Discharged[p]-1) == 0 && len(c.Samples[p]) < 12 {
					c.Samples[p] = append(c.Samples[p], entry+": "+strings.Join(o.M.pathText(), ", "))
				}
			}
		}
	})
	c.Partitions[entry] += n
	if os.Getenv("MQTRACE") != "" {
		fmt.Fprintf(os.Stderr, "%8.2fs %8d %s\n", time.Since(c.start).Seconds(), n, entry)
	}
	if !complete && !c.Stopped {
		for _, p := range props {
			c.failAt(p, entry, "", nil, nil, fmt.Sprintf("analysis did not finish after %d partitions", n))
		}
	}
}

// --- output

type KnownFinding struct{ Property, Text string }

// loadKnown reads the committed list of known findings.
func loadKnown(file string) (list []KnownFinding) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property=")
		i := strings.IndexByte(rest, ' ')
		if i > 0 {
			list = append(list, KnownFinding{rest[:i], strings.TrimSpace(rest[i+1:])})
		}
	}
	return list
}

func (c *Ctx) finish(prop, verif, tier, technique, explanation string, seed int, start time.Time, assumptions []string) int {
	var viol, kf []*Violation
	for _, k := range c.order {
		v := c.Viol[k]
		if v.Property != prop {
			continue
		}
		if c.isKnown(prop, v.Message) {
			v.Known = v.Message
		}
		if v.Known != "" {
			kf = append(kf, v)
		} else {
			viol = append(viol, v)
		}
	}
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].Times > viol[j].Times && false })
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	replay := filepath.Join(dir, prop+".violation.json")
	_ = os.Remove(replay)
	parts := 0
	entries := map[string]int{}
	for e, n := range c.Partitions {
		parts += n
		entries[e] = n
	}
	cov := map[string]any{
		"explanation":         explanation,
		"obligations":         c.Obligations[prop],
		"discharged":          c.Discharged[prop],
		"analysed_partitions": entries,
		"functions_analysed":  sortedKeys(c.Funcs),
		"decided_facts":       c.Forks,
		"interpreted_ssa":     c.Steps,
		"source_files":        c.P.Stats.Files,
		"source_functions":    c.P.Stats.Functions,
		"source_instructions": c.P.Stats.Instructions,
		"source_digest":       c.P.digest(),
		"samples":             c.Samples[prop],
		"length_thresholds":   c.P.Thresholds,
		"rule":                technique,
		"stopped_early":       c.Stopped,
	}
	for k, n := range c.Counts[prop] {
		cov[k] = n
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": levelOf(prop), "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "assumptions": assumptions,
	}
	ev["violations"] = len(viol)
	write := func(name string, x any) {
		b, _ := json.MarshalIndent(x, "", " ")
		_ = os.WriteFile(name, append(b, '\n'), 0o644)
	}
	write(filepath.Join(dir, prop+".json"), ev)
	seenKnown := map[string]bool{}
	for _, v := range kf {
		if !seenKnown[v.Known] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, v.Known)
		}
		seenKnown[v.Known] = true
	}
	if len(viol) == 0 {
		fmt.Printf("%s held: %d obligations in %d partitions\n", prop, c.Obligations[prop], parts)
		return 0
	}
	write(replay, map[string]any{"property": prop, "violations": viol})
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	for i, v := range viol {
		if i == 8 {
			fmt.Printf("  ... %d more\n", len(viol)-i)
			break
		}
		fmt.Printf("  %s (%s): %s\n", v.Where, v.Function, v.Message)
		if len(v.Path) > 0 {
			fmt.Printf("    when %s\n", strings.Join(v.Path, ", "))
		}
	}
	return 1
}

func (p *Program) digest() string {
	h := sha256.New()
	for _, name := range sortedKeys(p.Pkgs) {
		for _, f := range p.Pkgs[name].GoFiles {
			b, _ := os.ReadFile(f)
			h.Write(b)
		}
	}
	return fmt.Sprintf("%x", h.Sum(nil))[:16]
}

func fns(f ...*ssa.Function) []*ssa.Function { return f }
