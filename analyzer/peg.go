package main

import (
	_ "embed"
	"fmt"
	"strings"
	"unicode"
)

// The reference grammar: what the query syntax is, independent of the source
// under analysis. Double quotes are case-insensitive, {..} names the meaning.
//
//go:embed reference.peg
var referencePeg string

type pegKind int

const (
	pgSeq pegKind = iota
	pgAlt
	pgStar
	pgPlus
	pgOpt
	pgNot
	pgSet
	pgCall
	pgText
	pgAct
)

type pegExpr struct {
	Kind pegKind
	Sub  []*pegExpr
	Set  runeSet
	Name string
}

type pegGrammar struct {
	Order    []string
	Rules    map[string]*pegExpr
	nullable map[string]bool
	first    map[string]runeSet
}

type pegReader struct {
	s string
	i int
}

func (r *pegReader) space() {
	for r.i < len(r.s) && strings.IndexByte(" \t\r\n", r.s[r.i]) >= 0 {
		r.i++
	}
}

func (r *pegReader) ident() string {
	r.space()
	j := r.i
	for j < len(r.s) && (r.s[j] == '_' || unicode.IsLetter(rune(r.s[j])) || unicode.IsDigit(rune(r.s[j]))) {
		j++
	}
	return r.s[r.i:j]
}

func (r *pegReader) peek(s string) bool {
	r.space()
	return strings.HasPrefix(r.s[r.i:], s)
}

func (r *pegReader) accept(s string) bool {
	if r.peek(s) {
		r.i += len(s)
		return true
	}
	return false
}

func (r *pegReader) char() rune {
	c := r.s[r.i]
	r.i++
	if c == '\\' {
		c = r.s[r.i]
		r.i++
		switch c {
		case 'n':
			c = '\n'
		case 'r':
			c = '\r'
		case 't':
			c = '\t'
		}
	}
	return rune(c)
}

func (r *pegReader) alt() *pegExpr {
	a := &pegExpr{Kind: pgAlt, Sub: []*pegExpr{r.seq()}}
	for r.accept("/") {
		a.Sub = append(a.Sub, r.seq())
	}
	if len(a.Sub) == 1 {
		return a.Sub[0]
	}
	return a
}

func (r *pegReader) seq() *pegExpr {
	s := &pegExpr{Kind: pgSeq}
	for {
		e := r.item()
		if e == nil {
			break
		}
		s.Sub = append(s.Sub, e)
	}
	return s
}

func (r *pegReader) item() *pegExpr {
	if r.accept("!") {
		return &pegExpr{Kind: pgNot, Sub: []*pegExpr{r.item()}}
	}
	e := r.primary()
	if e == nil {
		return nil
	}
	for {
		switch {
		case r.accept("*"):
			e = &pegExpr{Kind: pgStar, Sub: []*pegExpr{e}}
		case r.accept("+"):
			e = &pegExpr{Kind: pgPlus, Sub: []*pegExpr{e}}
		case r.accept("?"):
			e = &pegExpr{Kind: pgOpt, Sub: []*pegExpr{e}}
		default:
			return e
		}
	}
}

func (r *pegReader) primary() *pegExpr {
	r.space()
	if r.i >= len(r.s) {
		return nil
	}
	switch c := r.s[r.i]; {
	case c == '(':
		r.i++
		e := r.alt()
		if !r.accept(")") {
			panic("reference grammar: ) expected")
		}
		return e
	case c == '<':
		r.i++
		e := r.alt()
		if !r.accept(">") {
			panic("reference grammar: > expected")
		}
		return &pegExpr{Kind: pgText, Sub: []*pegExpr{e}}
	case c == '{':
		j := strings.IndexByte(r.s[r.i:], '}')
		e := &pegExpr{Kind: pgAct, Name: strings.TrimSpace(r.s[r.i+1 : r.i+j])}
		r.i += j + 1
		return e
	case c == '.':
		r.i++
		return &pegExpr{Kind: pgSet, Set: anyRune}
	case c == '\'' || c == '"':
		r.i++
		e := &pegExpr{Kind: pgSeq}
		for r.s[r.i] != c {
			x := r.char()
			set := oneRune(x)
			if c == '"' {
				set = oneRune(unicode.ToLower(x)).union(oneRune(unicode.ToUpper(x)))
			}
			e.Sub = append(e.Sub, &pegExpr{Kind: pgSet, Set: set})
		}
		r.i++
		return e
	case c == '[':
		r.i++
		neg := r.s[r.i] == '^'
		if neg {
			r.i++
		}
		var set runeSet
		for r.s[r.i] != ']' {
			lo := r.char()
			hi := lo
			if r.s[r.i] == '-' && r.s[r.i+1] != ']' {
				r.i++
				hi = r.char()
			}
			set = set.union(runeSet{{lo, hi}})
		}
		r.i++
		if neg {
			set = anyRune.minus(set)
		}
		return &pegExpr{Kind: pgSet, Set: set}
	}
	id := r.ident()
	if id == "" {
		return nil
	}
	save := r.i
	r.i += len(id)
	if r.peek("<-") { // the next rule
		r.i = save
		return nil
	}
	return &pegExpr{Kind: pgCall, Name: id}
}

func parsePeg(text string) *pegGrammar {
	g := &pegGrammar{Rules: map[string]*pegExpr{}, nullable: map[string]bool{}, first: map[string]runeSet{}}
	r := &pegReader{s: text}
	for {
		id := r.ident()
		if id == "" {
			break
		}
		r.i += len(id)
		if !r.accept("<-") {
			panic("reference grammar: <- expected after " + id)
		}
		g.Rules[id] = r.alt()
		g.Order = append(g.Order, id)
	}
	if r.space(); r.i != len(r.s) {
		panic(fmt.Sprintf("reference grammar: cannot read %q", r.s[r.i:]))
	}
	for changed := true; changed; {
		changed = false
		for _, n := range g.Order {
			null, first := g.props(g.Rules[n])
			if null != g.nullable[n] || first.String() != g.first[n].String() {
				g.nullable[n], g.first[n] = null, first
				changed = true
			}
		}
	}
	return g
}

// props: can the expression match without consuming, and with which
// characters can a match start.
func (g *pegGrammar) props(e *pegExpr) (null bool, first runeSet) {
	switch e.Kind {
	case pgSeq:
		null = true
		for _, s := range e.Sub {
			n, f := g.props(s)
			first = first.union(f)
			if !n {
				return false, first
			}
		}
		return true, first
	case pgAlt:
		for _, s := range e.Sub {
			n, f := g.props(s)
			null = null || n
			first = first.union(f)
		}
		return null, first
	case pgStar, pgOpt:
		_, f := g.props(e.Sub[0])
		return true, f
	case pgPlus, pgText:
		return g.props(e.Sub[0])
	case pgNot, pgAct:
		return true, nil
	case pgSet:
		return false, e.Set
	case pgCall:
		if g.Rules[e.Name] == nil {
			panic("reference grammar: unknown rule " + e.Name)
		}
		return g.nullable[e.Name], g.first[e.Name]
	}
	return true, nil
}

// textClass: the characters of a captured text with a repetition; nil if every
// captured text is one of finitely many words.
func (g *pegGrammar) textClass(rule string) (set runeSet, loop bool) {
	var walk func(e *pegExpr, in, rep bool)
	walk = func(e *pegExpr, in, rep bool) {
		switch e.Kind {
		case pgText:
			in = true
		case pgStar, pgPlus:
			rep = true
		case pgSet:
			if in {
				set = set.union(e.Set)
				loop = loop || rep
			}
		case pgNot:
			return
		}
		for _, s := range e.Sub {
			walk(s, in, rep)
		}
	}
	walk(g.Rules[rule], false, false)
	return set, loop
}
