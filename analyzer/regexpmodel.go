package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode"
)

// regexpReplace replaces matches in a shape made of fixed words and runs of
// separators. If the expression matches exactly the runs, whatever they
// consist of, each becomes the replacement; otherwise the result is unknown.
func (m *Machine) regexpReplace(re *Regexp, s Str, repl string) Str {
	if parts, ok := m.regexpSplit(re, s); ok && !strings.Contains(repl, "$") {
		var out Str
		for i, p := range parts {
			if i > 0 {
				out = append(out, Atom{C: repl})
			}
			out = append(out, Atom{C: p})
		}
		return out.norm()
	}
	return symstr(m.sym("regexp("+re.Pattern+","+s.key()+","+repl+")", types.Typ[types.String], nil))
}

// regexpSplit gives the words between the matches of an expression.
func (m *Machine) regexpSplit(re *Regexp, s Str) ([]string, bool) {
	s = m.resolve(s).norm()
	if c, ok := s.isConst(); ok {
		r, err := regexp.Compile(re.Pattern)
		if err != nil {
			return nil, false
		}
		var out []string
		at := 0
		for _, i := range r.FindAllStringIndex(c, -1) {
			out = append(out, c[at:i[0]])
			at = i[1]
		}
		return append(out, c[at:]), true
	}
	words := []string{""}
	for _, a := range s {
		if a.S == nil {
			words[len(words)-1] += a.C
			continue
		}
		if _, ok := a.S.Info.(*wsRun); !ok {
			return nil, false
		}
		words = append(words, "")
	}
	return words, sepRegexp(re.Pattern, words)
}

// --- leftmost-first matching of a compiled expression over a text with
// arbitrary runs of separators in it

// states of the automaton of separator runs: blanks and comments
const (
	sepStart  = iota // nothing read yet
	sepEnd           // complete
	sepDash          // after -
	sepSlash         // after /
	sepInside        // in a comment
	sepBad
)

func sepStep(q int, r rune) int {
	switch q {
	case sepStart, sepEnd:
		switch r {
		case ' ', '\t', '\n', '\r':
			return sepEnd
		case '-':
			return sepDash
		case '/':
			return sepSlash
		}
	case sepDash:
		if r == '-' {
			return sepInside
		}
	case sepSlash:
		if r == '/' {
			return sepInside
		}
	case sepInside:
		if r == '\n' || r == '\r' {
			return sepEnd
		}
		return sepInside
	}
	return sepBad
}

type sepMatcher struct {
	prog  *syntax.Prog
	chars []rune // one of every kind of character
	words []string
	bad   bool
}

var sepCache = map[string]bool{}

// sepRegexp shows that the matches of an expression in the words joined by
// runs of separators are exactly these runs.
func sepRegexp(pattern string, words []string) bool {
	key := fmt.Sprintf("%q %q", pattern, words)
	if r, ok := sepCache[key]; ok {
		return r
	}
	sepCache[key] = false
	tree, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil {
		return false
	}
	prog, err := syntax.Compile(tree.Simplify())
	if err != nil {
		return false
	}
	sm := &sepMatcher{prog: prog, words: words}
	sm.kinds()
	for w := range words {
		rs := []rune(words[w])
		// nothing matches from inside a word (or at its end, if it is the last)
		for i := range rs {
			if !sm.noMatch(sm.start(), w, i, false) {
				return false
			}
		}
		if w == len(words)-1 {
			if !sm.noMatch(sm.start(), w, len(rs), true) {
				return false
			}
			continue
		}
		if !sm.wholeRun(w) {
			return false
		}
	}
	sepCache[key] = !sm.bad
	return !sm.bad
}

// kinds picks a character between any two borders of the expression and of
// the separators.
func (sm *sepMatcher) kinds() {
	borders := map[rune]bool{0: true}
	add := func(lo, hi rune) { borders[lo], borders[hi+1] = true, true }
	for _, r := range " \t\n\r-/" {
		add(r, r)
	}
	for i := range sm.prog.Inst {
		in := &sm.prog.Inst[i]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			if len(in.Rune) == 1 {
				for r, n := in.Rune[0], 0; n < 4; r, n = unicode.SimpleFold(r), n+1 {
					add(r, r)
				}
			}
			for j := 0; j+1 < len(in.Rune); j += 2 {
				add(in.Rune[j], in.Rune[j+1])
			}
		case syntax.InstRuneAnyNotNL:
			add('\n', '\n')
		}
	}
	for r := range borders {
		if r <= unicode.MaxRune && (r < 0xd800 || r > 0xdfff) {
			sm.chars = append(sm.chars, r)
		}
	}
}

// list follows the empty steps from some places, in order of preference. A
// match cuts off everything behind it.
func (sm *sepMatcher) list(from []uint32) (out []uint32, matched bool) {
	seen := map[uint32]bool{}
	var walk func(pc uint32) bool
	walk = func(pc uint32) bool {
		if seen[pc] {
			return false
		}
		seen[pc] = true
		in := &sm.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			return walk(in.Out) || walk(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			return walk(in.Out)
		case syntax.InstEmptyWidth:
			sm.bad = true
			return true
		case syntax.InstFail:
			return false
		case syntax.InstMatch:
			return true
		}
		out = append(out, pc)
		return false
	}
	for _, pc := range from {
		if walk(pc) {
			return out, true
		}
	}
	return out, false
}

func (sm *sepMatcher) start() []uint32 { return []uint32{uint32(sm.prog.Start)} }

func (sm *sepMatcher) step(l []uint32, r rune) []uint32 {
	var out []uint32
	for _, pc := range l {
		in := &sm.prog.Inst[pc]
		if in.MatchRune(r) {
			out = append(out, in.Out)
		}
	}
	return out
}

// noMatch: from the places on, nothing matches in the rest of the text
func (sm *sepMatcher) noMatch(from []uint32, w, i int, _ bool) bool {
	l, matched := sm.list(from)
	if matched {
		return false
	}
	rs := []rune(sm.words[w])
	for ; i < len(rs); i++ {
		if len(l) == 0 {
			return true
		}
		if l, matched = sm.list(sm.step(l, rs[i])); matched {
			return false
		}
	}
	if len(l) == 0 || w == len(sm.words)-1 {
		return true
	}
	return sm.inRun(l, func(l []uint32, matched bool, q int) (bool, bool) {
		if matched {
			return false, true
		}
		if q == sepEnd && !sm.noMatch(l, w+1, 0, false) {
			return false, true
		}
		return true, len(l) == 0
	})
}

// wholeRun: from the start of the run behind a word, the match is the run
func (sm *sepMatcher) wholeRun(w int) bool {
	l, matched := sm.list(sm.start())
	if matched && len(l) == 0 {
		return false
	}
	return sm.inRun(l, func(l []uint32, matched bool, q int) (bool, bool) {
		if q == sepEnd {
			// the run may end here: what is left must not match more
			if !matched || !sm.noMatch(l, w+1, 0, false) {
				return false, true
			}
		}
		// with nothing left the match could not grow to the end of the run
		return len(l) > 0, len(l) == 0
	})
}

// inRun visits all states inside a run of separators. The visitor says
// whether all is well and whether to stop there.
func (sm *sepMatcher) inRun(l []uint32, visit func(l []uint32, matched bool, q int) (ok, stop bool)) bool {
	type conf struct {
		l []uint32
		q int
	}
	seen := map[string]bool{}
	todo := []conf{{l, sepStart}}
	for len(todo) > 0 {
		c := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, r := range sm.chars {
			q := sepStep(c.q, r)
			if q == sepBad {
				continue
			}
			n, matched := sm.list(sm.step(c.l, r))
			k := fmt.Sprint(n, matched, q)
			if seen[k] {
				continue
			}
			seen[k] = true
			if len(seen) > 20000 {
				return false
			}
			ok, stop := visit(n, matched, q)
			if !ok {
				return false
			}
			if !stop {
				todo = append(todo, conf{n, q})
			}
		}
	}
	return true
}
