package main

import (
	"fmt"
	"go/token"
	"strings"
)

// Tok is a token of written text: a word, punctuation or a symbol.
type Tok struct {
	W     string // word, lower case
	Raw   string // word as written
	P     string // punctuation
	S     *Sym
	Space bool // blank before
	Pos   token.Pos
}

func (t Tok) String() string {
	switch {
	case t.S != nil:
		return "⟨" + t.S.Key + "⟩"
	case t.W != "":
		return t.W
	}
	return t.P
}

func isWordByte(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func isOpByte(c byte) bool { return strings.IndexByte("<>=!|&:", c) >= 0 }

// lex splits a text into tokens. Symbols are tokens of their own.
func lex(s Str) (out []Tok) {
	space := false
	cont := byte(0) // kind of the token that may continue
	for _, a := range s {
		if a.S != nil {
			out = append(out, Tok{S: a.S, Space: space, Pos: a.Pos})
			space, cont = false, 's'
			continue
		}
		for i := 0; i < len(a.C); i++ {
			c := a.C[i]
			switch {
			case c == ' ' || c == '\t' || c == '\n' || c == '\r':
				space, cont = true, 0
			case isWordByte(c):
				w := strings.ToLower(string(c))
				if cont == 'w' {
					out[len(out)-1].W += w
					out[len(out)-1].Raw += string(c)
				} else {
					out = append(out, Tok{W: w, Raw: string(c), Space: space, Pos: a.Pos})
				}
				space, cont = false, 'w'
			case isOpByte(c):
				if cont == 'o' {
					out[len(out)-1].P += string(c)
				} else {
					out = append(out, Tok{P: string(c), Space: space, Pos: a.Pos})
				}
				space, cont = false, 'o'
			default:
				out = append(out, Tok{P: string(c), Space: space, Pos: a.Pos})
				space, cont = false, 'p'
			}
		}
	}
	return out
}

func toksText(ts []Tok) string {
	var b strings.Builder
	for i, t := range ts {
		if i > 0 && (t.Space) {
			b.WriteByte(' ')
		}
		b.WriteString(t.String())
	}
	return b.String()
}

// Want is an element of an expected text.
type Want struct {
	Words   []string // alternatives of words or punctuation
	Quote   Str      // a quoted name
	QuoteBy string   // the quote
	Is      func(s *Sym) bool
	Desc    string
	Group   []Want // may be put in parentheses
	Need    bool   // has to be put in parentheses
	Raw     Str    // the rest of the text, character by character
	Glued   bool   // no blank before
	Case    bool   // letter case has to be the same
}

func kw(w ...string) Want { return Want{Words: w, Desc: strings.Join(w, "|")} }

func words(s string) (out []Want) {
	for _, w := range strings.Fields(s) {
		out = append(out, kw(w))
	}
	return
}

func symIs(desc string, f func(s *Sym) bool) Want { return Want{Is: f, Desc: desc} }

func grouped(need bool, w ...Want) Want { return Want{Group: w, Need: need, Desc: wantText(w)} }

func wantText(w []Want) string {
	var s []string
	for _, x := range w {
		switch {
		case x.Need:
			s = append(s, "("+x.Desc+")")
		default:
			s = append(s, x.Desc)
		}
	}
	return strings.Join(s, " ")
}

// matcher compares tokens with the expected ones, trying all ways to assign
// parentheses to groups. The error is the one furthest in the text.
type matcher struct {
	t    []Tok
	err  string
	errI int
	at   token.Pos
}

func (x *matcher) bad(i int, format string, a ...any) bool {
	if x.err == "" || i > x.errI {
		x.err, x.errI = fmt.Sprintf(format, a...), i
		if i < len(x.t) {
			x.at = x.t[i].Pos
		} else if len(x.t) > 0 {
			x.at = x.t[len(x.t)-1].Pos
		}
	}
	return false
}

func (x *matcher) one(w Want, i int, next func(i int) bool) bool {
	if w.Group != nil {
		// any number of parentheses around the group
		n := 0
		for i+n < len(x.t) && x.t[i+n].P == "(" {
			n++
		}
		if w.Need && n == 0 {
			return x.bad(i, "%s has to be in parentheses", w.Desc)
		}
		for ; n >= 0; n-- {
			if n == 0 && w.Need {
				break
			}
			ok := x.all(w.Group, i+n, func(k int) bool {
				for j := 0; j < n; j++ {
					if k+j >= len(x.t) || x.t[k+j].P != ")" {
						return x.bad(k+j, "missing ) after %s", w.Desc)
					}
				}
				return next(k + n)
			})
			if ok {
				return true
			}
		}
		return false
	}
	if w.Quote != nil {
		// quoted name: both quotes the same, nothing else inside
		if i+1 >= len(x.t) || x.t[i].P != `"` && x.t[i].P != "`" {
			return x.bad(i, "expected quoted name %s", w.Quote)
		}
		q := x.t[i].P
		if w.QuoteBy != "" && q != w.QuoteBy {
			return x.bad(i, "%s is quoted by %s instead of %s", w.Quote, q, w.QuoteBy)
		}
		i++
		var in Str
		for i < len(x.t) && x.t[i].P != q {
			t := x.t[i]
			if t.Space {
				in = append(in, Atom{C: " "})
			}
			if t.S != nil {
				in = append(in, Atom{S: t.S})
			} else {
				in = append(in, Atom{C: t.Raw + t.P})
			}
			i++
		}
		if i >= len(x.t) {
			return x.bad(i, "quote of %s is not closed", w.Quote)
		}
		if in.key() != w.Quote.key() {
			return x.bad(i, "expected name %s, found %s", w.Quote, in)
		}
		return next(i + 1)
	}
	if i >= len(x.t) {
		return x.bad(i, "expected %s, found the end", w.Desc)
	}
	t := x.t[i]
	if w.Glued && t.Space {
		return x.bad(i, "unexpected blank before %s", t)
	}
	// words need a blank between them
	if i > 0 && !t.Space && !w.Glued && (t.W != "" || t.S != nil) && (x.t[i-1].W != "" || x.t[i-1].S != nil) {
		return x.bad(i, "no separator between %s and %s", x.t[i-1], t)
	}
	if w.Is != nil && t.S != nil && w.Is(t.S) {
		return next(i + 1)
	}
	for _, s := range w.Words {
		if w.Case && t.W != "" && t.Raw != s {
			continue
		}
		if t.W != "" && t.W == strings.ToLower(s) || t.P != "" && t.P == s {
			return next(i + 1)
		}
	}
	return x.bad(i, "expected %s, found %s", w.Desc, t)
}

func (x *matcher) all(ws []Want, i int, next func(i int) bool) bool {
	if len(ws) == 0 {
		return next(i)
	}
	return x.one(ws[0], i, func(k int) bool { return x.all(ws[1:], k, next) })
}

// match compares written text with the expected one. The result is empty if
// they agree.
func match(s Str, ws []Want) (string, token.Pos) {
	if len(ws) == 1 && ws[0].Raw != nil {
		if s.key() != ws[0].Raw.key() {
			at := token.NoPos
			if len(s) > 0 {
				at = s[0].Pos
			}
			return fmt.Sprintf("expected %s, found %s", ws[0].Raw, s), at
		}
		return "", token.NoPos
	}
	x := &matcher{t: lex(s)}
	ok := x.all(ws, 0, func(i int) bool {
		if i < len(x.t) {
			return x.bad(i, "unexpected %s", x.t[i])
		}
		return true
	})
	if !ok {
		return x.err + " in: " + toksText(x.t), x.at
	}
	return "", token.NoPos
}
