package main

import (
	"fmt"
	"sort"
	"strings"
)

// endRune is what the recogniser sees behind the last character.
const endRune = 0x110000

type runeRange struct{ Lo, Hi rune }

// runeSet is a sorted list of disjoint ranges.
type runeSet []runeRange

var (
	anyRune  = runeSet{{0, endRune - 1}}
	allRunes = runeSet{{0, endRune}}
	onlyEnd  = runeSet{{endRune, endRune}}
)

func oneRune(r rune) runeSet { return runeSet{{r, r}} }

func (s runeSet) union(t runeSet) runeSet {
	all := append(append(runeSet{}, s...), t...)
	sort.Slice(all, func(i, j int) bool { return all[i].Lo < all[j].Lo })
	var out runeSet
	for _, r := range all {
		if n := len(out); n > 0 && r.Lo <= out[n-1].Hi+1 {
			out[n-1].Hi = max(out[n-1].Hi, r.Hi)
			continue
		}
		out = append(out, r)
	}
	return out
}

func (s runeSet) minus(t runeSet) runeSet {
	out := append(runeSet{}, s...)
	for _, x := range t {
		var next runeSet
		for _, r := range out {
			if x.Hi < r.Lo || x.Lo > r.Hi {
				next = append(next, r)
				continue
			}
			if r.Lo < x.Lo {
				next = append(next, runeRange{r.Lo, x.Lo - 1})
			}
			if x.Hi < r.Hi {
				next = append(next, runeRange{x.Hi + 1, r.Hi})
			}
		}
		out = next
	}
	return out
}

func (s runeSet) inter(t runeSet) runeSet { return s.minus(allRunes.minus(t)) }

func (s runeSet) has(r rune) bool {
	for _, x := range s {
		if x.Lo <= r && r <= x.Hi {
			return true
		}
	}
	return false
}

func (s runeSet) single() (rune, bool) {
	if len(s) == 1 && s[0].Lo == s[0].Hi {
		return s[0].Lo, true
	}
	return 0, false
}

func (s runeSet) String() string {
	name := func(r rune) string {
		if r == endRune {
			return "end"
		}
		return strings.Trim(fmt.Sprintf("%q", r), "'")
	}
	var out []string
	for _, r := range s {
		if r.Lo == r.Hi {
			out = append(out, name(r.Lo))
		} else {
			out = append(out, name(r.Lo)+"-"+name(r.Hi))
		}
	}
	return "[" + strings.Join(out, " ") + "]"
}
