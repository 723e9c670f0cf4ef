package main

import "fmt"

// parseData replaces Parse in the analyses of its users: an arbitrary tree or
// an error, the same for the same text.
type parseData struct {
	roots  map[string]*ANode
	fails  map[string]bool
	parsed []string
	inline func(n *ANode) bool
	setup  func(n *ANode)
}

func newParseData() parseData {
	return parseData{roots: map[string]*ANode{}, fails: map[string]bool{}}
}

func (d *parseData) parse(m *Machine, text Str) Value {
	key := m.resolve(text).key()
	d.parsed = append(d.parsed, key)
	if d.root(m, key) == nil {
		return Tuple{Nil{}, m.newError("syntax error in " + key)}
	}
	return Tuple{d.roots[key].Ptr, Nil{}}
}

func (d *parseData) root(m *Machine, key string) *ANode {
	if d.fails[key] {
		return nil
	}
	if r := d.roots[key]; r != nil {
		return r
	}
	if key == "" || m.decide("syntax error in "+key) {
		d.fails[key] = true
		return nil
	}
	name := "q"
	if len(d.roots) > 0 {
		name = fmt.Sprintf("q%d", len(d.roots)+1)
	}
	r := m.newRoot(name)
	if d.setup != nil {
		d.setup(r)
	}
	d.roots[key] = r
	return r
}

// behind makes the tree an arbitrary part that can be translated and behind it
// the part to look at: what is done for it must not depend on what was done before.
func (m *Machine) behind(d *parseData) { m.behindSome(d, 1) }

// behindSome does so with several parts before.
func (m *Machine) behindSome(d *parseData, parts int) {
	inline := map[string]bool{}
	d.setup = func(n *ANode) {
		for i := 0; i < parts; i++ {
			n.Tag, n.Allowed = tOr, []string{tOr}
			left := n.kid(m, "Left")
			left.Tag, left.Allowed = tParen, []string{tParen}
			m.Facts["fails("+left.Path+")"] = false
			n = n.kid(m, "Right")
			n.inPlace = true
			inline[n.Path] = true
		}
	}
	d.inline = func(n *ANode) bool { return inline[n.Path] }
}
