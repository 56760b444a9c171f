// Package trees judges the helpers for syntax trees: comparing and printing them.
package trees

import (
	"errors"

	"verif/vf"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astcmp"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astprint"
)

// nd is the harness's own tree: the node and its children as they were put in. A nil child is an absent one.
type nd struct {
	n    ast.Node
	name string
	text string
	leaf bool
	kids []*nd
}

type gen struct {
	left int
	txt  string
}

func (g *gen) text() string {
	return string([]byte{vf.ByteIn(g.txt)})
}

// node makes any node out of at most g.left ones; kinds: 0 leaves and sequences, 1 everything.
func (g *gen) node(kinds int) *nd {
	g.left--
	k := 0
	if g.left > 0 || kinds == 1 {
		k = vf.Choose([]int{3, 9}[kinds])
	}
	switch k {
	case 0:
		s := g.text()
		return &nd{n: ast.NewTextNode(s), name: "text", text: s, leaf: true}
	case 1:
		return g.list(kinds, "sequence")
	case 2:
		return g.list(kinds, "mapping")
	case 3:
		return &nd{n: ast.NewNullNode(), name: "null"}
	case 4:
		s := g.text()
		return &nd{n: ast.NewAliasNode(s), name: "alias", text: s, leaf: true}
	case 5:
		return g.entry(kinds)
	case 6:
		return g.list(kinds, "stream")
	case 7:
		p := g.props()
		var c *nd
		if g.left > 0 && vf.Bool() {
			c = g.node(kinds)
		}
		var pn, cn ast.Node
		if p != nil {
			pn = p.n
		}
		if c != nil {
			cn = c.n
		}
		return &nd{n: ast.NewContentNode(pn, cn), name: "content", kids: []*nd{p, c}}
	default:
		s := g.text()
		return &nd{n: ast.NewTextNode(s, ast.WithQuotingType(ast.DoubleQuotingType)), name: "text", text: s, leaf: true}
	}
}

func (g *gen) props() *nd {
	if g.left <= 0 || !vf.Bool() {
		return nil
	}
	g.left--
	var tag, anchor ast.Node
	r := &nd{name: "properties", kids: []*nd{nil, nil}}
	if c := vf.Choose(3); c == 2 {
		tag = ast.NewInvalidNode()
		r.kids[0] = &nd{n: tag, name: "invalid"}
	} else if g.left > 0 && c == 1 {
		g.left--
		s := g.text()
		tag = ast.NewTagNode(s)
		r.kids[0] = &nd{n: tag, name: "tag", text: s, leaf: true}
	}
	if c := vf.Choose(3); c == 2 {
		anchor = ast.NewInvalidNode()
		r.kids[1] = &nd{n: anchor, name: "invalid"}
	} else if g.left > 0 && c == 1 {
		g.left--
		s := g.text()
		anchor = ast.NewAnchorNode(s)
		r.kids[1] = &nd{n: anchor, name: "anchor", text: s, leaf: true}
	}
	r.n = ast.NewPropertiesNode(tag, anchor)
	return r
}

func (g *gen) entry(kinds int) *nd {
	r := &nd{name: "mapping_entry", kids: []*nd{nil, nil}}
	var k, v ast.Node
	if g.left > 0 && vf.Bool() {
		r.kids[0] = g.node(kinds)
		k = r.kids[0].n
	}
	if g.left > 0 && vf.Bool() {
		r.kids[1] = g.node(kinds)
		v = r.kids[1].n
	}
	r.n = ast.NewMappingEntryNode(k, v)
	return r
}

func (g *gen) list(kinds int, name string) *nd {
	r := &nd{name: name}
	var l []ast.Node
	for g.left > 0 && vf.Bool() {
		var k *nd
		if name == "mapping" && kinds == 1 && vf.Bool() {
			g.left--
			k = g.entry(kinds)
		} else {
			k = g.node(kinds)
		}
		r.kids = append(r.kids, k)
		l = append(l, k.n)
	}
	switch name {
	case "sequence":
		r.n = ast.NewSequenceNode(l)
	case "mapping":
		r.n = ast.NewMappingNode(l)
	default:
		r.n = ast.NewStreamNode(l)
	}
	return r
}

// same: an invalid node in the place of a tag or an anchor, as the parser leaves it, is an absent one.
func same(a, b *nd) bool {
	if a != nil && a.name == "invalid" {
		a = nil
	}
	if b != nil && b.name == "invalid" {
		b = nil
	}
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if a.name != b.name || len(a.kids) != len(b.kids) {
		return false
	}
	if a.text != b.text {
		return false
	}
	for i := range a.kids {
		if !same(a.kids[i], b.kids[i]) {
			return false
		}
	}
	return true
}

// HEqual compares every two trees of up to n and m nodes.
func HEqual(n, m, kinds int) {
	a := (&gen{n, "ab"}).node(kinds)
	b := (&gen{m, "ab"}).node(kinds)
	got := astcmp.NewComparator().Equal(a.n, b.n)
	want := same(a, b)
	vf.Assert(got == want, "trees are equal exactly when their nodes are")
	if want {
		vf.Reach("equal")
	} else {
		vf.Reach("different")
	}
	vf.Assert(vf.Leaked() == 0, "nothing is left running after a comparison")
	vf.Observe("equal", got)
}

// HNil compares with no tree at all.
func HNil(n int) {
	a := (&gen{n, "ab"}).node(1)
	c := astcmp.NewComparator()
	vf.Assert(!c.Equal(a.n, nil) && !c.Equal(nil, a.n), "a tree is not equal to no tree")
	vf.Assert(c.Equal(nil, nil), "no tree is equal to no tree")
	vf.Assert(c.Equal(a.n, a.n), "a tree is equal to itself")
	vf.Assert(vf.Leaked() == 0, "nothing is left running after a comparison")
	vf.Reach("equal")
	vf.Reach("different")
}

var errFull = errors.New("full")

// sink keeps what is written until it has taken left writes.
type sink struct {
	b    []byte
	left int
}

func (s *sink) Write(p []byte) (int, error) {
	if s.left == 0 {
		return 0, errFull
	}
	if s.left > 0 {
		s.left--
	}
	s.b = append(s.b, p...)
	return len(p), nil
}

func line(out []byte, pre string, edge string, t *nd) []byte {
	out = append(out, pre...)
	out = append(out, edge...)
	out = append(out, "["...)
	out = append(out, t.name...)
	out = append(out, "] "...)
	for i := 0; i < len(t.text); i++ {
		if t.text[i] == '\n' {
			out = append(out, `\n`...)
		} else {
			out = append(out, t.text[i])
		}
	}
	return append(out, '\n')
}

func draw(out []byte, pre string, t *nd) []byte {
	var ks []*nd
	for _, k := range t.kids {
		if k != nil {
			ks = append(ks, k)
		}
	}
	for i, k := range ks {
		if i == len(ks)-1 {
			out = line(out, pre, "└── ", k)
			out = draw(out, pre+"    ", k)
		} else {
			out = line(out, pre, "├── ", k)
			out = draw(out, pre+"│   ", k)
		}
	}
	return out
}

// HPrint prints every tree of up to n nodes, twice, and once to a destination which fails.
func HPrint(n, kinds int) {
	a := (&gen{n, "a\n"}).node(kinds)
	if a.leaf {
		vf.Assume(a.text != "\n") // the text of a lone leaf is printed as it is
	}
	want := string(draw(line(nil, "", "", a), "", a))
	p := astprint.NewPrinter()
	for i := 0; i < 2; i++ {
		s := sink{left: -1}
		err := p.Print(a.n, &s)
		vf.Assert(err == nil, "a tree can be printed")
		vf.Assert(string(s.b) == want, "every node has its line, below its parent")
	}
	s := sink{left: vf.Choose(4)}
	err := p.Print(a.n, &s)
	if err == nil {
		vf.Assert(string(s.b) == want, "a destination which fails is reported")
		vf.Reach("printed")
	} else {
		vf.Assert(errors.Is(err, errFull), "the error is that of the destination")
		vf.Reach("fails")
	}
	vf.Observe("printed", want)
}
