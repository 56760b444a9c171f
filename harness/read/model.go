// Package read: the decoders of both engines against a reference model of reading.
package read

import (
	"math"
	"time"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	"gopkg.in/yaml.v3"
	"verif/vf"
)

func pick(n int) int {
	if n <= 1 {
		return 0
	}
	return int(vf.Concrete(uint64(vf.Choose(n))))
}

const (
	scalar = iota
	seq
	mapping
	alias
)

// sc is a scalar and everything it means.
type sc struct {
	text   string
	quoted bool
	null   bool
	isInt  bool
	i      int64
	isUint bool
	u      uint64
	isF    bool
	f      float64
	isB    bool
	b      bool
	isT    bool
	t      time.Time
}

func day(y, m, d int) time.Time { return time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC) }

var scalars = []sc{
	{text: "-3", isInt: true, i: -3, isF: true, f: -3},
	{text: "~", null: true},
	{text: "a b"},
	{text: "300", quoted: true, isInt: true, i: 300, isUint: true, u: 300, isF: true, f: 300},
	{text: "true", isB: true, b: true},
	{text: "2024-02-29", isT: true, t: day(2024, 2, 29)},
	{text: "1.5", isF: true, f: 1.5},
	{text: "~", quoted: true},
	{text: "0x1F", isInt: true, i: 31, isUint: true, u: 31},
	{text: "18446744073709551615", isInt: true, i: 0, isUint: true, u: 1<<64 - 1, isF: true, f: 1 << 64},
	{text: "", quoted: true},
	{text: "null", null: true},
	{text: "300", isInt: true, i: 300, isUint: true, u: 300, isF: true, f: 300},
}

// symbolic is an arbitrary text of n characters, as far as the alphabet goes.
func symbolic(n int, quotes bool) *sc {
	x := &sc{}
	if quotes {
		x.quoted = vf.Bool()
	}
	a := vf.ByteIn("-+0179a~.")
	sign := a == '-' || a == '+'
	digit := a >= '0' && a <= '9'
	if n == 1 {
		x.text = string([]byte{a})
		x.null = a == '~' && !x.quoted
		x.isInt, x.isUint, x.isF = digit, digit, digit
		if digit {
			x.i, x.u = int64(a-'0'), uint64(a-'0')
			x.f = []float64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}[pickOf(int(a-'0'))]
		}
		return x
	}
	b := vf.ByteIn("058a")
	x.text = string([]byte{a, b})
	if b == 'a' {
		return x
	}
	d := int64(b - '0')
	switch {
	case digit:
		x.isInt, x.isUint, x.isF = true, true, true
		x.i = int64(a-'0')*10 + d
	case sign:
		x.isInt, x.isUint, x.isF = true, a == '+', true
		x.i = d
		if a == '-' {
			x.i = -d
		}
	case a == '.':
		x.isF = true
		x.f = []float64{0, .1, .2, .3, .4, .5, .6, .7, .8}[pickOf(int(d))]
		return x
	default:
		return x
	}
	x.i = int64(vf.Concrete(uint64(x.i)))
	x.f = float64(x.i)
	if a == '-' && x.i == 0 {
		x.f = math.Copysign(0, -1)
	}
	if x.isUint {
		x.u = uint64(x.i)
	}
	return x
}

func pickOf(i int) int { return int(vf.Concrete(uint64(i))) }

// N is a node of the model.
type N struct {
	kind   int
	sc     *sc
	anchor string
	tag    bool
	kids   []*N // k0 v0 k1 v1 ... for a mapping
	to     *N   // of an alias
	name   string
	single bool // a mapping written as a single pair
}

// gen draws a document.
type gen struct {
	budget  int
	scalars []int // the scalars which may occur
	keys    []int
	anchors int // 0 none, 1 anchors and aliases, 2 also undefined ones and nodes containing themselves
	tags    bool
	merge   bool
	width   int
	defs    []*N
	open    []*N
	n       int
}

var names = []string{"p", "q", "r", "s"}

func (g *gen) leaf(set []int) *N { return &N{kind: scalar, sc: &scalars[set[pick(len(set))]]} }

func (g *gen) node(key bool) *N {
	g.budget--
	k := 0
	if g.budget > 0 && !key {
		k = pick(3)
	}
	if g.anchors > 0 && len(g.defs)+len(g.open) > 0 && pick(2) == 0 {
		// an alias
		targets := g.defs
		if g.anchors == 2 {
			targets = append(append([]*N{}, g.defs...), g.open...)
		}
		if key {
			var scalars []*N
			for _, t := range targets {
				if t.kind == scalar {
					scalars = append(scalars, t)
				}
			}
			targets = scalars
		}
		if len(targets) > 0 {
			t := targets[pick(len(targets))]
			return &N{kind: alias, to: t, name: t.anchor}
		}
	}
	if g.anchors == 2 && pick(4) == 3 {
		return &N{kind: alias, name: "zz"}
	}
	n := &N{kind: k}
	anchored := g.anchors > 0 && g.n < len(names) && pick(2) == 0
	if anchored {
		n.anchor = names[g.n]
		g.n++
		if k != 0 {
			g.open = append(g.open, n)
		}
	}
	if g.tags {
		n.tag = pick(2) == 0
	}
	switch k {
	case 0:
		set := g.scalars
		if key {
			set = g.keys
		}
		if set[0] < 0 {
			n.sc = symbolic(-set[0], true)
		} else {
			n.sc = g.leaf(set).sc
		}
	case 1:
		for m := pick(g.width + 1); m > 0; m-- {
			n.kids = append(n.kids, g.node(false))
		}
	case 2:
		for m := pick(g.width + 1); m > 0; m-- {
			n.kids = append(n.kids, g.node(true))
			n.kids = append(n.kids, g.node(false))
		}
	}
	if anchored {
		if k != 0 {
			g.open = g.open[:len(g.open)-1]
		}
		g.defs = append(g.defs, n)
	}
	return n
}

// yay builds the tree of the yayamls engine.
func (n *N) yay() ast.Node {
	var c ast.Node
	switch n.kind {
	case scalar:
		switch {
		case n.sc.null && n.sc.text == "null":
			c = ast.NewNullNode()
		case n.sc.quoted:
			c = ast.NewTextNode(n.sc.text, ast.WithQuotingType(ast.DoubleQuotingType))
		default:
			c = ast.NewTextNode(n.sc.text)
		}
	case seq:
		var kids []ast.Node
		for _, k := range n.kids {
			kids = append(kids, k.yay())
		}
		c = ast.NewSequenceNode(kids)
	case mapping:
		var kids []ast.Node
		for i := 0; i < len(n.kids); i += 2 {
			kids = append(kids, ast.NewMappingEntryNode(n.kids[i].yay(), n.kids[i+1].yay()))
		}
		c = ast.NewMappingNode(kids)
	case alias:
		return ast.NewAliasNode(n.name)
	}
	if n.anchor != "" || n.tag {
		var a, t ast.Node
		if n.anchor != "" {
			a = ast.NewAnchorNode(n.anchor)
		}
		if n.tag {
			t = ast.NewTagNode("t")
		}
		return ast.NewContentNode(ast.NewPropertiesNode(t, a), c)
	}
	return c
}

// goy builds the tree of the goyaml engine.
func (n *N) goy(made map[*N]*yaml.Node) *yaml.Node {
	y := &yaml.Node{Anchor: n.anchor}
	made[n] = y
	switch n.kind {
	case scalar:
		y.Kind, y.Value, y.Tag = yaml.ScalarNode, n.sc.text, "!!str"
		switch {
		case n.sc.null:
			y.Tag = "!!null"
		case n.sc.quoted:
			y.Style = yaml.DoubleQuotedStyle
		case n.sc.isB:
			y.Tag = "!!bool"
		case n.sc.isInt:
			y.Tag = "!!int"
		case n.sc.isF:
			y.Tag = "!!float"
		case n.sc.isT:
			y.Tag = "!!timestamp"
		}
	case seq, mapping:
		y.Kind, y.Tag = yaml.SequenceNode, "!!seq"
		if n.kind == mapping {
			y.Kind, y.Tag = yaml.MappingNode, "!!map"
		}
		for _, k := range n.kids {
			y.Content = append(y.Content, k.goy(made))
		}
	case alias:
		y.Kind, y.Value, y.Alias = yaml.AliasNode, n.name, made[n.to]
	}
	return y
}

// flow writes the document in flow style.
func (n *N) flow() string {
	p := ""
	if n.anchor != "" {
		p = "&" + n.anchor + " "
	}
	if n.tag {
		p = "!!t " + p
	}
	switch n.kind {
	case scalar:
		if n.sc.quoted {
			return p + "\"" + n.sc.text + "\""
		}
		return p + n.sc.text
	case seq:
		s := ""
		for i, k := range n.kids {
			if i > 0 {
				s += ", "
			}
			s += k.flow()
		}
		return p + "[" + s + "]"
	case mapping:
		s := ""
		for i := 0; i < len(n.kids); i += 2 {
			if i > 0 {
				s += ", "
			}
			s += n.kids[i].flow() + " : " + n.kids[i+1].flow()
		}
		if n.single && len(n.kids) == 2 && p == "" {
			return s
		}
		return p + "{" + s + "}"
	}
	return "*" + n.name
}

// block writes the document in block style; the result starts with a line break where it needs one.
func (n *N) block(ind string) string {
	p := ""
	if n.anchor != "" {
		p = "&" + n.anchor + " "
	}
	if n.tag {
		p += "!!t "
	}
	if n.kind == seq && len(n.kids) > 0 {
		s := p
		for _, k := range n.kids {
			s += "\n" + ind + "- " + k.block(ind+"  ")
		}
		return s
	}
	if n.kind == mapping && len(n.kids) > 0 {
		s := p
		for i := 0; i < len(n.kids); i += 2 {
			s += "\n" + ind + n.kids[i].flow() + " : " + n.kids[i+1].block(ind+"  ")
		}
		return s
	}
	return n.flow()
}

// open gives a decoder of the document. src: 0 the tree itself, 1 flow text, 2 block text.
func open(e, src int, root *N, multi bool) (yamly.Decoder, error) {
	text := ""
	switch src {
	case 1:
		text = root.flow() + "\n"
	case 2:
		text = root.block("") + "\n"
	}
	if e == 0 {
		var opts []ydecode.ReaderOption
		if multi {
			opts = append(opts, ydecode.WithMultipleDenyErrors())
		}
		if src == 0 {
			return ydecode.NewASTReader(root.yay(), opts...), nil
		}
		r, err := ydecode.NewASTReaderFromBytes([]byte(text), opts...)
		if err != nil {
			return nil, err
		}
		return r, nil
	}
	var opts []gdecode.ReaderOption
	if multi {
		opts = append(opts, gdecode.WithMultipleDenyErrors())
	}
	if src == 0 {
		return gdecode.NewASTReader(root.goy(map[*N]*yaml.Node{}), opts...), nil
	}
	var n yaml.Node
	if err := yaml.Unmarshal([]byte(text), &n); err != nil {
		return nil, err
	}
	return gdecode.NewASTReader(&n, opts...), nil
}

// cursor is the reference reader.
type cursor struct {
	e       int
	stack   []*frame
	pending *N // handed out, not consumed
	atKey   bool
	bad     bool // an undefined alias or a node containing itself was met
	over    bool
}

type frame struct {
	n *N
	i int
}

func newCursor(e int, root *N) *cursor { return &cursor{e: e, pending: root} }

// current gives the node to be read, nil at the end or after a bad alias.
func (c *cursor) current() *N {
	c.settle()
	if c.bad || c.over {
		return nil
	}
	return c.pending
}

// key: the next node is a key of a mapping which was not yet handed out.
func (c *cursor) key() bool {
	if c.pending != nil || c.bad {
		return false
	}
	for i := len(c.stack) - 1; i >= 0; i-- {
		f := c.stack[i]
		if f.i < len(f.n.kids) {
			return f.n.kind == mapping && f.i%2 == 0
		}
	}
	return false
}

func (c *cursor) settle() {
	if c.bad || c.over {
		return
	}
	for c.pending == nil {
		if len(c.stack) == 0 {
			c.over = true
			return
		}
		top := c.stack[len(c.stack)-1]
		if top.i < len(top.n.kids) {
			c.pending = top.n.kids[top.i]
			top.i++
		} else {
			c.stack = c.stack[:len(c.stack)-1]
		}
	}
	if c.pending.kind == alias {
		to := c.pending.to
		if to == nil {
			c.bad = true
			return
		}
		for _, f := range c.stack {
			if f.n == to {
				c.bad = true
				return
			}
		}
		c.pending = to
	}
}

func (c *cursor) consume() { c.pending = nil }

func (c *cursor) enter() *frame {
	f := &frame{n: c.pending}
	c.stack = append(c.stack, f)
	c.pending = nil
	return f
}

// skipEntry passes over a whole entry.
func (c *cursor) skipEntry() {
	for {
		top := c.stack[len(c.stack)-1]
		if top.i < len(top.n.kids) {
			top.i += 2
			return
		}
		c.stack = c.stack[:len(c.stack)-1]
	}
}

// ok: the subtree can be given out as a value: no alias inside is undefined or leads back to a node which is
// being expanded.
func (n *N) ok(path []*N) bool {
	if n.kind == alias {
		if n.to == nil {
			return false
		}
		n = n.to
	}
	for _, p := range path {
		if p == n {
			return false
		}
	}
	path = append(path[:len(path):len(path)], n)
	for _, k := range n.kids {
		if !k.ok(path) {
			return false
		}
	}
	return true
}
