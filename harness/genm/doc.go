package genm

import (
	"math"
	"strings"
	"time"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"gopkg.in/yaml.v3"
	"verif/vf"
)

// Scalar is a scalar of a document and everything it means.
type Scalar struct {
	Text   string
	Quoted bool
	Any    bool // arbitrary
	Null   bool
	Ints   bool
	I      int64
	Uints  bool
	U      uint64
	Floats bool
	F      float64
	Bools  bool
	B      bool
	Times  bool
	T      time.Time
}

var scalars = []Scalar{
	{Text: "7", Ints: true, I: 7, Uints: true, U: 7, Floats: true, F: 7},
	{Text: "a b"},
	{Text: "-300", Ints: true, I: -300, Floats: true, F: -300},
	{Text: "true", Bools: true, B: true},
	{Text: "~", Null: true},
	{Text: "2024-02-29", Times: true, T: time.Date(2024, 2, 29, 0, 0, 0, 0, time.UTC)},
	{Text: "1.5", Floats: true, F: 1.5},
	{Text: "~", Quoted: true},
	{Text: "65536", Ints: true, I: 65536, Uints: true, U: 65536, Floats: true, F: 65536},
	{Text: "-129", Ints: true, I: -129, Floats: true, F: -129},
	{Text: "<x", Quoted: true},
	{Text: "3000000000", Quoted: true, Ints: true, I: 3000000000, Uints: true, U: 3000000000, Floats: true, F: 3000000000},
	{Text: "1e300", Floats: true, F: 1e300},
}

// Doc is a document.
type Doc struct {
	Sc   *Scalar // nil: a collection
	Map  bool
	Kids []*Doc
}

func text(s string) *Doc { return &Doc{Sc: &Scalar{Text: s}} }

func (n *Doc) null() bool { return n.Sc != nil && n.Sc.Null }

// Docs draws documents meant for a type. Hot is the number of positions which are arbitrary.
type Docs struct {
	Hot   int
	Depth int
	Scs   int  // how many scalars are tried
	Keys  bool // arbitrary keys of structs
	Str   int  // length of arbitrary texts
}

// Draw gives a document for the type, now and then one of another shape.
func (v *Docs) Draw(d *D) *Doc {
	if v.Hot <= 0 {
		return fit(d)
	}
	if v.Depth == 0 {
		v.Hot--
		return fit(d)
	}
	if d.K == Ptr {
		return v.Draw(d.Elem)
	}
	v.Depth--
	defer func() { v.Depth++ }()
	switch d.K {
	case Slice, Array, Map, Struct:
		if k := pick(4); k > 0 {
			v.Hot--
			return []*Doc{{Sc: &scalars[4]}, text("a b"), other(d.K == Slice || d.K == Array)}[k-1]
		}
	default:
		v.Hot--
		k := pick(v.Scs + 3)
		if k < v.Scs {
			return &Doc{Sc: &scalars[k]}
		}
		if k == v.Scs+2 {
			return v.quoted()
		}
		return other(k > v.Scs)
	}
	n := &Doc{}
	switch d.K {
	case Slice, Array:
		most := 2
		if d.K == Array {
			most = d.N + 2
		}
		m := pick(most + 1)
		if m == 0 {
			v.Hot--
		}
		for ; m > 0; m-- {
			n.Kids = append(n.Kids, v.Draw(d.Elem))
		}
	case Map:
		n.Map = true
		m := pick(4)
		if m == 0 {
			v.Hot--
		}
		if m == 3 {
			m = 1
			k := v.Draw(d.Key)
			if k.Sc == nil {
				k = &Doc{Sc: &scalars[4]}
			}
			n.Kids = append(n.Kids, k, v.Draw(d.Elem))
		}
		for i := m; i > 0; i-- {
			n.Kids = append(n.Kids, keyDoc(d.Key, i-1), v.Draw(d.Elem))
		}
	case Struct:
		n.Map = true
		if v.Keys {
			v.Hot--
			k := pick(3)
			n.Kids = append(n.Kids, v.quoted(), []*Doc{{Sc: &scalars[0]}, {Sc: &scalars[4]}, other(true)}[k])
			return n
		}
		at, all := 0, len(d.F)+len(d.Unknown)
		for v.Hot > 0 && at < all {
			// the next key
			at += pick(all - at + 1)
			if at == all {
				v.Hot--
				break
			}
			// unknown fields come first, so that reading goes on after them
			if at < len(d.Unknown) {
				n.Kids = append(n.Kids, text(d.Unknown[at]), v.Draw(unknown))
			} else {
				f := d.F[at-len(d.Unknown)]
				n.Kids = append(n.Kids, text(f.Name), v.Draw(f.D))
			}
			at++
		}
		if at < all && pick(2) == 1 {
			// something ordinary after it
			f := d.F[len(d.F)-1]
			n.Kids = append(n.Kids, text(f.Name), fit(f.D))
		}
	}
	return n
}

// quoted is an arbitrary text.
func (v *Docs) quoted() *Doc {
	b := make([]byte, v.Str)
	for i := range b {
		b[i] = vf.ByteIn(letters)
	}
	return &Doc{Sc: &Scalar{Text: string(b), Quoted: true, Any: true}}
}

// letters of arbitrary texts: no number, truth value or time consists of them.
const letters = "abdijmpqsvwxzABDIJMPQSVWXZ_ :#&*![]{},<>=|@`?/~%'$;"

func other(m bool) *Doc {
	return &Doc{Map: m, Kids: []*Doc{text("k"), {Sc: &scalars[0]}}}
}

var unknown = &D{K: Slice, Elem: &D{K: Map, Key: &D{K: Str}, Elem: &D{K: Str}}}

func keyDoc(d *D, i int) *Doc {
	switch d.K {
	case Int, Uint, Float:
		return &Doc{Sc: &scalars[[]int{0, 8}[i]]}
	case Bool:
		return &Doc{Sc: &scalars[3]}
	}
	return text([]string{"k", "l m"}[i])
}

// fit is a plain document of the type.
func fit(d *D) *Doc {
	switch d.K {
	case Int, Uint, Float:
		return &Doc{Sc: &scalars[0]}
	case Bool:
		return &Doc{Sc: &scalars[3]}
	case Time:
		return &Doc{Sc: &scalars[5]}
	case Ptr:
		return &Doc{Sc: &scalars[4]}
	case Slice, Array:
		return &Doc{}
	case Map, Struct:
		return &Doc{Map: true}
	case Text:
		return &Doc{Sc: &scalars[10]}
	case Iface:
		return &Doc{Sc: &scalars[4]}
	}
	return text("a b")
}

// Decode says what decoding the document gives; false: an error.
func Decode(d *D, n *Doc) (*G, bool) { return Over(d, Zero(d), n) }

// Over says what decoding the document into a variable which holds something gives; false: an error.
func Over(d *D, old *G, n *Doc) (*G, bool) {
	is := n.Sc != nil && !n.Sc.Null
	x := n.Sc
	switch d.K {
	case Int:
		if is && x.Ints {
			lim := ints(d.Bits)
			if x.I <= lim[3] && x.I >= lim[4] && !(x.Uints && x.U > math.MaxInt64) {
				return I(x.I), true
			}
		}
	case Uint:
		if is && x.Uints && x.U <= uints(d.Bits)[2] {
			return U(x.U), true
		}
	case Float:
		if is && x.Floats && (d.Bits == 64 || x.F <= math.MaxFloat32) {
			if d.Bits == 32 {
				return Fl(float64(float32(x.F))), true
			}
			return Fl(x.F), true
		}
	case Bool:
		if is && x.Bools {
			return B(x.B), true
		}
	case Str:
		if is {
			return S(x.Text), true
		}
	case Text:
		if is && len(x.Text) > 0 && x.Text[:1] == d.Pre && (d.Only == "" || x.Text[1:] == "" || x.Text[1:] == d.Only) {
			return S(x.Text[1:]), true
		}
	case Iface, Any:
		switch {
		case old.K != GNil && d.Pre != "" && (d.K == Any || !n.null()):
			// what it holds reads it
			if is && len(x.Text) > 0 && x.Text[:1] == d.Pre {
				return S(x.Text[1:]), true
			}
			return nil, false
		case d.K == Iface:
			return Nil(), n.null()
		}
		return untyped(n), true
	case Bytes:
		if n.null() {
			return Nil(), true
		}
		if is {
			return S(x.Text), true
		}
	case ByteArr:
		if n.null() {
			return Zero(d), true
		}
		if is {
			b := make([]byte, d.N)
			copy(b, x.Text)
			return S(string(b)), true
		}
	case Time:
		if is && x.Times {
			return Tm(x.T), true
		}
	case Ptr:
		if n.null() {
			return Nil(), true
		}
		if old.K == GNil {
			old = Zero(d.Elem)
		}
		return Over(d.Elem, old, n)
	case Slice, Array:
		g := Zero(d)
		if n.null() {
			return g, true
		}
		if n.Sc != nil || n.Map {
			return nil, false
		}
		g.K = GSeq
		for i, k := range n.Kids {
			if d.K == Array && i >= d.N {
				break
			}
			e, ok := Decode(d.Elem, k)
			if !ok {
				return nil, false
			}
			if d.K == Array {
				g.Kids[i] = e
			} else {
				g.Kids = append(g.Kids, e)
			}
		}
		return g, true
	case Map:
		if n.null() {
			return Nil(), true
		}
		if n.Sc != nil || !n.Map {
			return nil, false
		}
		if d.Omit && len(n.Kids) == 0 {
			return Nil(), true
		}
		g := &G{K: GMap}
	entries:
		for i := 0; i < len(n.Kids); i += 2 {
			k, ok := Decode(d.Key, n.Kids[i])
			if !ok {
				return nil, false
			}
			e, ok := Decode(d.Elem, n.Kids[i+1])
			if !ok {
				return nil, false
			}
			for j := 0; j < len(g.Kids); j += 2 {
				if Same(g.Kids[j], k) {
					g.Kids[j+1] = e
					continue entries
				}
			}
			g.Kids = append(g.Kids, k, e)
		}
		return g, true
	case Struct:
		if n.null() {
			return Zero(d), true
		}
		if n.Sc != nil || !n.Map {
			return nil, false
		}
		g := R(append([]*G(nil), old.Kids...)...)
		for i := 0; i < len(n.Kids); i += 2 {
			at := -1
			for j, f := range d.F {
				if f.Name == n.Kids[i].Sc.Text {
					at = j
				}
			}
			if at < 0 {
				if d.Strict {
					return nil, false
				}
				continue
			}
			if n.Kids[i+1].null() {
				// either the field is left alone or it becomes zero
				if !Same(g.Kids[at], Zero(d.F[at].D)) {
					g.Kids[at] = &G{K: GWild}
				}
				continue
			}
			if g.Kids[at].K == GWild {
				g.Kids[at] = Zero(d.F[at].D)
			}
			e, ok := Over(d.F[at].D, g.Kids[at], n.Kids[i+1])
			if !ok {
				return nil, false
			}
			g.Kids[at] = e
		}
		return g, true
	}
	return nil, false
}

func untyped(n *Doc) *G {
	if n.Sc == nil {
		g := L()
		if n.Map {
			g.K = GMap
		}
		for i, k := range n.Kids {
			if n.Map && i%2 == 0 {
				g.Kids = append(g.Kids, S(k.Sc.Text))
			} else {
				g.Kids = append(g.Kids, untyped(k))
			}
		}
		return g
	}
	x := n.Sc
	switch {
	case x.Null:
		return Nil()
	case x.Quoted:
		return S(x.Text)
	case x.Times:
		return Tm(x.T)
	case x.Uints:
		return U(x.U)
	case x.Ints:
		return I(x.I)
	case x.Floats:
		return Fl(x.F)
	case x.Bools:
		return B(x.B)
	}
	return S(x.Text)
}

func (n *Doc) yay() ast.Node {
	if n.Sc != nil {
		if n.Sc.Quoted {
			return ast.NewTextNode(n.Sc.Text, ast.WithQuotingType(ast.DoubleQuotingType))
		}
		return ast.NewTextNode(n.Sc.Text)
	}
	var kids []ast.Node
	if !n.Map {
		for _, k := range n.Kids {
			kids = append(kids, k.yay())
		}
		return ast.NewSequenceNode(kids)
	}
	for i := 0; i < len(n.Kids); i += 2 {
		kids = append(kids, ast.NewMappingEntryNode(n.Kids[i].yay(), n.Kids[i+1].yay()))
	}
	return ast.NewMappingNode(kids)
}

func (n *Doc) goy() *yaml.Node {
	y := &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq"}
	if n.Sc != nil {
		y.Kind, y.Value, y.Tag = yaml.ScalarNode, n.Sc.Text, "!!str"
		switch {
		case n.Sc.Null:
			y.Tag = "!!null"
		case n.Sc.Quoted:
			y.Style = yaml.DoubleQuotedStyle
		case n.Sc.Bools:
			y.Tag = "!!bool"
		case n.Sc.Ints:
			y.Tag = "!!int"
		case n.Sc.Floats:
			y.Tag = "!!float"
		case n.Sc.Times:
			y.Tag = "!!timestamp"
		}
		return y
	}
	if n.Map {
		y.Kind, y.Tag = yaml.MappingNode, "!!map"
	}
	for _, k := range n.Kids {
		y.Content = append(y.Content, k.goy())
	}
	return y
}

// any: it has arbitrary texts.
func (n *Doc) any() bool {
	if n.Sc != nil {
		return n.Sc.Any
	}
	for _, k := range n.Kids {
		if k.any() {
			return true
		}
	}
	return false
}

// flow writes the document.
func (n *Doc) flow() string {
	if n.Sc != nil {
		if strings.Contains(n.Sc.Text, "\"") {
			return "'" + n.Sc.Text + "'"
		}
		if n.Sc.Quoted || n.Sc.Text == "-" || strings.Contains(n.Sc.Text, ": ") {
			return "\"" + n.Sc.Text + "\""
		}
		return n.Sc.Text
	}
	s := ""
	for i, k := range n.Kids {
		switch {
		case n.Map && i%2 == 1:
			s += ": "
		case i > 0:
			s += ", "
		}
		s += k.flow()
	}
	if n.Map {
		return "{" + s + "}"
	}
	return "[" + s + "]"
}
