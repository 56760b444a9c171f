// Package render: documents are rendered from symbolic trees, in every presentation, and parsed back.
package render

import (
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	. "verif/tree"
	"verif/vf"
)

// gen renders a tree whose shape, presentation and scalars are symbolic.
type gen struct {
	budget int // nodes left
	nl     string
	props  bool // anchors
	fancy  bool // comments, blank lines
	expl   bool // explicit keys
	names  int
	at     int // the line whose end is fancy
	hot    int // the scalar with arbitrary contents and style
}

func pick(n int) int { return int(vf.Concrete(uint64(vf.Choose(n)))) }

func spaces(n int) string { return "                                        "[:n] }

const (
	first  = "abz0."
	inner  = "ab1:-?#&*!|>'\"%@`+"
	flowin = "ab1-?#&*!|>'\"%@`+"
)

// plain: a plain scalar of two characters: the second one may be any indicator glued to the first.
func (g *gen) plain(flow bool) (string, *T) {
	if g.cold() {
		s := string([]byte{vf.ByteIn("abcd"), 'c'})
		return s, &T{Kind: Plain, Text: s}
	}
	return g.plainHot(flow)
}

// cold counts the scalars down to the hot one.
func (g *gen) cold() bool {
	g.hot--
	return g.hot != -1
}

func (g *gen) plainHot(flow bool) (string, *T) {
	a := vf.ByteIn(first)
	in := inner
	if flow {
		in = flowin
	}
	b := vf.ByteIn(in)
	s := string([]byte{a, b, 'c'})
	return s, &T{Kind: Plain, Text: s}
}

// scalar of any style; the text never breaks the line.
func (g *gen) scalar(flow, key bool) (string, *T) {
	if g.hot != 0 {
		return g.plain(flow)
	}
	switch pick(3) {
	case 0:
		return g.plain(flow)
	case 1:
		g.hot--
		c := string([]byte{vf.ByteIn("a :#-,]}[{\"&\\")})
		return "'" + c + "x'", &T{Kind: Quoted, Text: c + "x"}
	}
	g.hot--
	c := string([]byte{vf.ByteIn("a :#-,]}[{'&!")})
	return "\"" + c + "\\n\"", &T{Kind: Quoted, Text: c + "\n"}
}

func (g *gen) prop(s string, t *T) (string, *T) {
	if !g.props || pick(2) == 0 {
		return s, t
	}
	n := string([]byte{'n', byte('0' + g.names)})
	g.names++
	t.Anchor = n
	return "&" + n + " " + s, t
}

// flow: a node in flow style.
func (g *gen) flow() (string, *T) {
	g.budget--
	if g.budget <= 0 {
		return g.prop(g.scalar(true, false))
	}
	sp := ""
	if g.fancy {
		sp = []string{"", " ", g.nl + "   "}[pick(3)]
	}
	switch pick(4) {
	case 0:
		return g.prop(g.scalar(true, false))
	case 1:
		t := &T{Kind: Seq}
		s := "[" + sp
		n := pick(3)
		for i := 0; i < n; i++ {
			e, k := g.flow()
			s += e + sp
			t.Kids = append(t.Kids, k)
			if i+1 < n {
				s += ", "
			}
		}
		if n > 0 && g.fancy && pick(2) == 1 {
			s += ","
		}
		return s + "]", t
	case 2:
		t := &T{Kind: Map}
		s := "{" + sp
		n := pick(3)
		for i := 0; i < n; i++ {
			ks, kt := g.plain(true)
			t.Kids = append(t.Kids, kt)
			s += ks
			if pick(3) == 0 {
				// a key without a value
				t.Kids = append(t.Kids, &T{Kind: Null})
			} else {
				e, v := g.flow()
				s += ": " + e
				t.Kids = append(t.Kids, v)
			}
			if i+1 < n {
				s += sp + ", "
			}
		}
		return s + sp + "}", t
	}
	// single pair
	ks, kt := g.plain(true)
	e, v := g.flow()
	return "[" + ks + ": " + e + "]", &T{Kind: Seq, Kids: []*T{{Kind: Map, Kids: []*T{kt, v}}}}
}

func (g *gen) eol() string {
	g.at--
	if !g.fancy || g.at != -1 {
		return g.nl
	}
	return []string{g.nl, " # c" + g.nl, g.nl + g.nl, g.nl + "# c" + g.nl, "  " + g.nl}[pick(5)]
}

func (g *gen) key() (string, *T) {
	if g.hot != 0 || pick(2) == 0 {
		return g.plain(false)
	}
	g.hot--
	c := string([]byte{vf.ByteIn("a :#-")})
	return "'" + c + "k'", &T{Kind: Quoted, Text: c + "k"}
}

// block: what follows the indicator of a block collection at the indentation (-1: the document itself).
func (g *gen) block(ind int, inSeq bool) (string, *T) {
	g.budget--
	k := 0
	if g.budget > 0 {
		k = pick(7)
	} else {
		k = pick(2)
	}
	lead := " "
	if ind < 0 {
		lead = ""
	}
	switch k {
	case 0:
		s, t := g.prop(g.scalar(false, false))
		return lead + s + g.eol(), t
	case 1:
		if ind < 0 {
			s, t := g.plain(false)
			return s + g.eol(), t
		}
		return g.eol(), &T{Kind: Null}
	case 2:
		s, t := g.flow()
		return lead + s + g.eol(), t
	case 3, 4: // sequence, mapping on the next lines
		in := ind + 1 + pick(2)
		if ind < 0 {
			in = pick(2)
		} else if k == 3 && !inSeq && pick(2) == 1 {
			in = ind // sequences of a mapping need no indentation
		}
		s := ""
		if ind >= 0 {
			s = g.eol()
		}
		n := 1 + pick(2)
		t := &T{Kind: Seq}
		if k == 4 {
			t.Kind = Map
		}
		for i := 0; i < n; i++ {
			s += g.entry(t, in, spaces(in))
		}
		return s, t
	case 5, 6: // compact forms
		if !inSeq || ind < 0 {
			vf.Assume(false)
		}
		gap := 1 + pick(2)
		in := ind + 1 + gap
		t := &T{Kind: Seq}
		if k == 6 {
			t.Kind = Map
		}
		s := g.entry(t, in, spaces(gap))
		if pick(2) == 1 {
			s += g.entry(t, in, spaces(in))
		}
		return s, t
	}
	return "", nil
}

// entry of a block collection, the indentation already being in pre.
func (g *gen) entry(t *T, in int, pre string) string {
	if t.Kind == Seq {
		s, k := g.block(in, true)
		t.Kids = append(t.Kids, k)
		return pre + "-" + s
	}
	if g.expl && pick(2) == 0 {
		// explicit key
		ks, kt := g.block(in, true)
		vs, vt := g.block(in, true)
		t.Kids = append(t.Kids, kt, vt)
		return pre + "?" + ks + spaces(in) + ":" + vs
	}
	ks, kt := g.key()
	s, v := g.block(in, false)
	t.Kids = append(t.Kids, kt, v)
	return pre + ks + ":" + s
}

func check(src string, want *T) {
	vf.Observe("src", src)
	n, err := parser.ParseString(src)
	vf.Assert(err == nil, "a rendered document is accepted")
	if err != nil {
		return
	}
	got := Of(n)
	vf.Assert(Same(got, want), "a rendered document parses to its tree")
	vf.Reach("document")
}

// HDoc: one document of at most n nodes; scalar number hot is arbitrary. mode bits: 1 CR LF, 2 anchors, 4 comments and blank lines, 8 explicit keys.
func HDoc(n, mode, hot int) {
	g := &gen{hot: hot, budget: n, nl: "\n", props: mode&2 != 0, fancy: mode&4 != 0, expl: mode&8 != 0}
	if mode&1 != 0 {
		g.nl = "\r\n"
	}
	if g.fancy {
		g.at = pick(5)
	}
	src, t := g.block(-1, false)
	check(src, &T{Kind: Stream, Kids: []*T{t}})
}

// HFlow: one flow node of at most n nodes.
func HFlow(n, mode, hot int) {
	g := &gen{hot: hot, budget: n, nl: "\n", props: mode&2 != 0, fancy: mode&4 != 0, expl: mode&8 != 0}
	src, t := g.flow()
	check(src, &T{Kind: Stream, Kids: []*T{t}})
}

// HDocs: several documents with their markers.
func HDocs(n, d, hot int) {
	g := &gen{hot: hot, budget: n, nl: "\n"}
	t := &T{Kind: Stream}
	src := ""
	for i := 0; i < d; i++ {
		if i > 0 || pick(2) == 1 {
			src += "---"
			if pick(2) == 1 {
				src += " # c"
			}
			src += "\n"
		}
		s, k := g.block(-1, false)
		src += s
		t.Kids = append(t.Kids, k)
		if pick(2) == 1 {
			src += "...\n"
		}
	}
	check(src, t)
}
