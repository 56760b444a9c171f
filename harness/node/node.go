// Package node: every form of a node, with every combination of properties, in every position.
package node

import (
	. "verif/tree"
	"verif/vf"
)

func pick(n int) int { return int(vf.Concrete(uint64(vf.Choose(n)))) }

func letter() string { return string([]byte{vf.ByteIn("abz")}) }

func sc(s string) *T      { return &T{Kind: Plain, Text: s} }
func seq(k ...*T) *T      { return &T{Kind: Seq, Kids: k} }
func mp(k ...*T) *T       { return &T{Kind: Map, Kids: k} }
func spaces(n int) string { return "                "[:n] }

const (
	block = iota // anything may stand here
	flow         // inside of a flow collection
	key          // a key on one line
	fkey         // a key inside of a flow collection
)

// place is a surrounding of a node.
type place struct {
	pre, post string
	kind      int
	in        int // columns the contents of following lines need
	seqIn     int // columns a block sequence needs
	wrap      func(t *T) *T
}

func places() []place {
	w := sc("w")
	k := sc("k")
	return []place{
		{"", "\n", block, 0, 0, func(t *T) *T { return t }},
		{"--- ", "\n...\n", block, 0, 0, func(t *T) *T { return t }},
		{"k: ", "\nw: w\n", block, 1, 0, func(t *T) *T { return mp(k, t, w, w) }},
		{"- ", "\n- w\n", block, 1, 1, func(t *T) *T { return seq(t, w) }},
		{"- - ", "\n  - w\n- w\n", block, 3, 3, func(t *T) *T { return seq(seq(t, w), w) }},
		{"- k: ", "\n  w: w\n- w\n", block, 3, 2, func(t *T) *T { return seq(mp(k, t, w, w), w) }},
		{"k:\n- ", "\n- w\nw: w\n", block, 1, 1, func(t *T) *T { return mp(k, seq(t, w), w, w) }},
		{"k:\n  l: ", "\n  w: w\nw: w\n", block, 3, 2, func(t *T) *T { return mp(k, mp(sc("l"), t, w, w), w, w) }},
		{"? ", "\n: w\n", block, 1, 1, func(t *T) *T { return mp(t, w) }},
		{"? k\n: ", "\nw: w\n", block, 1, 1, func(t *T) *T { return mp(k, t, w, w) }},
		{"[", ", w]\n", flow, 0, 0, func(t *T) *T { return seq(t, w) }},
		{"[w, ", "]\n", flow, 0, 0, func(t *T) *T { return seq(w, t) }},
		{"{k: ", ", w: w}\n", flow, 0, 0, func(t *T) *T { return mp(k, t, w, w) }},
		{"- {\n  k : ", "\n  ,\n w: w }\n- w\n", flow, 1, 1, func(t *T) *T { return seq(mp(k, t, w, w), w) }},
		{"{\"k\":", "}\n", flow, 0, 0, func(t *T) *T { return mp(k, t) }},
		{"[k: ", ", w]\n", flow, 0, 0, func(t *T) *T { return seq(mp(k, t), w) }},
		{"{? ", " : w}\n", flow, 0, 0, func(t *T) *T { return mp(t, w) }},
		{"", ": w\nw: w\n", key, 0, 0, func(t *T) *T { return mp(t, w, w, w) }},
		{"w: w\n", " : w\n", key, 0, 0, func(t *T) *T { return mp(w, w, t, w) }},
		{"- ", ": w\n  w: w\n", key, 0, 0, func(t *T) *T { return seq(mp(t, w, w, w)) }},
		{"k:\n  ", ":\n   - w\n", key, 0, 0, func(t *T) *T { return mp(k, mp(t, seq(w))) }},
		{"{", ": w}\n", fkey, 0, 0, func(t *T) *T { return mp(t, w) }},
		{"{w, ", " : w}\n", fkey, 0, 0, func(t *T) *T { return mp(w, &T{Kind: Null}, t, w) }},
		{"[", " : w]\n", fkey, 0, 0, func(t *T) *T { return seq(mp(t, w)) }},
	}
}

// Places is the number of surroundings.
const Places = 24

type prop struct {
	text, anchor, tag string
}

var props = []prop{
	{"", "", ""},
	{"&x", "x", ""},
	{"!t", "", "!t"},
	{"&x !t", "x", "!t"},
	{"!t &x", "x", "!t"},
	{"!!str", "", "!str"},
	{"!<tag:x>", "", "!tag:x"},
	{"!", "", "!"},
	{"!!str  &x", "x", "!str"},
}

// HForm: the node is read as what it is. mode bits: 1 CR LF, 2 comments, 4 properties on a line of their own, 8 tabs.
func HForm(pl, mode int) {
	p := places()[pl]
	pr := props[pick(len(props))]
	f := newForm(p)
	s, t := f.s, f.t
	own, alias, empty, blockScalar := f.own, f.alias, f.empty, f.blockScalar
	in := spaces(p.in)
	if alias {
		vf.Assume(pr.text == "")
		vf.Assume(p.post[0] != ':') // the colon would belong to the name
	}
	if empty && pr.text == "" {
		vf.Assume(pl != 10 && pl != 11 && pl != 0 && p.kind != key && p.kind != fkey)
	}
	if empty && pr.text != "" {
		// a colon or comma right after a tag or an anchor may belong to it
		vf.Assume(p.post[0] != ':' && p.post[0] != ',' && p.post[0] != ']' && p.post[0] != '}')
	}
	t.Anchor, t.Tag = pr.anchor, pr.tag
	text := pr.text
	comment := ""
	if mode&2 != 0 {
		comment = " # c"
	}
	switch {
	case own && pl == 0 && text == "":
		// the document starts with it
	case own:
		text += comment + "\n"
	case text == "" || empty:
	case mode&4 != 0 && (p.kind == block || p.kind == flow) && !blockScalar:
		text += comment + "\n" + in + " "
	default:
		text += " "
	}
	if mode&8 != 0 && (p.kind == block || p.kind == flow) && len(p.pre) > 0 && p.pre[len(p.pre)-1] == ' ' {
		p.pre = p.pre[:len(p.pre)-1] + "\t"
	}
	src := p.pre + text + s
	if mode&8 != 0 && !blockScalar && p.post[0] == '\n' {
		src += "\t"
	}
	if comment != "" && !blockScalar && p.post[0] == '\n' {
		src += comment
	}
	src += p.post
	if mode&1 != 0 {
		x := ""
		for i := 0; i < len(src); i++ {
			if src[i] == '\n' {
				x += "\r"
			}
			x += src[i : i+1]
		}
		src = x
	}
	accepted(src, p, t)
}

func tags(t *T) string {
	s := t.Tag + ";"
	for _, k := range t.Kids {
		s += tags(k)
	}
	return s
}

// form is one way to write a node.
type form struct {
	s           string
	t           *T
	own         bool // starts on a line of its own
	alias       bool
	empty       bool
	blockScalar bool
}

func newForm(p place) form {
	c := letter()
	var s string
	var t *T
	var own, alias, empty, blockScalar bool
	nf := 12
	if p.kind == block {
		nf = 18
	}
	in := spaces(p.in)
	switch f := pick(nf); f {
	case 0:
		s, t = c, sc(c)
	case 1:
		s, t = "'"+c+"''#'", &T{Kind: Quoted, Text: c + "'#"}
	case 2:
		s, t = "\""+c+" : \\\"\"", &T{Kind: Quoted, Text: c + " : \""}
	case 3:
		s, t, empty = "", &T{Kind: Null}, true
	case 4:
		s, t = "[]", seq()
	case 5:
		s, t = "["+c+", {d: e}]", seq(sc(c), mp(sc("d"), sc("e")))
	case 6:
		s, t = "{}", mp()
	case 7:
		s, t = "{"+c+": [d]}", mp(sc(c), seq(sc("d")))
	case 8:
		s, t, alias = "*"+c, &T{Kind: Alias, Text: c}, true
	case 9:
		s, t = c+" b", sc(c+" b")
	case 10:
		s, t = "''", &T{Kind: Quoted}
	case 11:
		s, t = "-"+c, sc("-"+c)
	case 12:
		s, t, blockScalar = "|\n"+in+" "+c+"\n"+in+" - b", &T{Kind: Quoted, Text: c + "\n- b\n"}, true
	case 13:
		s, t, blockScalar = ">-\n"+in+" "+c+"\n"+in+" b: c", &T{Kind: Quoted, Text: c + " b: c"}, true
	case 14:
		i := spaces(p.in + pick(2))
		s, t, own = i+"- "+c+"\n"+i+"- d", seq(sc(c), sc("d")), true
	case 15:
		i := spaces(p.in + pick(2))
		s, t, own = i+"k: "+c+"\n"+i+"d: e", mp(sc("k"), sc(c), sc("d"), sc("e")), true
	case 16:
		// a sequence as deep as its parent mapping
		i := spaces(p.seqIn)
		s, t, own = i+"-\n"+i+"- "+c, seq(&T{Kind: Null}, sc(c)), true
	case 17:
		i := spaces(p.in + 2)
		s, t, own = i+"k:\n"+i+"- "+c, mp(sc("k"), seq(sc(c))), true
	}
	return form{s, t, own, alias, empty, blockScalar}
}
