// Package stream: the markers of a stream delimit its documents.
package stream

import (
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	. "verif/tree"
	"verif/vf"
)

func pick(n int) int { return int(vf.Concrete(uint64(vf.Choose(n)))) }

func letter() string { return string([]byte{vf.ByteIn("abz")}) }

func scalar(s string) *T { return &T{Kind: Plain, Text: s} }

// model follows the stream line by line.
type model struct {
	docs []*T
	open bool
	cur  *T // content of the open document; nil is none
	gaps int
	done bool // the content accepts no further line
	lit  bool // a literal scalar
	dir  bool // a directive waits for its marker
	bare bool // a directive may come
	dead bool // not a document the model describes
	bad  bool // an ill-formed stream
}

func (m *model) end() {
	if m.open {
		if m.cur == nil {
			m.cur = &T{Kind: Null}
		}
		m.docs = append(m.docs, m.cur)
	}
	m.open, m.cur, m.gaps, m.done, m.lit = false, nil, 0, false, false
}

func (m *model) start() {
	m.end()
	m.open, m.dir, m.bare = true, false, false
}

// text continues the plain scalar, or starts it.
func (m *model) text(s string) {
	if m.dir {
		m.bad = true
		return
	}
	if !m.open {
		m.start()
	}
	switch {
	case m.cur == nil:
		m.cur = scalar(s)
	case m.done || m.cur.Kind != Plain:
		m.dead = true
	case m.gaps > 0:
		for ; m.gaps > 0; m.gaps-- {
			m.cur.Text += "\n"
		}
		m.cur.Text += s
	default:
		m.cur.Text += " " + s
	}
	m.gaps = 0
}

// line renders one line of the stream. set: 0 every kind, 1 markers and text, 2 markers, collections and directives, 3 markers and literal scalars.
func (m *model) line(set, i int) string {
	var kinds = [][]int{
		{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16},
		{0, 1, 3, 5, 6, 7},
		{0, 1, 10, 11, 12, 4},
		{0, 1, 14, 7, 4, 5},
	}[set]
	switch kinds[pick(len(kinds))] {
	case 0:
		m.start()
		return "---"
	case 1:
		if m.dir {
			m.bad = true
		}
		m.end()
		m.bare = true
		return "..."
	case 2:
		m.start()
		s := letter()
		m.cur = scalar(s)
		return "--- " + s
	case 3:
		s := letter()
		if m.lit {
			m.dead = true
		}
		m.text(s)
		return s
	case 4:
		// a comment ends a plain scalar
		if m.lit {
			m.dead = m.dead || m.cur.Text == "" // it is the scalar's first line
			m.done = true
		}
		if m.cur != nil && m.cur.Kind == Plain {
			m.done = true
		}
		return "# " + letter()
	case 5:
		if m.lit && !m.done {
			m.gaps++
		} else if m.cur != nil && m.cur.Kind == Plain {
			m.gaps++
		}
		return ""
	case 6:
		s := "---" + letter()
		if m.lit {
			m.dead = true
		}
		m.text(s)
		return s
	case 7, 8, 9:
		var s string
		switch pick(3) {
		case 0:
			s = "---"
		case 1:
			s = "..."
		default:
			s = letter()
		}
		if m.lit {
			if m.done {
				m.dead = true
				return ""
			}
			for ; m.gaps > 0; m.gaps-- {
				m.cur.Text += "\n"
			}
			m.cur.Text += s + "\n"
			return " " + s
		}
		if m.cur != nil && m.cur.Kind != Plain {
			m.dead = true
		}
		m.text(s)
		return " " + s
	case 10:
		if m.open || !m.bare || m.dir {
			m.dead = true
		}
		m.dir = true
		return "%YAML 1.2"
	case 11, 12:
		k := &T{Kind: Map, Kids: []*T{scalar("k" + string([]byte{byte('a' + i)})), scalar(letter())}}
		s := k.Kids[0].Text + ": " + k.Kids[1].Text
		if pick(2) == 1 {
			k = &T{Kind: Seq, Kids: k.Kids[1:]}
			s = "- " + k.Kids[0].Text
		}
		if m.dir {
			m.bad = true
			return s
		}
		if !m.open {
			m.start()
		}
		if m.cur == nil {
			m.cur = k
		} else if m.cur.Kind == k.Kind && !m.done {
			m.cur.Kids = append(m.cur.Kids, k.Kids...)
		} else {
			m.dead = true
		}
		return s
	case 13:
		m.start()
		return "--- # " + letter()
	case 14:
		m.start()
		m.cur = &T{Kind: Quoted}
		m.lit = true
		return "--- |"
	case 15:
		m.start()
		s := letter()
		m.cur = &T{Kind: Quoted, Text: s}
		m.done = true
		return "--- '" + s + "'"
	default:
		m.start()
		s := letter()
		m.cur = &T{Kind: Seq, Kids: []*T{scalar(s)}}
		m.done = true
		return "---\t[" + s + "]"
	}
}

// HStream: a stream of n lines is the documents its markers delimit. mode bits: 1 CR LF, 2 the last line is not ended.
func HStream(set, n, mode int) {
	nl := "\n"
	if mode&1 != 0 {
		nl = "\r\n"
	}
	m := &model{bare: true}
	src := ""
	for i := 0; i < n; i++ {
		src += m.line(set, i)
		if i < n-1 || mode&2 == 0 {
			src += nl
		}
		if m.dead {
			return
		}
	}
	lit := m.lit
	if m.dir {
		m.bad = true
	}
	m.end()
	vf.Observe("src", src)
	got, err := parser.ParseString(src)
	if m.bad {
		vf.Assert(err != nil, "a directive without its document is refused")
		vf.Reach("refused")
		return
	}
	vf.Assert(err == nil, "the stream is accepted")
	if err != nil {
		return
	}
	want := &T{Kind: Stream, Kids: m.docs}
	if lit && mode&2 != 0 {
		// the last line of a literal scalar need not be ended: its break is the scalar's choice
		l := want.Kids[len(want.Kids)-1]
		g := Of(got)
		if len(g.Kids) != len(want.Kids) {
			vf.Assert(false, "the stream has its documents")
			return
		}
		if k := g.Kids[len(g.Kids)-1]; k.Text+"\n" == l.Text {
			l.Text = k.Text
		}
	}
	vf.Assert(Same(Of(got), want), "the stream is the documents its markers delimit")
	vf.Reach("documents")
}
