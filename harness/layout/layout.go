// Package layout: indentation decides the structure of block collections. Every document of n lines, each with an
// arbitrary indentation and shape, is accepted with the tree of a reference model, or rejected when it has none.
package layout

import (
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	. "verif/tree"
	"verif/vf"
)

func pick(n int) int { return int(vf.Concrete(uint64(vf.Choose(n)))) }

const (
	dash = iota
	key
	scalar
	expl // ?
	val  // :
)

type item struct {
	kind, col int
	text      string
	first     bool // of its line
}

type ref struct {
	it  []item
	pos int
	bad bool
}

func (r *ref) at(kind, col int) bool {
	if r.pos >= len(r.it) {
		return false
	}
	i := r.it[r.pos]
	return i.kind == kind && i.col == col
}

// node parses what belongs to a parent at column n; out: the value of a mapping, where a sequence need not be indented.
func (r *ref) node(n int, out bool) *T {
	if r.pos >= len(r.it) {
		return &T{Kind: Null}
	}
	i := r.it[r.pos]
	if i.col <= n && !(out && i.kind == dash && i.col == n) {
		return &T{Kind: Null}
	}
	switch i.kind {
	case scalar:
		r.pos++
		return &T{Kind: Quoted, Text: i.text}
	case dash:
		t := &T{Kind: Seq}
		for first := true; r.at(dash, i.col) && (first || r.it[r.pos].first); first = false {
			r.pos++
			t.Kids = append(t.Kids, r.node(i.col, false))
		}
		return t
	case key, expl, val:
		t := &T{Kind: Map}
		for first := true; (r.at(key, i.col) || r.at(expl, i.col) || r.at(val, i.col)) && (first || r.it[r.pos].first); first = false {
			k := r.it[r.pos]
			r.pos++
			if k.kind == val { // an empty key, which takes no collection on its line
				if r.pos < len(r.it) && !r.it[r.pos].first && r.it[r.pos].kind != scalar {
					r.bad = true
				}
				t.Kids = append(t.Kids, &T{Kind: Null}, r.node(i.col, true))
				continue
			}
			if k.kind == key {
				t.Kids = append(t.Kids, &T{Kind: Plain, Text: k.text}, r.node(i.col, true))
				continue
			}
			t.Kids = append(t.Kids, r.node(i.col, true))
			if r.at(val, i.col) && r.it[r.pos].first {
				r.pos++
				t.Kids = append(t.Kids, r.node(i.col, true))
			} else {
				t.Kids = append(t.Kids, &T{Kind: Null})
			}
		}
		return t
	}
	r.bad = true
	return &T{Kind: Bad}
}

// letter: the text of the line's key or scalar; symbolic for the first two lines.
func letter(l int) string {
	if l < 2 {
		return string([]byte{vf.ByteIn("aZ_x0.")})
	}
	return string([]byte{'a' + byte(l)})
}

var shapes = [][]string{
	{`"v"`, "k:", `k: "v"`, "-", `- "v"`, "- k:", `- k: "v"`, "- -", `- - "v"`},
	{"k:", `k: "v"`, "-", `- "v"`, "- k:", `- k: "v"`},
	{`"v"`, "k:", `k: "v"`, "? ", `? "v"`, "? k:", `? k: "v"`, ": ", `: "v"`, ": k:", `: - "v"`},
	{"k:", `- "v"`, `k: "v"`},
}

// HLines: n lines, indentations 0 .. w, shapes of the set; wide: two spaces after the indicators.
func HLines(n, w, set, wide int) {
	r := &ref{}
	src := ""
	for l := 0; l < n; l++ {
		ind := pick(w + 1)
		sh := shapes[set][pick(len(shapes[set]))]
		for i := 0; i < ind; i++ {
			src += " "
		}
		col, first := ind, true
		for i := 0; i < len(sh); i++ {
			it := item{col: col, first: first, text: letter(l)}
			first = false
			switch sh[i] {
			case '-':
				it.kind = dash
				src += "-"
				col++
			case '?':
				it.kind = expl
				src += "?"
				col++
			case ':':
				it.kind = val
				src += ":"
				col++
			case 'k':
				it.kind = key
				src += it.text + ":"
				col += 2
				i++
			case '"':
				it.kind = scalar
				src += `"` + it.text + `"`
				col += 3
				i += 2
			}
			r.it = append(r.it, it)
			i++
			if i < len(sh) {
				for k := 0; k <= wide; k++ {
					src += " "
					col++
				}
			}
		}
		src += "\n"
	}
	t := r.node(-1, false)
	ok := !r.bad && r.pos == len(r.it)
	n1, err := parser.ParseString(src, parser.WithOmitStream())
	vf.Observe("src", src)
	if !ok {
		vf.Reach("rejected")
		vf.Assert(err != nil, "a wrongly indented document is rejected")
		return
	}
	vf.Reach("accepted")
	vf.Assert(err == nil, "a properly indented document is accepted")
	vf.Assert(Same(Of(n1), t), "with the structure its indentation gives it")
}
