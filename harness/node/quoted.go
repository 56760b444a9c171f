package node

import (
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/decode"
	"github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	. "verif/tree"
	"verif/vf"
)

var alphabets = []string{
	"a-?:,[]{}#&*!|>'\"%@`.\\ ",
	"a'\"\\ ",
	"a:#- ",
	"a,[]{}",
	"a\t \\n'\"",
}

func accepted(src string, p place, t *T) {
	vf.Observe("src", src)
	n, err := parser.ParseString(src)
	vf.Assert(err == nil, "the document is accepted")
	if err != nil {
		return
	}
	same(n, p.wrap(t))
	vf.Reach("node")
}

// same: the tree is the only document; with written set, so is the tree of what is written for it.
func same(n ast.Node, want *T) {
	if read {
		readable := true
		var visit func(t *T, key bool)
		visit = func(t *T, key bool) {
			if t.Kind == Alias || key && (t.IsNull() || !t.Scalar()) {
				readable = false
			}
			for i, k := range t.Kids {
				visit(k, t.Kind == Map && i%2 == 0)
			}
		}
		visit(want, false)
		if !readable {
			return
		}
		d := decode.NewASTReader(n)
		v := d.Any()
		vf.Assert(d.Error() == nil, "the document is read without an error")
		vf.Assert(value(v, want), "the value read is that of the document")
		vf.Reach("any")
		return
	}
	want = &T{Kind: Stream, Kids: []*T{want}}
	got := Of(n)
	if !written {
		vf.Assert(Same(got, want), "the document has its nodes")
		vf.Assert(tags(got) == tags(want), "the nodes have their tags")
		return
	}
	w := encode.NewASTWriter()
	out, err := w.WriteString(n)
	vf.Assert(err == nil, "a parsed document can be written")
	vf.Observe("out", out)
	again, err := parser.ParseString(out)
	vf.Assert(err == nil, "the written document can be parsed")
	if err != nil {
		return
	}
	got = Of(again)
	vf.Assert(Same(got, want), "the written document has its nodes")
	vf.Assert(tags(got) == tags(want), "the written nodes have their tags")
	vf.Reach("accepted")
	vf.Reach("rejected")
}

// written: the trees are written and parsed again before they are compared.
var written bool

// read: the trees are read as values.
var read bool

// value: v is what the tree means.
func value(v any, t *T) bool {
	switch {
	case t.IsNull():
		return v == nil
	case t.Kind == Seq:
		s, ok := v.([]any)
		if !ok || len(s) != len(t.Kids) {
			return false
		}
		for i := range s {
			if !value(s[i], t.Kids[i]) {
				return false
			}
		}
		return true
	case t.Kind == Map:
		m, ok := v.(map[string]any)
		if !ok || len(m) != len(t.Kids)/2 {
			return false
		}
		for i := 0; i < len(t.Kids); i += 2 {
			x, ok := m[t.Kids[i].Text]
			if !ok || !value(x, t.Kids[i+1]) {
				return false
			}
		}
		return true
	}
	s, ok := v.(string)
	return ok && s == t.Text
}

// HFormRead: as HForm, read as a value.
func HFormRead(pl, mode int) {
	read = true
	HForm(pl, mode)
	read = false
}

// HPairRead: as HPair, read as a value.
func HPairRead(cont, pr int) {
	read = true
	HPair(cont, pr)
	read = false
}

// HFormWrite: as HForm, written and parsed again.
func HFormWrite(pl, mode int) {
	written = true
	HForm(pl, mode)
	written = false
}

// HPairWrite: as HPair, written and parsed again.
func HPairWrite(cont, pr int) {
	written = true
	HPair(cont, pr)
	written = false
}

// HTextWrite: as HText, written and parsed again.
func HTextWrite(pl, q, k, n int) {
	written = true
	HText(pl, q, k, n)
	written = false
}

// HText: any text of one line between quotes is that text.
func HText(pl, q, k, n int) {
	p := places()[pl]
	text := ""
	src := ""
	quote := "'\""[q : q+1]
	for i := 0; i < n; i++ {
		c := string([]byte{vf.ByteIn(alphabets[k])})
		text += c
		switch {
		case c == "'" && q == 0:
			src += "''"
		case q == 1 && (c == "\"" || c == "\\"):
			src += "\\" + c
		default:
			src += c
		}
	}
	accepted(p.pre+quote+src+quote+p.post, p, &T{Kind: Quoted, Text: text})
}

// HUnicode: text beyond ASCII, plain and quoted, is that text.
func HUnicode(pl, q, n int) {
	p := places()[pl]
	text := ""
	for i := 0; i < n; i++ {
		text += []string{"é", "я", "語", "😀", "\u2028", "\u00a0", "a"}[pick(7)]
	}
	switch q {
	case 0:
		accepted(p.pre+"'"+text+"'"+p.post, p, &T{Kind: Quoted, Text: text})
	case 1:
		accepted(p.pre+"\""+text+"\""+p.post, p, &T{Kind: Quoted, Text: text})
	default:
		accepted(p.pre+text+p.post, p, sc(text))
	}
}

// HBreaks: the line breaks of a quoted scalar, escaped ones too, are folded.
func HBreaks(pl, n, crlf int) {
	p := places()[pl]
	if p.kind == key || p.kind == fkey {
		return
	}
	nl := "\n"
	if crlf == 1 {
		nl = "\r\n"
	}
	in := spaces(p.in + 1)
	text := string([]byte{vf.ByteIn("ab#-:")})
	src := text
	for i := 0; i < n; i++ {
		switch pick(9) {
		case 0:
			src += nl + in
			text += " "
		case 1:
			src += "\\" + nl + in
		case 2:
			src += "  \\" + nl + in
			text += "  "
		case 3:
			src += "\\" + nl + in + "\\ "
			text += " "
		case 4:
			src += " \t" + nl + in + " "
			text += " "
		case 5:
			src += nl + nl + in
			text += "\n"
		case 6:
			src += nl + nl + " " + nl + in
			text += "\n\n"
		case 7:
			src += "\\t" + nl + in
			text += "\t "
		case 8:
			src += "\\" + nl + nl + in
			text += "\n"
		}
		c := string([]byte{vf.ByteIn("ab'")})
		src += c
		text += c
	}
	accepted(p.pre+"\""+src+"\""+p.post, p, &T{Kind: Quoted, Text: text})
}
