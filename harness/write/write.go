// Package write: harnesses over the yayamls writer.
package write

import (
	"github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"verif/tree"
	"verif/vf"
)

var alphabets = []string{
	"ab \n:-,[]{}\"'|>?\\#",
	"a,[]{}:\"' \\\n",
	"a: -\n?|>",
	"a\"'\\ \n\tn",
	"~nul1.e-+tr",
	"an|>+- \n",
	"!a &*: -\n",
}

var contexts = [][2]string{
	0:  {"", ""},
	1:  {"k: ", "\nv: w\n"},
	2:  {"- ", "\n- w\n"},
	3:  {"[x, ", "]\n"},
	4:  {"{k: ", ", v: w}\n"},
	5:  {"k:\n  l: ", "\n  m: n\no: p\n"},
	6:  {"- - ", "\n  - b\n- c\n"},
	7:  {"k: |", "\n  a\n\n  b\n"},
	8:  {"k: >\n  a\n", "  b\n"},
	9:  {"\"a", "b\"\n"},
	10: {"k: 'a", "b'\n"},
	11: {"? ", "\n: b\n"},
	12: {"- k: &a ", "\n  l: *a\n"},
	13: {"k: !!str ", "\n"},
	14: {"&a [b]", ""},
	15: {"a\n---\n", "\n---\nb\n"},
}

func rewrite(src string) {
	t, err := parser.ParseString(src)
	vf.Observe("err", err == nil)
	if err != nil {
		vf.Reach("rejected")
		return
	}
	vf.Reach("accepted")
	w := encode.NewASTWriter()
	out, err := w.WriteString(t)
	vf.Assert(err == nil, "a parsed document can be written")
	if err != nil {
		return
	}
	vf.Observe("out", out)
	t2, err := parser.ParseString(out)
	vf.Assert(err == nil, "the written document can be parsed")
	if err != nil {
		return
	}
	vf.Assert(tree.Same(docs(tree.Of(t)), docs(tree.Of(t2))), "the written document has the same content")
	out2, err := w.WriteString(t2)
	vf.Assert(err == nil && out2 == out, "writing is idempotent")
	buf, err := w.WriteBytes(t)
	vf.Assert(err == nil && string(buf) == out, "a writer writes the same again, as bytes too")
}

// docs: a stream without documents is a stream of one empty document.
func docs(t *tree.T) *tree.T {
	if t.Kind == tree.Stream && len(t.Kids) == 0 {
		return &tree.T{Kind: tree.Stream, Kids: []*tree.T{{Kind: tree.Null}}}
	}
	return t
}

// HRewrite: writing a parsed document and parsing the result gives the same document.
func HRewrite(c, k, n int) {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn(alphabets[k])
	}
	rewrite(contexts[c][0] + string(b) + contexts[c][1])
}
