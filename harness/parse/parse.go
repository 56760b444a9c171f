// Package parse: harnesses over the yayamls parser front end.
package parse

import (
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"verif/vf"
)

// alphabets of the symbolic bytes
var alphabets = []string{
	"ab \n:-,[]{}\"'#&*!|>?%\t.1\\\r<@`~=", // every indicator, both breaks, both white spaces
	"a \n:-?#",                             // block structure
	"a,[]{}:\"' \\\n",                      // flow structure
	"a |>+-1\n#",                           // block scalars
	"a!&*<>% \n:",                          // properties, directives
	"a\"'\\ \n\t0xu",                       // quoted scalars
	"-. \na%#:",                            // document markers
}

// Ctx are the concrete surroundings into which symbolic bytes are put.
var contexts = [][2]string{
	0:  {"", ""},
	1:  {"a: ", "\nb: c\n"},
	2:  {"- ", "\n- b\n"},
	3:  {"[", "]"},
	4:  {"{a: ", "}"},
	5:  {"a:\n  b: ", "\n  c: d\ne: f\n"},
	6:  {"a: |", "\n  b\nc: d\n"},
	7:  {"a: >\n", "  b\n"},
	8:  {"\"", "\""},
	9:  {"'", "'"},
	10: {"? ", "\n: b\n"},
	11: {"%", "\n---\na\n"},
	12: {"---\na\n", "---\nb\n"},
	13: {"&a ", "b"},
	14: {"!", " a"},
	15: {"- - ", "\n  - b\n- c\n"},
	16: {"a:\n", "\n"},
	17: {"[a, {", "}, b]"},
	18: {"a: |\n  x\n", "  y\n"},
	19: {"- |1", "\n a\n"},
	20: {"a: \"x", "\n  y\"\n"},
	21: {"a: x\n", "  y\n"},
	22: {"!<", "> a"},
	23: {"--- ", "\n...\n"},
	24: {"{\"a\"", "}"},
	25: {"[a", "b]\n"},
	26: {"*", " : b\n"},
	27: {"- a\n#", "\n- b\n"},
}

func hole(k, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn(alphabets[k])
	}
	return string(b)
}

func total(src string) {
	t, err := parser.ParseString(src)
	vf.Observe("err", err == nil)
	vf.Assert((err == nil) == ast.ValidNode(t), "either a valid tree or an error")
	if err != nil {
		vf.Assert(t == nil, "no tree along with an error")
		vf.Reach("rejected")
		return
	}
	vf.Reach("accepted")
	vf.Observe("words", words(t, nil))
}

// HTotal: parsing of every string of the alphabet inside of the context ends with a tree or an error.
func HTotal(c, k, n int) {
	total(contexts[c][0] + hole(k, n) + contexts[c][1])
}

// HBytes: the same for arbitrary bytes, valid UTF-8 or not.
func HBytes(c, n int) {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.Byte()
	}
	src := contexts[c][0] + string(b) + contexts[c][1]
	_, err := parser.ParseString(src)
	vf.Observe("err", err == nil)
	vf.Reach("parsed")
}

// alphaHigh mixes the indicators with the bytes of multi-byte, ill-formed and special characters
// (U+0085, U+00A0, U+2028, U+FEFF, a 4-byte character, stray continuation and invalid bytes).
const alphaHigh = "a \n:-\"#[\x00\x7f\xc2\x85\xa0\xe2\x80\xa8\xef\xbb\xbf\xff\xf0\x9f\x98"

// HHigh: parsing of every string of alphaHigh ends with a tree or an error.
func HHigh(c, n int) {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn(alphaHigh)
		if b[i] >= 0x7f {
			b[i] = byte(vf.Concrete(uint64(b[i])))
		}
	}
	src := contexts[c][0] + string(b) + contexts[c][1]
	t, err := parser.ParseString(src)
	vf.Observe("err", err == nil)
	vf.Assert((err == nil) == ast.ValidNode(t), "either a valid tree or an error")
	vf.Reach("parsed")
}

func isLetter(c byte) bool {
	return c == 'a' || c == 'b' || c >= 'c' && c <= 'f' || c == 'x' || c == 'y'
}

// words collects, in document order, the text of every node of the tree.
func words(n ast.Node, out []byte) []byte {
	if n == nil {
		return out
	}
	switch x := n.(type) {
	case *ast.StreamNode:
		for _, d := range x.Documents() {
			out = words(d, out)
		}
	case *ast.PropertiesNode:
		out = words(x.Tag(), out)
		out = words(x.Anchor(), out)
	case *ast.ContentNode:
		out = words(x.Properties(), out)
		out = words(x.Content(), out)
	case *ast.SequenceNode:
		for _, d := range x.Entries() {
			out = words(d, out)
		}
	case *ast.MappingNode:
		for _, d := range x.Entries() {
			out = words(d, out)
		}
	case *ast.MappingEntryNode:
		out = words(x.Key(), out)
		out = words(x.Value(), out)
	case ast.Texter:
		out = append(out, x.Text()...)
	}
	return out
}

// alphabets without comments, tags, directives and escapes: there every letter belongs to the content
var lossAlphabets = []string{
	"ab \n:-,[]{}\"'&*|>?",
	"ab \n:-?",
	"ab,[]{}: \n",
	"ab\"' \n:",
	"ab|>-+ \n",
}

func loss(src string) {
	t, err := parser.ParseString(src)
	vf.Observe("err", err == nil)
	if err != nil {
		vf.Reach("rejected")
		return
	}
	vf.Reach("accepted")
	w := words(t, nil)
	vf.Observe("words", w)
	j := 0
	for i := 0; i < len(src); i++ {
		if !isLetter(src[i]) {
			continue
		}
		for j < len(w) && !isLetter(w[j]) {
			j++
		}
		if j >= len(w) {
			vf.Assert(false, "a letter of the source is lost")
			return
		}
		vf.Assert(w[j] == src[i], "letters of the source come in order")
		j++
	}
	for j < len(w) {
		vf.Assert(!isLetter(w[j]), "no invented letters")
		j++
	}
}

// HLoss: a successfully parsed document keeps every letter of its source, in order.
func HLoss(c, k, n int) {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn(lossAlphabets[k])
	}
	loss(contexts[c][0] + string(b) + contexts[c][1])
}
