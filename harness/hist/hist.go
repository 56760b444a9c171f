// Package hist: what was processed before does not matter.
package hist

import (
	"errors"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/lexer"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"github.com/KSpaceer/yamly/engines/yayamls/token"
	"verif/tree"
	"verif/vf"
)

var alphabets = []string{
	"ab \n:-,[]{}\"'|>?\\#&*!",
	"a,[]{}:\"' \\\n",
	"a: -\n?|>",
	"a\"'\\ \n",
	"an|>+- \n1",
}

var contexts = [][2]string{
	0: {"", ""},
	1: {"k: ", "\nv: w\n"},
	2: {"- ", "\n- w\n"},
	3: {"[x, ", "]\n"},
	4: {"{k: ", ", v: w}\n"},
	5: {"k:\n  l: ", "\n  m: n\no: p\n"},
	6: {"k: |", "\n  a\n\n  b\n"},
	7: {"\"a", "b\"\n"},
	8: {"'a", "b'\n"},
	9: {"%YAML ", "\n---\na\n"},
}

// the documents whose treatment must not depend on the past
var later = []string{
	"k: [a, {b: 'c'}]\nl:\n- d\n- \"e\\n\"\n",
	"- |\n  x\n   y\n- >+\n  z\n\n- &a b\n- *a\n",
	"{",
	"plain\n text\n",
	"a: b\n c: d\n",
	"--- a\n...\n---\nb\n",
	"\"\\x41 \\\n  b\"\n",
}

func symbolic(c, k, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn(alphabets[k])
	}
	return contexts[c][0] + string(b) + contexts[c][1]
}

func parse(mode int, src string) (ast.Node, error) {
	switch mode {
	case 1:
		return parser.ParseBytes([]byte(src))
	case 2:
		var toks []token.Token
		tk := lexer.NewTokenizer(src)
		for {
			t := tk.Next()
			toks = append(toks, t)
			if t.Type == token.EOFType {
				break
			}
		}
		return parser.ParseTokens(toks)
	}
	return parser.ParseString(src)
}

// HParse: parsing a document gives the same before and after any other document was parsed, and the tree of the other one is not
// changed by it. mode: 0 strings, 1 bytes, 2 the other document comes as tokens.
func HParse(c, k, n, b, mode int) {
	later := later[b]
	t0, err0 := parse(0, later)
	var want *tree.T
	if err0 == nil {
		want = tree.Of(t0)
	}
	ta, erra := parse(mode, symbolic(c, k, n))
	vf.Observe("err", erra == nil)
	var other *tree.T
	if erra == nil {
		vf.Reach("accepted")
		other = tree.Of(ta)
	} else {
		vf.Reach("rejected")
	}
	t1, err1 := parse(mode&1, later)
	vf.Assert((err0 == nil) == (err1 == nil), "a document is accepted or rejected whatever was parsed before")
	if err0 == nil && err1 == nil {
		vf.Assert(tree.Same(want, tree.Of(t1)), "a document is parsed the same whatever was parsed before")
		vf.Assert(tree.Same(want, tree.Of(t0)), "a tree is not changed by parsing another document")
	}
	if erra == nil {
		vf.Assert(tree.Same(other, tree.Of(ta)), "a tree is not changed by parsing another document")
	}
}

type failing struct{ left int }

var errWrite = errors.New("write")

func (f *failing) Write(p []byte) (int, error) {
	if len(p) > f.left {
		n := f.left
		f.left = 0
		return n, errWrite
	}
	f.left -= len(p)
	return len(p), nil
}

type bad struct{}

func (bad) StoreAnchor(string)                        {}
func (bad) BindToLatestAnchor(ast.Node)               {}
func (bad) DereferenceAlias(string) (ast.Node, error) { return nil, errWrite }

// HWrite: a writer gives the same before and after any other tree was written with it, successfully or not, and data given out is
// not changed later. way: how the other tree is written: 0 string, 1 bytes, 2 to a failing writer, 3 with a failing keeper of anchors.
func HWrite(c, k, n, b, way int) {
	t, err := parser.ParseString(later[b])
	if err != nil {
		vf.Assume(false)
	}
	want, err := encode.NewASTWriter().WriteString(t)
	vf.Assert(err == nil, "a parsed document is written")
	other, err := parser.ParseString(symbolic(c, k, n))
	if err != nil {
		vf.Reach("rejected")
		return
	}
	vf.Reach("accepted")
	w := encode.NewASTWriter()
	var data []byte
	var kept string
	switch way {
	case 0:
		_, _ = w.WriteString(other)
	case 1:
		data, _ = w.WriteBytes(other)
		kept = string(data)
	case 2:
		err := w.WriteTo(&failing{left: 3}, other)
		if s, _ := encode.NewASTWriter().WriteString(other); len(s) > 3 {
			vf.Assert(errors.Is(err, errWrite), "the error of the destination is reported")
		}
	case 3:
		w = encode.NewASTWriter(encode.WithAnchorsKeeper(bad{}))
		_, err := w.WriteString(other)
		vf.Observe("failed", err != nil)
		if hasAlias(tree.Of(t)) {
			return
		}
	}
	got, err := w.WriteString(t)
	vf.Assert(err == nil && got == want, "a tree is written the same whatever was written before")
	gotb, err := w.WriteBytes(t)
	vf.Assert(err == nil && string(gotb) == want, "a tree is written the same whatever was written before")
	vf.Assert(string(data) == kept, "data given out is not changed by writing another tree")
}

func hasAlias(t *tree.T) bool {
	if t.Kind == tree.Alias {
		return true
	}
	for _, k := range t.Kids {
		if hasAlias(k) {
			return true
		}
	}
	return false
}
