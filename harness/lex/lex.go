// Package lex: harnesses over the tokenizer and the checkpointing accessor of yayamls.
package lex

import (
	"github.com/KSpaceer/yamly/engines/yayamls/lexer"
	"github.com/KSpaceer/yamly/engines/yayamls/pkg/cpaccessor"
	"github.com/KSpaceer/yamly/engines/yayamls/token"
	"verif/vf"
)

var alphabets = []string{
	"ab \n:-,[]{}\"'#&*!|>?%\t.1\\\r<@`~=+",
	"a \n:-?#\r",
	"a,[]{}:\"' \\\n",
	"a |>+-1\n#",
	"-. \na%#:!&*",
	"a\"'\\ \n\t",
}

var contexts = [][2]string{
	0: {"", ""},
	1: {"[a", "b]\n"},
	2: {"a: \"", "\"\n"},
	3: {"a: '", "'\n"},
	4: {"a: |", "\n  b\n"},
	5: {"- # ", "\n- b"},
	6: {"!", " a\n"},
	7: {"a\n--", "\nb"},
	8: {"{x: [", "], y}"},
	9: {"a: b", ": c\r\n"},
}

// wellTyped: the text of a token is the one its type stands for.
func wellTyped(t token.Token) bool {
	s := t.Origin
	switch t.Type {
	case token.SequenceEntryType, token.StripChompingType:
		return s == "-"
	case token.MappingKeyType:
		return s == "?"
	case token.MappingValueType:
		return s == ":"
	case token.CollectEntryType:
		return s == ","
	case token.SequenceStartType:
		return s == "["
	case token.SequenceEndType:
		return s == "]"
	case token.MappingStartType:
		return s == "{"
	case token.MappingEndType:
		return s == "}"
	case token.CommentType:
		return s == "#"
	case token.AnchorType:
		return s == "&"
	case token.AliasType:
		return s == "*"
	case token.TagType:
		return s == "!"
	case token.LiteralType:
		return s == "|"
	case token.FoldedType:
		return s == ">"
	case token.SingleQuoteType:
		return s == "'"
	case token.DoubleQuoteType:
		return s == "\""
	case token.DirectiveType:
		return s == "%"
	case token.LineBreakType:
		return s == "\n" || s == "\r" || s == "\r\n"
	case token.SpaceType:
		return s == " "
	case token.TabType:
		return s == "\t"
	case token.BOMType:
		return s == "\uFEFF"
	case token.DocumentEndType:
		return s == "..."
	case token.DirectiveEndType:
		return s == "---"
	case token.KeepChompingType:
		return s == "+"
	case token.StringType:
		return s != ""
	}
	return false
}

func lossless(src string, raw bool) {
	t := lexer.NewTokenizer(src)
	if raw {
		t.SetRawMode()
	}
	off := 0
	row, col := 1, 0
	n := 0
	for {
		tok := t.Next()
		if tok.Type == token.EOFType {
			vf.Assert(tok.Origin == "", "the end has no text")
			break
		}
		n++
		vf.Observe("tok", int(tok.Type), tok.Origin)
		vf.Assert(len(tok.Origin) > 0, "a token has a text")
		vf.Assert(len(tok.Origin) <= len(src)-off, "tokens do not outgrow the source")
		vf.Assert(src[off:off+len(tok.Origin)] == tok.Origin, "texts of tokens make up the source")
		off += len(tok.Origin)
		vf.Assert(wellTyped(tok), "a token has the text of its type")
		vf.Assert(tok.Start.Row == row && tok.Start.Column == col+1, "a token starts where the previous one ended")
		if tok.Type == token.LineBreakType {
			row++
			col = 0
		} else {
			col += len([]rune(tok.Origin))
			vf.Assert(tok.End.Row == row && tok.End.Column == col, "a token ends at its last character")
		}
	}
	vf.Assert(off == len(src), "the end comes after the last character")
	for i := 0; i < 3; i++ {
		vf.Assert(t.Next().Type == token.EOFType, "the end stays the end")
	}
	vf.Observe("n", n)
	vf.Reach("tokens")
}

// HLossless: tokens tile the source, in normal and in raw mode.
func HLossless(c, k, n, raw int) {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn(alphabets[k])
	}
	lossless(contexts[c][0]+string(b)+contexts[c][1], raw == 1)
}

var wide = []string{"a", "é", "\uFEFF", "日", "😀", "\u0085", "\u2028", "\x00", "\x7f", "\n", " ", ":", "-", "[", "\"", "#"}

// HWide: the same with multi-byte characters.
func HWide(n, raw int) {
	s := ""
	for i := 0; i < n; i++ {
		s += wide[vf.Choose(len(wide))]
	}
	lossless(s, raw == 1)
}

// HMode: switching the raw mode between tokens never loses or invents text.
func HMode(k, n, m int) {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn(alphabets[k])
	}
	src := string(b)
	t := lexer.NewTokenizer(src)
	off := 0
	for i := 0; i <= len(src); i++ {
		if i < m {
			if vf.Bool() {
				t.SetRawMode()
			} else {
				t.UnsetRawMode()
			}
		}
		tok := t.Next()
		if tok.Type == token.EOFType {
			break
		}
		vf.Assert(len(tok.Origin) > 0 && len(tok.Origin) <= len(src)-off && src[off:off+len(tok.Origin)] == tok.Origin, "texts of tokens make up the source")
		off += len(tok.Origin)
	}
	vf.Assert(off == len(src), "the whole source is covered")
	vf.Reach("tokens")
}

// HUnsafe: the unsafe option changes nothing and does not touch the source.
func HUnsafe(k, n int) {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn(alphabets[k])
	}
	src := string(b)
	t, u := lexer.NewTokenizer(src), lexer.NewTokenizer(src, lexer.WithUnsafe())
	for i := 0; i <= n; i++ {
		a, c := t.Next(), u.Next()
		vf.Assert(a == c, "the same tokens")
		if a.Type == token.EOFType {
			break
		}
	}
	vf.Assert(src == string(b), "the source is intact")
}

// HBytes: tokenizing arbitrary bytes ends, one token per byte at most.
func HBytes(n int) {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.Byte()
	}
	t := lexer.NewTokenizer(string(b))
	i := 0
	for t.Next().Type != token.EOFType {
		i++
		vf.Assert(i <= n, "no more tokens than bytes")
	}
	vf.Reach("end")
}

// --- checkpointing accessor

// elems is a stream of arbitrary elements, which remembers what it gave out: el(i) is the i-th of them.
type elems struct{ out []uint64 }

func (c *elems) Next() uint64 {
	c.out = append(c.out, vf.Uint64())
	return c.out[len(c.out)-1]
}

// is: x is the i-th element of the stream (counted from 1), or the zero value before the first.
func (c *elems) is(x uint64, i int) bool {
	if i == 0 {
		return true // nothing was read before
	}
	return i <= len(c.out) && c.out[i-1] == x
}

// HAccessor: after every history of steps the accessor behaves as a stream with a saved stack of positions.
// hist steps: 0 next, 1 checkpoint, 2 rollback, 3 commit.
func HAccessor(n, pre int) {
	a := cpaccessor.NewCheckpointingAccessor[uint64]()
	c := &elems{}
	a.SetStream(c)
	pos := 0
	var stack []int
	for i := 0; i < pre; i++ {
		pos++
		vf.Assert(c.is(a.Next(), pos), "the next element")
	}
	for i := 0; i < n; i++ {
		switch vf.Choose(4) {
		case 0:
			pos++
			vf.Assert(c.is(a.Next(), pos), "the next element")
		case 1:
			a.SetCheckpoint()
			stack = append(stack, pos)
		case 2:
			vf.Assume(len(stack) > 0)
			got := a.Rollback()
			pos = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			vf.Assert(c.is(got, pos), "rollback gives the element before the checkpoint")
		case 3:
			vf.Assume(len(stack) > 0)
			a.Commit()
			stack = stack[:len(stack)-1]
		}
	}
	pos++
	vf.Assert(c.is(a.Next(), pos), "the element after the history")
	for len(stack) > 0 {
		pos = stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		vf.Assert(c.is(a.Rollback(), pos), "unwinding gives the elements before the checkpoints")
		vf.Assert(c.is(a.Next(), pos+1), "and continues after them")
	}
	vf.Reach("history")
}

// HAccessorDeep: long runs of steps, whose lengths are symbolic.
func HAccessorDeep(n, max int) {
	a := cpaccessor.NewCheckpointingAccessor[uint64]()
	c := &elems{}
	a.SetStream(c)
	pos := 1
	a.Next()
	var stack []int
	for i := 0; i < n; i++ {
		k := vf.Choose(max) // elements read
		for j := 0; j < k; j++ {
			pos++
			vf.Assert(c.is(a.Next(), pos), "the next element")
		}
		switch vf.Choose(3) {
		case 0:
			a.SetCheckpoint()
			stack = append(stack, pos)
		case 1:
			vf.Assume(len(stack) > 0)
			got := a.Rollback()
			pos = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			vf.Assert(c.is(got, pos), "rollback gives the element before the checkpoint")
		case 2:
			vf.Assume(len(stack) > 0)
			a.Commit()
			stack = stack[:len(stack)-1]
		}
	}
	pos++
	vf.Assert(c.is(a.Next(), pos), "the element after the history")
	vf.Reach("history")
}

// HAccessorReuse: a new stream does not remember the old one.
func HAccessorReuse(n, m int) {
	a := cpaccessor.NewCheckpointingAccessor[uint64]()
	a.SetStream(&elems{})
	depth := 0
	for i := 0; i < n; i++ {
		switch vf.Choose(4) {
		case 0:
			a.Next()
		case 1:
			a.SetCheckpoint()
			depth++
		case 2:
			vf.Assume(depth > 0)
			a.Rollback()
			depth--
		case 3:
			vf.Assume(depth > 0)
			a.Commit()
			depth--
		}
	}
	c := &elems{}
	a.SetStream(c)
	pos := 0
	for i := 0; i < m; i++ {
		pos++
		vf.Assert(c.is(a.Next(), pos), "the new stream from its beginning")
	}
	a.SetCheckpoint()
	a.Next()
	a.Next()
	vf.Assert(m == 0 || c.is(a.Rollback(), pos), "rollback in the new stream")
	vf.Reach("reused")
}
