// Package big: arbitrary content far inside of long, wide and deep documents.
package big

import (
	"strings"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/lexer"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"github.com/KSpaceer/yamly/engines/yayamls/token"
	"gopkg.in/yaml.v3"
	"verif/tree"
	"verif/vf"
)

type T = tree.T

func rep(s string, n int) string { return strings.Repeat(s, n) }

func pick(n int) int { return int(vf.Concrete(uint64(vf.Choose(n)))) }

func plain(s string) *T { return &T{Kind: tree.Plain, Text: s} }
func quot(s string) *T  { return &T{Kind: tree.Quoted, Text: s} }
func seq(k ...*T) *T    { return &T{Kind: tree.Seq, Kids: k} }
func mp(k ...*T) *T     { return &T{Kind: tree.Map, Kids: k} }

// name is a different word for every number.
func name(i int) string {
	return "k" + string([]byte{byte('a' + i/26%26), byte('a' + i%26)})
}

// leaf is an arbitrary small node.
func leaf() (string, *T) {
	c := string([]byte{vf.ByteIn("abyn")})
	switch pick(6) {
	case 0:
		return c, plain(c)
	case 1:
		return "'" + c + "'", quot(c)
	case 2:
		return "\"" + c + "\\n\"", quot(c + "\n")
	case 3:
		return "[" + c + "]", seq(plain(c))
	case 4:
		return "{" + c + ": []}", mp(plain(c), seq())
	}
	return "~", &T{Kind: tree.Null}
}

const shapes = 24

// doc is a document of the given shape and size around an arbitrary leaf, and its tree.
func doc(shape, n int) (string, *T) {
	s, t := leaf()
	var pre, post string
	switch shape {
	case 0:
		pre, post = rep("[", n), rep("]", n)+"\n"
		for i := 0; i < n; i++ {
			t = seq(t)
		}
	case 1:
		pre, post = rep("{k: ", n), rep("}", n)+"\n"
		for i := 0; i < n; i++ {
			t = mp(plain("k"), t)
		}
	case 2:
		pre, post = rep("[{\"k\": ", n), rep("}, x]", n)+"\n"
		for i := 0; i < n; i++ {
			t = seq(mp(quot("k"), t), plain("x"))
		}
	case 3:
		pre, post = rep("- ", n), "\n"
		for i := 0; i < n; i++ {
			t = seq(t)
		}
	case 4, 5:
		w := 1
		if shape == 5 {
			w = 7
		}
		for i := 0; i < n; i++ {
			pre += rep(" ", w*i) + "k:\n"
			post = rep(" ", w*i) + "l: m\n" + post
			t = mp(plain("k"), t, plain("l"), plain("m"))
		}
		pre += rep(" ", w*n)
		post = "\n" + post
	case 6:
		for i := 0; i < n; i++ {
			pre += rep(" ", 2*i) + "-\n"
			post = rep(" ", 2*i) + "- m\n" + post
			t = seq(t, plain("m"))
		}
		pre += rep(" ", 2*n)
		post = "\n" + post
	case 7:
		pre, post = rep("- x\n", n)+"- ", "\n"+rep("- y\n", n)
		r := seq()
		for i := 0; i < n; i++ {
			r.Kids = append(r.Kids, plain("x"))
		}
		r.Kids = append(r.Kids, t)
		for i := 0; i < n; i++ {
			r.Kids = append(r.Kids, plain("y"))
		}
		t = r
	case 8, 10:
		r := mp()
		for i := 0; i < 2*n; i++ {
			e := name(i) + ": v"
			if i == n {
				e = name(i) + ": " + s
				r.Kids = append(r.Kids, plain(name(i)), t)
			} else {
				r.Kids = append(r.Kids, plain(name(i)), plain("v"))
			}
			if shape == 8 {
				pre += e + "\n"
			} else {
				pre += e + ", "
			}
		}
		if shape == 10 {
			pre = "{" + pre + "}\n"
		}
		return pre, r
	case 9:
		pre, post = "[\n"+rep("  x,\n", n)+"  ", ",\n"+rep("  'y',\n", n)+"]\n"
		r := seq()
		for i := 0; i < n; i++ {
			r.Kids = append(r.Kids, plain("x"))
		}
		r.Kids = append(r.Kids, t)
		for i := 0; i < n; i++ {
			r.Kids = append(r.Kids, quot("y"))
		}
		t = r
	case 11:
		pre, post = rep("---\na: b\n", n)+"--- ", "\n"+rep("...\n---\n- c\n", n)
		r := &T{Kind: tree.Stream}
		for i := 0; i < n; i++ {
			r.Kids = append(r.Kids, mp(plain("a"), plain("b")))
		}
		r.Kids = append(r.Kids, t)
		for i := 0; i < n; i++ {
			r.Kids = append(r.Kids, seq(plain("c")))
		}
		return pre + s + post, r
	case 12:
		for i := 0; i < n; i++ {
			pre += rep(" ", 2*i) + "- k:\n"
			post = rep(" ", 2*i) + "  l: m\n" + post
			t = seq(mp(plain("k"), t, plain("l"), plain("m")))
		}
		pre += rep(" ", 2*n+1)
		post = "\n" + post
	case 13:
		pre, post = rep("? ", n), "\n"
		for i := 0; i < n; i++ {
			t = mp(t, &T{Kind: tree.Null})
		}
	case 14:
		r := seq()
		for i := 0; i < n; i++ {
			pre += "- &" + name(i) + " x\n"
			x := plain("x")
			x.Anchor = name(i)
			r.Kids = append(r.Kids, x)
		}
		pre += "- "
		r.Kids = append(r.Kids, t)
		post = "\n"
		for i := 0; i < n; i++ {
			post += "- *" + name(i) + "\n"
			r.Kids = append(r.Kids, &T{Kind: tree.Alias, Text: name(i)})
		}
		t = r
	case 15:
		c := string([]byte{vf.ByteIn("ab-?:#|&*!%@'\"")})
		return "k: " + rep("word ", n) + "x" + c + "x" + rep(" more", n) + "\nl: m\n",
			mp(plain("k"), plain(rep("word ", n)+"x"+c+"x"+rep(" more", n)), plain("l"), plain("m"))
	case 16:
		c := string([]byte{vf.ByteIn("ab-?:#|&*!%@'[],{}")})
		return "k: \"" + rep("word\n  ", n) + c + rep("\n  more", n) + "\"\nl: m\n",
			mp(plain("k"), quot(rep("word ", n)+c+rep(" more", n)), plain("l"), plain("m"))
	case 17:
		c := string([]byte{vf.ByteIn("ab-?:#|&*!%@'\"[],{}")})
		i := rep(" ", 10)
		return "k: |\n" + rep(i+"word: x\n", n) + i + c + " y\n" + rep(i+"  more\n", n) + "l: m\n",
			mp(plain("k"), quot(rep("word: x\n", n)+c+" y\n"+rep("  more\n", n)), plain("l"), plain("m"))
	case 18:
		c := string([]byte{vf.ByteIn("ab-?:#|&*!%@'\"[],{}")})
		return "k: >-\n" + rep("  word\n", n) + "  " + c + " y\n" + rep("  more\n", n) + "l: m\n",
			mp(plain("k"), quot(rep("word ", n)+c+" y"+rep(" more", n)), plain("l"), plain("m"))
	case 19:
		pre, post = rep("# x: [\n", n)+"k: ", " # y\n"+rep("  # z\n", n)+"l: m\n"+rep("#\n", n)
		t = mp(plain("k"), t, plain("l"), plain("m"))
	case 20:
		pre, post = "k:"+rep(" ", n), rep(" ", n)+"\nl:\n"+rep(" ", n)+"m\n"
		t = mp(plain("k"), t, plain("l"), plain("m"))
	case 21:
		pre, post = rep("k", n)+": ", "\n"
		t = mp(plain(rep("k", n)), t)
	case 22:
		pre, post = rep("\n", n)+"k: x\n"+rep("\n", n)+"l: ", "\n"+rep("\n", n)+"m:\n"+rep("\n", n)+"  y\n"
		t = mp(plain("k"), plain("x"), plain("l"), t, plain("m"), plain("y"))
	case 23:
		pre, post = "- '"+rep("it''s ", n)+"'\n- ", "\n- \""+rep("\\u00e9\\\" ", n)+"\"\n"
		t = seq(quot(rep("it's ", n)), t, quot(rep("é\" ", n)))
	}
	return pre + s + post, t
}

// tree of the only document
func one(t *T) *T {
	if t.Kind == tree.Stream && len(t.Kids) == 1 {
		return t.Kids[0]
	}
	return t
}

// HParse: the document is parsed to its tree.
func HParse(shape, n int) {
	src, want := doc(shape, n)
	got, err := parser.ParseString(src)
	vf.Assert(err == nil, "the document is accepted")
	if err != nil {
		return
	}
	vf.Assert(tree.Same(one(tree.Of(got)), want), "the document has the tree it is written as")
	vf.Reach("parsed")
}

// HWrite: it is written to a document with the same tree.
func HWrite(shape, n int) {
	src, want := doc(shape, n)
	got, err := parser.ParseString(src)
	if err != nil {
		return
	}
	w := yencode.NewASTWriter()
	out, err := w.WriteString(got)
	vf.Assert(err == nil, "a parsed document can be written")
	again, err := parser.ParseString(out)
	vf.Assert(err == nil, "the written document can be parsed")
	if err != nil {
		return
	}
	vf.Assert(tree.Same(one(tree.Of(again)), want), "the written document has the same content")
	vf.Observe("out", out)
	vf.Reach("accepted")
	vf.Reach("rejected")
}

// HTokens: its tokens are the document, each at its place.
func HTokens(shape, n int) {
	src, _ := doc(shape, n)
	tk := lexer.NewTokenizer(src)
	at, row, col := 0, 1, 1
	for {
		t := tk.Next()
		if t.Type == token.EOFType {
			break
		}
		vf.Assert(len(t.Origin) > 0 && at+len(t.Origin) <= len(src) && src[at:at+len(t.Origin)] == t.Origin, "tokens are the source")
		if len(t.Origin) == 0 {
			return
		}
		vf.Assert(t.Start.Row == row && t.Start.Column == col, "a token starts where it is")
		at += len(t.Origin)
		if t.Type == token.LineBreakType {
			row, col = row+1, 1
		} else {
			for i := 0; i < len(t.Origin); i++ {
				if t.Origin[i]&0xC0 != 0x80 {
					col++
				}
			}
		}
	}
	vf.Assert(at == len(src), "tokens are the whole source")
	vf.Reach("tokens")
}

func resolve(t *T, anchors map[string]*T) *T {
	if t.Kind == tree.Alias {
		return anchors[t.Text]
	}
	if t.Anchor != "" {
		anchors[t.Anchor] = t
	}
	return t
}

func eq(v any, t *T, anchors map[string]*T) bool {
	t = resolve(t, anchors)
	switch {
	case t.IsNull():
		return v == nil
	case t.Kind == tree.Seq:
		s, ok := v.([]any)
		if !ok || len(s) != len(t.Kids) {
			return false
		}
		for i := range s {
			if !eq(s[i], t.Kids[i], anchors) {
				return false
			}
		}
		return true
	case t.Kind == tree.Map:
		m, ok := v.(map[string]any)
		if !ok || len(m) != len(t.Kids)/2 {
			return false
		}
		for i := 0; i < len(t.Kids); i += 2 {
			x, ok := m[t.Kids[i].Text]
			if !ok || !eq(x, t.Kids[i+1], anchors) {
				return false
			}
		}
		return true
	}
	s, ok := v.(string)
	return ok && s == t.Text
}

func open(e int, src string) yamly.Decoder {
	if e == 0 {
		r, err := ydecode.NewASTReaderFromBytes([]byte(src))
		vf.Assert(err == nil, "the document is accepted")
		if err != nil {
			return nil
		}
		return r
	}
	var n yaml.Node
	err := yaml.Unmarshal([]byte(src), &n)
	vf.Assert(err == nil, "the document is accepted")
	return gdecode.NewASTReader(&n)
}

// HAny: the document, read as any, is its value.
func HAny(e, shape, n int) {
	src, want := doc(shape, n)
	d := open(e, src)
	if d == nil {
		return
	}
	v := d.Any()
	vf.Assert(d.Error() == nil, "the document is read without an error")
	vf.Assert(eq(v, want, map[string]*T{}), "the value read is that of the document")
	vf.Reach("any")
}

// walk reads the document node by node.
func walk(d yamly.Decoder, t *T, anchors map[string]*T) {
	t = resolve(t, anchors)
	switch {
	case t.IsNull():
		vf.Assert(d.TryNull(), "a null is read")
	case t.Kind == tree.Seq:
		vf.Assert(!d.TryNull(), "a sequence is no null")
		st := d.Sequence()
		for _, k := range t.Kids {
			vf.Assert(st.HasUnprocessedItems(), "the collection has the next item")
			walk(d, k, anchors)
		}
		vf.Assert(!st.HasUnprocessedItems(), "the collection has no further item")
	case t.Kind == tree.Map:
		st := d.Mapping()
		for i := 0; i < len(t.Kids); i += 2 {
			vf.Assert(st.HasUnprocessedItems(), "the collection has the next item")
			vf.Assert(d.String() == t.Kids[i].Text, "the key is read")
			walk(d, t.Kids[i+1], anchors)
		}
		vf.Assert(!st.HasUnprocessedItems(), "the collection has no further item")
	default:
		vf.Assert(d.String() == t.Text, "the text is read")
	}
}

// HWalk: the document, read node by node, is its tree.
func HWalk(e, shape, n int) {
	src, want := doc(shape, n)
	d := open(e, src)
	if d == nil {
		return
	}
	walk(d, want, map[string]*T{})
	vf.Assert(d.Error() == nil, "the document is read without an error")
	d.Skip()
	vf.Assert(d.Error() != nil, "nothing is left")
	vf.Reach("walked")
}

// HRaw: its raw data means the same.
func HRaw(e, shape, n int) {
	src, want := doc(shape, n)
	d := open(e, src)
	if d == nil {
		return
	}
	data := d.Raw()
	vf.Assert(d.Error() == nil, "the document is read without an error")
	d = open(e, string(data))
	if d == nil {
		return
	}
	vf.Assert(eq(d.Any(), want, map[string]*T{}) && d.Error() == nil, "raw data means what the document means")
	vf.Reach("raw")
}

func insert(b yamly.Inserter, t *T, anchors map[string]*T) {
	t = resolve(t, anchors)
	switch {
	case t.IsNull():
		b.InsertNull()
	case t.Kind == tree.Seq:
		b.StartSequence()
		for _, k := range t.Kids {
			insert(b, k, anchors)
		}
		b.EndSequence()
	case t.Kind == tree.Map:
		b.StartMapping()
		for _, k := range t.Kids {
			insert(b, k, anchors)
		}
		b.EndMapping()
	default:
		b.InsertString(t.Text)
	}
}

// HEncode: the value of the document, encoded and decoded again, is the same.
func HEncode(e, shape, n int) {
	_, want := doc(shape, n)
	var s string
	var err error
	if e == 0 {
		x := yamly.NewEncoder(yencode.NewASTBuilder(), yencode.NewASTWriter())
		insert(x, want, map[string]*T{})
		s, err = x.EncodeToString()
	} else {
		x := yamly.NewEncoder[*yaml.Node](gencode.NewASTBuilder(), &gencode.ASTWriter{})
		insert(x, want, map[string]*T{})
		s, err = x.EncodeToString()
	}
	vf.Assert(err == nil, "the value is encoded")
	if err != nil {
		return
	}
	d := open(e, s)
	if d == nil {
		return
	}
	vf.Assert(eq(d.Any(), want, map[string]*T{}) && d.Error() == nil, "decoding gives the value again")
	vf.Reach("encoded")
}
