// Package style: the contents of quoted, plain multi-line and block scalars against a reference decoder
// written from the YAML specification.
package style

import (
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	. "verif/tree"
	"verif/vf"
)

func pick(n int) int { return int(vf.Concrete(uint64(vf.Choose(n)))) }

func hole(set string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn(set)
	}
	return string(b)
}

func crlf(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			out += "\r"
		}
		out += s[i : i+1]
	}
	return out
}

func uncr(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '\r' {
			out += s[i : i+1]
		}
	}
	return out
}

func white(c byte) bool { return c == ' ' || c == '\t' }

// fold: the text of a flow scalar of several lines (escapes are not looked at; esc marks positions of the
// source which belong to escape sequences and are not trimmed).
func fold(s string) string {
	out := []byte{}
	i := 0
	for i < len(s) {
		// a run of blanks and breaks
		j, br := i, 0
		for j < len(s) && (white(s[j]) || s[j] == '\n') {
			if s[j] == '\n' {
				br++
			}
			j++
		}
		if br == 0 {
			if j == i {
				j++
			}
			out = append(out, s[i:j]...)
			i = j
			continue
		}
		if br == 1 {
			out = append(out, ' ')
		}
		for k := 1; k < br; k++ {
			out = append(out, '\n')
		}
		i = j
	}
	return string(out)
}

// unescape decodes a folded double quoted text; ok is false for the sequences which are not escapes.
func unescape(s string) (string, bool) {
	out := []byte{}
	for i := 0; i < len(s); i++ {
		if s[i] == '"' {
			return "", false
		}
		if s[i] != '\\' {
			out = append(out, s[i])
			continue
		}
		i++
		if i >= len(s) {
			return "", false
		}
		switch s[i] {
		case 'n':
			out = append(out, '\n')
		case 't', '\t':
			out = append(out, '\t')
		case '\\', '"', '/', ' ':
			out = append(out, s[i])
		case 'a':
			out = append(out, 7)
		default:
			return "", false
		}
	}
	return string(out), true
}

// doubleOK: no unescaped quote, no dangling backslash, and no break right after a backslash (an escaped
// break is not supported by the engine).
func doubled(s string) (string, bool) {
	out := []byte{}
	for i := 0; i < len(s); i++ {
		if s[i] == '\'' {
			if i+1 >= len(s) || s[i+1] != '\'' {
				return "", false
			}
			i++
		}
		out = append(out, s[i])
	}
	return string(out), true
}

var around = [][2]string{
	0: {"", ""},
	1: {"[", "]"},
	2: {"{k: ", "}"},
	3: {"[[k, ", "], v]"},
}

// want builds the tree of the surrounding.
func want(c int, t *T) *T {
	k := func() *T { return &T{Kind: Plain, Text: "k"} }
	switch c {
	case 1:
		t = &T{Kind: Seq, Kids: []*T{t}}
	case 2:
		t = &T{Kind: Map, Kids: []*T{k(), t}}
	case 3:
		t = &T{Kind: Seq, Kids: []*T{{Kind: Seq, Kids: []*T{k(), t}}, {Kind: Plain, Text: "v"}}}
	}
	return &T{Kind: Stream, Kids: []*T{t}}
}

func compare(src string, w *T, what string) {
	n, err := parser.ParseString(src)
	vf.Assert(err == nil, what+" is accepted")
	if err != nil {
		return
	}
	vf.Assert(Same(Of(n), w), what+" has its contents")
	vf.Reach(what)
}

// HSingle: a single quoted scalar in the surrounding.
func HSingle(c, n int) {
	h := hole("ab '\n\":#", n)
	text, ok := doubled(h)
	src := around[c][0] + "'" + h + "'" + around[c][1]
	if !ok {
		// a lone quote ends the scalar: the remainder decides
		return
	}
	vf.Observe("h", h)
	compare(src, want(c, &T{Kind: Quoted, Text: fold(text)}), "single quoted scalar")
}

// HDouble: a double quoted scalar in the surrounding.
func HDouble(c, n int) {
	h := hole("anz \"\\\n'#", n)
	for i := 0; i+1 < len(h); i++ {
		if h[i] == '\\' {
			if h[i+1] == '\n' || h[i+1] == ' ' {
				return // escaped breaks are outside, escaped blanks are not trimmed
			}
			i++
		}
	}
	text, ok := unescape(fold(h))
	src := around[c][0] + "\"" + h + "\"" + around[c][1]
	if !ok {
		if q := scanDouble(h); q {
			n, err := parser.ParseString(src)
			vf.Assert(err != nil || n == nil, "an unknown escape is rejected")
			vf.Reach("bad escape")
		}
		return
	}
	vf.Observe("h", h)
	compare(src, want(c, &T{Kind: Quoted, Text: text}), "double quoted scalar")
}

// scanDouble: the text has no unescaped quote and does not end in the middle of an escape.
func scanDouble(h string) bool {
	for i := 0; i < len(h); i++ {
		switch h[i] {
		case '"':
			return false
		case '\\':
			i++
			if i >= len(h) {
				return false
			}
		}
	}
	return true
}

// HQuotedBlock: a quoted scalar of two lines as the value of a block collection.
func HQuotedBlock(c, q, n, m int) {
	set := "ab ':#-\n"
	quote := "\""
	if q == 1 {
		set = "ab \":#-\n"
		quote = "'"
	}
	a := hole(set[:len(set)-1], n)
	b := hole(set[:len(set)-1], m)
	pre := []string{"k: ", "- ", "- - ", "k:\n  "}[c]
	mid := []string{"\n ", "\n\n  ", "\n \n   ", " \n  "}[pick(4)]
	if c == 2 {
		mid = []string{"\n   ", "\n\n    ", "\n \n   ", " \n    "}[pick(4)]
	}
	if pick(2) == 1 {
		mid = crlf(mid)
	}
	post := []string{"\nv: w\n", "\n- w\n", "\n  - w\n", "\nv: w\n"}[c]
	src := pre + quote + a + mid + b + quote + post
	t := &T{Kind: Quoted, Text: fold(a + uncr(mid) + b)}
	w := &T{Kind: Plain, Text: "w"}
	var r *T
	switch c {
	case 0, 3:
		r = &T{Kind: Map, Kids: []*T{{Kind: Plain, Text: "k"}, t, {Kind: Plain, Text: "v"}, w}}
	case 1:
		r = &T{Kind: Seq, Kids: []*T{t, w}}
	case 2:
		r = &T{Kind: Seq, Kids: []*T{{Kind: Seq, Kids: []*T{t, w}}}}
	}
	vf.Observe("src", src)
	compare(src, &T{Kind: Stream, Kids: []*T{r}}, "quoted scalar of a block collection")
}

// HPlain: a plain scalar of two or three lines.
func HPlain(c, n int) {
	a := "a" + hole("ab-?1", n)
	b := hole("abz1", 1) + hole("ab-? :#", n) + "c"
	for i := 0; i+1 < len(b); i++ {
		// no comment and no key inside
		vf.Assume(!(b[i] == ' ' && b[i+1] == '#'))
		vf.Assume(!(b[i] == ':' && b[i+1] == ' '))
	}
	in := []string{"", "  ", "   ", " "}[c]
	mid := []string{"\n" + in, " \n" + in, "\n\n" + in, "\n\n \n" + in}[pick(4)]
	var src string
	t := &T{Kind: Plain, Text: fold(a + mid + b)}
	if pick(2) == 1 {
		mid = crlf(mid)
	}
	var r *T
	switch c {
	case 0:
		src, r = a+mid+b+"\n", t
	case 1:
		src = "k: " + a + mid + b + "\nv: w\n"
		r = &T{Kind: Map, Kids: []*T{{Kind: Plain, Text: "k"}, t, {Kind: Plain, Text: "v"}, {Kind: Plain, Text: "w"}}}
	case 2:
		src = "- - " + a + mid + b + "\n  - w\n"
		r = &T{Kind: Seq, Kids: []*T{{Kind: Seq, Kids: []*T{t, {Kind: Plain, Text: "w"}}}}}
	case 3:
		src = "[" + a + mid + b + "]"
		r = &T{Kind: Seq, Kids: []*T{t}}
	}
	vf.Observe("src", src)
	compare(src, &T{Kind: Stream, Kids: []*T{r}}, "plain scalar")
}
