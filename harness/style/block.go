package style

import (
	. "verif/tree"
	"verif/vf"
)

type line struct {
	extra int    // spaces in front of the text, beyond the indentation
	text  string // "": an empty line
	blank int    // the spaces of an empty line: 1 one, 2 as many as the indentation
}

func (l line) spaced() bool { return l.extra > 0 || l.text != "" && white(l.text[0]) }

// literal and folded texts of the lines, before chomping: the text without its final break, and the
// number of the empty lines after it.
func decode(ls []line, folded bool) (string, int) {
	end := len(ls)
	for end > 0 && ls[end-1].text == "" && ls[end-1].extra == 0 {
		end--
	}
	out := []byte{}
	body := ls[:end]
	for i := 0; i < len(body); i++ {
		l := body[i]
		if !folded || i == 0 {
			if i > 0 {
				out = append(out, '\n')
			}
			out = append(append(out, spc[:l.extra]...), l.text...)
			continue
		}
		if l.text == "" {
			out = append(out, '\n') // an empty line
			continue
		}
		// the break before this line: p is the last line which is not empty
		p, gap := i-1, 0
		for p >= 0 && body[p].text == "" {
			p--
			gap++
		}
		switch {
		case p < 0:
			out = append(out, '\n') // the break of the leading empty line itself was not written
		case l.spaced() || body[p].spaced():
			out = append(out, '\n')
		case gap == 0:
			out = append(out, ' ')
		}
		out = append(append(out, spc[:l.extra]...), l.text...)
	}
	return string(out), len(ls) - end
}

const spc = "          "

// leading empty lines give one break each; decode writes nothing for the very first line.
func text(ls []line, folded bool, chomp int) string {
	s, trail := decode(ls, folded)
	if trail == len(ls) {
		// nothing but empty lines
		if chomp == 2 {
			r := ""
			for i := 0; i < trail; i++ {
				r += "\n"
			}
			return r
		}
		return ""
	}
	switch chomp {
	case 1:
		return s
	case 0:
		return s + "\n"
	}
	s += "\n"
	for i := 0; i < trail; i++ {
		s += "\n"
	}
	return s
}

// HBlock: a block scalar of n lines. c: the surrounding, style: 0 literal, 1 folded, expl: with an indentation
// indicator, nl: 0 LF, 1 CR LF, 2 LF and spaces on the empty lines.
func HBlock(c, style, expl, n, nl int) {
	br := "\n"
	if nl == 1 {
		br = "\r\n"
	}
	chomp := pick(3)
	ls := make([]line, n)
	seen := false
	for i := range ls {
		switch pick(3) {
		case 0:
			if nl == 2 {
				ls[i].blank = pick(3)
			}
		case 1:
			ls[i] = line{0, hole("a-#:'[&|%", 1) + "b", 0}
			seen = true
		case 2:
			vf.Assume(seen || expl == 1)
			ls[i] = line{1 + pick(2), hole("a-#:\"", 1), 0}
		}
	}
	if style == 1 {
		// adjacent more indented lines of folded scalars: the recorded finding
		for i := 1; i < n; i++ {
			p := i - 1
			for p > 0 && ls[p].text == "" {
				p--
			}
			vf.Assume(!(ls[i].spaced() && ls[p].spaced()))
		}
	}
	all := true
	for i := range ls {
		all = all && ls[i].text == ""
	}
	vf.Assume(!all) // scalars of empty lines only have a harness of their own
	src, t := block(c, style, expl, chomp, ls, br)
	vf.Observe("src", src)
	compare(src, t, "block scalar")
}

func block(c, style, expl, chomp int, ls []line, br string) (string, *T) {
	in := 2
	if c == 2 {
		in = 4
	}
	head := []string{"|", ">"}[style]
	ind := ""
	if expl == 1 {
		ind = "2"
	}
	ch := []string{"", "-", "+"}[chomp]
	if expl == 1 && chomp > 0 && pick(2) == 1 {
		head += ch + ind
	} else {
		head += ind + ch
	}
	body := ""
	for _, l := range ls {
		if l.text != "" {
			body += spc[:in+l.extra] + l.text
		} else {
			body += spc[:[]int{0, 1, in}[l.blank]]
		}
		body += br
	}
	t := &T{Kind: Quoted, Text: text(ls, style == 1, chomp)}
	w := &T{Kind: Plain, Text: "w"}
	var src string
	switch c {
	case 0:
		src = "k: " + head + br + body + "v: w" + br
		t = &T{Kind: Map, Kids: []*T{{Kind: Plain, Text: "k"}, t, {Kind: Plain, Text: "v"}, w}}
	case 1:
		src = "- " + head + " # c" + br + body + "- w" + br
		t = &T{Kind: Seq, Kids: []*T{t, w}}
	case 2:
		src = "k:" + br + "  l: " + head + br + body + "  v: w" + br
		t = &T{Kind: Map, Kids: []*T{{Kind: Plain, Text: "k"}, {Kind: Map, Kids: []*T{{Kind: Plain, Text: "l"}, t, {Kind: Plain, Text: "v"}, w}}}}
	case 3: // the end of the source
		src = "k: " + head + br + body
		t = &T{Kind: Map, Kids: []*T{{Kind: Plain, Text: "k"}, t}}
	case 4: // the document itself
		src = head + br + body
	case 5, 6: // comments after the scalar
		src = "k: " + head + br + body + []string{"# c", " # c" + br + br + "   # d"}[c-5] + br + "v: w" + br
		t = &T{Kind: Map, Kids: []*T{{Kind: Plain, Text: "k"}, t, {Kind: Plain, Text: "v"}, w}}
	case 7: // another document
		src = "--- " + head + br + body + "--- w" + br
		return src, &T{Kind: Stream, Kids: []*T{t, w}}
	case 8: // an element of a sequence under a key, at the indentation of the key
		src = "k:" + br + "- " + head + br + body + "- w" + br + "v: w" + br
		t = &T{Kind: Map, Kids: []*T{{Kind: Plain, Text: "k"}, {Kind: Seq, Kids: []*T{t, w}}, {Kind: Plain, Text: "v"}, w}}
	}
	return src, &T{Kind: Stream, Kids: []*T{t}}
}

// HBlockText: one line of a block scalar is the text of the line, whatever it is.
func HBlockText(c, style, n int) {
	ls := []line{{0, "a", 0}, {0, hole("ab:#-\"'[]{},&*!|>%@` ", n) + "z", 0}, {0, "c", 0}}
	if style == 1 {
		vf.Assume(!white(ls[1].text[0]))
	}
	src, t := block(c, style, 0, pick(3), ls, "\n")
	vf.Observe("src", src)
	compare(src, t, "block scalar")
}

// HFoldedMore: the recorded finding: adjacent more indented lines of a folded scalar.
func HFoldedMore() {
	src, t := block(0, 1, 0, 0, []line{{0, "x", 0}, {1, "y", 0}, {1, "z", 0}}, "\n")
	compare(src, t, "folded scalar with more indented lines")
}
