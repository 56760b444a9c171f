package style

import (
	. "verif/tree"
	"verif/vf"
)

// plainText: the specification lets s be a plain scalar of one line (ns-plain), in flow collections or not.
func plainText(s string, flow bool) bool {
	safe := func(i int) bool {
		if i >= len(s) {
			return false
		}
		switch s[i] {
		case ' ', '\t':
			return false
		case ',', '[', ']', '{', '}':
			return !flow
		}
		return true
	}
	if len(s) == 0 || !safe(len(s)-1) {
		return false
	}
	switch s[0] {
	case '?', ':', '-':
		if !safe(1) {
			return false
		}
	case ' ', '\t', ',', '[', ']', '{', '}', '#', '&', '*', '!', '|', '>', '\'', '"', '%', '@', '`':
		return false
	}
	for i := 1; i < len(s); i++ {
		switch s[i] {
		case ' ', '\t':
		case '#':
			if s[i-1] == ' ' || s[i-1] == '\t' {
				return false
			}
		default:
			if !safe(i) {
				return false
			}
		}
	}
	for i := 0; i < len(s); i++ {
		if s[i] == ':' && !safe(i+1) {
			return false
		}
	}
	return true
}

// marker: at the start of a line, s begins with a document marker.
func marker(s string) bool {
	if len(s) < 3 || len(s) > 3 && s[3] != ' ' && s[3] != '\t' {
		return false
	}
	return s[:3] == "---" || s[:3] == "..."
}

var alphabets = []string{"a-?:,[]{}#&*!|>'\"%@`.+ ", "a-. ", "a:?-# ", "a,[]{}:- ", "a'\"\\ :#", "a\t :#-", "a&*!%@`|>= "}

// HOneLine: every text the specification lets be a plain scalar is read as that text.
func HOneLine(c, k, n int) {
	s := hole(alphabets[k], n)
	flow := c == 3 || c == 4 || c == 6
	vf.Assume(plainText(s, flow))
	t := &T{Kind: Plain, Text: s}
	w := &T{Kind: Plain, Text: "w"}
	kk := &T{Kind: Plain, Text: "k"}
	var src string
	var r *T
	switch c {
	case 0:
		vf.Assume(!marker(s))
		src, r = s+"\n", t
	case 1:
		src, r = "k: "+s+"\nw: w\n", &T{Kind: Map, Kids: []*T{kk, t, w, w}}
	case 2:
		src, r = "- "+s+"\n- w\n", &T{Kind: Seq, Kids: []*T{t, w}}
	case 3:
		src, r = "["+s+", w]\n", &T{Kind: Seq, Kids: []*T{t, w}}
	case 4:
		src, r = "{k: "+s+"}\n", &T{Kind: Map, Kids: []*T{kk, t}}
	case 5:
		vf.Assume(!marker(s))
		src, r = s+": w\n", &T{Kind: Map, Kids: []*T{t, w}}
	case 6:
		src, r = "{"+s+": w}\n", &T{Kind: Map, Kids: []*T{t, w}}
	case 7:
		src, r = "- - "+s+" # c\n", &T{Kind: Seq, Kids: []*T{{Kind: Seq, Kids: []*T{t}}}}
	case 8:
		src, r = "? "+s+"\n: w\n", &T{Kind: Map, Kids: []*T{t, w}}
	case 9:
		src, r = "--- "+s, t
	case 10:
		src, r = "k:\n  "+s+": w\n", &T{Kind: Map, Kids: []*T{kk, {Kind: Map, Kids: []*T{t, w}}}}
	case 11:
		src, r = "k:\n - "+s+": w\n   w: w\n", &T{Kind: Map, Kids: []*T{kk, {Kind: Seq, Kids: []*T{{Kind: Map, Kids: []*T{t, w, w, w}}}}}}
	}
	vf.Observe("src", src)
	compare(src, &T{Kind: Stream, Kids: []*T{r}}, "plain scalar of one line")
	vf.Reach("plain")
}
