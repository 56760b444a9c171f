package parse

import (
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"verif/vf"
)

// unbalanced: the flow collection starting in s is never closed, or is closed by a wrong bracket.
func unbalanced(s string) bool {
	var stack [16]byte
	n := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '[':
			stack[n] = ']'
			n++
		case '{':
			stack[n] = '}'
			n++
		case ']', '}':
			if stack[n-1] != s[i] {
				return true
			}
			n--
			if n == 0 {
				return false
			}
		}
	}
	return n > 0
}

var flowIn = [][2]string{
	0: {"[", ""},
	1: {"{", ""},
	2: {"k: [", "\nv: w\n"},
	3: {"- {", "\n- w\n"},
	4: {"[[", "]"},
	5: {"---\n- a\n- {b: [", "]}\n...\n"},
	6: {"[", "]"},
	7: {"a: b\nc: {", "}\n"},
	8: {"? [", "]\n: {x}\n"},
}

// HBalance: flow collections whose brackets do not match are never accepted.
func HBalance(c, n int) {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn("a,[]{}: \n")
	}
	src := flowIn[c][0] + string(b) + flowIn[c][1]
	if !unbalanced(src) {
		vf.Reach("balanced")
		return
	}
	vf.Observe("b", b)
	_, err := parser.ParseString(src)
	vf.Assert(err != nil, "brackets without a pair are rejected")
	vf.Reach("unbalanced")
}

// HQuoteOpen: a quoted scalar without the closing quote is never accepted. q: 0 double, 1 single.
func HQuoteOpen(c, q, n int) {
	pre := []string{"", "- ", "k: ", "[", "{a: ", "k:\n  - ", "--- "}[c]
	b := make([]byte, n)
	quote := "\""
	if q == 1 {
		quote = "'"
	}
	for i := range b {
		if q == 0 {
			b[i] = vf.ByteIn("a '\\]}\n:,#\"")
		} else {
			b[i] = vf.ByteIn("a \"\\]}\n:,#'")
		}
	}
	// the hole has no closing quote
	for i := 0; i < n; i++ {
		if q == 0 && b[i] == '\\' {
			i++
			continue
		}
		if q == 1 && b[i] == '\'' {
			if i+1 == n || b[i+1] != '\'' {
				return
			}
			i++
			continue
		}
		if q == 0 && b[i] == '"' {
			return
		}
	}
	vf.Observe("b", b)
	_, err := parser.ParseString(pre + quote + string(b))
	vf.Assert(err != nil, "a quote without a pair is rejected")
	vf.Reach("open quote")
}
