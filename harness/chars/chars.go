// Package chars: harnesses over the character classes, the quoting and the escaping of yayamls.
package chars

import (
	"github.com/KSpaceer/yamly/engines/yayamls/token"
	"github.com/KSpaceer/yamly/engines/yayamls/yamlchar"
	"verif/vf"
)

func digit(r rune) bool  { return '0' <= r && r <= '9' }
func letter(r rune) bool { return 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' }
func hex(r rune) bool    { return digit(r) || 'a' <= r && r <= 'f' || 'A' <= r && r <= 'F' }
func flowInd(r rune) bool {
	return r == ',' || r == '[' || r == ']' || r == '{' || r == '}'
}
func json(r rune) bool { return r == 9 || r >= 0x20 && r <= 0x10FFFF }

func in(s string, r rune) bool {
	for i := 0; i < len(s); i++ {
		if rune(s[i]) == r {
			return true
		}
	}
	return false
}

// HRunes: the classes of single characters, for every 32-bit value.
func HRunes(k int) {
	r := vf.Rune()
	switch k {
	case 0:
		vf.Assert(yamlchar.IsDigit(r) == digit(r), "decimal digit")
	case 1:
		vf.Assert(yamlchar.IsHexDigit(r) == hex(r), "hex digit")
	case 2:
		vf.Assert(yamlchar.IsASCIILetter(r) == letter(r), "letter")
	case 3:
		vf.Assert(yamlchar.IsFlowIndicatorChar(r) == flowInd(r), "flow indicator")
	case 4:
		vf.Assert(yamlchar.IsJSONChar(r) == json(r), "nb-json")
	case 5:
		vf.Assert(yamlchar.IsWhitespaceChar(r) == (r == ' ' || r == '\t'), "white space")
	case 6:
		vf.Assert(yamlchar.IsLineBreakChar(r) == (r == '\n' || r == '\r'), "line break")
	case 7:
		vf.Assert(yamlchar.IsBlankChar(r) == (r == ' ' || r == '\t' || r == '\n' || r == '\r'), "blank")
	}
	vf.Reach("rune")
}

const (
	uriOnly = "-#;/?:@&=+$_.!~*'"
	tagOnly = "#;/?:@&=+$_.~*'"
	single  = "0abt\tnvfre \"/\\N_LP"
)

// spec decides membership of a string of ASCII characters in a set.
func spec(s []byte, set yamlchar.CharSetType) bool {
	n := len(s)
	for i := 0; i < n; {
		r := rune(s[i])
		switch set {
		case yamlchar.DecimalCharSetType:
			if !digit(r) {
				return false
			}
		case yamlchar.WordCharSetType:
			if !digit(r) && !letter(r) && r != '-' {
				return false
			}
		case yamlchar.URICharSetType, yamlchar.TagCharSetType:
			if r == '%' {
				if n-i < 3 || !hex(rune(s[i+1])) || !hex(rune(s[i+2])) {
					return false
				}
				i += 3
				continue
			}
			if set == yamlchar.URICharSetType {
				if !digit(r) && !letter(r) && !in(uriOnly, r) && !flowInd(r) {
					return false
				}
			} else if !digit(r) && !letter(r) && !in(tagOnly, r) {
				return false
			}
		case yamlchar.AnchorCharSetType, yamlchar.PlainSafeCharSetType:
			if flowInd(r) {
				return false
			}
		case yamlchar.SingleQuotedCharSetType:
			if r == '\'' {
				if i+1 >= n || s[i+1] != '\'' {
					return false
				}
				i += 2
				continue
			}
			if !json(r) {
				return false
			}
		case yamlchar.DoubleQuotedCharSetType:
			if r == '\\' {
				if i+1 >= n {
					return false
				}
				k := 0
				switch s[i+1] {
				case 'x':
					k = 2
				case 'u':
					k = 4
				case 'U':
					k = 8
				default:
					if !in(single, rune(s[i+1])) {
						return false
					}
				}
				if n-i-2 < k {
					return false
				}
				for j := 0; j < k; j++ {
					if !hex(rune(s[i+2+j])) {
						return false
					}
				}
				i += 2 + k
				continue
			}
			if r == '"' || !json(r) {
				return false
			}
		}
		i++
	}
	return true
}

func ascii(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.Byte()
		vf.Assume(b[i] < 0x80)
	}
	return b
}

// HSets: membership of every ASCII string of the length in the set.
func HSets(k, n int) {
	b := ascii(n)
	set := yamlchar.CharSetType(1 << k)
	got := yamlchar.ConformsCharSet(string(b), set)
	if got {
		vf.Reach("member")
	} else {
		vf.Reach("stranger")
	}
	vf.Assert(got == spec(b, set), "membership")
}

// HEscapes: membership of strings starting with a backslash in the double quoted set.
func HEscapes(n int) {
	b := append([]byte{'\\'}, ascii(n)...)
	vf.Assert(yamlchar.ConformsCharSet(string(b), yamlchar.DoubleQuotedCharSetType) == spec(b, yamlchar.DoubleQuotedCharSetType), "membership of escapes")
}

var origins = []string{"", "a", "12", "a-1", "%41", "!", "it''s", "it's", "\\x41", "\\q", "\"", "[", "a,b", "\t", "\x01", "é", "http://x/y?z"}

// HToken: the answer of a token never depends on what was asked before.
func HToken(o, n int) {
	t := token.Token{Type: token.StringType, Origin: origins[o]}
	for i := 0; i < n; i++ {
		set := yamlchar.CharSetType(1 << vf.Choose(8))
		vf.Assert(t.ConformsCharSet(set) == yamlchar.ConformsCharSet(t.Origin, set), "the cached answer")
		c := t // a copy keeps its answers
		vf.Assert(c.ConformsCharSet(set) == yamlchar.ConformsCharSet(t.Origin, set), "the answer of a copy")
	}
	vf.Reach("asked")
}

// HTokenSym: the same with symbolic contents.
func HTokenSym(n, q int) {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn("a1-%'\"\\[,!x ")
	}
	t := token.Token{Type: token.StringType, Origin: string(b)}
	for i := 0; i < q; i++ {
		set := yamlchar.CharSetType(1 << vf.Choose(8))
		vf.Assert(t.ConformsCharSet(set) == spec(b, set), "the answer of a token")
	}
}

// --- escaping

func validRune(r rune) bool { return r >= 0 && r < 0xD800 || r > 0xDFFF && r <= 0x10FFFF }

// HRoundRune: quoting one character and unquoting it gives the character back, for every character.
func HRoundRune(k int) {
	r := vf.Rune()
	vf.Assume(r >= 0)
	switch k {
	case 0:
		vf.Assume(r < 0x80)
	case 1:
		vf.Assume(r >= 0x80)
		vf.Assume(r < 0x800)
	case 2:
		vf.Assume(r >= 0x800)
		vf.Assume(r < 0xD800)
	case 3:
		vf.Assume(r > 0xDFFF)
		vf.Assume(r < 0x10000)
	case 4:
		vf.Assume(r >= 0x10000)
		vf.Assume(r <= 0x10FFFF)
	}
	s := string(r)
	q, err := yamlchar.ConvertToYAMLDoubleQuotedString(s)
	vf.Assert(err == nil, "quoting succeeds")
	back, err := yamlchar.ConvertFromYAMLDoubleQuotedString(q)
	vf.Assert(err == nil, "unquoting succeeds")
	vf.Assert(back == s, "the character comes back")
	if k != 0 {
		vf.Assert(yamlchar.IsDoubleQuotedString(q), "quoted form is legal")
	}
	vf.Reach("round")
	if json(r) {
		q, err = yamlchar.ConvertToYAMLSingleQuotedString(s)
		vf.Assert(err == nil, "single quoting succeeds")
		back, err = yamlchar.ConvertFromYAMLSingleQuotedString(q)
		vf.Assert(err == nil && back == s, "the character comes back from single quotes")
	}
}

// HRoundASCII: quoting and unquoting strings of n ASCII characters.
func HRoundASCII(n int) {
	b := ascii(n)
	s := string(b)
	q, err := yamlchar.ConvertToYAMLDoubleQuotedString(s)
	vf.Assert(err == nil, "quoting succeeds")
	vf.Assert(yamlchar.IsDoubleQuotedString(q), "quoted form is legal")
	for i := 0; i < len(q); i++ {
		vf.Assert(q[i] != '\n' && q[i] != '\r', "no raw line breaks")
	}
	back, err := yamlchar.ConvertFromYAMLDoubleQuotedString(q)
	vf.Assert(err == nil && back == s, "the string comes back")
	vf.Observe("q", q)
}

// HRoundSingle: the same for single quotes.
func HRoundSingle(n int) {
	b := ascii(n)
	for i := range b {
		vf.Assume(b[i] >= 0x20 || b[i] == 9)
	}
	s := string(b)
	q, err := yamlchar.ConvertToYAMLSingleQuotedString(s)
	vf.Assert(err == nil, "quoting succeeds")
	vf.Assert(yamlchar.IsSingleQuotedString(q), "quoted form is legal")
	back, err := yamlchar.ConvertFromYAMLSingleQuotedString(q)
	vf.Assert(err == nil && back == s, "the string comes back")
}

func hexVal(c byte) rune {
	switch {
	case c <= '9':
		return rune(c - '0')
	case c <= 'F':
		return rune(c-'A') + 10
	}
	return rune(c-'a') + 10
}

type piece struct{ src, val string }

var pieces = []piece{{"", ""}, {"7", "7"}, {"\\x41", "A"}, {"\\n", "\n"}, {"é", "é"}}

// around gives what stands before and after an escape.
func around() (before, after piece) {
	k := vf.Choose(len(pieces) * 2)
	before, after = pieces[0], pieces[k/2]
	if k%2 == 1 {
		before = pieces[(k/2+1)%len(pieces)]
	}
	return before, after
}

// HHexBad: escapes of too few digits are reported: they end after n of them, or something else follows.
func HHexBad(kind, n int) {
	before, _ := around()
	b := append([]byte(before.src), '\\', "xuU"[kind])
	for i := 0; i < n; i++ {
		b = append(b, vf.ByteIn("09afAF"))
	}
	if vf.Choose(2) == 1 {
		c := vf.Byte()
		vf.Assume(c >= 0x20)
		vf.Assume(c < 0x7f)
		vf.Assume(!(c >= '0' && c <= '9') && !(c >= 'a' && c <= 'f') && !(c >= 'A' && c <= 'F'))
		b = append(b, c, '0', '0', '0', '0', '0', '0', '0', '0')
		vf.Reach("other")
	} else {
		vf.Reach("short")
	}
	_, err := yamlchar.ConvertFromYAMLDoubleQuotedString(string(b))
	vf.Assert(err != nil, "an escape of too few digits is reported")
	vf.Assert(!yamlchar.IsDoubleQuotedString(string(b)), "and is not recognised")
}

// HHex: \x, \u and \U escapes stand for the character their digits name (pre zero digits first).
func HHex(kind, pre, n int) {
	before, after := around()
	b := append([]byte(before.src), '\\', "xuU"[kind])
	for i := 0; i < pre; i++ {
		b = append(b, '0')
	}
	want := rune(0)
	for i := 0; i < n; i++ {
		c := vf.ByteIn("0123456789abcdefABCDEF")
		b = append(b, c)
		want = want<<4 | hexVal(c)
	}
	b = append(b, after.src...)
	got, err := yamlchar.ConvertFromYAMLDoubleQuotedString(string(b))
	vf.Assert(err == nil, "escape is accepted")
	if !validRune(want) {
		want = 0xFFFD
	}
	vf.Assert(got == before.val+string(want)+after.val, "escape names the character")
	vf.Reach("hex")
}

var simple = map[byte]string{'0': "\x00", 'a': "\a", 'b': "\b", 't': "\t", '\t': "\t", 'n': "\n", 'v': "\v", 'f': "\f", 'r': "\r",
	'e': "\x1b", ' ': " ", '"': "\"", '/': "/", '\\': "\\", 'N': "\u0085", '_': "\u00a0", 'L': "\u2028", 'P': "\u2029"}

// HSimple: every one-character escape, and the rejection of the others.
func HSimple() {
	c := byte(vf.Concrete(uint64(vf.Byte())))
	vf.Assume(c < 0x80)
	vf.Assume(c != 'x' && c != 'u' && c != 'U')
	before, after := around()
	src := before.src + string([]byte{'\\', c}) + after.src
	got, err := yamlchar.ConvertFromYAMLDoubleQuotedString(src)
	w, ok := simple[c]
	vf.Assert((err == nil) == ok, "exactly the escapes of the specification are accepted")
	vf.Assert(yamlchar.IsDoubleQuotedString(src) == ok, "the recogniser agrees")
	if ok {
		vf.Assert(got == before.val+w+after.val, "the escape means its character")
		vf.Reach("known")
	} else {
		vf.Reach("unknown")
	}
}

// HAgree: a string is unquoted exactly when it is recognised as a quoted string.
func HAgree(k, n int) {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn("a0\\\"'xu Un\t\n\x01")
	}
	s := string(b)
	if k == 0 {
		_, err := yamlchar.ConvertFromYAMLDoubleQuotedString(s)
		vf.Assert((err == nil) == yamlchar.IsDoubleQuotedString(s), "double quoted")
	} else {
		_, err := yamlchar.ConvertFromYAMLSingleQuotedString(s)
		vf.Assert((err == nil) == yamlchar.IsSingleQuotedString(s), "single quoted")
	}
}
