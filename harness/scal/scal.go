// Package scal: harnesses over the scalar schema shared by both engines.
package scal

import (
	"math"
	"time"

	gs "github.com/KSpaceer/yamly/engines/goyaml/schema"
	"github.com/KSpaceer/yamly/engines/pkg/schema"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	ys "github.com/KSpaceer/yamly/engines/yayamls/schema"
	"gopkg.in/yaml.v3"
	"verif/vf"
)

var alphabets = []string{
	"0123456789+-.eEox_aA",
	"0178+-xo",
	"09afAFxX+-g",
	"01.eE+-",
	"trueTRUEfalsFALSnNoyY~l",
	".infINFaA+-",
}

func sym(k, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn(alphabets[k])
	}
	return string(b)
}

func digits(s string, ok func(c byte) bool) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !ok(s[i]) {
			return false
		}
	}
	return true
}

func dec(c byte) bool { return c >= '0' && c <= '9' }
func oct(c byte) bool { return c >= '0' && c <= '7' }
func hex(c byte) bool { return dec(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }

// specInt: YAML core schema integers.
func specInt(s string, signed bool) bool {
	if len(s) > 2 && s[0] == '0' && s[1] == 'o' {
		return digits(s[2:], oct)
	}
	if len(s) > 2 && s[0] == '0' && s[1] == 'x' {
		return digits(s[2:], hex)
	}
	if s != "" && (s[0] == '+' || signed && s[0] == '-') {
		s = s[1:]
	}
	return digits(s, dec)
}

// value of a string accepted by specInt, exact for short strings.
func value(s string) int64 {
	base := int64(10)
	neg := false
	if len(s) > 2 && s[0] == '0' && (s[1] == 'o' || s[1] == 'x') {
		base = 16
		if s[1] == 'o' {
			base = 8
		}
		s = s[2:]
	} else if s[0] == '+' || s[0] == '-' {
		neg = s[0] == '-'
		s = s[1:]
	}
	v := int64(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		d := int64(0)
		switch {
		case c <= '9':
			d = int64(c - '0')
		case c <= 'F':
			d = int64(c-'A') + 10
		default:
			d = int64(c-'a') + 10
		}
		v = v*base + d
	}
	if neg {
		v = -v
	}
	return v
}

// HInt: recognised integers are exactly those of the core schema and convert to the number they denote.
func HInt(k, n int) {
	s := sym(k, n)
	is := specInt(s, true)
	vf.Assert(schema.IsInteger(s) == is, "recognised integers")
	vf.Assert(schema.IsUnsignedInteger(s) == specInt(s, false), "recognised unsigned integers")
	if !is {
		vf.Reach("other")
		return
	}
	vf.Reach("integer")
	v, err := schema.ToInteger(s, 64)
	vf.Assert(err == nil, "a short integer converts")
	vf.Assert(v == value(s), "to its value")
	if specInt(s, false) {
		u, err := schema.ToUnsignedInteger(s, 64)
		vf.Assert(err == nil, "a short unsigned integer converts")
		vf.Assert(u == uint64(value(s)), "to its value, unsigned")
	}
	vf.Observe("v", v)
}

// HSize: an integer which does not fit is an error, one which fits is exact.
func HSize(n, bits int) {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn("0123456789")
	}
	neg := vf.Bool()
	s := string(b)
	v := int64(0)
	for i := range b {
		v = v*10 + int64(b[i]-'0')
	}
	if neg {
		s = "-" + s
		v = -v
	}
	got, err := schema.ToInteger(s, bits)
	fits := v >= -(int64(1)<<(bits-1)) && v <= int64(1)<<(bits-1)-1
	if fits {
		vf.Reach("fits")
		vf.Assert(err == nil, "a fitting integer converts")
		vf.Assert(got == v, "exactly")
	} else {
		vf.Reach("overflow")
		vf.Assert(err != nil, "an overflow is an error")
	}
	u, err := schema.ToUnsignedInteger(s, bits)
	ufits := !neg && v <= int64(1)<<bits-1
	if ufits {
		vf.Assert(err == nil, "a fitting unsigned integer converts")
		vf.Assert(u == uint64(v), "exactly, unsigned")
	} else {
		vf.Assert(err != nil, "an overflow is an error, unsigned")
	}
}

// HEdge: around the limits of 64 bits: the digits of the limit with a symbolic tail.
func HEdge(k int) {
	tail := make([]byte, 2)
	for i := range tail {
		tail[i] = vf.ByteIn("0123456789")
	}
	t := int(tail[0]-'0')*10 + int(tail[1]-'0')
	switch k {
	case 0:
		_, err := schema.ToInteger("92233720368547758"+string(tail), 64)
		vf.Assert((err == nil) == (t <= 7), "positive limit")
	case 1:
		_, err := schema.ToInteger("-92233720368547758"+string(tail), 64)
		vf.Assert((err == nil) == (t <= 8), "negative limit")
	case 2:
		_, err := schema.ToUnsignedInteger("184467440737095516"+string(tail), 64)
		vf.Assert((err == nil) == (t <= 15), "unsigned limit")
	}
	vf.Reach("edge")
}

// HFrom: decimal text of integers of the magnitude, and back.
func HFrom(k int) {
	switch k {
	case 0:
		v := int64(int16(vf.Uint16()))
		s := schema.FromInteger(v)
		vf.Assert(schema.IsInteger(s), "written integers are integers")
		got, err := schema.ToInteger(s, 16)
		vf.Assert(err == nil && got == v, "integer comes back")
	case 1:
		v := uint64(vf.Uint16())
		s := schema.FromUnsignedInteger(v)
		vf.Assert(schema.IsUnsignedInteger(s), "written unsigned integers are unsigned integers")
		got, err := schema.ToUnsignedInteger(s, 16)
		vf.Assert(err == nil && got == v, "unsigned comes back")
	case 2:
		v := vf.Bool()
		s := schema.FromBoolean(v)
		got, err := schema.ToBoolean(s)
		vf.Assert(schema.IsBoolean(s) && err == nil && got == v, "boolean comes back")
	}
	vf.Reach("from")
}

// HFromWide: 64-bit integers with a concrete high part.
func HFromWide(k int) {
	high := []int64{0, -1, 0x7fffffffffff, -0x800000000000, 1, 0x123456789abc, 1525878906, -1000000000}[k]
	v := high<<16 | int64(vf.Uint16())
	s := schema.FromInteger(v)
	got, err := schema.ToInteger(s, 64)
	vf.Assert(err == nil && got == v, "integer comes back")
	u := uint64(v)
	s = schema.FromUnsignedInteger(u)
	gu, err := schema.ToUnsignedInteger(s, 64)
	vf.Assert(err == nil && gu == u, "unsigned comes back")
	vf.Reach("wide")
}

// specFloat: YAML core schema floats.
func specFloat(s string) bool {
	t := s
	if t != "" && (t[0] == '+' || t[0] == '-') {
		t = t[1:]
	}
	if t == ".inf" || t == ".Inf" || t == ".INF" {
		return true
	}
	if s == ".nan" || s == ".NaN" || s == ".NAN" {
		return true
	}
	i := 0
	for i < len(t) && dec(t[i]) {
		i++
	}
	ints := i
	frac := 0
	if i < len(t) && t[i] == '.' {
		i++
		for i < len(t) && dec(t[i]) {
			i++
			frac++
		}
	}
	if ints == 0 && frac == 0 {
		return false
	}
	if i == len(t) {
		return true
	}
	if t[i] != 'e' && t[i] != 'E' {
		return false
	}
	i++
	if i < len(t) && (t[i] == '+' || t[i] == '-') {
		i++
	}
	return digits(t[i:], dec)
}

// HFloat: recognised floats are those of the core schema; each of them converts.
func HFloat(k, n int) {
	s := sym(k, n)
	is := schema.IsFloat(s)
	vf.Assert(is == specFloat(s), "recognised floats")
	if is {
		vf.Reach("float")
	} else {
		vf.Reach("other")
	}
}

// HBool: booleans and nulls.
func HBool(n int) {
	s := sym(4, n)
	t := s == "true" || s == "True" || s == "TRUE"
	f := s == "false" || s == "False" || s == "FALSE"
	vf.Assert(schema.IsBoolean(s) == (t || f), "recognised booleans")
	v, err := schema.ToBoolean(s)
	vf.Assert((err == nil) == (t || f), "exactly the booleans convert")
	vf.Assert(err != nil || v == t, "to their value")
	vf.Assert(schema.IsNull(s) == (s == "" || s == "~" || s == "null" || s == "Null" || s == "NULL"), "recognised nulls")
	if t || f {
		vf.Reach("boolean")
	}
}

var floatTexts = []string{"0", "-0", "1.5", "-1.5e3", ".5", "1.", "1e3", "1E-3", "+2.25", "0.1", "1e308", "4.9e-324", "123456789.125", ".inf", "-.Inf", "+.INF", "12e03", "00.5"}
var floatVals = []float64{0, math.Copysign(0, -1), 1.5, -1500, .5, 1, 1000, .001, 2.25, .1, 1e308, 4.9e-324, 123456789.125, math.Inf(1), math.Inf(-1), math.Inf(1), 12000, .5}

// HFloatVals: floats written by the engines come back, texts denote their values.
func HFloatVals() {
	i := vf.Choose(len(floatTexts))
	v, err := schema.ToFloat(floatTexts[i], 64)
	vf.Assert(err == nil && math.Float64bits(v) == math.Float64bits(floatVals[i]), "a text denotes its float")
	s := schema.FromFloat(floatVals[i])
	vf.Assert(schema.IsFloat(s), "a written float is a float")
	w, err := schema.ToFloat(s, 64)
	vf.Assert(err == nil && math.Float64bits(w) == math.Float64bits(floatVals[i]), "a float comes back")
	n, err := schema.ToFloat(schema.FromFloat(math.NaN()), 64)
	vf.Assert(err == nil && n != n, "not a number comes back")
	vf.Reach("floats")
}

func two(x int) string { return string([]byte{byte('0' + x/10), byte('0' + x%10)}) }
func short(x int) string {
	if x < 10 {
		return string([]byte{byte('0' + x)})
	}
	return two(x)
}

// HDate: timestamps of every supported layout denote the instant they spell.
// m: 0 RFC3339, 1 with fraction, 2 date only, 3 short with T, 4 lower t with zone, 5 space separated, 6 short date.
func HDate(m, y int) {
	mo := 1 + int(vf.Concrete(uint64(vf.Choose(12))))
	d := 1 + int(vf.Concrete(uint64(vf.Choose(31))))
	dim := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[mo-1]
	if mo == 2 && (y%4 == 0 && y%100 != 0 || y%400 == 0) {
		dim = 29
	}
	ys := two(y/100) + two(y%100)
	h, mi, sec := 7, 5, 9
	ns, off := 0, 0
	var s string
	long := ys + "-" + two(mo) + "-" + two(d)
	sh := ys + "-" + short(mo) + "-" + short(d)
	switch m {
	case 0:
		s = long + "T07:05:09Z"
	case 1:
		s = long + "T07:05:09.25+02:30"
		ns, off = 250000000, 2*3600+30*60
	case 2:
		s = long
		h, mi, sec = 0, 0, 0
	case 3:
		s = sh + "T7:5:9Z"
	case 4:
		s = sh + "t7:5:9.5-05:00"
		ns, off = 500000000, -5*3600
	case 5:
		s = sh + " 7:5:9.125"
		ns = 125000000
	case 6:
		s = sh
		h, mi, sec = 0, 0, 0
	}
	is := schema.IsTimestamp(s)
	vf.Assert(is == (d <= dim), "dates of the calendar are recognised, others are not")
	t, err := schema.ToTimestamp(s)
	vf.Assert((err == nil) == is, "exactly the recognised timestamps convert")
	if err != nil {
		vf.Reach("no date")
		return
	}
	vf.Reach("date")
	vf.Assert(t.UTC().Equal(time.Date(y, time.Month(mo), d, h, mi, sec, ns, time.UTC).Add(-time.Duration(off)*time.Second)), "to the instant")
	back, err := schema.ToTimestamp(schema.FromTimestamp(t))
	vf.Assert(err == nil && back.Equal(t), "a written timestamp comes back")
}

var clocks = []string{"2021-03-04T", "2021-3-4t", "2021-3-4 "}

// HClock: the time of day and the fraction.
func HClock(m int) {
	// one of the three is any number of two digits, the others are its neighbours at the limits
	h, mi, s := 0, 0, 0
	x := int(vf.Concrete(uint64(vf.Choose(100))))
	a := []int{0, 23, 24, 12}[vf.Concrete(uint64(vf.Choose(4)))]
	b := []int{0, 59, 60, 30}[vf.Concrete(uint64(vf.Choose(4)))]
	switch int(vf.Concrete(uint64(vf.Choose(3)))) {
	case 0:
		h, mi, s = x, b, b
	case 1:
		h, mi, s = a, x, b
	case 2:
		h, mi, s = a, b, x
	}
	z := []string{"Z", "-07:00", ""}[m]
	txt := clocks[m] + two(h) + ":" + two(mi) + ":" + two(s) + ".000000001" + z
	ok := h < 24 && mi < 60 && s < 60
	t, err := schema.ToTimestamp(txt)
	vf.Assert((err == nil) == ok, "times of the clock convert")
	vf.Assert(schema.IsTimestamp(txt) == ok, "times of the clock are recognised")
	if ok {
		off := 0
		if m == 1 {
			off = -7 * 3600
		}
		vf.Assert(t.Equal(time.Date(2021, 3, 4, h, mi, s, 1, time.UTC).Add(-time.Duration(off)*time.Second)), "to the instant")
		back, err := schema.ToTimestamp(schema.FromTimestamp(t))
		vf.Assert(err == nil && back.Equal(t), "a written time comes back")
		vf.Reach("clock")
	}
}

var words = []string{"", "~", "null", "Null", "NULL", "nUll", "true", "False", "yes", "1", "-1", "+1", "08", "0o7", "0x1F", "0b1", "1_0", "1.5", ".5", "5.", ".", "1e3", ".inf", "-.INF", ".nan", "abc", "<<",
	"2020-01-02", "2020-1-2", "2020-01-02T03:04:05Z", "2020-13-01", " ", "1 ", "-", "+", "0x", "0o8", "e3", "+.nan"}

// HEngines: both engines classify every scalar as the shared schema does, and quoting suppresses null only.
func HEngines() {
	w := words[vf.Choose(len(words))]
	q := vf.Choose(4)
	n := ast.NewTextNode(w, ast.WithQuotingType([]ast.QuotingType{ast.AbsentQuotingType, ast.SingleQuotingType, ast.DoubleQuotingType, ast.UnknownQuotingType}[q]))
	g := &yaml.Node{Kind: yaml.ScalarNode, Value: w, Style: []yaml.Style{0, yaml.SingleQuotedStyle, yaml.DoubleQuotedStyle, 0}[q]}
	plain := q == 0 || q == 3
	vf.Assert(ys.IsNull(n) == (schema.IsNull(w) && plain), "null")
	vf.Assert(gs.IsNull(g) == (schema.IsNull(w) && plain), "null (goyaml)")
	vf.Assert(ys.IsInteger(n) == schema.IsInteger(w) && gs.IsInteger(g) == schema.IsInteger(w), "integer")
	vf.Assert(ys.IsUnsignedInteger(n) == schema.IsUnsignedInteger(w) && gs.IsUnsignedInteger(g) == schema.IsUnsignedInteger(w), "unsigned")
	vf.Assert(ys.IsFloat(n) == schema.IsFloat(w) && gs.IsFloat(g) == schema.IsFloat(w), "float")
	vf.Assert(ys.IsBoolean(n) == schema.IsBoolean(w) && gs.IsBoolean(g) == schema.IsBoolean(w), "boolean")
	vf.Assert(ys.IsTimestamp(n) == schema.IsTimestamp(w) && gs.IsTimestamp(g) == schema.IsTimestamp(w), "timestamp")
	vf.Assert(ys.IsMergeKey(n) == (w == "<<") && gs.IsMergeKey(g) == (w == "<<"), "merge key")
	vf.Reach("word")
}

var stamps = []string{"2001-12-15T02:59:43Z", "2001-12-15", "2001-12-14t21:59:43.10-05:00", "2001-2-3 1:2:3", "2001-1-1T10:00:00.5Z"}

// HStamp: one arbitrary character anywhere in a timestamp: what is recognised converts, and is of the shape of a timestamp.
func HStamp(k int) {
	b := []byte(stamps[k])
	p := int(vf.Concrete(uint64(vf.Choose(len(b)))))
	b[p] = vf.Byte()
	s := string(b)
	is := schema.IsTimestamp(s)
	_, err := schema.ToTimestamp(s)
	vf.Observe("is", is)
	vf.Assert((err == nil) == is, "exactly the recognised timestamps convert")
	if is {
		c := b[p]
		vf.Assert(c >= '0' && c <= '9' || c == '-' || c == ':' || c == 'T' || c == 't' || c == 'Z' || c == ' ' || c == '.' || c == ',' || c == '+', "of the characters of a timestamp")
		vf.Reach("stamp")
	} else {
		vf.Reach("no stamp")
	}
}

// HRadix: hexadecimal (r=0) and octal (r=1) integers of n digits against the size.
func HRadix(r, n, bits int) {
	b := make([]byte, n)
	v := uint64(0)
	for i := range b {
		if r == 0 {
			b[i] = vf.ByteIn("0123456789abcdefABCDEF")
			d := uint64(b[i] - '0')
			if b[i] >= 'a' {
				d = uint64(b[i]-'a') + 10
			} else if b[i] >= 'A' {
				d = uint64(b[i]-'A') + 10
			}
			v = v<<4 | d
		} else {
			b[i] = vf.ByteIn("01234567")
			v = v<<3 | uint64(b[i]-'0')
		}
	}
	s := []string{"0x", "0o"}[r] + string(b)
	got, err := schema.ToInteger(s, bits)
	if v <= uint64(1)<<(bits-1)-1 {
		vf.Reach("fits")
		vf.Assert(err == nil, "a fitting integer of another radix converts")
		vf.Assert(got == int64(v), "exactly, other radix")
	} else {
		vf.Reach("overflow")
		vf.Assert(err != nil, "an overflow of another radix is an error")
	}
	u, err := schema.ToUnsignedInteger(s, bits)
	if bits == 64 || v <= uint64(1)<<bits-1 {
		vf.Assert(err == nil, "a fitting unsigned integer of another radix converts")
		vf.Assert(u == v, "exactly, unsigned, other radix")
	} else {
		vf.Assert(err != nil, "an overflow of another radix is an error, unsigned")
	}
}
