package build

import (
	"math"
	"time"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"gopkg.in/yaml.v3"
	"verif/vf"
)

// val is an inserted value.
type val struct {
	kind int // 0 string, 1 int, 2 uint, 3 bool, 4 float, 5 null, 6 time, 7 sequence, 8 mapping, 9 raw text
	s    string
	i    int64
	u    uint64
	b    bool
	f    float64
	t    time.Time
	kids []*val
}

func encoder(e int, opt bool) yamly.Encoder {
	if e == 0 {
		if opt {
			return yamly.NewEncoder(yencode.NewASTBuilder(yencode.WithUnquotedOneLineStrings()), yencode.NewASTWriter())
		}
		return yamly.NewEncoder(yencode.NewASTBuilder(), yencode.NewASTWriter())
	}
	if opt {
		return yamly.NewEncoder[*yaml.Node](gencode.NewASTBuilder(gencode.WithUnquotedOneLineStrings()), &gencode.ASTWriter{})
	}
	return yamly.NewEncoder[*yaml.Node](gencode.NewASTBuilder(), &gencode.ASTWriter{})
}

func decoder(e int, src string) (yamly.Decoder, error) {
	if e == 0 {
		return ydecode.NewASTReaderFromBytes([]byte(src))
	}
	var n yaml.Node
	if err := yaml.Unmarshal([]byte(src), &n); err != nil {
		return nil, err
	}
	return gdecode.NewASTReader(&n), nil
}

var ints = []int64{0, 1, -1, 127, -128, math.MaxInt64, math.MinInt64, 1000000, -54321}
var uints = []uint64{0, 1, 255, math.MaxUint64, math.MaxInt64 + 1}
var floats = []float64{0, 1, -1.5, 1e21, 1e-7, 123456789.125, math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, 3}
var times = []time.Time{
	time.Date(2021, 2, 3, 4, 5, 6, 0, time.UTC),
	time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(2021, 12, 31, 23, 59, 59, 123456789, time.FixedZone("", 5*3600+1800)),
	time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.FixedZone("", -8*3600)),
}

type gen struct {
	budget int
	hot    int // the scalar which is arbitrary
	n      int // length of the arbitrary string
	set    string
}

func (g *gen) put(e yamly.Inserter) *val {
	g.budget--
	k := 0
	if g.budget > 0 {
		k = pick(3)
	}
	switch k {
	case 1:
		v := &val{kind: 7}
		e.StartSequence()
		for n := pick(3); n > 0; n-- {
			v.kids = append(v.kids, g.put(e))
		}
		e.EndSequence()
		return v
	case 2:
		v := &val{kind: 8}
		e.StartMapping()
		for n := pick(3); n > 0; n-- {
			v.kids = append(v.kids, g.scalar(e, true), g.put(e))
		}
		e.EndMapping()
		return v
	}
	return g.scalar(e, false)
}

func (g *gen) scalar(e yamly.Inserter, key bool) *val {
	g.hot--
	if g.hot != -1 {
		s := string([]byte{'k', byte('a' - g.hot%20)})
		e.InsertString(s)
		return &val{kind: 0, s: s}
	}
	k := 0
	if !key {
		k = pick(8)
	}
	switch k {
	case 0:
		b := make([]byte, g.n)
		for i := range b {
			b[i] = vf.ByteIn(g.set)
		}
		s := string(b)
		e.InsertString(s)
		return &val{kind: 0, s: s}
	case 1:
		i := ints[pick(len(ints))]
		e.InsertInteger(i)
		return &val{kind: 1, i: i}
	case 2:
		u := uints[pick(len(uints))]
		e.InsertUnsigned(u)
		return &val{kind: 2, u: u}
	case 3:
		b := vf.Bool()
		e.InsertBoolean(b)
		return &val{kind: 3, b: b}
	case 4:
		f := floats[pick(len(floats))]
		e.InsertFloat(f)
		return &val{kind: 4, f: f}
	case 5:
		e.InsertNull()
		return &val{kind: 5}
	case 6:
		t := times[pick(len(times))]
		e.InsertTimestamp(t)
		return &val{kind: 6, t: t}
	}
	s := string([]byte{vf.ByteIn(g.set), 'r'})
	e.InsertRawText([]byte(s), nil)
	return &val{kind: 0, s: s}
}

// read compares what the decoder gives with the inserted value.
func read(d yamly.Decoder, v *val) {
	switch v.kind {
	case 0:
		s := d.String()
		vf.Assert(s == v.s, "the string comes back")
	case 1:
		vf.Assert(d.Integer(64) == v.i, "the integer comes back")
	case 2:
		vf.Assert(d.Unsigned(64) == v.u, "the unsigned integer comes back")
	case 3:
		vf.Assert(d.Boolean() == v.b, "the boolean comes back")
	case 4:
		vf.Assert(math.Float64bits(d.Float(64)) == math.Float64bits(v.f), "the float comes back")
	case 5:
		vf.Assert(d.TryNull(), "the null comes back")
	case 6:
		vf.Assert(d.Timestamp().Equal(v.t), "the timestamp comes back")
	case 7:
		st := d.Sequence()
		for _, k := range v.kids {
			vf.Assert(st.HasUnprocessedItems(), "no element is lost")
			if d.TryNull() {
				vf.Assert(k.kind == 5, "only nulls are null")
				continue
			}
			read(d, k)
		}
		vf.Assert(!st.HasUnprocessedItems(), "no element is invented")
	case 8:
		st := d.Mapping()
		for i := 0; i < len(v.kids); i += 2 {
			vf.Assert(st.HasUnprocessedItems(), "no entry is lost")
			read(d, v.kids[i])
			if d.TryNull() {
				vf.Assert(v.kids[i+1].kind == 5, "only nulls are null")
				continue
			}
			read(d, v.kids[i+1])
		}
		vf.Assert(!st.HasUnprocessedItems(), "no entry is invented")
	}
}

var sets = []string{
	"ab \n\t\"'\\:#-,[]{}&*!|>%@`~?0",
	"a \n\t\"\\:",
	"a\x01\x7f\x1b\r\x00",
	"~nulrt1.",
}

func round(e int, set, n, budget, hot int, opt bool) {
	enc := encoder(e, opt)
	g := &gen{budget: budget, hot: hot, n: n, set: sets[set]}
	v := g.put(enc)
	out, err := enc.EncodeToString()
	vf.Assert(err == nil, "a finished tree is encoded")
	if err != nil {
		return
	}
	vf.Observe("out", out)
	d, err := decoder(e, out)
	vf.Assert(err == nil, "an encoded document is read")
	if err != nil {
		return
	}
	if v.kind == 5 {
		vf.Assert(d.TryNull(), "the null comes back")
	} else {
		read(d, v)
	}
	vf.Assert(d.Error() == nil, "an encoded document is decoded without errors")
	vf.Reach("round")
}

// HRound: what is inserted into an encoder is what the decoder of the engine reads from its output.
func HRound(e, set, n, budget, hot int) { round(e, set, n, budget, hot, false) }

// HUnquoted: the same for strings when one-line strings are not quoted on request; texts which mean something
// else without quotes are strings all the same.
func HUnquoted(e, n int) {
	enc := encoder(e, true)
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn("ab \n\t\"'\\:#-,[]{}&*!|>%@`?")
	}
	s := string(b)
	enc.StartSequence()
	enc.InsertString(s)
	enc.InsertString("z")
	enc.EndSequence()
	out, err := enc.EncodeToString()
	vf.Assert(err == nil, "a string is encoded")
	if err != nil {
		return
	}
	vf.Observe("out", out)
	d, err := decoder(e, out)
	vf.Assert(err == nil, "an encoded string is read")
	if err != nil {
		return
	}
	d.Sequence()
	vf.Assert(d.String() == s, "an unquoted string comes back")
	vf.Assert(d.String() == "z" && d.Error() == nil, "its neighbour comes back")
	vf.Reach("unquoted")
}
