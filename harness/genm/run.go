package genm

import (
	"strconv"
	"time"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"gopkg.in/yaml.v3"
	"verif/tree"
	"verif/vf"
)

// Code is what was generated for a type, seen through the views of its values.
type Code struct {
	E         int // engine
	D         *D
	Encode    func(out yamly.Inserter, g *G)
	Decode    func(in yamly.Decoder) *G
	Over      func(in yamly.Decoder, g *G) *G // decodes into a variable holding g
	Marshal   func(g *G) ([]byte, error)
	Unmarshal func(data []byte) (*G, error)
}

// means: the tree is what the value is to be written as.
func means(d *D, g *G, t *tree.T) bool {
	switch d.K {
	case Ptr:
		if g.K != GNil {
			return means(d.Elem, g, t)
		}
	case Int:
		return t.Kind == tree.Plain && t.Text == strconv.FormatInt(g.I, 10)
	case Uint:
		return t.Kind == tree.Plain && t.Text == strconv.FormatUint(g.U, 10)
	case Bool:
		return t.Kind == tree.Plain && t.Text == strconv.FormatBool(g.B)
	case Float:
		return t.Kind == tree.Plain
	case Time:
		x, err := time.Parse(time.RFC3339Nano, t.Text)
		return t.Scalar() && err == nil && x.Equal(g.T)
	case Str, ByteArr:
		return t.Scalar() && t.Text == g.S
	case Text:
		if d.Wrap {
			if t.Kind != tree.Map || len(t.Kids) != 2 || t.Kids[0].Text != "raw" || t.Kids[1].Kind != tree.Seq || len(t.Kids[1].Kids) != 1 {
				return false
			}
			t = t.Kids[1].Kids[0]
		}
		return t.Scalar() && t.Text == d.Pre+g.S
	case Iface, Any:
		if g.K != GNil {
			return t.Scalar() && t.Text == d.Pre+g.S
		}
	case Bytes:
		if g.K != GNil {
			return t.Scalar() && t.Text == g.S
		}
	case Slice, Array:
		if g.K != GNil {
			if t.Kind != tree.Seq || len(t.Kids) != len(g.Kids) {
				return false
			}
			for i := range g.Kids {
				if !means(d.Elem, g.Kids[i], t.Kids[i]) {
					return false
				}
			}
			return true
		}
	case Map:
		if g.K != GNil {
			if t.Kind != tree.Map || len(t.Kids) != len(g.Kids) {
				return false
			}
			for i := 0; i < len(g.Kids); i += 2 {
				found := false
				for j := 0; j < len(t.Kids) && !found; j += 2 {
					found = means(d.Key, g.Kids[i], t.Kids[j]) && means(d.Elem, g.Kids[i+1], t.Kids[j+1])
				}
				if !found {
					return false
				}
			}
			return true
		}
	case Struct:
		if t.Kind != tree.Map {
			return false
		}
		n := 0
		for i, f := range d.F {
			if !there(f, g) || f.Omit && Empty(f.D, g.Kids[i]) {
				continue
			}
			n++
			found := false
			for j := 0; j < len(t.Kids) && !found; j += 2 {
				found = t.Kids[j].Scalar() && t.Kids[j].Text == f.Name && means(f.D, g.Kids[i], t.Kids[j+1])
			}
			if !found {
				return false
			}
		}
		return len(t.Kids) == 2*n
	}
	return t.IsNull()
}

// Enc: every value is written as the document it is to be written as, and read from it again.
func (c *Code) Enc(hot, n, depth int) {
	g := (&Values{Hot: hot, N: n, Depth: depth}).Draw(c.D)
	var back yamly.Decoder
	var t *tree.T
	if c.E == 0 {
		b := yencode.NewASTBuilder()
		c.Encode(b, g)
		r, err := b.Result()
		vf.Assert(err == nil, "a value is encoded without an error")
		if err != nil {
			return
		}
		t, back = tree.Of(r), ydecode.NewASTReader(r)
	} else {
		b := gencode.NewASTBuilder()
		c.Encode(b, g)
		r, err := b.Result()
		vf.Assert(err == nil, "a value is encoded without an error")
		if err != nil {
			return
		}
		t, back = tree.OfYaml(r), gdecode.NewASTReader(r)
	}
	vf.Assert(means(c.D, g, t), "a value is encoded as the document it means")
	got := c.Decode(back)
	if Closed(c.D, g) {
		vf.Assert(back.Error() != nil, "what cannot be read is reported")
		vf.Reach("encoded")
		return
	}
	vf.Assert(back.Error() == nil, "an encoded value is decoded without an error")
	vf.Assert(Same(got, Norm(c.D, g)), "an encoded value is decoded to the same value")
	vf.Reach("encoded")
}

// Txt: the same by way of text.
func (c *Code) Txt(hot, n, depth int) {
	g := (&Values{Hot: hot, N: n, Depth: depth}).Draw(c.D)
	data, err := c.Marshal(g)
	vf.Assert(err == nil, "a value is marshalled without an error")
	if err != nil {
		return
	}
	vf.Observe("length", len(data)) // the order of entries of maps is not fixed
	var t *tree.T
	if c.E == 0 {
		r, err := parser.ParseBytes(data, parser.WithOmitStream())
		vf.Assert(err == nil, "a marshalled value is a document")
		if err != nil {
			return
		}
		t = tree.Of(r)
	} else {
		var r yaml.Node
		err := yaml.Unmarshal(data, &r)
		vf.Assert(err == nil, "a marshalled value is a document")
		if err != nil {
			return
		}
		t = tree.OfYaml(&r)
	}
	vf.Assert(means(c.D, g, t), "a value is marshalled as the document it means")
	got, err := c.Unmarshal(data)
	if Closed(c.D, g) {
		vf.Assert(err != nil, "what cannot be read is reported")
		vf.Reach("marshalled")
		return
	}
	vf.Assert(err == nil, "a marshalled value is unmarshalled without an error")
	vf.Assert(err != nil || Same(got, Norm(c.D, g)), "a marshalled value is unmarshalled to the same value")
	vf.Reach("marshalled")
}

// Dec: every document is decoded to the value it has by the rules, or reported. src: 0 the tree, 1 its text.
func (c *Code) Dec(src, hot, depth, scs int) {
	c.dec(src, (&Docs{Hot: hot, Depth: depth, Scs: scs, Str: 2}).Draw(c.D))
}

// Keys: the same for every key of structs.
func (c *Code) Keys(hot, depth, str int) {
	c.dec(0, (&Docs{Hot: hot, Depth: depth, Scs: 1, Str: str, Keys: true}).Draw(c.D))
}

func (c *Code) dec(src int, n *Doc) {
	want, ok := Decode(c.D, n)
	if n.null() {
		want, ok = Zero(c.D), true
	}
	var got *G
	var err error
	if src == 1 {
		if n.any() {
			return
		}
		text := n.flow() + "\n"
		vf.Observe("doc", text)
		got, err = c.Unmarshal([]byte(text))
	} else {
		var in yamly.Decoder
		if c.E == 0 {
			in = ydecode.NewASTReader(n.yay())
		} else {
			in = gdecode.NewASTReader(n.goy())
		}
		got = c.Decode(in)
		err = in.Error()
	}
	if ok {
		vf.Assert(err == nil, "a fitting document is decoded without an error")
		vf.Assert(err != nil || Same(got, want), "a fitting document is decoded to its value")
		vf.Reach("fits")
	} else {
		vf.Assert(err != nil, "a document which does not fit is reported")
		vf.Reach("reported")
	}
}

// Into: decoding into a variable which holds something sets what the document names and leaves the rest alone.
func (c *Code) Into(hot, depth, scs int) {
	n := (&Docs{Hot: hot, Depth: depth, Scs: scs, Str: 2}).Draw(c.D)
	old := Full(c.D, 3)
	want, ok := Over(c.D, old, n)
	if n.null() {
		want, ok = &G{K: GWild}, true
		if c.D.K == Struct {
			want = Zero(c.D)
		}
	}
	var in yamly.Decoder
	if c.E == 0 {
		in = ydecode.NewASTReader(n.yay())
	} else {
		in = gdecode.NewASTReader(n.goy())
	}
	got := c.Over(in, old)
	if ok {
		vf.Assert(in.Error() == nil, "a fitting document is decoded without an error")
		vf.Assert(in.Error() != nil || Same(got, want), "a fitting document sets what it names and nothing else")
		vf.Reach("set")
	} else {
		vf.Assert(in.Error() != nil, "a document which does not fit is reported")
	}
}

// Bad: whatever the text is, unmarshalling ends with a value or with an error, and with an error if it is no document.
func (c *Code) Bad(n int) {
	in := make([]byte, n)
	for i := range in {
		in[i] = vf.ByteIn("a1:-?[]{},#&*!|>'\"%@` \t\n")
	}
	var bad bool
	if c.E == 0 {
		_, err := parser.ParseBytes(in, parser.WithOmitStream())
		bad = err != nil
	} else {
		var r yaml.Node
		bad = yaml.Unmarshal(in, &r) != nil
	}
	_, err := c.Unmarshal(in)
	vf.Assert(!bad || err != nil, "text which is not a document is reported")
	if bad {
		vf.Reach("no document")
	} else {
		vf.Reach("document")
	}
}
