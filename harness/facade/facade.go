// Package facade: yamly.NewEncoder over stubs and over the real engines.
package facade

import (
	"bytes"
	"errors"
	"io"
	"time"

	"github.com/KSpaceer/yamly"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"gopkg.in/yaml.v3"
	"verif/vf"
)

func pick(n int) int { return int(vf.Concrete(uint64(vf.Choose(n)))) }

type call struct {
	op  int
	i   int64
	u   uint64
	b   bool
	f   float64
	s   string
	t   time.Time
	err error
}

func (c call) same(d call) bool {
	return c.op == d.op && c.i == d.i && c.u == d.u && c.b == d.b && c.f == d.f && c.s == d.s && c.t.Equal(d.t) && c.err == d.err
}

var errBuild = errors.New("build")
var errWrite = errors.New("write")
var errArg = errors.New("arg")

type builder struct {
	calls   []call
	results int
	tree    int
	err     error
}

func (b *builder) InsertInteger(v int64)       { b.calls = append(b.calls, call{op: 0, i: v}) }
func (b *builder) InsertUnsigned(v uint64)     { b.calls = append(b.calls, call{op: 1, u: v}) }
func (b *builder) InsertBoolean(v bool)        { b.calls = append(b.calls, call{op: 2, b: v}) }
func (b *builder) InsertFloat(v float64)       { b.calls = append(b.calls, call{op: 3, f: v}) }
func (b *builder) InsertString(v string)       { b.calls = append(b.calls, call{op: 4, s: v}) }
func (b *builder) InsertTimestamp(v time.Time) { b.calls = append(b.calls, call{op: 5, t: v}) }
func (b *builder) InsertNull()                 { b.calls = append(b.calls, call{op: 6}) }
func (b *builder) StartSequence()              { b.calls = append(b.calls, call{op: 7}) }
func (b *builder) EndSequence()                { b.calls = append(b.calls, call{op: 8}) }
func (b *builder) StartMapping()               { b.calls = append(b.calls, call{op: 9}) }
func (b *builder) EndMapping()                 { b.calls = append(b.calls, call{op: 10}) }
func (b *builder) InsertRaw(d []byte, err error) {
	b.calls = append(b.calls, call{op: 11, s: string(d), err: err})
}
func (b *builder) InsertRawText(d []byte, err error) {
	b.calls = append(b.calls, call{op: 12, s: string(d), err: err})
}
func (b *builder) Result() (int, error) {
	b.results++
	return b.tree, b.err
}

type writer struct {
	trees []int
	err   error
	dst   io.Writer
}

func (w *writer) WriteTo(dst io.Writer, tree int) error {
	w.trees = append(w.trees, tree)
	w.dst = dst
	return w.err
}

func (w *writer) WriteString(tree int) (string, error) {
	w.trees = append(w.trees, tree)
	return "text", w.err
}

func (w *writer) WriteBytes(tree int) ([]byte, error) {
	w.trees = append(w.trees, tree)
	return []byte("data"), w.err
}

// HStub: every insertion reaches the builder, once, in order, with its arguments; the output is what the writer makes of the result of
// the builder, and an error of either is returned. rounds: how often the encoder is used.
func HStub(n, rounds int) {
	b, w := &builder{}, &writer{}
	enc := yamly.NewEncoder[int](b, w)
	for ; rounds > 0; rounds-- {
		b.calls, b.results, w.trees, w.dst = nil, 0, nil, nil
		var want []call
		for i := 0; i < n; i++ {
			c := call{op: pick(13)}
			switch c.op {
			case 0:
				c.i = vf.Int64()
				enc.InsertInteger(c.i)
			case 1:
				c.u = vf.Uint64()
				enc.InsertUnsigned(c.u)
			case 2:
				c.b = vf.Bool()
				enc.InsertBoolean(c.b)
			case 3:
				c.f = []float64{1.5, -2, 0}[pick(3)]
				enc.InsertFloat(c.f)
			case 4:
				c.s = string([]byte{vf.Byte(), vf.Byte()})
				enc.InsertString(c.s)
			case 5:
				c.t = time.Date(2000+pick(2), 1, 2, 3, 4, 5, 6, time.UTC)
				enc.InsertTimestamp(c.t)
			case 6:
				enc.InsertNull()
			case 7:
				enc.StartSequence()
			case 8:
				enc.EndSequence()
			case 9:
				enc.StartMapping()
			case 10:
				enc.EndMapping()
			case 11, 12:
				c.s = string([]byte{vf.Byte(), 'x'})
				if pick(2) == 0 {
					c.err = errArg
				}
				if c.op == 11 {
					enc.InsertRaw([]byte(c.s), c.err)
				} else {
					enc.InsertRawText([]byte(c.s), c.err)
				}
			}
			want = append(want, c)
		}
		vf.Assert(len(b.calls) == len(want), "every insertion reaches the builder once")
		for i := range want {
			vf.Assert(i < len(b.calls) && b.calls[i].same(want[i]), "an insertion reaches the builder unchanged")
		}
		vf.Assert(b.results == 0 && len(w.trees) == 0, "nothing is written before it is asked for")
		b.tree = int(vf.Uint8())
		b.err, w.err = nil, nil
		if vf.Bool() {
			b.err = errBuild
		}
		if vf.Bool() {
			w.err = errWrite
		}
		var err error
		out := ""
		var dst bytes.Buffer
		kind := pick(3)
		switch kind {
		case 0:
			out, err = enc.EncodeToString()
		case 1:
			var data []byte
			data, err = enc.EncodeToBytes()
			out = string(data)
		case 2:
			err = enc.EncodeTo(&dst)
		}
		vf.Assert(b.results == 1, "the result of the builder is taken once")
		if b.err != nil {
			vf.Reach("builder fails")
			vf.Assert(errors.Is(err, errBuild), "the error of the builder is returned")
			vf.Assert(len(w.trees) == 0 && out == "", "nothing is written when the builder fails")
			continue
		}
		vf.Assert(len(w.trees) == 1 && w.trees[0] == b.tree, "the result of the builder is written")
		vf.Assert(kind != 2 || w.dst == io.Writer(&dst), "it is written to the destination")
		if w.err != nil {
			vf.Reach("writer fails")
			vf.Assert(errors.Is(err, errWrite), "the error of the writer is returned")
			continue
		}
		vf.Reach("written")
		vf.Assert(err == nil, "no error is made up")
		vf.Assert(kind == 2 || out == []string{"text", "data"}[kind], "the output is the writer's")
	}
}

type failing struct {
	left int
	got  []byte
}

func (f *failing) Write(p []byte) (int, error) {
	if len(p) > f.left {
		n := f.left
		f.got = append(f.got, p[:n]...)
		f.left = 0
		return n, errWrite
	}
	f.got = append(f.got, p...)
	f.left -= len(p)
	return len(p), nil
}

func encoder(e int) yamly.Encoder {
	if e == 0 {
		return yamly.NewEncoder(yencode.NewASTBuilder(), yencode.NewASTWriter())
	}
	return yamly.NewEncoder[*yaml.Node](gencode.NewASTBuilder(), &gencode.ASTWriter{})
}

// insert performs a history of insertions; most are trees.
func insert(hist []int, texts []string, enc yamly.Inserter) {
	for i, op := range hist {
		switch op {
		case 0:
			enc.InsertString(texts[i])
		case 1:
			enc.InsertInteger(-5)
		case 2:
			enc.StartSequence()
		case 3:
			enc.EndSequence()
		case 4:
			enc.StartMapping()
		case 5:
			enc.EndMapping()
		}
	}
}

// HOutputs: the three outputs of an encoder agree, and a destination which fails after any number of bytes is reported; afterwards the
// encoder encodes as a new one does.
func HOutputs(e, n int) {
	hist := make([]int, n)
	texts := make([]string, n)
	for i := range hist {
		hist[i] = pick(6)
		texts[i] = "t"
		if hist[i] == 0 && i < 2 {
			texts[i] = string([]byte{vf.ByteIn("ab\n\": ")})
		}
	}
	enc := encoder(e)
	insert(hist, texts, enc)
	s, err := enc.EncodeToString()
	vf.Observe("s", s)
	insert(hist, texts, enc)
	b, err2 := enc.EncodeToBytes()
	vf.Assert((err == nil) == (err2 == nil), "the outputs fail together")
	insert(hist, texts, enc)
	var buf bytes.Buffer
	err3 := enc.EncodeTo(&buf)
	vf.Assert((err == nil) == (err3 == nil), "the outputs fail together")
	if err == nil && err2 == nil && err3 == nil {
		vf.Reach("encoded")
		vf.Assert(string(b) == s && buf.String() == s, "the outputs agree")
		f := &failing{left: pick(4)}
		if f.left < len(s) {
			room := f.left
			insert(hist, texts, enc)
			err := enc.EncodeTo(f)
			// gopkg.in/yaml.v3 does not keep the identity of the error
			vf.Assert(err != nil && (e == 1 || errors.Is(err, errWrite)), "the error of the destination is returned")
			vf.Assert(len(f.got) <= room && string(f.got) == s[:len(f.got)], "only the beginning of the output was written")
		}
		vf.Reach("failed")
	}
	insert([]int{2, 1, 3}, []string{"", "", ""}, enc)
	after, err := enc.EncodeToString()
	fresh := encoder(e)
	insert([]int{2, 1, 3}, []string{"", "", ""}, fresh)
	want, _ := fresh.EncodeToString()
	vf.Assert(err == nil && after == want, "an encoder encodes as a new one whatever it encoded before")
}
