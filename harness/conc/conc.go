// Package conc: calls in progress at the same time do not affect each other.
package conc

import (
	"time"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	gschema "github.com/KSpaceer/yamly/engines/goyaml/schema"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astcmp"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/lexer"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	yschema "github.com/KSpaceer/yamly/engines/yayamls/schema"
	"github.com/KSpaceer/yamly/engines/yayamls/token"
	"gopkg.in/yaml.v3"
	"verif/tree"
	"verif/vf"
)

var alphabets = []string{
	"ab \n:-,[]{}\"'|>?\\#&*!",
	"a,[]{}: \n",
	"a: -\n?|>",
	"a\"'\\ \n",
	"an|>+- \n1",
}

var contexts = [][2]string{
	0:  {"", ""},
	1:  {"k: ", "\nv: w\n"},
	2:  {"- ", "\n- w\n"},
	3:  {"[x, ", "]\n"},
	4:  {"{k: ", ", v: w}\n"},
	5:  {"k: |", "\n  a\n\n  b\n"},
	6:  {"\"a", "b\"\n"},
	7:  {"- &a [b]\n- ", "\n- *a\n"},
	8:  {"\"\\x4", "\\u00e9\\U0001F600\\t\\N b\"\n"},
	9:  {"? a\n: !!str 'b''c", " d'\n? [e]\n: !<f> g\n"},
	10: {"%TAG !e! tag:e,2000:\n---\n# c\n- !e!x a\n- >2-", "\n   b\n\n  c\n...\n"},
	11: {"- &m {a: 1, b: 0x1F}\n- <<: *m\n  c: 2001-02-03\n  d: 1.5e3\n  e: ", "\n"},
	12: {"- 2001-02-03T04:05:06Z\n- -1\n- .inf\n- ~\n- true\n- ", "\n- aGk=\n"},
	13: {"{? a : b, c, \"d\": [e: f, ", "]}\n---\n- - x\n  - y: z\n    w: |\n      v\n"},
}

var others = []string{
	"k: [a, 'c']\n",
	"- |\n  x\n\n- &a b\n- *a\n",
	"{",
	"\"\\x41 b\"\n",
	"a: b\n c: d\n",
	"- >+\n x\n",
	"[[], {}]",
}

func symbolic(c, k, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn(alphabets[k])
	}
	return contexts[c][0] + string(b) + contexts[c][1]
}

// thread runs f in a goroutine of its own, from one pause to the next.
type thread struct {
	run, paused chan bool
	over        bool
	crash       any
}

func start(f func(pause func())) *thread {
	t := &thread{run: make(chan bool), paused: make(chan bool)}
	go func() {
		defer func() {
			t.crash = recover()
			t.over = true
			t.paused <- true
		}()
		<-t.run
		f(func() {
			t.paused <- true
			<-t.run
		})
	}()
	return t
}

func (t *thread) step() {
	t.run <- true
	<-t.paused
	if t.crash != nil {
		panic(t.crash)
	}
}

// stream hands tokens on, pausing before each.
type stream struct {
	*lexer.Tokenizer
	pause func()
}

func (s *stream) Next() token.Token {
	s.pause()
	return s.Tokenizer.Next()
}

type outcome struct {
	t   *tree.T
	err bool
}

func parse(src string, pause func()) outcome {
	var n ast.Node
	var err error
	if pause == nil {
		n, err = parser.ParseString(src)
	} else {
		n, err = parser.ParseTokenStream(&stream{lexer.NewTokenizer(src), pause})
	}
	if err != nil {
		return outcome{nil, true}
	}
	return outcome{tree.Of(n), false}
}

func same(a, b outcome) bool {
	return a.err == b.err && (a.err || tree.Same(a.t, b.t))
}

// HParses: two documents parsed at once, token by token, with up to sw switches between them at arbitrary tokens.
func HParses(c, k, n, b, sw int) {
	a, o := symbolic(c, k, n), others[b]
	wantA, wantO := parse(a, nil), parse(o, nil)
	var gotA, gotO outcome
	ts := [2]*thread{
		start(func(p func()) { gotA = parse(a, p) }),
		start(func(p func()) { gotO = parse(o, p) }),
	}
	cur := vf.Choose(2)
	if cur != 0 {
		cur = 1
	} else {
		cur = 0
	}
	for !ts[0].over || !ts[1].over {
		if ts[cur].over {
			cur = 1 - cur
		} else if sw > 0 && !ts[1-cur].over && vf.Bool() {
			sw--
			cur = 1 - cur
		}
		ts[cur].step()
	}
	vf.Assert(same(wantA, gotA), "a document is parsed the same while another one is being parsed")
	vf.Assert(same(wantO, gotO), "a document is parsed the same while another one is being parsed")
	if wantA.err {
		vf.Reach("rejected")
	} else {
		vf.Reach("accepted")
	}
}

// inside calls f at the k-th write.
type inside struct {
	b []byte
	k int
	f func()
}

func (w *inside) Write(p []byte) (int, error) {
	if w.k == 0 {
		w.f()
	}
	w.k--
	w.b = append(w.b, p...)
	return len(p), nil
}

// HWrites: a document is written while another one, which is being written, hands over its data.
func HWrites(c, k, n, b int) {
	ta, err := parser.ParseString(symbolic(c, k, n))
	if err != nil {
		vf.Reach("rejected")
		return
	}
	vf.Reach("accepted")
	to, err := parser.ParseString(others[b])
	if err != nil {
		vf.Assume(false)
	}
	wantA, err := yencode.NewASTWriter().WriteString(ta)
	vf.Assert(err == nil, "a document is written")
	wantO, err := yencode.NewASTWriter().WriteString(to)
	vf.Assert(err == nil, "a document is written")
	var gotA string
	dst := &inside{k: vf.Choose(2)}
	dst.f = func() {
		gotA, _ = yencode.NewASTWriter().WriteString(ta)
		vf.Assert(gotA == wantA, "a document is written the same while another one is being written")
	}
	err = yencode.NewASTWriter().WriteTo(dst, to)
	vf.Assert(err == nil && string(dst.b) == wantO, "a document is written the same while another one is being written")
}

// HTokens: two tokenizers, used in any order, give the tokens each gives alone.
func HTokens(c, k, n, b, steps int) {
	srcs := [2]string{symbolic(c, k, n), others[b]}
	var want [2][]token.Token
	for i := range srcs {
		t := lexer.NewTokenizer(srcs[i])
		for j := 0; j < steps; j++ {
			want[i] = append(want[i], t.Next())
		}
	}
	ts := [2]*lexer.Tokenizer{lexer.NewTokenizer(srcs[0]), lexer.NewTokenizer(srcs[1])}
	var at [2]int
	for i := 0; i < steps; i++ {
		w := 0
		if vf.Bool() {
			w = 1
		}
		t := ts[w].Next()
		x := want[w][at[w]]
		vf.Assert(t.Type == x.Type && t.Origin == x.Origin && t.Start == x.Start && t.End == x.End, "a tokenizer gives the same tokens while another one is used")
		at[w]++
	}
	vf.Reach("accepted")
	vf.Reach("rejected")
}

// ---- no call writes to what other calls can reach

// HShareParse: parsing.
func HShareParse(c, k, n, mode int) {
	src := symbolic(c, k, n)
	data := []byte(src)
	vf.Race(func() {
		var n ast.Node
		var err error
		switch mode {
		case 0:
			n, err = parser.ParseString(src)
		case 1:
			n, err = parser.ParseBytes(data)
		default:
			var toks []token.Token
			tk := lexer.NewTokenizer(src)
			for len(toks) < 100 {
				t := tk.Next()
				toks = append(toks, t)
				if t.Type == token.EOFType {
					break
				}
			}
			n, err = parser.ParseTokens(toks)
		}
		if err == nil {
			_, _ = yencode.NewASTWriter().WriteString(n)
		}
	}, data)
	vf.Reach("shared")
}

// read goes through a document in the given way.
func read(d yamly.Decoder, way int) {
	switch way {
	case 0:
		_ = d.Any()
	case 1:
		_ = d.Raw()
	case 2:
		d.Skip()
	case 3:
		m := d.Mapping()
		for m.HasUnprocessedItems() {
			_ = d.String()
			_ = d.Any()
		}
	case 4:
		s := d.Sequence()
		for s.HasUnprocessedItems() {
			if !d.TryNull() {
				_ = d.Integer(64)
			}
		}
	case 5:
		_ = d.String()
	}
	_ = d.Error()
}

// HShareTree: reading one tree, in any way.
func HShareTree(e, c, k, n, way int) {
	src := symbolic(c, k, n)
	if e == 0 {
		t, err := parser.ParseString(src, parser.WithOmitStream())
		if err != nil {
			return
		}
		vf.Race(func() {
			read(ydecode.NewASTReader(t), way)
			_, _ = yencode.NewASTWriter().WriteBytes(t)
			_ = astcmp.NewComparator().Equal(t, t)
		}, t)
	} else {
		var t yaml.Node
		if yaml.Unmarshal([]byte(src), &t) != nil {
			return
		}
		p := &t
		vf.Race(func() { read(gdecode.NewASTReader(p), way) }, p)
	}
	vf.Reach("shared")
}

func insert(b yamly.Inserter, op int, s string) {
	switch op {
	case 0:
		b.InsertNull()
	case 1:
		b.InsertString(s)
	case 2:
		b.InsertInteger(int64(len(s)))
	case 3:
		b.InsertBoolean(true)
	case 4:
		b.InsertFloat(1.5)
	case 5:
		b.InsertTimestamp(time.Unix(0, 0).UTC())
	case 6:
		b.StartSequence()
	case 7:
		b.EndSequence()
	case 8:
		b.StartMapping()
	case 9:
		b.EndMapping()
	default:
		b.InsertRaw([]byte("a: b"), nil)
	}
}

// HShareBuild: building and encoding.
func HShareBuild(e, n int) {
	ops := make([]int, n)
	for i := range ops {
		ops[i] = int(vf.Concrete(uint64(vf.Choose(11))))
	}
	s := string([]byte{vf.ByteIn("a: \n\"")})
	vf.Race(func() {
		if e == 0 {
			x := yamly.NewEncoder(yencode.NewASTBuilder(), yencode.NewASTWriter())
			for _, o := range ops {
				insert(x, o, s)
			}
			_, _ = x.EncodeToString()
		} else {
			x := yamly.NewEncoder[*yaml.Node](gencode.NewASTBuilder(), &gencode.ASTWriter{})
			for _, o := range ops {
				insert(x, o, s)
			}
			_, _ = x.EncodeToString()
		}
	}, nil)
	vf.Reach("shared")
}

// HShareSchema: recognising and converting scalars.
func HShareSchema(n int) {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn("0x1-:.einf+~")
	}
	s := string(b)
	yn := ast.NewTextNode(s)
	gn := &yaml.Node{Kind: yaml.ScalarNode, Value: s}
	vf.Race(func() {
		if yschema.IsNull(yn) || gschema.IsNull(gn) || yschema.IsBoolean(yn) || gschema.IsBoolean(gn) {
			return
		}
		if yschema.IsInteger(yn) && gschema.IsInteger(gn) {
			_, _ = yschema.ToInteger(s, 64)
			_, _ = gschema.ToUnsignedInteger(s, 8)
		}
		_ = yschema.IsFloat(yn)
		_ = gschema.IsBinary(gn)
		_ = yschema.IsMergeKey(yn)
		_ = gschema.IsTimestamp(gn)
	}, []any{yn, gn})
	vf.Reach("shared")
}
