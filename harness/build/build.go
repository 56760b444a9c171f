// Package build: the tree builders and encoders of both engines against a reference model of insertion
// histories.
package build

import (
	"errors"
	"time"

	"github.com/KSpaceer/yamly"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	"github.com/KSpaceer/yamly/engines/pkg/schema"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	. "verif/tree"
	"verif/vf"
)

func pick(n int) int { return int(vf.Concrete(uint64(vf.Choose(n)))) }

// model is the reference builder.
type model struct {
	root  *T
	stack []*T
	bad   bool
	n     int // nodes
}

func (m *model) insert(t *T, push bool) {
	if m.bad {
		return
	}
	if len(m.stack) == 0 {
		if m.root != nil {
			m.bad = true
			return
		}
		m.root = t
	} else {
		top := m.stack[len(m.stack)-1]
		top.Kids = append(top.Kids, t)
	}
	if push {
		m.stack = append(m.stack, t)
	}
}

func (m *model) end(kind int) {
	if m.bad {
		return
	}
	if len(m.stack) == 0 || m.stack[len(m.stack)-1].Kind != kind {
		m.bad = true
		return
	}
	top := m.stack[len(m.stack)-1]
	if kind == Map && len(top.Kids)%2 != 0 {
		m.bad = true
		return
	}
	m.stack = m.stack[:len(m.stack)-1]
}

func (m *model) ok() bool { return !m.bad && m.root != nil && len(m.stack) == 0 }

var errRaw = errors.New("raw")

// step applies one symbolic operation to the builder and to the model.
func step(b yamly.Inserter, m *model, set int) {
	op := 0
	switch set {
	case 0:
		op = pick(14)
	case 1:
		op = []int{1, 4, 5, 6, 7}[pick(5)]
	case 2:
		op = []int{1, 6, 7}[pick(3)]
	case 3:
		op = []int{1, 4, 5}[pick(3)]
	case 4:
		op = []int{0, 2, 6, 7}[pick(4)]
	}
	switch op {
	case 0:
		s := string([]byte{vf.ByteIn("ab1~ \"\\\n")})
		b.InsertString(s)
		m.insert(&T{Kind: Quoted, Text: s}, false)
	case 1:
		b.InsertInteger(-12)
		m.insert(&T{Kind: Plain, Text: "-12"}, false)
	case 2:
		b.InsertNull()
		m.insert(&T{Kind: Null}, false)
	case 3:
		v := vf.Bool()
		b.InsertBoolean(v)
		t := "false"
		if v {
			t = "true"
		}
		m.insert(&T{Kind: Plain, Text: t}, false)
	case 4:
		b.StartSequence()
		m.insert(&T{Kind: Seq}, true)
	case 5:
		b.EndSequence()
		m.end(Seq)
	case 6:
		b.StartMapping()
		m.insert(&T{Kind: Map}, true)
	case 7:
		b.EndMapping()
		m.end(Map)
	case 8:
		b.InsertRaw([]byte("[a, 'b']"), nil)
		m.insert(&T{Kind: Seq, Kids: []*T{{Kind: Plain, Text: "a"}, {Kind: Quoted, Text: "b"}}}, false)
	case 9:
		if pick(2) == 0 {
			b.InsertRaw([]byte("[a, 'b'"), nil)
		} else {
			b.InsertRaw([]byte("x"), errRaw)
		}
		m.bad = true
	case 10:
		b.InsertRawText([]byte("t x"), nil)
		m.insert(&T{Kind: Quoted, Text: "t x"}, false)
	case 11:
		b.InsertUnsigned(1<<63 + 9)
		m.insert(&T{Kind: Plain, Text: "9223372036854775817"}, false)
	case 12:
		b.InsertFloat(-2.5)
		m.insert(&T{Kind: Plain, Text: schema.FromFloat(-2.5)}, false)
	case 13:
		ts := time.Date(2024, 2, 29, 7, 8, 9, 0, time.UTC)
		b.InsertTimestamp(ts)
		m.insert(&T{Kind: Quoted, Text: schema.FromTimestamp(ts)}, false)
	}
}

func result(e int, b any) (*T, error) {
	if e == 0 {
		n, err := b.(*yencode.ASTBuilder).Result()
		if err != nil {
			return nil, err
		}
		return Of(n), nil
	}
	n, err := b.(*gencode.ASTBuilder).Result()
	if err != nil {
		return nil, err
	}
	return OfYaml(n), nil
}

func builder(e int) yamly.Inserter {
	if e == 0 {
		return yencode.NewASTBuilder()
	}
	return gencode.NewASTBuilder()
}

// HHistory: every history of n insertions builds the tree it describes, or reports an error; then the builder
// starts anew for every history of k insertions. After an error one more insertion is tried.
// set: 0 every operation, 1 an integer and the collections.
func HHistory(e, set, n, k int) {
	b := builder(e)
	for round := 0; round < 2; round++ {
		m := &model{}
		for i := 0; i < n; i++ {
			was := m.bad
			step(b, m, set)
			if was && set < 2 {
				break
			}
		}
		t, err := result(e, b)
		vf.Observe("err", err == nil)
		if m.root == nil && !m.bad {
			vf.Reach("nothing")
		} else {
			vf.Assert((err == nil) == m.ok(), "an error is reported exactly for the histories which are not a tree")
			if err == nil && m.ok() {
				vf.Reach("tree")
				vf.Assert(Same(t, m.root), "the tree is the one described by the history")
			} else {
				vf.Reach("error")
			}
		}
		n = k
	}
}
