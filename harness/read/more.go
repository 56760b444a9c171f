package read

import (
	"errors"
	"math"
	"time"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	"gopkg.in/yaml.v3"
	"verif/tree"
	"verif/vf"
)

var errMine = errors.New("mine")
var errOther = errors.New("other")

// HInert: reads, errors added by the user at any moment, and then k more reads after the first error: nothing is read any more, no
// collection goes on, and the error stays the first one.
func HInert(e, src, ops, scs, budget, width, steps, k, props int) {
	anchors := 0
	if props&4 != 0 {
		anchors = 2
	}
	s := setup(e, src, scs, budget, width, anchors, false, props&8 != 0)
	if s == nil {
		return
	}
	set := opSets[ops]
	mine := false
	for i := 0; i < steps && !s.dead; i++ {
		o := pick(len(set) + 2)
		switch {
		case o < len(set):
			s.op(set[o])
		case o == len(set):
			before := s.d.Error() == nil
			s.d.AddError(nil)
			vf.Assert(before == (s.d.Error() == nil), "no error is added by nil")
			s.after(0)
		default:
			s.d.AddError(errMine)
			mine = true
			vf.Assert(errors.Is(s.d.Error(), errMine), "the added error is reported")
			s.dead = true
			s.end()
		}
	}
	if !s.dead {
		return
	}
	vf.Reach("dead")
	text := s.d.Error().Error()
	for ; k > 0; k-- {
		o := pick(len(set) + 1)
		if o < len(set) {
			s.zero(set[o])
		} else {
			s.d.AddError(errOther)
		}
		vf.Assert(s.d.Error() != nil && s.d.Error().Error() == text, "the first error stays")
		vf.Assert(!mine || errors.Is(s.d.Error(), errMine), "the added error stays")
		s.end()
	}
}

// HLoops: a program which reads what it expects, whatever the document holds, ends: collections are finished after an error.
// shape: what the program expects.
func HLoops(e, src, scs, budget, width, shape, props int) {
	anchors := 0
	if props&4 != 0 {
		anchors = 2
	}
	s := setup(e, src, scs, budget, width, anchors, false, props&8 != 0)
	if s == nil {
		return
	}
	fuel := 40
	expect(s.d, shape, &fuel)
	vf.Assert(fuel >= 0, "loops over collections end")
	vf.Reach("ended")
}

// expect reads like generated code. shape: 0 string, 1 integer, 2.. sequences and mappings of shape-2 things.
func expect(d yamly.Decoder, shape int, fuel *int) {
	*fuel--
	if *fuel < 0 {
		return
	}
	if d.TryNull() {
		return
	}
	switch {
	case shape == 0:
		d.String()
	case shape == 1:
		d.Integer(64)
	case shape%2 == 0:
		st := d.Sequence()
		for st.HasUnprocessedItems() && *fuel >= 0 {
			expect(d, shape-2, fuel)
		}
	default:
		st := d.Mapping()
		for st.HasUnprocessedItems() && *fuel >= 0 {
			k := d.String()
			if k == "a b" {
				expect(d, shape-2, fuel)
			} else {
				d.Skip()
			}
			*fuel--
		}
	}
}

// HWalk: reading a document from beginning to end, each node as what it is (or, where allowed, as a whole), gives the document with the
// aliases replaced by what they stand for. whole: 0 nodes are read one by one, 1 any collection may be read by Any, 2 may be skipped,
// 3 may be read by Raw, 4 by Node.
func HWalk(e, src, scs, budget, width, whole, props int) {
	anchors := 0
	if props&2 != 0 {
		anchors = 1
	}
	if props&4 != 0 {
		anchors = 2
	}
	s := setup(e, src, scs, budget, width, anchors, props&1 != 0, false)
	if s == nil {
		return
	}
	s.walk(whole)
}

func (s *session) walk(whole int) {
	for i := 0; i < 60 && !s.dead; i++ {
		if s.c.e == 0 && s.c.key() {
			s.op(opString)
			continue
		}
		n := s.c.current()
		if n == nil {
			s.op(opString)
			vf.Reach("finished")
			break
		}
		op := opString
		switch {
		case n.kind == scalar && n.sc.null:
			op = opNull
		case n.kind == seq:
			op = opSeq
		case n.kind == mapping:
			op = opMap
		}
		if whole > 0 && n.kind != scalar && pick(2) == 1 {
			op = []int{0, opAny, opSkip, opRaw, opNode}[whole]
		}
		s.op(op)
	}
	vf.Assert(s.dead, "the document ends")
}

// HText: Any of a scalar with an arbitrary text is what the typed reads make of it, in the order null, timestamp, unsigned, integer,
// float, boolean; a quoted or block scalar is a string.
func HText(e, set, n int) {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn(textSets[set])
	}
	text(e, string(b))
}

// HDate: the same for texts like dates.
func HDate(e, n int) {
	b := []byte("2024-02-28")
	for _, i := range []int{9, 8, 6, 5, 3}[:n] {
		b[i] = vf.ByteIn("0123:9")
	}
	text(e, string(b))
}

func text(e int, text string) {
	style := pick(4)
	dec := func() yamly.Decoder {
		if e == 0 {
			switch style {
			case 1:
				return ydecode.NewASTReader(ast.NewTextNode(text, ast.WithQuotingType(ast.DoubleQuotingType)))
			case 2:
				return ydecode.NewASTReader(ast.NewTextNode(text, ast.WithQuotingType(ast.SingleQuotingType)))
			case 3:
				return ydecode.NewASTReader(ast.NewTextNode(text, ast.WithQuotingType(ast.BlockQuotingType)))
			}
			return ydecode.NewASTReader(ast.NewTextNode(text))
		}
		n := &yaml.Node{Kind: yaml.ScalarNode, Value: text, Tag: "!!str"}
		switch style {
		case 1:
			n.Style = yaml.DoubleQuotedStyle
		case 2:
			n.Style = yaml.SingleQuotedStyle
		case 3:
			n.Style = yaml.LiteralStyle
		default:
			if nullText(text) {
				n.Tag = "!!null"
			}
		}
		return gdecode.NewASTReader(n)
	}
	any := dec()
	v := any.Any()
	if any.Error() != nil {
		vf.Reach("not representable")
		return
	}
	if style != 0 {
		s, ok := v.(string)
		vf.Assert(ok && s == text, "a quoted scalar is a string")
		vf.Reach("quoted")
		return
	}
	d := dec()
	if d.TryNull() {
		vf.Assert(v == nil, "null is nil")
		vf.Assert(nullText(text), "only null is null")
		vf.Reach("null")
		return
	}
	d = dec()
	if t := d.Timestamp(); d.Error() == nil {
		x, ok := v.(time.Time)
		vf.Assert(ok && x.Equal(t), "a timestamp is a time")
		vf.Reach("timestamp")
		return
	}
	d = dec()
	if u := d.Unsigned(64); d.Error() == nil {
		x, ok := v.(uint64)
		vf.Assert(ok && x == u, "an unsigned integer is an uint64")
		vf.Reach("unsigned")
		return
	}
	d = dec()
	if i := d.Integer(64); d.Error() == nil {
		x, ok := v.(int64)
		vf.Assert(ok && x == i, "an integer is an int64")
		vf.Reach("integer")
		return
	}
	d = dec()
	if f := d.Float(64); d.Error() == nil {
		x, ok := v.(float64)
		vf.Assert(ok && (math.Float64bits(x) == math.Float64bits(f) || x != x && f != f), "a float is a float64")
		vf.Reach("float")
		return
	}
	d = dec()
	if b := d.Boolean(); d.Error() == nil {
		x, ok := v.(bool)
		vf.Assert(ok && x == b, "a boolean is a bool")
		vf.Reach("boolean")
		return
	}
	s, ok := v.(string)
	vf.Assert(ok && s == text, "anything else is a string")
	vf.Reach("string")
}

func nullText(s string) bool {
	return s == "" || s == "~" || s == "null" || s == "Null" || s == "NULL"
}

var textSets = []string{
	"-+019.aexo~",
	"nulNUL~",
	"trueTRUE",
	"0:-T5",
	"-.infaNI",
	"09 xA",
	"falsFALSE",
	"eE+.19",
}

// HTree: Any, Raw and Node leave the tree as it was, and what they give is the node's.
func HTree(e, scs, budget, width, props int) {
	anchors := 0
	if props&2 != 0 {
		anchors = 1
	}
	g := &gen{budget: budget, width: width, scalars: scalarSets[scs], keys: []int{2}, anchors: anchors, tags: props&1 != 0}
	root := g.node(false)
	var d yamly.Decoder
	var now func() *tree.T
	if e == 0 {
		t := root.yay()
		d, now = ydecode.NewASTReader(t), func() *tree.T { return tree.Of(t) }
	} else {
		t := root.goy(map[*N]*yaml.Node{})
		d, now = gdecode.NewASTReader(t), func() *tree.T { return tree.OfYaml(t) }
	}
	before := now()
	s := &session{d: d, c: newCursor(e, root)}
	for i := 0; i < 60 && !s.dead; i++ {
		if s.c.e == 0 && s.c.key() {
			s.op(opString)
			continue
		}
		n := s.c.current()
		if n == nil {
			break
		}
		op := opString
		switch {
		case n.kind == scalar && n.sc.null:
			op = opNull
		case n.kind == seq:
			op = []int{opSeq, opRaw, opAny}[pick(3)]
		case n.kind == mapping:
			op = []int{opMap, opRaw, opAny}[pick(3)]
		default:
			op = []int{opString, opRaw}[pick(2)]
		}
		s.op(op)
	}
	vf.Assert(tree.Same(before, now()), "reading leaves the tree as it is")
	vf.Reach("same")
}

// HTwo: two decoders of one tree do not disturb each other.
func HTwo(e, ops, scs, budget, width, steps, props int) {
	anchors := 0
	if props&2 != 0 {
		anchors = 1
	}
	g := &gen{budget: budget, width: width, scalars: scalarSets[scs], keys: []int{2}, anchors: anchors}
	root := g.node(false)
	var s [2]*session
	if e == 0 {
		t := root.yay()
		s[0] = &session{d: ydecode.NewASTReader(t), c: newCursor(e, root)}
		s[1] = &session{d: ydecode.NewASTReader(t), c: newCursor(e, root)}
	} else {
		t := root.goy(map[*N]*yaml.Node{})
		s[0] = &session{d: gdecode.NewASTReader(t), c: newCursor(e, root)}
		s[1] = &session{d: gdecode.NewASTReader(t), c: newCursor(e, root)}
	}
	set := opSets[ops]
	for i := 0; i < steps; i++ {
		x := s[pick(2)]
		if x.dead {
			return
		}
		x.op(set[pick(len(set))])
	}
	vf.Reach("both")
}

// HAgain: an alias is the latest node before it with its anchor: documents of n nodes, all anchors of which have the same name.
func HAgain(e, src, n, whole int) {
	root := &N{kind: seq}
	var last *N
	for i := 0; i < n; i++ {
		k := pick(7)
		if k == 0 && last == nil {
			k = 1
		}
		x := &N{kind: scalar, sc: &scalars[[]int{0, 2, 4, 6, 12}[i%5]]}
		if k > 0 {
			x.anchor, last = names[0], x
		}
		switch k {
		case 0:
			x = &N{kind: alias, to: last, name: names[0]}
		case 2:
			x.kind, x.kids = seq, []*N{{kind: scalar, sc: x.sc}}
		case 3:
			x = &N{kind: seq, kids: []*N{x}}
		case 4:
			x = &N{kind: mapping, kids: []*N{{kind: scalar, sc: &scalars[2]}, x}}
		case 5:
			x = &N{kind: seq, kids: []*N{x, {kind: alias, to: x, name: names[0]}}}
		case 6:
			x = &N{kind: seq, anchor: names[0], kids: []*N{x, {kind: scalar, sc: &scalars[2]}}}
		}
		root.kids = append(root.kids, x)
	}
	if src != 0 {
		vf.Observe("doc", root.flow())
	}
	d, err := open(e, src, root, false)
	vf.Assert(err == nil, "the document is accepted")
	if err == nil {
		(&session{d: d, c: newCursor(e, root)}).walk(whole)
	}
}

// HRedefined: the recorded finding: an anchor defined again while an aliased node refers to its earlier definition.
func HRedefined() {
	d, err := ydecode.NewASTReaderFromBytes([]byte("[&a 1, &b [*a], &a 2, *b]\n"))
	if err != nil {
		return
	}
	v, _ := d.Any().([]any)
	if len(v) != 4 {
		return
	}
	w, _ := v[3].([]any)
	vf.Assert(len(w) == 1 && w[0] == uint64(1), "an alias keeps its meaning when the anchor is defined again")
}

// HEmpty: a document which holds nothing (breaks, blanks and comments only) is, in whatever way it is read, a null or no document.
func HEmpty(e, ops, n, steps int) {
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn(" \n#")
	}
	src := string(b)
	for i := 0; i < n; i++ {
		vf.Assume(src[i] != '#' || i == 0 || src[i-1] != '#') // a comment of one sign
	}
	vf.Observe("doc", src)
	d, err := reopen(e, []byte(src))
	vf.Assert(err == nil, "the document is accepted")
	if err != nil {
		return
	}
	s := &session{d: d, c: newCursor(e, nil)}
	if p, err := reopen(e, []byte(src)); err == nil && p.TryNull() {
		s.c.pending = &N{kind: scalar, sc: &sc{null: true}}
	}
	set := opSets[ops]
	for i := 0; i < steps && !s.dead; i++ {
		s.op(set[pick(len(set))])
	}
	vf.Reach("empty")
}
