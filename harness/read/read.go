package read

import (
	"errors"
	"math"
	"time"

	"github.com/KSpaceer/yamly"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"gopkg.in/yaml.v3"
	"verif/vf"
)

const (
	opNull = iota
	opInt8
	opInt64
	opUint8
	opUint64
	opBool
	opFloat
	opString
	opTime
	opSeq
	opMap
	opAny
	opRaw
	opSkip
	opNode
)

var opSets = [][]int{
	{opNull, opInt8, opInt64, opUint8, opUint64, opBool, opFloat, opString, opTime, opSeq, opMap, opAny, opRaw, opSkip, opNode},
	{opNull, opString, opSeq, opMap, opSkip},
	{opNull, opInt64, opString, opSeq, opMap, opAny, opSkip},
	{opString, opSeq, opMap, opAny, opRaw, opSkip, opNode},
	{opString, opSeq, opMap, opRaw},
	{opString, opSeq, opMap, opAny},
	{opString, opSeq, opMap},
	{opNull, opInt8, opInt64, opUint8, opUint64, opBool, opFloat, opString, opTime, opSeq, opMap, opAny, opSkip, opNode},
	{opNull, opInt8, opInt64, opUint8, opUint64, opBool, opFloat, opString, opTime, opSeq, opMap, opAny},
}

var scalarSets = [][]int{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12},
	{0, 1, 2},
	{2, 11},
	{2},
	{3, 7, 12},
	{-1},
	{-2},
}

type state struct {
	f  *frame
	st yamly.CollectionState
}

// session drives a decoder and the model.
type session struct {
	d      yamly.Decoder
	c      *cursor
	states []state
	multi  bool
	denied bool // a denied read was collected
	dead   bool
	skip   bool // the last operation does not apply
}

func (s *session) zero(op int) {
	d := s.d
	switch op {
	case opNull:
		vf.Assert(!d.TryNull(), "no null is read after an error")
	case opInt8:
		vf.Assert(d.Integer(8) == 0, "zero is read after an error")
	case opInt64:
		vf.Assert(d.Integer(64) == 0, "zero is read after an error")
	case opUint8:
		vf.Assert(d.Unsigned(8) == 0, "zero is read after an error")
	case opUint64:
		vf.Assert(d.Unsigned(64) == 0, "zero is read after an error")
	case opBool:
		vf.Assert(!d.Boolean(), "zero is read after an error")
	case opFloat:
		vf.Assert(d.Float(64) == 0, "zero is read after an error")
	case opString:
		vf.Assert(d.String() == "", "zero is read after an error")
	case opTime:
		vf.Assert(d.Timestamp().IsZero(), "zero is read after an error")
	case opSeq:
		st := d.Sequence()
		vf.Assert(st.Size() == 0 && !st.HasUnprocessedItems(), "nothing is in a sequence read after an error")
	case opMap:
		st := d.Mapping()
		vf.Assert(st.Size() == 0 && !st.HasUnprocessedItems(), "nothing is in a mapping read after an error")
	case opAny:
		vf.Assert(d.Any() == nil, "nil is read after an error")
	case opRaw:
		vf.Assert(d.Raw() == nil, "nil is read after an error")
	case opSkip:
		d.Skip()
	case opNode:
		vf.Assert(s.node(), "nil is read after an error")
	}
}

// node calls Node; it reports whether nil came back.
func (s *session) node() bool {
	switch r := s.d.(type) {
	case yamly.ExtendedDecoder[ast.Node]:
		return r.Node() == nil
	case yamly.ExtendedDecoder[*yaml.Node]:
		return r.Node() == nil
	}
	return false
}

// op performs one read and compares.
func (s *session) op(op int) {
	if s.c.e == 0 && s.c.key() {
		switch op {
		case opRaw, opNode:
			vf.Assume(false)
		case opSkip:
			s.d.Skip()
			s.c.skipEntry()
			vf.Reach("entry")
			s.after(0)
			return
		}
	}
	n := s.c.current()
	if n == nil {
		s.zero(op)
		if s.c.over {
			vf.Reach("end")
			vf.Assert(errors.Is(s.d.Error(), yamly.ErrEndOfStream), "the end of the document is reported")
		} else {
			vf.Reach("bad alias")
			vf.Assert(s.d.Error() != nil && !errors.Is(s.d.Error(), yamly.ErrEndOfStream), "a bad alias is reported")
		}
		s.dead = true
		s.after(0)
		return
	}
	is := n.kind == scalar && !n.sc.null
	x := n.sc
	const (
		fine = iota
		deny
		fail
	)
	res := deny
	switch op {
	case opNull:
		res = fine
		got := s.d.TryNull()
		null := n.kind == scalar && n.sc.null
		vf.Assert(got == null, "exactly a null is null")
		if null {
			s.c.consume()
		}
		s.after(res)
		return
	case opInt8, opInt64:
		bits, lim := 8, int64(math.MaxInt8)
		if op == opInt64 {
			bits, lim = 64, math.MaxInt64
		}
		got := s.d.Integer(bits)
		if is && x.isInt {
			res = fine
			if x.isUint && x.u > uint64(lim) || x.i > lim {
				res = fail
			} else {
				vf.Assert(got == x.i, "the integer is read")
			}
		}
		vf.Assert(res == fine || got == 0, "zero is read from what is no integer")
	case opUint8, opUint64:
		bits, lim := 8, uint64(math.MaxUint8)
		if op == opUint64 {
			bits, lim = 64, math.MaxUint64
		}
		got := s.d.Unsigned(bits)
		if is && x.isUint {
			res = fine
			if x.u > lim {
				res = fail
			} else {
				vf.Assert(got == x.u, "the unsigned integer is read")
			}
		}
		vf.Assert(res == fine || got == 0, "zero is read from what is no unsigned integer")
	case opBool:
		got := s.d.Boolean()
		if is && x.isB {
			res = fine
			vf.Assert(got == x.b, "the boolean is read")
		} else {
			vf.Assert(!got, "false is read from what is no boolean")
		}
	case opFloat:
		got := s.d.Float(64)
		if is && x.isF {
			res = fine
			vf.Assert(got == x.f, "the float is read")
		} else {
			vf.Assert(got == 0, "zero is read from what is no float")
		}
	case opString:
		got := s.d.String()
		if is {
			res = fine
			vf.Assert(got == x.text, "the string is read")
		} else {
			vf.Assert(got == "", "nothing is read from what is no string")
		}
	case opTime:
		got := s.d.Timestamp()
		if is && x.isT {
			res = fine
			vf.Assert(got.Equal(x.t), "the timestamp is read")
		} else {
			vf.Assert(got.Equal(time.Time{}), "the zero time is read from what is no timestamp")
		}
	case opSeq, opMap:
		kind := seq
		var st yamly.CollectionState
		if op == opSeq {
			st = s.d.Sequence()
		} else {
			kind = mapping
			st = s.d.Mapping()
		}
		if n.kind == kind {
			want := len(n.kids)
			if kind == mapping && s.c.e == 0 {
				want /= 2
			}
			vf.Assert(st.Size() == want, "the collection has its size")
			s.states = append(s.states, state{s.c.enter(), st})
			s.after(fine)
			return
		}
		vf.Assert(st.Size() == 0 && !st.HasUnprocessedItems(), "there is nothing in what is no such collection")
	case opAny:
		got := s.d.Any()
		if n.ok(nil) {
			res = fine
			vf.Assert(s.d.Error() != nil || eq(got, n), "the value is read")
		} else {
			res = fail
			vf.Assert(got == nil, "no value comes with an error")
		}
	case opRaw:
		got := s.d.Raw()
		if n.ok(nil) {
			res = fine
			s.raw(got, n)
		} else if s.d.Error() == nil || s.denied && !s.multi {
			res = fine
		} else {
			res = fail
		}
	case opSkip:
		res = fine
		s.d.Skip()
	case opNode:
		res = fine
		vf.Assert(!s.node(), "the node is given")
	}
	if res == fine || res == deny && s.multi {
		s.c.consume()
	}
	s.after(res)
}

// raw: the data is a document of its own with the value of the node.
func (s *session) raw(data []byte, n *N) {
	if s.d.Error() != nil && !s.denied {
		return // reported by after
	}
	vf.Observe("raw", data)
	d, err := reopen(s.c.e, data)
	vf.Assert(err == nil, "raw data is a document")
	if err != nil {
		return
	}
	vf.Assert(eq(d.Any(), n) && d.Error() == nil, "raw data means what the node means")
	vf.Reach("raw")
}

// after checks what must hold after an operation; res 0 fine, 1 denied, 2 failed.
func (s *session) after(res int) {
	err := s.d.Error()
	if s.dead {
		s.end()
		return
	}
	switch res {
	case 0:
		vf.Assert((err != nil) == s.denied, "a matching read reports no error")
	case 1:
		vf.Reach("denied")
		vf.Assert(errors.Is(err, yamly.ErrDenied), "a read of something else is denied")
		if !s.multi {
			s.dead = true
		}
		s.denied = true
	case 2:
		vf.Reach("failed")
		vf.Assert(err != nil, "a value which cannot be represented is reported")
		s.dead = true
	}
	if s.dead {
		s.end()
		return
	}
	for _, x := range s.states {
		if x.f.n.kind == mapping && x.f.i%2 != 0 {
			continue
		}
		vf.Assert(x.st.HasUnprocessedItems() == (x.f.i < len(x.f.n.kids)), "a collection has unread items as long as there are any")
	}
}

// end: after an error reading is inert.
func (s *session) end() {
	for _, x := range s.states {
		vf.Assert(!x.st.HasUnprocessedItems(), "no collection has unread items after an error")
	}
}

func setup(e, src, scs, budget, width, anchors int, tags, multi bool) *session {
	g := &gen{budget: budget, width: width, scalars: scalarSets[scs], keys: []int{2}, anchors: anchors, tags: tags}
	root := g.node(false)
	if e == 1 && anchors == 2 {
		vf.Assume(defined(root)) // gopkg.in/yaml.v3 itself rejects undefined aliases
	}
	if src != 0 {
		vf.Observe("doc", root.flow())
	}
	d, err := open(e, src, root, multi)
	vf.Assert(err == nil, "the document is accepted")
	if err != nil {
		return nil
	}
	return &session{d: d, c: newCursor(e, root), multi: multi}
}

func defined(n *N) bool {
	if n.kind == alias {
		return n.to != nil
	}
	for _, k := range n.kids {
		if !defined(k) {
			return false
		}
	}
	return true
}

// HRead: every sequence of up to steps reads of every document gives what the model gives.
// e: engine, src: 0 tree, 1 flow text, 2 block text; ops, scs: sets of operations and scalars; props: 1 tags, 2 anchors and aliases,
// 4 also undefined aliases and nodes containing themselves, 8 collect denied reads.
func HRead(e, src, ops, scs, budget, width, steps, props int) {
	anchors := 0
	if props&2 != 0 {
		anchors = 1
	}
	if props&4 != 0 {
		anchors = 2
	}
	s := setup(e, src, scs, budget, width, anchors, props&1 != 0, props&8 != 0)
	if s == nil {
		return
	}
	set := opSets[ops]
	for i := 0; i < steps && !s.dead; i++ {
		s.op(set[pick(len(set))])
	}
	vf.Reach("read")
}
