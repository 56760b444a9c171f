package main

// Hash-consed bit-vector terms with constant folding. Width 0 is Bool.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OTrunc
	OIte
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg",
	"bvshl", "bvlshr", "bvashr", "zext", "sext", "trunc", "ite"}

type Term struct {
	op   Op
	w    uint8
	id   int32
	a    *Term
	b    *Term
	c    *Term
	val  uint64
	v1   *Term   // the only variable, if exactly one
	vars []int32 // sorted variable ids (nil when 0; length 1 when v1!=nil)
	bvt  *[4]uint64
	sh   uint64 // structural hash with variables anonymised (meaningful for single-variable terms)
	tab  *[256]uint64
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c *Term
	val     uint64
}

// TermTable is owned by one worker.
type TermTable struct {
	m     map[termKey]*Term
	terms []*Term
	tru   *Term
	fls   *Term
	vars  map[int32]*Term // by variable index*256+width
}

func NewTermTable() *TermTable {
	t := &TermTable{m: map[termKey]*Term{}, vars: map[int32]*Term{}}
	t.tru = t.mk(OConst, 0, nil, nil, nil, 1)
	t.fls = t.mk(OConst, 0, nil, nil, nil, 0)
	return t
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (tt *TermTable) mk(op Op, w uint8, a, b, c *Term, val uint64) *Term {
	k := termKey{op, w, a, b, c, val}
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, id: int32(len(tt.terms))}
	tt.terms = append(tt.terms, t)
	h := uint64(op)<<8 | uint64(w)
	if op == OVar {
		h = mix(h)
	} else {
		h = mix(h ^ mix(val+0x1234567))
		for _, x := range [...]*Term{a, b, c} {
			h = mix(h * 0x9E3779B97F4A7C15)
			if x != nil {
				h = mix(h + x.sh)
			}
		}
	}
	t.sh = h
	if op == OVar {
		t.v1 = t
		t.vars = []int32{int32(val)}
	} else {
		t.vars = unionVars(unionVars(tvars(a), tvars(b)), tvars(c))
		if len(t.vars) == 1 {
			for _, x := range []*Term{a, b, c} {
				if x != nil && x.v1 != nil {
					t.v1 = x.v1
				}
			}
		}
	}
	tt.m[k] = t
	return t
}

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x + 0x9E3779B97F4A7C15
}

func tvars(t *Term) []int32 {
	if t == nil {
		return nil
	}
	return t.vars
}

func unionVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func (tt *TermTable) Const(v uint64, w uint8) *Term {
	return tt.mk(OConst, w, nil, nil, nil, v&mask(w))
}
func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.tru
	}
	return tt.fls
}
func (tt *TermTable) Var(idx int32, w uint8) *Term {
	return tt.mk(OVar, w, nil, nil, nil, uint64(idx))
}

func (t *Term) isConst() bool { return t.op == OConst }

func (tt *TermTable) Not(a *Term) *Term {
	if a.op == OConst {
		return tt.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return tt.mk(ONot, 0, a, nil, nil, 0)
}
func (tt *TermTable) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tt.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAnd, 0, a, b, nil, 0)
}
func (tt *TermTable) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tt.tru
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OOr, 0, a, b, nil, 0)
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.tru
	}
	if a.op == OConst && b.op == OConst {
		return tt.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 1 {
				return a
			}
			return tt.Not(a)
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		switch a.op {
		case OZExt:
			if b.val > mask(a.a.w) {
				return tt.fls
			}
			return tt.Eq(a.a, tt.Const(b.val, a.a.w))
		case OSExt:
			v := b.val & mask(a.a.w)
			if uint64(sext(v, a.a.w))&mask(a.w) != b.val {
				return tt.fls
			}
			return tt.Eq(a.a, tt.Const(v, a.a.w))
		case OAdd:
			if a.b.op == OConst {
				return tt.Eq(a.a, tt.Const(b.val-a.b.val, a.w))
			}
		case OIte:
			if a.b.op == OConst && a.c.op == OConst {
				x, y := a.b.val == b.val, a.c.val == b.val
				switch {
				case x && y:
					return tt.tru
				case x:
					return a.a
				case y:
					return tt.Not(a.a)
				default:
					return tt.fls
				}
			}
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return tt.Eq(a.a, b.a)
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OEq, 0, a, b, nil, 0)
}

func (tt *TermTable) Cmp(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return tt.Bool(evalOp(op, 0, a.w, a.val, b.val) == 1)
	}
	if a == b {
		return tt.Bool(op == OUle || op == OSle)
	}
	// zero-extended operands: unsigned comparison on the narrow width
	if a.op == OZExt && a.w > a.a.w {
		lim := mask(a.a.w)
		if b.op == OConst {
			sb := sext(b.val, b.w)
			if op == OSlt || op == OSle {
				if sb < 0 {
					return tt.fls
				}
			}
			bv := b.val
			if bv > lim {
				return tt.tru
			}
			uop := OUlt
			if op == OUle || op == OSle {
				uop = OUle
			}
			return tt.Cmp(uop, a.a, tt.Const(bv, a.a.w))
		}
		if b.op == OZExt && b.a.w == a.a.w {
			uop := OUlt
			if op == OUle || op == OSle {
				uop = OUle
			}
			return tt.Cmp(uop, a.a, b.a)
		}
	}
	if b.op == OZExt && b.w > b.a.w && a.op == OConst {
		lim := mask(b.a.w)
		if op == OSlt || op == OSle {
			if sext(a.val, a.w) < 0 {
				return tt.tru
			}
		}
		if a.val > lim {
			return tt.fls
		}
		uop := OUlt
		if op == OUle || op == OSle {
			uop = OUle
		}
		return tt.Cmp(uop, tt.Const(a.val, b.a.w), b.a)
	}
	if b.op == OConst && op == OUlt && b.val == 0 {
		return tt.fls
	}
	if a.op == OConst && op == OUle && a.val == 0 {
		return tt.tru
	}
	if b.op == OConst && op == OUle && b.val == mask(b.w) {
		return tt.tru
	}
	return tt.mk(op, 0, a, b, nil, 0)
}

func evalOp(op Op, w, aw uint8, a, b uint64) uint64 {
	bo := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch op {
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OEq:
		return bo(a == b)
	case OUlt:
		return bo(a < b)
	case OUle:
		return bo(a <= b)
	case OSlt:
		return bo(sext(a, aw) < sext(b, aw))
	case OSle:
		return bo(sext(a, aw) <= sext(b, aw))
	case OAdd:
		return (a + b) & mask(w)
	case OSub:
		return (a - b) & mask(w)
	case OMul:
		return (a * b) & mask(w)
	case OUDiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		if b == 0 {
			if sext(a, w) >= 0 {
				return mask(w)
			}
			return 1
		}
		x, y := sext(a, w), sext(b, w)
		if y == -1 {
			return uint64(-x) & mask(w)
		}
		return uint64(x/y) & mask(w)
	case OSRem:
		if b == 0 {
			return a
		}
		x, y := sext(a, w), sext(b, w)
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(w)
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & mask(w)
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & mask(w)
	}
	panic("evalOp")
}

func (tt *TermTable) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OConst && b.op == OConst {
		return tt.Const(evalOp(op, w, w, a.val, b.val), w)
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return tt.Bin(OAdd, a.a, tt.Const(a.b.val+b.val, w))
			}
		} else if a.id > b.id && a.op != OConst {
			a, b = b, a
		}
	case OSub:
		if b.op == OConst {
			return tt.Bin(OAdd, a, tt.Const(-b.val, w))
		}
		if a == b {
			return tt.Const(0, w)
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OZExt && b.val >= mask(a.a.w) && b.val&mask(a.a.w) == mask(a.a.w) {
				return a
			}
		}
	case OBOr, OBXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.val == 0 {
			return a
		}
		if a == b {
			if op == OBOr {
				return a
			}
			return tt.Const(0, w)
		}
	case OShl, OLShr, OAShr:
		if b.op == OConst && b.val == 0 {
			return a
		}
		if b.op == OConst && b.val >= uint64(w) && op != OAShr {
			return tt.Const(0, w)
		}
	case OUDiv, OSDiv:
		if b.op == OConst && b.val == 1 {
			return a
		}
	}
	return tt.mk(op, w, a, b, nil, 0)
}

func (tt *TermTable) Un(op Op, a *Term) *Term {
	if a.op == OConst {
		switch op {
		case OBNot:
			return tt.Const(^a.val, a.w)
		case ONeg:
			return tt.Const(-a.val, a.w)
		}
	}
	return tt.mk(op, a.w, a, nil, nil, 0)
}

func (tt *TermTable) Ext(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.w == 0 {
		return tt.Ite(a, tt.Const(1, w), tt.Const(0, w))
	}
	if a.w > w {
		if a.op == OConst {
			return tt.Const(a.val, w)
		}
		if a.op == OZExt || a.op == OSExt {
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return tt.Ext(a.a, w, false)
			}
			return tt.Ext(a.a, w, a.op == OSExt)
		}
		if a.op == OTrunc {
			return tt.Ext(a.a, w, false)
		}
		if a.op == OIte && (a.b.op == OConst || a.c.op == OConst) {
			return tt.Ite(a.a, tt.Ext(a.b, w, false), tt.Ext(a.c, w, false))
		}
		return tt.mk(OTrunc, w, a, nil, nil, 0)
	}
	if a.op == OConst {
		if signed {
			return tt.Const(uint64(sext(a.val, a.w)), w)
		}
		return tt.Const(a.val, w)
	}
	if a.op == OZExt {
		return tt.Ext(a.a, w, false)
	}
	if a.op == OSExt && signed {
		return tt.Ext(a.a, w, true)
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return tt.Ite(a.a, tt.Ext(a.b, w, signed), tt.Ext(a.c, w, signed))
	}
	if signed {
		return tt.mk(OSExt, w, a, nil, nil, 0)
	}
	return tt.mk(OZExt, w, a, nil, nil, 0)
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tt.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.val == 1 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if b.op == OConst {
			if b.val == 1 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
	}
	return tt.mk(OIte, a.w, c, a, b, 0)
}

// eval evaluates t under an assignment.
func (t *Term) eval(env func(idx int32) uint64, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return env(int32(t.val)) & mask(t.w)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - t.a.eval(env, memo)
	case OBNot:
		r = ^t.a.eval(env, memo) & mask(t.w)
	case ONeg:
		r = (-t.a.eval(env, memo)) & mask(t.w)
	case OZExt:
		r = t.a.eval(env, memo)
	case OSExt:
		r = uint64(sext(t.a.eval(env, memo), t.a.w)) & mask(t.w)
	case OTrunc:
		r = t.a.eval(env, memo) & mask(t.w)
	case OIte:
		if t.a.eval(env, memo) == 1 {
			r = t.b.eval(env, memo)
		} else {
			r = t.c.eval(env, memo)
		}
	default:
		r = evalOp(t.op, t.w, t.a.w, t.a.eval(env, memo), t.b.eval(env, memo))
	}
	memo[t] = r
	return r
}

// table computes t for every value of its single 8-bit variable.
func (t *Term) table() *[256]uint64 {
	if t.tab != nil {
		return t.tab
	}
	var tab [256]uint64
	switch t.op {
	case OConst:
		for i := range tab {
			tab[i] = t.val
		}
	case OVar:
		for i := range tab {
			tab[i] = uint64(i)
		}
	case ONot:
		x := t.a.table()
		for i := range tab {
			tab[i] = 1 - x[i]
		}
	case OBNot:
		x := t.a.table()
		for i := range tab {
			tab[i] = ^x[i] & mask(t.w)
		}
	case ONeg:
		x := t.a.table()
		for i := range tab {
			tab[i] = -x[i] & mask(t.w)
		}
	case OZExt:
		return t.a.table()
	case OSExt:
		x := t.a.table()
		for i := range tab {
			tab[i] = uint64(sext(x[i], t.a.w)) & mask(t.w)
		}
	case OTrunc:
		x := t.a.table()
		for i := range tab {
			tab[i] = x[i] & mask(t.w)
		}
	case OIte:
		c, x, y := t.a.table(), t.b.table(), t.c.table()
		for i := range tab {
			if c[i] == 1 {
				tab[i] = x[i]
			} else {
				tab[i] = y[i]
			}
		}
	default:
		x, y := t.a.table(), t.b.table()
		for i := range tab {
			tab[i] = evalOp(t.op, t.w, t.a.w, x[i], y[i])
		}
	}
	if t.op != OConst {
		t.tab = &tab
	}
	return &tab
}

// truth is the set of values of the single 8-bit variable under which the Bool t is true.
func (t *Term) truth() *[4]uint64 {
	if t.bvt != nil {
		return t.bvt
	}
	tab := t.table()
	var b [4]uint64
	for i, v := range tab {
		if v == 1 {
			b[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	t.bvt = &b
	return t.bvt
}

func popc(b *[4]uint64) int {
	return bits.OnesCount64(b[0]) + bits.OnesCount64(b[1]) + bits.OnesCount64(b[2]) + bits.OnesCount64(b[3])
}

// smt prints the term body with children referenced by name.
func (t *Term) smtBody(name func(*Term) string) string {
	switch t.op {
	case OConst:
		return constSMT(t)
	case OVar:
		return t.varName()
	case ONot, OBNot, ONeg:
		return "(" + opNames[t.op] + " " + name(t.a) + ")"
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, name(t.a))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, name(t.a))
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, name(t.a))
	case OIte:
		return "(ite " + name(t.a) + " " + name(t.b) + " " + name(t.c) + ")"
	}
	return "(" + opNames[t.op] + " " + name(t.a) + " " + name(t.b) + ")"
}

func constSMT(t *Term) string {
	if t.w == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

func sortSMT(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func domSMT(v string, d *[4]uint64) string {
	var parts []string
	i := 0
	for i < 256 {
		if d[i>>6]>>(uint(i)&63)&1 == 0 {
			i++
			continue
		}
		j := i
		for j+1 < 256 && d[(j+1)>>6]>>(uint(j+1)&63)&1 == 1 {
			j++
		}
		if i == j {
			parts = append(parts, fmt.Sprintf("(= %s (_ bv%d 8))", v, i))
		} else {
			parts = append(parts, fmt.Sprintf("(and (bvule (_ bv%d 8) %s) (bvule %s (_ bv%d 8)))", i, v, v, j))
		}
		i = j + 1
	}
	if len(parts) == 0 {
		return "false"
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}

func (t *Term) varName() string { return fmt.Sprintf("v%dw%d", t.val, t.w) }
