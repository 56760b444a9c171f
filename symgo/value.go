package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one run-time value. Scalars: n holds the bits (p==nil), or p is a *Term.
// Everything else: p as listed; p==nil is the zero value (nil pointer, nil slice, "" ...).
//
//	string          *Str
//	pointer         *Value (address of a cell), *DataPtr (from unsafe.SliceData/StringData)
//	struct, array, tuple  *Agg
//	slice           *Slice
//	map             *Map
//	interface       *Iface
//	func            *Closure
type Value struct {
	n uint64
	p any
}

type Str struct {
	s   string
	sym []*Term // nil, or one entry per byte (nil entry: the byte is concrete)
}

type Agg struct{ f []Value }

type Slice struct{ a []Value }

type DataPtr struct {
	a []Value
	s *Str
}

type Iface struct {
	t *RType
	v Value
}

type Closure struct {
	fn    *Fn
	binds []Value
	bi    *ssa.Builtin
	nat   func(m *Machine, args []Value) Value
}

type Map struct {
	keys []Value
	vals []Value
	live []bool
	n    int
	idx  map[string]int // concrete keys only
	kt   *RType
	allC bool
}

type RType struct {
	t       types.Type
	id      int
	methods sync.Map // string -> *Fn
	str     string
	cmpOK   int8
}

var (
	rtMu     sync.Mutex
	rtMap    typeutil.Map
	rtHasher = typeutil.MakeHasher()
	rtCount  int
)

func init() { rtMap.SetHasher(rtHasher) }

func rtypeOf(t types.Type) *RType {
	t = types.Unalias(t)
	rtMu.Lock()
	defer rtMu.Unlock()
	if r := rtMap.At(t); r != nil {
		return r.(*RType)
	}
	rtCount++
	r := &RType{t: t, id: rtCount, str: t.String()}
	rtMap.Set(t, r)
	return r
}

// ---- scalars

func VInt(n uint64) Value { return Value{n: n} }
func VBool(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}
func VTerm(t *Term) Value {
	if t.op == OConst {
		return Value{n: t.val}
	}
	return Value{p: t}
}
func (v Value) term() *Term {
	if v.p == nil {
		return nil
	}
	t, _ := v.p.(*Term)
	return t
}
func VFloat(f float64) Value   { return Value{n: math.Float64bits(f)} }
func (v Value) float() float64 { return math.Float64frombits(v.n) }

// ---- strings

func VStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: &Str{s: s}}
}

func (v Value) str() *Str {
	if v.p == nil {
		return &emptyStr
	}
	return v.p.(*Str)
}

var emptyStr Str

func mkStr(s *Str) Value {
	if len(s.s) == 0 {
		return Value{}
	}
	return Value{p: s}
}

func (s *Str) concrete() bool { return s.sym == nil }

func (s *Str) at(i int) Value {
	if s.sym != nil && s.sym[i] != nil {
		return Value{p: s.sym[i]}
	}
	return Value{n: uint64(s.s[i])}
}

func (s *Str) slice(lo, hi int) *Str {
	r := &Str{s: s.s[lo:hi]}
	if s.sym != nil {
		any := false
		for i := lo; i < hi; i++ {
			if s.sym[i] != nil {
				any = true
				break
			}
		}
		if any {
			r.sym = s.sym[lo:hi]
		}
	}
	return r
}

func concatStr(a, b *Str) *Str {
	if len(a.s) == 0 {
		return b
	}
	if len(b.s) == 0 {
		return a
	}
	r := &Str{s: a.s + b.s}
	if a.sym != nil || b.sym != nil {
		r.sym = make([]*Term, len(r.s))
		copy(r.sym, a.sym)
		copy(r.sym[len(a.s):], b.sym)
	}
	return r
}

// bytesToStr makes a string from byte values.
func bytesToStr(a []Value) *Str {
	b := make([]byte, len(a))
	var sym []*Term
	for i, v := range a {
		if t := v.term(); t != nil {
			if sym == nil {
				sym = make([]*Term, len(a))
			}
			sym[i] = t
		} else {
			b[i] = byte(v.n)
		}
	}
	return &Str{s: string(b), sym: sym}
}

func strToBytes(s *Str) []Value {
	a := make([]Value, len(s.s))
	for i := range a {
		a[i] = s.at(i)
	}
	return a
}

func (s *Str) String() string {
	if s.sym == nil {
		return s.s
	}
	var sb strings.Builder
	for i := range s.s {
		if s.sym[i] != nil {
			sb.WriteString("⟨")
			sb.WriteString(fmt.Sprint(s.sym[i].id))
			sb.WriteString("⟩")
		} else {
			sb.WriteByte(s.s[i])
		}
	}
	return sb.String()
}

// ---- aggregates

func copyVal(v Value) Value {
	if a, ok := v.p.(*Agg); ok {
		return Value{p: copyAgg(a)}
	}
	return v
}

func copyAgg(a *Agg) *Agg {
	r := &Agg{f: make([]Value, len(a.f))}
	for i, x := range a.f {
		if x.p != nil {
			if y, ok := x.p.(*Agg); ok {
				r.f[i] = Value{p: copyAgg(y)}
				continue
			}
		}
		r.f[i] = x
	}
	return r
}

// assign stores v into the cell, keeping the identity of nested aggregates.
func assign(cell *Value, v Value) {
	if v.p != nil {
		if src, ok := v.p.(*Agg); ok {
			if dst, ok := cell.p.(*Agg); ok && len(dst.f) == len(src.f) {
				if dst == src {
					return
				}
				for i := range src.f {
					assign(&dst.f[i], src.f[i])
				}
				return
			}
			*cell = Value{p: copyAgg(src)}
			return
		}
	}
	*cell = v
}

// zero returns the zero Value of a type.
func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{f: make([]Value, u.NumFields())}
		for i := range a.f {
			a.f[i] = zero(u.Field(i).Type())
		}
		return Value{p: a}
	case *types.Array:
		a := &Agg{f: make([]Value, int(u.Len()))}
		if isAggType(u.Elem()) {
			for i := range a.f {
				a.f[i] = zero(u.Elem())
			}
		}
		return Value{p: a}
	case *types.Tuple:
		a := &Agg{f: make([]Value, u.Len())}
		for i := range a.f {
			a.f[i] = zero(u.At(i).Type())
		}
		return Value{p: a}
	}
	return Value{}
}

func isAggType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func mkSlice(a []Value) Value { return Value{p: &Slice{a: a}} }
func (v Value) slice() []Value {
	if v.p == nil {
		return nil
	}
	return v.p.(*Slice).a
}

// basic kinds of scalar types

type skind uint8

const (
	kOther skind = iota
	kBool
	kInt
	kUint
	kFloat
	kString
)

func scalarKind(t types.Type) (skind, uint8) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return kOther, 0
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return kBool, 0
	case types.Int8:
		return kInt, 8
	case types.Int16:
		return kInt, 16
	case types.Int32, types.UntypedRune:
		return kInt, 32
	case types.Int, types.Int64, types.UntypedInt:
		return kInt, 64
	case types.Uint8:
		return kUint, 8
	case types.Uint16:
		return kUint, 16
	case types.Uint32:
		return kUint, 32
	case types.Uint, types.Uint64, types.Uintptr:
		return kUint, 64
	case types.Float32:
		return kFloat, 32
	case types.Float64, types.UntypedFloat:
		return kFloat, 64
	case types.String, types.UntypedString:
		return kString, 0
	}
	return kOther, 0
}
