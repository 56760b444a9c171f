package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"strconv"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

func shortFile(f string) string {
	return filepath.Base(filepath.Dir(f)) + "/" + filepath.Base(f)
}

func (m *Machine) binop(fr *frame, in *Inst, a, b Value) Value {
	switch in.k {
	case kInt, kUint:
		if a.p == nil && b.p == nil {
			return m.intop(fr, in, a.n, b.n)
		}
		return m.intopSym(fr, in, a, b)
	case kBool:
		if a.p == nil && b.p == nil {
			switch in.tok {
			case token.EQL:
				return VBool(a.n == b.n)
			case token.NEQ:
				return VBool(a.n != b.n)
			case token.AND:
				return VInt(a.n & b.n)
			case token.OR:
				return VInt(a.n | b.n)
			}
		}
		x, y := m.boolTerm(a), m.boolTerm(b)
		switch in.tok {
		case token.EQL:
			return VTerm(m.tt.Eq(x, y))
		case token.NEQ:
			return VTerm(m.tt.Not(m.tt.Eq(x, y)))
		case token.AND:
			return VTerm(m.tt.And(x, y))
		case token.OR:
			return VTerm(m.tt.Or(x, y))
		}
	case kFloat:
		if a.p != nil || b.p != nil {
			fr.pos = in.pos
			m.unsupported("symbolic float at %s", m.where())
		}
		x, y := a.float(), b.float()
		var r float64
		switch in.tok {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.EQL:
			return VBool(x == y)
		case token.NEQ:
			return VBool(x != y)
		case token.LSS:
			return VBool(x < y)
		case token.LEQ:
			return VBool(x <= y)
		case token.GTR:
			return VBool(x > y)
		case token.GEQ:
			return VBool(x >= y)
		}
		if in.w == 32 {
			r = float64(float32(r))
		}
		return VFloat(r)
	case kString:
		x, y := a.str(), b.str()
		switch in.tok {
		case token.ADD:
			return mkStr(concatStr(x, y))
		case token.EQL:
			return VTerm(m.strEq(x, y))
		case token.NEQ:
			return VTerm(m.tt.Not(m.strEq(x, y)))
		case token.LSS:
			return VTerm(m.strLess(x, y))
		case token.GTR:
			return VTerm(m.strLess(y, x))
		case token.LEQ:
			return VTerm(m.tt.Not(m.strLess(y, x)))
		case token.GEQ:
			return VTerm(m.tt.Not(m.strLess(x, y)))
		}
	case kOther:
		if ts, ok := in.x.([2]types.Type); ok {
			if ts[0] != nil {
				a = Value{p: &Iface{t: rtypeOf(ts[0]), v: a}}
			}
			if ts[1] != nil {
				b = Value{p: &Iface{t: rtypeOf(ts[1]), v: b}}
			}
		}
		fr.pos = in.pos
		r := m.eqVal(in.t, a, b)
		if in.tok == token.NEQ {
			r = m.tt.Not(r)
		} else if in.tok != token.EQL {
			m.unsupported("binop %s on %s", in.tok, in.t)
		}
		return VTerm(r)
	}
	panic("binop " + in.tok.String())
}

func (m *Machine) intop(fr *frame, in *Inst, a, b uint64) Value {
	w := in.w
	mk := mask(w)
	switch in.tok {
	case token.ADD:
		return VInt((a + b) & mk)
	case token.SUB:
		return VInt((a - b) & mk)
	case token.MUL:
		return VInt((a * b) & mk)
	case token.QUO, token.REM:
		if b == 0 {
			fr.pos = in.pos
			m.rtPanic("integer divide by zero")
		}
		if in.k == kInt {
			if in.tok == token.QUO {
				return VInt(evalOp(OSDiv, w, w, a, b))
			}
			return VInt(evalOp(OSRem, w, w, a, b))
		}
		if in.tok == token.QUO {
			return VInt(a / b)
		}
		return VInt(a % b)
	case token.AND:
		return VInt(a & b)
	case token.OR:
		return VInt(a | b)
	case token.XOR:
		return VInt(a ^ b)
	case token.AND_NOT:
		return VInt(a &^ b)
	case token.SHL, token.SHR:
		if in.k2 == kInt && sext(b, in.w2) < 0 {
			fr.pos = in.pos
			m.rtPanic("negative shift amount")
		}
		if in.tok == token.SHL {
			if b >= 64 {
				return VInt(0)
			}
			return VInt((a << b) & mk)
		}
		if in.k == kInt {
			s := sext(a, w)
			if b >= 64 {
				b = 63
			}
			return VInt(uint64(s>>b) & mk)
		}
		if b >= 64 {
			return VInt(0)
		}
		return VInt(a >> b)
	case token.EQL:
		return VBool(a == b)
	case token.NEQ:
		return VBool(a != b)
	}
	if in.k == kInt {
		x, y := sext(a, w), sext(b, w)
		switch in.tok {
		case token.LSS:
			return VBool(x < y)
		case token.LEQ:
			return VBool(x <= y)
		case token.GTR:
			return VBool(x > y)
		case token.GEQ:
			return VBool(x >= y)
		}
	}
	switch in.tok {
	case token.LSS:
		return VBool(a < b)
	case token.LEQ:
		return VBool(a <= b)
	case token.GTR:
		return VBool(a > b)
	case token.GEQ:
		return VBool(a >= b)
	}
	panic("intop " + in.tok.String())
}

func (m *Machine) intopSym(fr *frame, in *Inst, a, b Value) Value {
	w := in.w
	tt := m.tt
	x := m.scalarTerm(a, w)
	signed := in.k == kInt
	if in.tok == token.SHL || in.tok == token.SHR {
		y := m.scalarTerm(b, in.w2)
		if in.k2 == kInt {
			neg := tt.Cmp(OSlt, y, tt.Const(0, in.w2))
			fr.pos = in.pos
			if m.branch(neg) {
				m.rtPanic("negative shift amount")
			}
		}
		// bring the count to width w, saturating
		var cnt *Term
		if in.w2 > w {
			big := tt.Cmp(OUlt, tt.Const(uint64(w), in.w2), y)
			cnt = tt.Ite(big, tt.Const(uint64(w), w), tt.Ext(y, w, false))
		} else {
			cnt = tt.Ext(y, w, false)
		}
		if in.tok == token.SHL {
			return VTerm(tt.Bin(OShl, x, cnt))
		}
		if signed {
			return VTerm(tt.Bin(OAShr, x, cnt))
		}
		return VTerm(tt.Bin(OLShr, x, cnt))
	}
	y := m.scalarTerm(b, w)
	lt, le := OUlt, OUle
	if signed {
		lt, le = OSlt, OSle
	}
	switch in.tok {
	case token.ADD:
		return VTerm(tt.Bin(OAdd, x, y))
	case token.SUB:
		return VTerm(tt.Bin(OSub, x, y))
	case token.MUL:
		return VTerm(tt.Bin(OMul, x, y))
	case token.QUO, token.REM:
		fr.pos = in.pos
		if m.branch(tt.Eq(y, tt.Const(0, w))) {
			m.rtPanic("integer divide by zero")
		}
		op := OUDiv
		if in.tok == token.REM {
			op = OURem
		}
		if signed {
			if in.tok == token.REM {
				op = OSRem
			} else {
				op = OSDiv
			}
		}
		return VTerm(tt.Bin(op, x, y))
	case token.AND:
		return VTerm(tt.Bin(OBAnd, x, y))
	case token.OR:
		return VTerm(tt.Bin(OBOr, x, y))
	case token.XOR:
		return VTerm(tt.Bin(OBXor, x, y))
	case token.AND_NOT:
		return VTerm(tt.Bin(OBAnd, x, tt.Un(OBNot, y)))
	case token.EQL:
		return VTerm(tt.Eq(x, y))
	case token.NEQ:
		return VTerm(tt.Not(tt.Eq(x, y)))
	case token.LSS:
		return VTerm(tt.Cmp(lt, x, y))
	case token.LEQ:
		return VTerm(tt.Cmp(le, x, y))
	case token.GTR:
		return VTerm(tt.Cmp(lt, y, x))
	case token.GEQ:
		return VTerm(tt.Cmp(le, y, x))
	}
	panic("intopSym")
}

func (m *Machine) strEq(a, b *Str) *Term {
	if len(a.s) != len(b.s) {
		return m.tt.fls
	}
	if a.sym == nil && b.sym == nil {
		return m.tt.Bool(a.s == b.s)
	}
	// concrete mismatches first
	for i := range a.s {
		if (a.sym == nil || a.sym[i] == nil) && (b.sym == nil || b.sym[i] == nil) && a.s[i] != b.s[i] {
			return m.tt.fls
		}
	}
	r := m.tt.tru
	for i := range a.s {
		r = m.tt.And(r, m.tt.Eq(m.scalarTerm(a.at(i), 8), m.scalarTerm(b.at(i), 8)))
	}
	return r
}

func (m *Machine) strLess(a, b *Str) *Term {
	if a.sym == nil && b.sym == nil {
		return m.tt.Bool(a.s < b.s)
	}
	n := min(len(a.s), len(b.s))
	r := m.tt.Bool(len(a.s) < len(b.s))
	for i := n - 1; i >= 0; i-- {
		x, y := m.scalarTerm(a.at(i), 8), m.scalarTerm(b.at(i), 8)
		r = m.tt.Or(m.tt.Cmp(OUlt, x, y), m.tt.And(m.tt.Eq(x, y), r))
	}
	return r
}

func (m *Machine) eqVal(t types.Type, a, b Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k, w := scalarKind(u)
		switch k {
		case kBool:
			return m.tt.Eq(m.boolTerm(a), m.boolTerm(b))
		case kInt, kUint:
			return m.tt.Eq(m.scalarTerm(a, w), m.scalarTerm(b, w))
		case kFloat:
			return m.tt.Bool(a.float() == b.float())
		case kString:
			return m.strEq(a.str(), b.str())
		}
		return m.tt.Bool(a.p == b.p && a.n == b.n)
	case *types.Interface:
		if a.p == nil || b.p == nil {
			return m.tt.Bool(a.p == nil && b.p == nil)
		}
		x, y := a.p.(*Iface), b.p.(*Iface)
		if x.t != y.t {
			return m.tt.fls
		}
		if !types.Comparable(x.t.t) {
			m.rtPanic("comparing uncomparable type " + x.t.str)
		}
		return m.eqVal(x.t.t, x.v, y.v)
	case *types.Struct:
		x, y := a.p.(*Agg), b.p.(*Agg)
		r := m.tt.tru
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = m.tt.And(r, m.eqVal(u.Field(i).Type(), x.f[i], y.f[i]))
		}
		return r
	case *types.Array:
		x, y := a.p.(*Agg), b.p.(*Agg)
		r := m.tt.tru
		for i := range x.f {
			r = m.tt.And(r, m.eqVal(u.Elem(), x.f[i], y.f[i]))
		}
		return r
	case *types.Slice, *types.Map, *types.Signature:
		return m.tt.Bool(a.p == nil && b.p == nil) // only comparable to nil
	}
	if x, ok := a.p.(*arrPtr); ok {
		if y, ok := b.p.(*arrPtr); ok {
			return m.tt.Bool(len(x.a) == 0 || &x.a[0] == &y.a[0])
		}
	}
	return m.tt.Bool(a.p == b.p)
}

// ---- maps

func newMap(kt *RType) *Map { return &Map{idx: map[string]int{}, kt: kt, allC: true} }

func keyString(t types.Type, v Value) (string, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if v.p != nil {
			if s, ok := v.p.(*Str); ok {
				if s.sym != nil {
					return "", false
				}
				return "s" + s.s, true
			}
			return "", false
		}
		if u.Info()&types.IsString != 0 {
			return "s", true
		}
		return "n" + strconv.FormatUint(v.n, 16), true
	case *types.Interface:
		if v.p == nil {
			return "nil", true
		}
		i := v.p.(*Iface)
		s, ok := keyString(i.t.t, i.v)
		return "i" + strconv.Itoa(i.t.id) + ":" + s, ok
	case *types.Struct:
		r := "{"
		for i := 0; i < u.NumFields(); i++ {
			s, ok := keyString(u.Field(i).Type(), v.p.(*Agg).f[i])
			if !ok {
				return "", false
			}
			r += strconv.Itoa(len(s)) + ":" + s
		}
		return r + "}", true
	case *types.Array:
		r := "["
		for _, f := range v.p.(*Agg).f {
			s, ok := keyString(u.Elem(), f)
			if !ok {
				return "", false
			}
			r += strconv.Itoa(len(s)) + ":" + s
		}
		return r + "]", true
	}
	return fmt.Sprintf("p%p", v.p), true
}

func (m *Machine) mapFind(mp *Map, key Value) int {
	if i, ok := mp.kt.t.Underlying().(*types.Interface); ok && i != nil && key.p != nil {
		if !types.Comparable(key.p.(*Iface).t.t) {
			m.rtPanic("hash of unhashable type " + key.p.(*Iface).t.str)
		}
	}
	ks, conc := keyString(mp.kt.t, key)
	if conc {
		if i, ok := mp.idx[ks]; ok {
			return i
		}
		if mp.allC {
			return -1
		}
	}
	for i := range mp.keys {
		if !mp.live[i] {
			continue
		}
		c := m.eqVal(mp.kt.t, mp.keys[i], key)
		if c.isConst() {
			if c.val == 1 {
				return i
			}
			continue
		}
		if m.branch(c) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(mp *Map, key, val Value) {
	if m.shared != nil {
		m.wrote(mp)
	}
	if i := m.mapFind(mp, key); i >= 0 {
		mp.vals[i] = val
		return
	}
	ks, conc := keyString(mp.kt.t, key)
	if conc {
		mp.idx[ks] = len(mp.keys)
	} else {
		mp.allC = false
	}
	mp.keys = append(mp.keys, copyVal(key))
	mp.vals = append(mp.vals, val)
	mp.live = append(mp.live, true)
	mp.n++
}

func (m *Machine) mapDelete(mp *Map, key Value) {
	if m.shared != nil {
		m.wrote(mp)
	}
	i := m.mapFind(mp, key)
	if i < 0 {
		return
	}
	if ks, conc := keyString(mp.kt.t, mp.keys[i]); conc {
		delete(mp.idx, ks)
	}
	mp.live[i] = false
	mp.n--
}

// ---- range

type strIter struct {
	s *Str
	i int
}
type mapIter struct {
	m *Map
	i int
}

func (m *Machine) rangeStart(v Value, isStr bool) Value {
	if isStr {
		return Value{p: &strIter{s: v.str()}}
	}
	if v.p == nil {
		return Value{p: &mapIter{m: &Map{}}}
	}
	return Value{p: &mapIter{m: v.p.(*Map)}}
}

func (m *Machine) next(it Value, in *Inst) Value {
	switch x := it.p.(type) {
	case *strIter:
		if x.i >= len(x.s.s) {
			return Value{p: &Agg{f: []Value{{}, {}, {}}}}
		}
		r, n := m.decodeRune(x.s, x.i)
		res := Value{p: &Agg{f: []Value{{n: 1}, VInt(uint64(x.i)), r}}}
		x.i += n
		return res
	case *mapIter:
		for x.i < len(x.m.keys) && !x.m.live[x.i] {
			x.i++
		}
		if x.i >= len(x.m.keys) {
			tup := in.t.(*types.Tuple)
			a := &Agg{f: make([]Value, 3)}
			for i := 1; i < 3; i++ {
				if b, ok := tup.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
					continue
				}
				a.f[i] = zero(tup.At(i).Type())
			}
			return Value{p: a}
		}
		i := x.i
		x.i++
		return Value{p: &Agg{f: []Value{{n: 1}, x.m.keys[i], copyVal(x.m.vals[i])}}}
	}
	panic("next")
}

// below reports whether every possible value of t's single variable keeps t < lim.
func (m *Machine) below(t *Term, lim uint64) bool {
	if t.v1 == nil || t.v1.w != 8 {
		return false
	}
	d := m.dom(t.v1)
	tab := t.table()
	for i := 0; i < 256; i++ {
		if d[i>>6]>>(uint(i)&63)&1 == 1 && tab[i] >= lim {
			return false
		}
	}
	return true
}

func (m *Machine) decodeRune(s *Str, i int) (Value, int) {
	if s.sym == nil || (s.sym[i] == nil && s.s[i] < utf8.RuneSelf) {
		// concrete prefix
		r, n := utf8.DecodeRuneInString(s.s[i:])
		return VInt(uint64(uint32(r))), n
	}
	if t := s.sym[i]; t != nil {
		if m.below(t, utf8.RuneSelf) || m.branch(m.tt.Cmp(OUlt, t, m.tt.Const(utf8.RuneSelf, 8))) {
			return VTerm(m.tt.Ext(t, 32, false)), 1
		}
	}
	end := min(len(s.s), i+4)
	r := m.callFn(m.P.utf8Decode(), []Value{mkStr(s.slice(i, end))}, nil).p.(*Agg)
	return r.f[0], m.concInt(r.f[1])
}

func (p *Program) stdFn(pkg, name string) *Fn {
	sp := p.prog.ImportedPackage(pkg)
	if sp == nil {
		panic(pathEnd{"unsupported", "package " + pkg + " not loaded"})
	}
	return p.fn(sp.Func(name))
}
func (p *Program) utf8Decode() *Fn { return p.stdFn("unicode/utf8", "DecodeRuneInString") }
func (p *Program) utf8Append() *Fn { return p.stdFn("unicode/utf8", "AppendRune") }

func (m *Machine) encodeRune(r Value, out []Value) []Value {
	if r.p == nil {
		for _, b := range []byte(string(rune(int32(uint32(r.n))))) {
			out = append(out, VInt(uint64(b)))
		}
		return out
	}
	t := r.p.(*Term)
	if m.below(t, utf8.RuneSelf) {
		return append(out, VTerm(m.tt.Ext(t, 8, false)))
	}
	if m.spec > 0 {
		panic(specBail{})
	}
	res := m.callFn(m.P.utf8Append(), []Value{{}, r}, nil)
	return append(out, res.slice()...)
}

// ---- conversions

func elemOf(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isRune(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (m *Machine) convert(v Value, from, to types.Type) Value {
	fk, fw := scalarKind(from)
	tk, tw := scalarKind(to)
	switch {
	case fk == kString && tk == kString:
		return v
	case fk == kString:
		e := elemOf(to)
		if e == nil {
			break
		}
		s := v.str()
		if isByte(e) {
			return mkSlice(strToBytes(s))
		}
		var rs []Value
		for i := 0; i < len(s.s); {
			r, n := m.decodeRune(s, i)
			rs = append(rs, r)
			i += n
		}
		if rs == nil {
			rs = []Value{}
		}
		return mkSlice(rs)
	case tk == kString && elemOf(from) != nil:
		a := v.slice()
		if isByte(elemOf(from)) {
			return mkStr(bytesToStr(a))
		}
		var out []Value
		for _, r := range a {
			out = m.encodeRune(r, out)
		}
		return mkStr(bytesToStr(out))
	case tk == kString && (fk == kInt || fk == kUint):
		if t := v.term(); t != nil {
			v = VTerm(m.tt.Ext(t, 32, fk == kInt))
		} else if fw == 64 && int64(v.n) != int64(int32(v.n)) {
			v = VInt(0xFFFD)
		}
		return mkStr(bytesToStr(m.encodeRune(v, nil)))
	case fk == kFloat && tk == kFloat:
		f := v.float()
		if tw == 32 {
			f = float64(float32(f))
		}
		return VFloat(f)
	case fk == kFloat && (tk == kInt || tk == kUint):
		if v.p != nil {
			m.unsupported("symbolic float conversion")
		}
		if tk == kInt {
			return VInt(uint64(int64(v.float())) & mask(tw))
		}
		return VInt(uint64(v.float()) & mask(tw))
	case (fk == kInt || fk == kUint) && tk == kFloat:
		if v.p != nil {
			if x, ok := m.singleton(v.p.(*Term)); ok {
				v = VInt(x)
			} else {
				m.unsupported("symbolic integer to float at %s", m.where())
			}
		}
		var f float64
		if fk == kInt {
			f = float64(sext(v.n, fw))
		} else {
			f = float64(v.n)
		}
		if tw == 32 {
			f = float64(float32(f))
		}
		return VFloat(f)
	}
	// pointers, unsafe.Pointer
	if tk == kUint || tk == kInt {
		if fk == kOther {
			m.unsupported("pointer to integer conversion at %s", m.where())
		}
	}
	if pt, ok := to.Underlying().(*types.Pointer); ok {
		// *(*string)(unsafe.Pointer(&bytes)) and friends
		if fb, ok := from.Underlying().(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
			if c, ok := v.p.(*Value); ok {
				ek, _ := scalarKind(pt.Elem())
				if sl, ok := c.p.(*Slice); ok && ek == kString {
					nc := new(Value)
					*nc = mkStr(bytesToStr(sl.a))
					return Value{p: nc}
				}
				if s, ok := c.p.(*Str); ok && elemOf(pt.Elem()) != nil {
					nc := new(Value)
					*nc = mkSlice(strToBytes(s))
					return Value{p: nc}
				}
			}
		}
	}
	return v
}

// ---- type assertions

func (m *Machine) typeAssert(v Value, in *Inst) Value {
	ok := false
	rt := in.x.(*RType)
	if v.p != nil {
		ifc := v.p.(*Iface)
		if in.w == 1 {
			ok = implements(ifc.t, rt)
		} else {
			ok = ifc.t == rt
		}
	}
	var res Value
	if ok {
		if in.w == 1 {
			res = v
		} else {
			res = v.p.(*Iface).v
		}
	} else {
		if !in.flag {
			d := "nil"
			if v.p != nil {
				d = v.p.(*Iface).t.str
			}
			m.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, rt.str))
		}
		res = zero(in.t)
	}
	if in.flag {
		return Value{p: &Agg{f: []Value{res, VBool(ok)}}}
	}
	return res
}

type implKey struct{ a, b *RType }

func implements(t, i *RType) bool {
	rtMu.Lock()
	defer rtMu.Unlock()
	k := implKey{t, i}
	if r, ok := implCache[k]; ok {
		return r
	}
	r := types.Implements(t.t, i.t.Underlying().(*types.Interface))
	implCache[k] = r
	return r
}

var implCache = map[implKey]bool{}

// ---- slicing

func (m *Machine) sliceOp(fr *frame, in *Inst) Value {
	const none = -1 << 31
	x := m.get(fr, in.a)
	get := func(i int32, def int) int {
		if i == none {
			return def
		}
		return m.concInt(m.get(fr, i))
	}
	if in.k == kString {
		s := x.str()
		lo, hi := get(in.b, 0), get(in.c, len(s.s))
		if lo < 0 || hi < lo || hi > len(s.s) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, len(s.s)))
		}
		if lo == 0 && hi == len(s.s) {
			return x
		}
		return mkStr(s.slice(lo, hi))
	}
	var arr []Value
	if in.k == kInt {
		switch c := x.p.(type) {
		case *Value:
			arr = c.p.(*Agg).f
		case *arrPtr:
			arr = c.a
		default:
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		arr = arr[:len(arr):len(arr)]
	} else {
		arr = x.slice()
	}
	lo, hi := get(in.b, 0), get(in.c, len(arr))
	mx := get(in.d, cap(arr))
	if lo < 0 || hi < lo || mx < hi || mx > cap(arr) {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(arr)))
	}
	if x.p == nil && in.k != kInt {
		return x
	}
	return mkSlice(arr[lo:hi:mx])
}

// ---- builtins

var stdSizes = types.SizesFor("gc", "amd64")

func roundupsize(n int64) int64 {
	if n > 1<<20 {
		return n
	}
	return int64(cap(append([]byte(nil), make([]byte, n)...)))
}

func (m *Machine) grow(a []Value, need int, elem types.Type) []Value {
	if need <= cap(a) {
		return a
	}
	old := cap(a)
	nc := need
	if need <= 2*old {
		if old < 256 {
			nc = 2 * old
		} else {
			nc = old
			for nc < need {
				nc += (nc + 3*256) / 4
			}
		}
	}
	sz := int64(8)
	if elem != nil {
		sz = stdSizes.Sizeof(elem)
	}
	if sz > 0 {
		nc = int(roundupsize(int64(nc)*sz) / sz)
	}
	if nc < need {
		nc = need
	}
	if nc > 1<<24 {
		m.unsupported("huge slice")
	}
	r := make([]Value, len(a), nc)
	copy(r, a)
	if elem != nil && isAggType(elem) {
		full := r[:nc]
		for i := len(a); i < nc; i++ {
			full[i] = zero(elem)
		}
	}
	return r
}

func (m *Machine) builtin(fr *frame, in *Inst, args []Value) Value {
	bi := in.x.(*ssa.Builtin)
	switch bi.Name() {
	case "len", "cap":
		switch p := args[0].p.(type) {
		case nil:
			if u, ok := in.t.Underlying().(*types.Array); ok {
				return VInt(uint64(u.Len()))
			}
			return VInt(0)
		case *Str:
			return VInt(uint64(len(p.s)))
		case *Slice:
			if bi.Name() == "cap" {
				return VInt(uint64(cap(p.a)))
			}
			return VInt(uint64(len(p.a)))
		case *Map:
			return VInt(uint64(p.n))
		case *Agg:
			return VInt(uint64(len(p.f)))
		case *Value:
			return VInt(uint64(len(p.p.(*Agg).f)))
		case *arrPtr:
			return VInt(uint64(len(p.a)))
		}
	case "append":
		var elem types.Type
		if e := elemOf(in.t); e != nil {
			elem = e
		}
		a := args[0].slice()
		var src []Value
		if len(args) < 2 {
			return args[0]
		}
		if s, ok := args[1].p.(*Str); ok {
			src = strToBytes(s)
		} else {
			src = args[1].slice()
		}
		if len(src) == 0 {
			return args[0]
		}
		n := len(a)
		a = m.grow(a, n+len(src), elem)
		a = a[:n+len(src)]
		if m.shared != nil {
			m.wrote(&a[n])
		}
		if elem != nil && isAggType(elem) {
			// copy through a temporary: source and destination may overlap
			tmp := make([]Value, len(src))
			for i, v := range src {
				tmp[i] = copyVal(v)
			}
			for i, v := range tmp {
				assign(&a[n+i], v)
			}
		} else {
			copy(a[n:], src)
		}
		return mkSlice(a)
	case "close":
		c := m.chanOf(args[0])
		if c.closed {
			m.rtPanic("close of closed channel")
		}
		c.closed = true
		return Value{}
	case "copy":
		dst := args[0].slice()
		var src []Value
		if s, ok := args[1].p.(*Str); ok {
			src = strToBytes(s)
		} else {
			src = args[1].slice()
		}
		n := min(len(dst), len(src))
		if m.shared != nil && n > 0 {
			m.wrote(&dst[0])
		}
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			assign(&dst[i], tmp[i])
		}
		return VInt(uint64(n))
	case "delete":
		if args[0].p != nil {
			m.mapDelete(args[0].p.(*Map), args[1])
		}
		return Value{}
	case "clear":
		switch p := args[0].p.(type) {
		case *Map:
			if m.shared != nil {
				m.wrote(p)
			}
			kt := p.kt
			*p = *newMap(kt)
		case *Slice:
			e := elemOf(in.t)
			for i := range p.a {
				assign(&p.a[i], zero(e))
			}
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "recover":
		c := fr.caller
		if c != nil && c.panicv != nil {
			v := c.panicv.v
			c.panicv = nil
			return v
		}
		return Value{}
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			cmp := Inst{k: in.k2, w: in.w2, k2: in.k2, w2: in.w2, tok: token.LSS}
			a, b := x, r
			if bi.Name() == "max" {
				a, b = r, x
			}
			c := m.binop(fr, &cmp, a, b)
			if c.p == nil {
				if c.n != 0 {
					r = x
				}
			} else if v, ok := m.mergeVal(c.p.(*Term), x, r, in.k2, in.w2); ok {
				r = v
			} else if m.branch(c.p.(*Term)) {
				r = x
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference (value method on nil pointer)")
		}
		return args[0]
	case "SliceData":
		if args[0].p == nil {
			return Value{}
		}
		return Value{p: &DataPtr{a: args[0].slice()}}
	case "StringData":
		return Value{p: &DataPtr{s: args[0].str()}}
	case "String":
		n := m.concInt(args[1])
		if n == 0 {
			return Value{}
		}
		switch d := args[0].p.(type) {
		case *DataPtr:
			if d.s != nil {
				return mkStr(d.s.slice(0, n))
			}
			return mkStr(bytesToStr(d.a[:n]))
		case *Value:
			// a pointer to an element of an array: its neighbours follow it in memory as in the program
			return mkStr(bytesToStr(unsafe.Slice(d, n)))
		}
		m.unsupported("unsafe.String of %T at %s", args[0].p, m.where())
	case "Slice":
		n := m.concInt(args[1])
		if d, ok := args[0].p.(*DataPtr); ok {
			if d.s != nil {
				return mkSlice(strToBytes(d.s)[:n:n])
			}
			return mkSlice(d.a[:n:n])
		}
		if args[0].p == nil && n == 0 {
			return Value{}
		}
		m.unsupported("unsafe.Slice of %T at %s", args[0].p, m.where())
	}
	m.unsupported("builtin %s at %s", bi.Name(), m.where())
	return Value{}
}

func (m *Machine) describePanic(v Value) string {
	if v.p == nil {
		return "nil"
	}
	ifc, ok := v.p.(*Iface)
	if !ok {
		return "?"
	}
	if s, ok := ifc.v.p.(*Str); ok {
		return s.String()
	}
	return "panic of type " + ifc.t.str
}
