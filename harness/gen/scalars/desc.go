// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	"time"

	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)
var d7 = new(m.D)
var d8 = new(m.D)
var d9 = new(m.D)
var d10 = new(m.D)
var d11 = new(m.D)
var d12 = new(m.D)
var d13 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz", "Hidden", "inner", "N", "F64", "Maybe", "Another", "Quoted"}, F: []m.F{
		{Name: "s", D: d1, Omit: false, Host: nil},
		{Name: "first name", D: d2, Omit: false, Host: nil},
		{Name: "B", D: d3, Omit: true, Host: nil},
		{Name: "F32", D: d4, Omit: false, Host: nil},
		{Name: "a: b", D: d5, Omit: false, Host: nil},
		{Name: "At", D: d6, Omit: false, Host: nil},
		{Name: "maybe", D: d7, Omit: false, Host: nil},
		{Name: "Data", D: d8, Omit: false, Host: nil},
		{Name: "Fixed", D: d9, Omit: false, Host: nil},
		{Name: "Ok", D: d10, Omit: false, Host: nil},
		{Name: "Int", D: d11, Omit: false, Host: nil},
		{Name: "S", D: d1, Omit: false, Host: nil},
		{Name: "a\"b\\", D: d1, Omit: false, Host: nil},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	if x.Hidden != 0 && x.Hidden != 9 {
		g.Dirty = true
	}
	if x.inner != 0 && x.inner != 9 {
		g.Dirty = true
	}
	g.Kids = append(g.Kids, view1(&x.S))
	g.Kids = append(g.Kids, view2(&x.N))
	g.Kids = append(g.Kids, view3(&x.B))
	g.Kids = append(g.Kids, view4(&x.F32))
	g.Kids = append(g.Kids, view5(&x.F64))
	g.Kids = append(g.Kids, view6(&x.At))
	g.Kids = append(g.Kids, view7(&x.Maybe))
	g.Kids = append(g.Kids, view8(&x.Data))
	g.Kids = append(g.Kids, view9(&x.Fixed))
	g.Kids = append(g.Kids, view10(&x.Ok))
	g.Kids = append(g.Kids, view11(&x.Int))
	g.Kids = append(g.Kids, view1(&x.Another))
	g.Kids = append(g.Kids, view1(&x.Quoted))
	return g
}

func fill0(g *m.G, x *T) {
	x.Hidden = 9
	x.inner = 9
	fill1(g.Kids[0], &x.S)
	fill2(g.Kids[1], &x.N)
	fill3(g.Kids[2], &x.B)
	fill4(g.Kids[3], &x.F32)
	fill5(g.Kids[4], &x.F64)
	fill6(g.Kids[5], &x.At)
	fill7(g.Kids[6], &x.Maybe)
	fill8(g.Kids[7], &x.Data)
	fill9(g.Kids[8], &x.Fixed)
	fill10(g.Kids[9], &x.Ok)
	fill11(g.Kids[10], &x.Int)
	fill1(g.Kids[11], &x.Another)
	fill1(g.Kids[12], &x.Quoted)
}

func init() { *d1 = m.D{K: m.Str, Bits: 0} }

func view1(x *string) *m.G {
	return m.S(string(*x))
}

func fill1(g *m.G, x *string) {
	*x = string(g.S)
}

func init() { *d2 = m.D{K: m.Str, Bits: 0} }

func view2(x *Name) *m.G {
	return m.S(string(*x))
}

func fill2(g *m.G, x *Name) {
	*x = Name(g.S)
}

func init() { *d3 = m.D{K: m.Bool, Bits: 0} }

func view3(x *bool) *m.G {
	return m.B(bool(*x))
}

func fill3(g *m.G, x *bool) {
	*x = bool(g.B)
}

func init() { *d4 = m.D{K: m.Float, Bits: 32} }

func view4(x *float32) *m.G {
	return m.Fl(float64(*x))
}

func fill4(g *m.G, x *float32) {
	*x = float32(g.F)
}

func init() { *d5 = m.D{K: m.Float, Bits: 64} }

func view5(x *float64) *m.G {
	return m.Fl(float64(*x))
}

func fill5(g *m.G, x *float64) {
	*x = float64(g.F)
}

func init() { *d6 = m.D{K: m.Time} }

func view6(x *time.Time) *m.G {
	return m.Tm(*x)
}

func fill6(g *m.G, x *time.Time) {
	*x = g.T
}

func init() { *d7 = m.D{K: m.Ptr, Elem: d6} }

func view7(x **time.Time) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view6(*x)
}

func fill7(g *m.G, x **time.Time) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(time.Time)
	fill6(g, *x)
}

func init() { *d8 = m.D{K: m.Bytes} }

func view8(x *[]byte) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return m.S(string(*x))
}

func fill8(g *m.G, x *[]byte) {
	*x = nil
	if g.K != m.GNil {
		*x = []byte(g.S)
	}
}

func init() { *d9 = m.D{K: m.ByteArr, N: 3} }

func view9(x *[3]byte) *m.G {
	return m.S(string((*x)[:]))
}

func fill9(g *m.G, x *[3]byte) {
	copy((*x)[:], g.S)
}

func init() { *d10 = m.D{K: m.Ptr, Elem: d3} }

func view10(x **bool) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view3(*x)
}

func fill10(g *m.G, x **bool) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(bool)
	fill3(g, *x)
}

func init() { *d11 = m.D{K: m.Ptr, Elem: d12} }

func view11(x ***int) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view12(*x)
}

func fill11(g *m.G, x ***int) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(*int)
	fill12(g, *x)
}

func init() { *d12 = m.D{K: m.Ptr, Elem: d13} }

func view12(x **int) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view13(*x)
}

func fill12(g *m.G, x **int) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(int)
	fill13(g, *x)
}

func init() { *d13 = m.D{K: m.Int, Bits: 0} }

func view13(x *int) *m.G {
	return m.I(int64(*x))
}

func fill13(g *m.G, x *int) {
	*x = int(g.I)
}
