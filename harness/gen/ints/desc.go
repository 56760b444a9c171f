// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	"time"

	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)
var d7 = new(m.D)
var d8 = new(m.D)
var d9 = new(m.D)
var d10 = new(m.D)
var d11 = new(m.D)
var d12 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz", "I64", "U64", "D"}, F: []m.F{
		{Name: "I", D: d1, Omit: false, Host: nil},
		{Name: "I8", D: d2, Omit: false, Host: nil},
		{Name: "I16", D: d3, Omit: false, Host: nil},
		{Name: "I32", D: d4, Omit: false, Host: nil},
		{Name: "i64", D: d5, Omit: false, Host: nil},
		{Name: "U", D: d6, Omit: false, Host: nil},
		{Name: "U8", D: d7, Omit: false, Host: nil},
		{Name: "U16", D: d8, Omit: false, Host: nil},
		{Name: "U32", D: d9, Omit: false, Host: nil},
		{Name: "-", D: d10, Omit: false, Host: nil},
		{Name: "L", D: d11, Omit: false, Host: nil},
		{Name: "d d", D: d12, Omit: false, Host: nil},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view1(&x.I))
	g.Kids = append(g.Kids, view2(&x.I8))
	g.Kids = append(g.Kids, view3(&x.I16))
	g.Kids = append(g.Kids, view4(&x.I32))
	g.Kids = append(g.Kids, view5(&x.I64))
	g.Kids = append(g.Kids, view6(&x.U))
	g.Kids = append(g.Kids, view7(&x.U8))
	g.Kids = append(g.Kids, view8(&x.U16))
	g.Kids = append(g.Kids, view9(&x.U32))
	g.Kids = append(g.Kids, view10(&x.U64))
	g.Kids = append(g.Kids, view11(&x.L))
	g.Kids = append(g.Kids, view12(&x.D))
	return g
}

func fill0(g *m.G, x *T) {
	fill1(g.Kids[0], &x.I)
	fill2(g.Kids[1], &x.I8)
	fill3(g.Kids[2], &x.I16)
	fill4(g.Kids[3], &x.I32)
	fill5(g.Kids[4], &x.I64)
	fill6(g.Kids[5], &x.U)
	fill7(g.Kids[6], &x.U8)
	fill8(g.Kids[7], &x.U16)
	fill9(g.Kids[8], &x.U32)
	fill10(g.Kids[9], &x.U64)
	fill11(g.Kids[10], &x.L)
	fill12(g.Kids[11], &x.D)
}

func init() { *d1 = m.D{K: m.Int, Bits: 0} }

func view1(x *int) *m.G {
	return m.I(int64(*x))
}

func fill1(g *m.G, x *int) {
	*x = int(g.I)
}

func init() { *d2 = m.D{K: m.Int, Bits: 8} }

func view2(x *int8) *m.G {
	return m.I(int64(*x))
}

func fill2(g *m.G, x *int8) {
	*x = int8(g.I)
}

func init() { *d3 = m.D{K: m.Int, Bits: 16} }

func view3(x *int16) *m.G {
	return m.I(int64(*x))
}

func fill3(g *m.G, x *int16) {
	*x = int16(g.I)
}

func init() { *d4 = m.D{K: m.Int, Bits: 32} }

func view4(x *int32) *m.G {
	return m.I(int64(*x))
}

func fill4(g *m.G, x *int32) {
	*x = int32(g.I)
}

func init() { *d5 = m.D{K: m.Int, Bits: 64} }

func view5(x *int64) *m.G {
	return m.I(int64(*x))
}

func fill5(g *m.G, x *int64) {
	*x = int64(g.I)
}

func init() { *d6 = m.D{K: m.Uint, Bits: 0} }

func view6(x *uint) *m.G {
	return m.U(uint64(*x))
}

func fill6(g *m.G, x *uint) {
	*x = uint(g.U)
}

func init() { *d7 = m.D{K: m.Uint, Bits: 8} }

func view7(x *uint8) *m.G {
	return m.U(uint64(*x))
}

func fill7(g *m.G, x *uint8) {
	*x = uint8(g.U)
}

func init() { *d8 = m.D{K: m.Uint, Bits: 16} }

func view8(x *uint16) *m.G {
	return m.U(uint64(*x))
}

func fill8(g *m.G, x *uint16) {
	*x = uint16(g.U)
}

func init() { *d9 = m.D{K: m.Uint, Bits: 32} }

func view9(x *uint32) *m.G {
	return m.U(uint64(*x))
}

func fill9(g *m.G, x *uint32) {
	*x = uint32(g.U)
}

func init() { *d10 = m.D{K: m.Uint, Bits: 64} }

func view10(x *uint64) *m.G {
	return m.U(uint64(*x))
}

func fill10(g *m.G, x *uint64) {
	*x = uint64(g.U)
}

func init() { *d11 = m.D{K: m.Int, Bits: 8} }

func view11(x *Level) *m.G {
	return m.I(int64(*x))
}

func fill11(g *m.G, x *Level) {
	*x = Level(g.I)
}

func init() { *d12 = m.D{K: m.Int, Bits: 64} }

func view12(x *time.Duration) *m.G {
	return m.I(int64(*x))
}

func fill12(g *m.G, x *time.Duration) {
	*x = time.Duration(g.I)
}
