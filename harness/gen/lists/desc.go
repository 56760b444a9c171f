// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)
var d7 = new(m.D)
var d8 = new(m.D)
var d9 = new(m.D)
var d10 = new(m.D)
var d11 = new(m.D)
var d12 = new(m.D)
var d13 = new(m.D)
var d14 = new(m.D)
var d15 = new(m.D)
var d16 = new(m.D)
var d17 = new(m.D)
var d18 = new(m.D)
var d19 = new(m.D)
var d20 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{
		{Name: "S", D: d1, Omit: false, Host: nil},
		{Name: "P", D: d2, Omit: false, Host: nil},
		{Name: "A", D: d3, Omit: false, Host: nil},
		{Name: "N", D: d4, Omit: false, Host: nil},
		{Name: "M", D: d5, Omit: false, Host: nil},
		{Name: "F", D: d6, Omit: false, Host: nil},
		{Name: "Q", D: d7, Omit: false, Host: nil},
		{Name: "AP", D: d8, Omit: false, Host: nil},
		{Name: "B", D: d9, Omit: false, Host: nil},
		{Name: "E", D: d10, Omit: false, Host: nil},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view1(&x.S))
	g.Kids = append(g.Kids, view2(&x.P))
	g.Kids = append(g.Kids, view3(&x.A))
	g.Kids = append(g.Kids, view4(&x.N))
	g.Kids = append(g.Kids, view5(&x.M))
	g.Kids = append(g.Kids, view6(&x.F))
	g.Kids = append(g.Kids, view7(&x.Q))
	g.Kids = append(g.Kids, view8(&x.AP))
	g.Kids = append(g.Kids, view9(&x.B))
	g.Kids = append(g.Kids, view10(&x.E))
	return g
}

func fill0(g *m.G, x *T) {
	fill1(g.Kids[0], &x.S)
	fill2(g.Kids[1], &x.P)
	fill3(g.Kids[2], &x.A)
	fill4(g.Kids[3], &x.N)
	fill5(g.Kids[4], &x.M)
	fill6(g.Kids[5], &x.F)
	fill7(g.Kids[6], &x.Q)
	fill8(g.Kids[7], &x.AP)
	fill9(g.Kids[8], &x.B)
	fill10(g.Kids[9], &x.E)
}

func init() { *d1 = m.D{K: m.Slice, Elem: d11} }

func view1(x *[]string) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view11(&(*x)[i]))
	}
	return g
}

func fill1(g *m.G, x *[]string) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]string, len(g.Kids))
		for i := range g.Kids {
			fill11(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d2 = m.D{K: m.Slice, Elem: d12} }

func view2(x *[]*int8) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view12(&(*x)[i]))
	}
	return g
}

func fill2(g *m.G, x *[]*int8) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]*int8, len(g.Kids))
		for i := range g.Kids {
			fill12(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d3 = m.D{K: m.Array, N: 2, Elem: d13} }

func view3(x *[2]uint16) *m.G {
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view13(&(*x)[i]))
	}
	return g
}

func fill3(g *m.G, x *[2]uint16) {
	for i := range g.Kids {
		fill13(g.Kids[i], &(*x)[i])
	}
}

func init() { *d4 = m.D{K: m.Slice, Elem: d14} }

func view4(x *[][]bool) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view14(&(*x)[i]))
	}
	return g
}

func fill4(g *m.G, x *[][]bool) {
	*x = nil
	if g.K != m.GNil {
		*x = make([][]bool, len(g.Kids))
		for i := range g.Kids {
			fill14(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d5 = m.D{K: m.Array, N: 2, Elem: d15} }

func view5(x *[2][]int) *m.G {
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view15(&(*x)[i]))
	}
	return g
}

func fill5(g *m.G, x *[2][]int) {
	for i := range g.Kids {
		fill15(g.Kids[i], &(*x)[i])
	}
}

func init() { *d6 = m.D{K: m.Slice, Elem: d16} }

func view6(x *Flags) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view16(&(*x)[i]))
	}
	return g
}

func fill6(g *m.G, x *Flags) {
	*x = nil
	if g.K != m.GNil {
		*x = make(Flags, len(g.Kids))
		for i := range g.Kids {
			fill16(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d7 = m.D{K: m.Ptr, Elem: d15} }

func view7(x **[]int) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view15(*x)
}

func fill7(g *m.G, x **[]int) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new([]int)
	fill15(g, *x)
}

func init() { *d8 = m.D{K: m.Array, N: 1, Elem: d17} }

func view8(x *[1]*string) *m.G {
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view17(&(*x)[i]))
	}
	return g
}

func fill8(g *m.G, x *[1]*string) {
	for i := range g.Kids {
		fill17(g.Kids[i], &(*x)[i])
	}
}

func init() { *d9 = m.D{K: m.Slice, Elem: d18} }

func view9(x *[][]byte) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view18(&(*x)[i]))
	}
	return g
}

func fill9(g *m.G, x *[][]byte) {
	*x = nil
	if g.K != m.GNil {
		*x = make([][]byte, len(g.Kids))
		for i := range g.Kids {
			fill18(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d10 = m.D{K: m.Array, N: 0, Elem: d19} }

func view10(x *[0]int) *m.G {
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view19(&(*x)[i]))
	}
	return g
}

func fill10(g *m.G, x *[0]int) {
	for i := range g.Kids {
		fill19(g.Kids[i], &(*x)[i])
	}
}

func init() { *d11 = m.D{K: m.Str, Bits: 0} }

func view11(x *string) *m.G {
	return m.S(string(*x))
}

func fill11(g *m.G, x *string) {
	*x = string(g.S)
}

func init() { *d12 = m.D{K: m.Ptr, Elem: d20} }

func view12(x **int8) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view20(*x)
}

func fill12(g *m.G, x **int8) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(int8)
	fill20(g, *x)
}

func init() { *d13 = m.D{K: m.Uint, Bits: 16} }

func view13(x *uint16) *m.G {
	return m.U(uint64(*x))
}

func fill13(g *m.G, x *uint16) {
	*x = uint16(g.U)
}

func init() { *d14 = m.D{K: m.Slice, Elem: d16} }

func view14(x *[]bool) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view16(&(*x)[i]))
	}
	return g
}

func fill14(g *m.G, x *[]bool) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]bool, len(g.Kids))
		for i := range g.Kids {
			fill16(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d15 = m.D{K: m.Slice, Elem: d19} }

func view15(x *[]int) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view19(&(*x)[i]))
	}
	return g
}

func fill15(g *m.G, x *[]int) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]int, len(g.Kids))
		for i := range g.Kids {
			fill19(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d16 = m.D{K: m.Bool, Bits: 0} }

func view16(x *bool) *m.G {
	return m.B(bool(*x))
}

func fill16(g *m.G, x *bool) {
	*x = bool(g.B)
}

func init() { *d17 = m.D{K: m.Ptr, Elem: d11} }

func view17(x **string) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view11(*x)
}

func fill17(g *m.G, x **string) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(string)
	fill11(g, *x)
}

func init() { *d18 = m.D{K: m.Bytes} }

func view18(x *[]byte) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return m.S(string(*x))
}

func fill18(g *m.G, x *[]byte) {
	*x = nil
	if g.K != m.GNil {
		*x = []byte(g.S)
	}
}

func init() { *d19 = m.D{K: m.Int, Bits: 0} }

func view19(x *int) *m.G {
	return m.I(int64(*x))
}

func fill19(g *m.G, x *int) {
	*x = int(g.I)
}

func init() { *d20 = m.D{K: m.Int, Bits: 8} }

func view20(x *int8) *m.G {
	return m.I(int64(*x))
}

func fill20(g *m.G, x *int8) {
	*x = int8(g.I)
}
