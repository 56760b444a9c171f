// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	"time"

	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)
var d7 = new(m.D)
var d8 = new(m.D)
var d9 = new(m.D)
var d10 = new(m.D)
var d11 = new(m.D)
var d12 = new(m.D)
var d13 = new(m.D)
var d14 = new(m.D)
var d15 = new(m.D)
var d16 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz", "S", "U", "F", "B", "L", "M", "P", "A", "Z", "T", "D", "LP", "PS"}, F: []m.F{
		{Name: "s", D: d1, Omit: true, Host: nil},
		{Name: "I", D: d2, Omit: true, Host: nil},
		{Name: "u", D: d3, Omit: true, Host: nil},
		{Name: "f", D: d4, Omit: true, Host: nil},
		{Name: "b", D: d5, Omit: true, Host: nil},
		{Name: "l", D: d6, Omit: true, Host: nil},
		{Name: "m", D: &m.D{K: m.Map, Key: d1, Elem: d2, Omit: true}, Omit: true, Host: nil},
		{Name: "p", D: d8, Omit: true, Host: nil},
		{Name: "Q", D: d9, Omit: false, Host: nil},
		{Name: "a", D: d10, Omit: true, Host: nil},
		{Name: "z", D: d11, Omit: true, Host: nil},
		{Name: "t", D: d12, Omit: true, Host: nil},
		{Name: "d", D: d13, Omit: true, Host: nil},
		{Name: "lp", D: d14, Omit: true, Host: nil},
		{Name: "ps", D: d15, Omit: true, Host: nil},
		{Name: "K", D: d6, Omit: false, Host: nil},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view1(&x.S))
	g.Kids = append(g.Kids, view2(&x.I))
	g.Kids = append(g.Kids, view3(&x.U))
	g.Kids = append(g.Kids, view4(&x.F))
	g.Kids = append(g.Kids, view5(&x.B))
	g.Kids = append(g.Kids, view6(&x.L))
	g.Kids = append(g.Kids, view7(&x.M))
	g.Kids = append(g.Kids, view8(&x.P))
	g.Kids = append(g.Kids, view9(&x.Q))
	g.Kids = append(g.Kids, view10(&x.A))
	g.Kids = append(g.Kids, view11(&x.Z))
	g.Kids = append(g.Kids, view12(&x.T))
	g.Kids = append(g.Kids, view13(&x.D))
	g.Kids = append(g.Kids, view14(&x.LP))
	g.Kids = append(g.Kids, view15(&x.PS))
	g.Kids = append(g.Kids, view6(&x.K))
	return g
}

func fill0(g *m.G, x *T) {
	fill1(g.Kids[0], &x.S)
	fill2(g.Kids[1], &x.I)
	fill3(g.Kids[2], &x.U)
	fill4(g.Kids[3], &x.F)
	fill5(g.Kids[4], &x.B)
	fill6(g.Kids[5], &x.L)
	fill7(g.Kids[6], &x.M)
	fill8(g.Kids[7], &x.P)
	fill9(g.Kids[8], &x.Q)
	fill10(g.Kids[9], &x.A)
	fill11(g.Kids[10], &x.Z)
	fill12(g.Kids[11], &x.T)
	fill13(g.Kids[12], &x.D)
	fill14(g.Kids[13], &x.LP)
	fill15(g.Kids[14], &x.PS)
	fill6(g.Kids[15], &x.K)
}

func init() { *d1 = m.D{K: m.Str, Bits: 0} }

func view1(x *string) *m.G {
	return m.S(string(*x))
}

func fill1(g *m.G, x *string) {
	*x = string(g.S)
}

func init() { *d2 = m.D{K: m.Int, Bits: 0} }

func view2(x *int) *m.G {
	return m.I(int64(*x))
}

func fill2(g *m.G, x *int) {
	*x = int(g.I)
}

func init() { *d3 = m.D{K: m.Uint, Bits: 8} }

func view3(x *uint8) *m.G {
	return m.U(uint64(*x))
}

func fill3(g *m.G, x *uint8) {
	*x = uint8(g.U)
}

func init() { *d4 = m.D{K: m.Float, Bits: 64} }

func view4(x *float64) *m.G {
	return m.Fl(float64(*x))
}

func fill4(g *m.G, x *float64) {
	*x = float64(g.F)
}

func init() { *d5 = m.D{K: m.Bool, Bits: 0} }

func view5(x *bool) *m.G {
	return m.B(bool(*x))
}

func fill5(g *m.G, x *bool) {
	*x = bool(g.B)
}

func init() { *d6 = m.D{K: m.Slice, Elem: d2} }

func view6(x *[]int) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view2(&(*x)[i]))
	}
	return g
}

func fill6(g *m.G, x *[]int) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]int, len(g.Kids))
		for i := range g.Kids {
			fill2(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d7 = m.D{K: m.Map, Key: d1, Elem: d2, Omit: false} }

func view7(x *map[string]int) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view1(&k), view2(&e))
	}
	return g
}

func fill7(g *m.G, x *map[string]int) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]int)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e int
			fill1(g.Kids[i], &k)
			fill2(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d8 = m.D{K: m.Ptr, Elem: d2} }

func view8(x **int) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view2(*x)
}

func fill8(g *m.G, x **int) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(int)
	fill2(g, *x)
}

func init() { *d9 = m.D{K: m.Ptr, Elem: d1} }

func view9(x **string) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view1(*x)
}

func fill9(g *m.G, x **string) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(string)
	fill1(g, *x)
}

func init() { *d10 = m.D{K: m.Array, N: 2, Elem: d2} }

func view10(x *[2]int) *m.G {
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view2(&(*x)[i]))
	}
	return g
}

func fill10(g *m.G, x *[2]int) {
	for i := range g.Kids {
		fill2(g.Kids[i], &(*x)[i])
	}
}

func init() {
	*d11 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{
		{Name: "V", D: d2, Omit: false, Host: nil},
	}}
}

func view11(x *struct{ V int }) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view2(&x.V))
	return g
}

func fill11(g *m.G, x *struct{ V int }) {
	fill2(g.Kids[0], &x.V)
}

func init() { *d12 = m.D{K: m.Time} }

func view12(x *time.Time) *m.G {
	return m.Tm(*x)
}

func fill12(g *m.G, x *time.Time) {
	*x = g.T
}

func init() { *d13 = m.D{K: m.Bytes} }

func view13(x *[]byte) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return m.S(string(*x))
}

func fill13(g *m.G, x *[]byte) {
	*x = nil
	if g.K != m.GNil {
		*x = []byte(g.S)
	}
}

func init() { *d14 = m.D{K: m.Slice, Elem: d8} }

func view14(x *[]*int) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view8(&(*x)[i]))
	}
	return g
}

func fill14(g *m.G, x *[]*int) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]*int, len(g.Kids))
		for i := range g.Kids {
			fill8(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d15 = m.D{K: m.Ptr, Elem: d16} }

func view15(x **Empty) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view16(*x)
}

func fill15(g *m.G, x **Empty) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(Empty)
	fill16(g, *x)
}

func init() {
	*d16 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{}}
}

func view16(x *Empty) *m.G {
	g := m.R()
	return g
}

func fill16(g *m.G, x *Empty) {

}
