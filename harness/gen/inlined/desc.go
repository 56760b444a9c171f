// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)
var d7 = new(m.D)
var d8 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: false, Hosts: 2, Unknown: []string{"zz", "Name", "Named", "Same", "ID", "O"}, F: []m.F{
		{Name: "name", D: d1, Omit: false, Host: nil},
		{Name: "Kind", D: d2, Omit: false, Host: nil},
		{Name: "named", D: d3, Omit: false, Host: nil},
		{Name: "sam", D: d4, Omit: false, Host: nil},
		{Name: "id", D: d5, Omit: false, Host: nil},
		{Name: "o", D: d6, Omit: false, Host: []int{0}},
		{Name: "Q", D: d1, Omit: false, Host: []int{0}},
		{Name: "D", D: d7, Omit: false, Host: nil},
		{Name: "E", D: d8, Omit: false, Host: []int{1}},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view1(&x.Name))
	g.Kids = append(g.Kids, view2(&x.Kind))
	g.Kids = append(g.Kids, view3(&x.Named))
	g.Kids = append(g.Kids, view4(&x.Same))
	g.Kids = append(g.Kids, view5(&x.Base.ID))
	if x.Opt != nil {
		g.Kids = append(g.Kids, view6(&x.Opt.O))
	} else {
		g.Kids = append(g.Kids, m.Zero(d6))
	}
	if x.Opt != nil {
		g.Kids = append(g.Kids, view1(&x.Opt.Q))
	} else {
		g.Kids = append(g.Kids, m.Zero(d1))
	}
	g.Kids = append(g.Kids, view7(&x.Deep.D))
	if x.Deep.Deeper != nil {
		g.Kids = append(g.Kids, view8(&x.Deep.Deeper.E))
	} else {
		g.Kids = append(g.Kids, m.Zero(d8))
	}
	return g
}

func fill0(g *m.G, x *T) {
	if g.Hosts[0] {
		x.Opt = new(Opt)
	}
	if g.Hosts[1] {
		x.Deep.Deeper = new(Deeper)
	}
	fill1(g.Kids[0], &x.Name)
	fill2(g.Kids[1], &x.Kind)
	fill3(g.Kids[2], &x.Named)
	fill4(g.Kids[3], &x.Same)
	fill5(g.Kids[4], &x.Base.ID)
	if g.Hosts[0] {
		fill6(g.Kids[5], &x.Opt.O)
	}
	if g.Hosts[0] {
		fill1(g.Kids[6], &x.Opt.Q)
	}
	fill7(g.Kids[7], &x.Deep.D)
	if g.Hosts[1] {
		fill8(g.Kids[8], &x.Deep.Deeper.E)
	}
}

func init() { *d1 = m.D{K: m.Str, Bits: 0} }

func view1(x *string) *m.G {
	return m.S(string(*x))
}

func fill1(g *m.G, x *string) {
	*x = string(g.S)
}

func init() { *d2 = m.D{K: m.Int, Bits: 8} }

func view2(x *Kind) *m.G {
	return m.I(int64(*x))
}

func fill2(g *m.G, x *Kind) {
	*x = Kind(g.I)
}

func init() {
	*d3 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{
		{Name: "N", D: d5, Omit: false, Host: nil},
	}}
}

func view3(x *Named) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view5(&x.N))
	return g
}

func fill3(g *m.G, x *Named) {
	fill5(g.Kids[0], &x.N)
}

func init() { *d4 = m.D{K: m.Uint, Bits: 8} }

func view4(x *uint8) *m.G {
	return m.U(uint64(*x))
}

func fill4(g *m.G, x *uint8) {
	*x = uint8(g.U)
}

func init() { *d5 = m.D{K: m.Int, Bits: 0} }

func view5(x *int) *m.G {
	return m.I(int64(*x))
}

func fill5(g *m.G, x *int) {
	*x = int(g.I)
}

func init() { *d6 = m.D{K: m.Ptr, Elem: d1} }

func view6(x **string) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view1(*x)
}

func fill6(g *m.G, x **string) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(string)
	fill1(g, *x)
}

func init() { *d7 = m.D{K: m.Bool, Bits: 0} }

func view7(x *bool) *m.G {
	return m.B(bool(*x))
}

func fill7(g *m.G, x *bool) {
	*x = bool(g.B)
}

func init() { *d8 = m.D{K: m.Slice, Elem: d5} }

func view8(x *[]int) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view5(&(*x)[i]))
	}
	return g
}

func fill8(g *m.G, x *[]int) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]int, len(g.Kids))
		for i := range g.Kids {
			fill5(g.Kids[i], &(*x)[i])
		}
	}
}
