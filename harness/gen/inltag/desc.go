// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)
var d7 = new(m.D)
var d8 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: false, Hosts: 1, Unknown: []string{"zz", "ID", "M", "L", "W"}, F: []m.F{
		{Name: "Opt", D: d1, Omit: false, Host: nil},
		{Name: "Name", D: d2, Omit: false, Host: nil},
		{Name: "id", D: d3, Omit: false, Host: nil},
		{Name: "m", D: d2, Omit: false, Host: nil},
		{Name: "l", D: d4, Omit: false, Host: nil},
		{Name: "R", D: d5, Omit: false, Host: []int{0}},
		{Name: "w", D: d6, Omit: false, Host: []int{0}},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view1(&x.Opt))
	g.Kids = append(g.Kids, view2(&x.Name))
	g.Kids = append(g.Kids, view3(&x.Base.ID))
	g.Kids = append(g.Kids, view2(&x.More.M))
	g.Kids = append(g.Kids, view4(&x.More.Last.L))
	if x.Ref != nil {
		g.Kids = append(g.Kids, view5(&x.Ref.R))
	} else {
		g.Kids = append(g.Kids, m.Zero(d5))
	}
	if x.Ref != nil {
		g.Kids = append(g.Kids, view6(&x.Ref.W))
	} else {
		g.Kids = append(g.Kids, m.Zero(d6))
	}
	return g
}

func fill0(g *m.G, x *T) {
	if g.Hosts[0] {
		x.Ref = new(Ref)
	}
	fill1(g.Kids[0], &x.Opt)
	fill2(g.Kids[1], &x.Name)
	fill3(g.Kids[2], &x.Base.ID)
	fill2(g.Kids[3], &x.More.M)
	fill4(g.Kids[4], &x.More.Last.L)
	if g.Hosts[0] {
		fill5(g.Kids[5], &x.Ref.R)
	}
	if g.Hosts[0] {
		fill6(g.Kids[6], &x.Ref.W)
	}
}

func init() { *d1 = m.D{K: m.Ptr, Elem: d6} }

func view1(x **Opt) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view6(*x)
}

func fill1(g *m.G, x **Opt) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(Opt)
	fill6(g, *x)
}

func init() { *d2 = m.D{K: m.Str, Bits: 0} }

func view2(x *string) *m.G {
	return m.S(string(*x))
}

func fill2(g *m.G, x *string) {
	*x = string(g.S)
}

func init() { *d3 = m.D{K: m.Int, Bits: 0} }

func view3(x *int) *m.G {
	return m.I(int64(*x))
}

func fill3(g *m.G, x *int) {
	*x = int(g.I)
}

func init() { *d4 = m.D{K: m.Slice, Elem: d7} }

func view4(x *[]bool) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view7(&(*x)[i]))
	}
	return g
}

func fill4(g *m.G, x *[]bool) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]bool, len(g.Kids))
		for i := range g.Kids {
			fill7(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d5 = m.D{K: m.Int, Bits: 8} }

func view5(x *int8) *m.G {
	return m.I(int64(*x))
}

func fill5(g *m.G, x *int8) {
	*x = int8(g.I)
}

func init() {
	*d6 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz", "O"}, F: []m.F{
		{Name: "o", D: d8, Omit: false, Host: nil},
	}}
}

func view6(x *Opt) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view8(&x.O))
	return g
}

func fill6(g *m.G, x *Opt) {
	fill8(g.Kids[0], &x.O)
}

func init() { *d7 = m.D{K: m.Bool, Bits: 0} }

func view7(x *bool) *m.G {
	return m.B(bool(*x))
}

func fill7(g *m.G, x *bool) {
	*x = bool(g.B)
}

func init() { *d8 = m.D{K: m.Ptr, Elem: d2} }

func view8(x **string) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view2(*x)
}

func fill8(g *m.G, x **string) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(string)
	fill2(g, *x)
}
