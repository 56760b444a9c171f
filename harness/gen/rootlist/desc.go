// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)

func init() { *d0 = m.D{K: m.Slice, Elem: d1} }

func view0(x *T) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view1(&(*x)[i]))
	}
	return g
}

func fill0(g *m.G, x *T) {
	*x = nil
	if g.K != m.GNil {
		*x = make(T, len(g.Kids))
		for i := range g.Kids {
			fill1(g.Kids[i], &(*x)[i])
		}
	}
}

func init() {
	*d1 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz", "A"}, F: []m.F{
		{Name: "a", D: d2, Omit: false, Host: nil},
		{Name: "B", D: d3, Omit: false, Host: nil},
	}}
}

func view1(x *Item) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view2(&x.A))
	g.Kids = append(g.Kids, view3(&x.B))
	return g
}

func fill1(g *m.G, x *Item) {
	fill2(g.Kids[0], &x.A)
	fill3(g.Kids[1], &x.B)
}

func init() { *d2 = m.D{K: m.Int, Bits: 0} }

func view2(x *int) *m.G {
	return m.I(int64(*x))
}

func fill2(g *m.G, x *int) {
	*x = int(g.I)
}

func init() { *d3 = m.D{K: m.Ptr, Elem: d4} }

func view3(x **string) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view4(*x)
}

func fill3(g *m.G, x **string) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(string)
	fill4(g, *x)
}

func init() { *d4 = m.D{K: m.Str, Bits: 0} }

func view4(x *string) *m.G {
	return m.S(string(*x))
}

func fill4(g *m.G, x *string) {
	*x = string(g.S)
}
