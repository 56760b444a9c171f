// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)
var d7 = new(m.D)
var d8 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz", "V", "Next", "Kids", "Named"}, F: []m.F{
		{Name: "v", D: d1, Omit: false, Host: nil},
		{Name: "next", D: d2, Omit: false, Host: nil},
		{Name: "kids", D: d3, Omit: false, Host: nil},
		{Name: "named", D: d4, Omit: false, Host: nil},
		{Name: "Edge", D: d5, Omit: false, Host: nil},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view1(&x.V))
	g.Kids = append(g.Kids, view2(&x.Next))
	g.Kids = append(g.Kids, view3(&x.Kids))
	g.Kids = append(g.Kids, view4(&x.Named))
	g.Kids = append(g.Kids, view5(&x.Edge))
	return g
}

func fill0(g *m.G, x *T) {
	fill1(g.Kids[0], &x.V)
	fill2(g.Kids[1], &x.Next)
	fill3(g.Kids[2], &x.Kids)
	fill4(g.Kids[3], &x.Named)
	fill5(g.Kids[4], &x.Edge)
}

func init() { *d1 = m.D{K: m.Int, Bits: 0} }

func view1(x *int) *m.G {
	return m.I(int64(*x))
}

func fill1(g *m.G, x *int) {
	*x = int(g.I)
}

func init() { *d2 = m.D{K: m.Ptr, Elem: d0} }

func view2(x **T) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view0(*x)
}

func fill2(g *m.G, x **T) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(T)
	fill0(g, *x)
}

func init() { *d3 = m.D{K: m.Slice, Elem: d0} }

func view3(x *[]T) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view0(&(*x)[i]))
	}
	return g
}

func fill3(g *m.G, x *[]T) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]T, len(g.Kids))
		for i := range g.Kids {
			fill0(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d4 = m.D{K: m.Map, Key: d6, Elem: d0, Omit: false} }

func view4(x *map[string]T) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view6(&k), view0(&e))
	}
	return g
}

func fill4(g *m.G, x *map[string]T) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]T)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e T
			fill6(g.Kids[i], &k)
			fill0(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d5 = m.D{K: m.Ptr, Elem: d7} }

func view5(x **Edge) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view7(*x)
}

func fill5(g *m.G, x **Edge) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(Edge)
	fill7(g, *x)
}

func init() { *d6 = m.D{K: m.Str, Bits: 0} }

func view6(x *string) *m.G {
	return m.S(string(*x))
}

func fill6(g *m.G, x *string) {
	*x = string(g.S)
}

func init() {
	*d7 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{
		{Name: "To", D: d2, Omit: false, Host: nil},
		{Name: "Len", D: d8, Omit: false, Host: nil},
	}}
}

func view7(x *Edge) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view2(&x.To))
	g.Kids = append(g.Kids, view8(&x.Len))
	return g
}

func fill7(g *m.G, x *Edge) {
	fill2(g.Kids[0], &x.To)
	fill8(g.Kids[1], &x.Len)
}

func init() { *d8 = m.D{K: m.Uint, Bits: 8} }

func view8(x *uint8) *m.G {
	return m.U(uint64(*x))
}

func fill8(g *m.G, x *uint8) {
	*x = uint8(g.U)
}
