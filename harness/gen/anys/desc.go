// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz", "P"}, F: []m.F{
		{Name: "A", D: d1, Omit: false, Host: nil},
		{Name: "L", D: d2, Omit: false, Host: nil},
		{Name: "M", D: d3, Omit: false, Host: nil},
		{Name: "p", D: d4, Omit: false, Host: nil},
		{Name: "S", D: d5, Omit: false, Host: nil},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view1(&x.A))
	g.Kids = append(g.Kids, view2(&x.L))
	g.Kids = append(g.Kids, view3(&x.M))
	g.Kids = append(g.Kids, view4(&x.P))
	g.Kids = append(g.Kids, view5(&x.S))
	return g
}

func fill0(g *m.G, x *T) {
	fill1(g.Kids[0], &x.A)
	fill2(g.Kids[1], &x.L)
	fill3(g.Kids[2], &x.M)
	fill4(g.Kids[3], &x.P)
	fill5(g.Kids[4], &x.S)
}

func init() { *d1 = m.D{K: m.Any} }

func view1(x *any) *m.G {
	return m.A(*x)
}

func fill1(g *m.G, x *any) {
	*x = nil
}

func init() { *d2 = m.D{K: m.Slice, Elem: d1} }

func view2(x *[]any) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view1(&(*x)[i]))
	}
	return g
}

func fill2(g *m.G, x *[]any) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]any, len(g.Kids))
		for i := range g.Kids {
			fill1(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d3 = m.D{K: m.Map, Key: d5, Elem: d1, Omit: false} }

func view3(x *map[string]any) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view5(&k), view1(&e))
	}
	return g
}

func fill3(g *m.G, x *map[string]any) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]any)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e any
			fill5(g.Kids[i], &k)
			fill1(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d4 = m.D{K: m.Ptr, Elem: d1} }

func view4(x **any) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view1(*x)
}

func fill4(g *m.G, x **any) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(any)
	fill1(g, *x)
}

func init() { *d5 = m.D{K: m.Str, Bits: 0} }

func view5(x *string) *m.G {
	return m.S(string(*x))
}

func fill5(g *m.G, x *string) {
	*x = string(g.S)
}
