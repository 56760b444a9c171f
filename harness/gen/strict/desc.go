// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: true, Hosts: 0, Unknown: []string{"zz", "Skip", "Sub", "Last"}, F: []m.F{
		{Name: "A", D: d1, Omit: false, Host: nil},
		{Name: "sub", D: d2, Omit: false, Host: nil},
		{Name: "Ptr", D: d3, Omit: false, Host: nil},
		{Name: "List", D: d4, Omit: false, Host: nil},
		{Name: "Map", D: d5, Omit: false, Host: nil},
		{Name: "last", D: d6, Omit: false, Host: nil},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	if x.Skip != 0 && x.Skip != 9 {
		g.Dirty = true
	}
	g.Kids = append(g.Kids, view1(&x.A))
	g.Kids = append(g.Kids, view2(&x.Sub))
	g.Kids = append(g.Kids, view3(&x.Ptr))
	g.Kids = append(g.Kids, view4(&x.List))
	g.Kids = append(g.Kids, view5(&x.Map))
	g.Kids = append(g.Kids, view6(&x.Last))
	return g
}

func fill0(g *m.G, x *T) {
	x.Skip = 9
	fill1(g.Kids[0], &x.A)
	fill2(g.Kids[1], &x.Sub)
	fill3(g.Kids[2], &x.Ptr)
	fill4(g.Kids[3], &x.List)
	fill5(g.Kids[4], &x.Map)
	fill6(g.Kids[5], &x.Last)
}

func init() { *d1 = m.D{K: m.Int, Bits: 0} }

func view1(x *int) *m.G {
	return m.I(int64(*x))
}

func fill1(g *m.G, x *int) {
	*x = int(g.I)
}

func init() {
	*d2 = m.D{K: m.Struct, Strict: true, Hosts: 0, Unknown: []string{"zz", "hidden", "A"}, F: []m.F{
		{Name: "a", D: d1, Omit: false, Host: nil},
	}}
}

func view2(x *Sub) *m.G {
	g := m.R()
	if x.hidden != 0 && x.hidden != 9 {
		g.Dirty = true
	}
	g.Kids = append(g.Kids, view1(&x.A))
	return g
}

func fill2(g *m.G, x *Sub) {
	x.hidden = 9
	fill1(g.Kids[0], &x.A)
}

func init() { *d3 = m.D{K: m.Ptr, Elem: d2} }

func view3(x **Sub) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view2(*x)
}

func fill3(g *m.G, x **Sub) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(Sub)
	fill2(g, *x)
}

func init() { *d4 = m.D{K: m.Slice, Elem: d2} }

func view4(x *[]Sub) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view2(&(*x)[i]))
	}
	return g
}

func fill4(g *m.G, x *[]Sub) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]Sub, len(g.Kids))
		for i := range g.Kids {
			fill2(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d5 = m.D{K: m.Map, Key: d6, Elem: d2, Omit: false} }

func view5(x *map[string]Sub) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view6(&k), view2(&e))
	}
	return g
}

func fill5(g *m.G, x *map[string]Sub) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]Sub)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e Sub
			fill6(g.Kids[i], &k)
			fill2(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d6 = m.D{K: m.Str, Bits: 0} }

func view6(x *string) *m.G {
	return m.S(string(*x))
}

func fill6(g *m.G, x *string) {
	*x = string(g.S)
}
