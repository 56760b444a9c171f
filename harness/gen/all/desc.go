// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)
var d7 = new(m.D)
var d8 = new(m.D)
var d9 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: true, Hosts: 0, Unknown: []string{"zz", "Name", "Sub", "Ptr", "List", "Next", "M", "ID"}, F: []m.F{
		{Name: "name", D: d1, Omit: true, Host: nil},
		{Name: "sub", D: d2, Omit: true, Host: nil},
		{Name: "ptr", D: d3, Omit: true, Host: nil},
		{Name: "list", D: d4, Omit: true, Host: nil},
		{Name: "next", D: d5, Omit: true, Host: nil},
		{Name: "m", D: d6, Omit: true, Host: nil},
		{Name: "id", D: d7, Omit: true, Host: nil},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view1(&x.Name))
	g.Kids = append(g.Kids, view2(&x.Sub))
	g.Kids = append(g.Kids, view3(&x.Ptr))
	g.Kids = append(g.Kids, view4(&x.List))
	g.Kids = append(g.Kids, view5(&x.Next))
	g.Kids = append(g.Kids, view6(&x.M))
	g.Kids = append(g.Kids, view7(&x.Base.ID))
	return g
}

func fill0(g *m.G, x *T) {
	fill1(g.Kids[0], &x.Name)
	fill2(g.Kids[1], &x.Sub)
	fill3(g.Kids[2], &x.Ptr)
	fill4(g.Kids[3], &x.List)
	fill5(g.Kids[4], &x.Next)
	fill6(g.Kids[5], &x.M)
	fill7(g.Kids[6], &x.Base.ID)
}

func init() { *d1 = m.D{K: m.Str, Bits: 0} }

func view1(x *string) *m.G {
	return m.S(string(*x))
}

func fill1(g *m.G, x *string) {
	*x = string(g.S)
}

func init() {
	*d2 = m.D{K: m.Struct, Strict: true, Hosts: 1, Unknown: []string{"zz", "V", "ID"}, F: []m.F{
		{Name: "v", D: d8, Omit: true, Host: nil},
		{Name: "id", D: d7, Omit: true, Host: []int{0}},
	}}
}

func view2(x *Sub) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view8(&x.V))
	if x.Base != nil {
		g.Kids = append(g.Kids, view7(&x.Base.ID))
	} else {
		g.Kids = append(g.Kids, m.Zero(d7))
	}
	return g
}

func fill2(g *m.G, x *Sub) {
	if g.Hosts[0] {
		x.Base = new(Base)
	}
	fill8(g.Kids[0], &x.V)
	if g.Hosts[0] {
		fill7(g.Kids[1], &x.Base.ID)
	}
}

func init() { *d3 = m.D{K: m.Ptr, Elem: d2} }

func view3(x **Sub) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view2(*x)
}

func fill3(g *m.G, x **Sub) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(Sub)
	fill2(g, *x)
}

func init() { *d4 = m.D{K: m.Slice, Elem: d3} }

func view4(x *[]*Sub) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view3(&(*x)[i]))
	}
	return g
}

func fill4(g *m.G, x *[]*Sub) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]*Sub, len(g.Kids))
		for i := range g.Kids {
			fill3(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d5 = m.D{K: m.Ptr, Elem: d0} }

func view5(x **T) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view0(*x)
}

func fill5(g *m.G, x **T) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(T)
	fill0(g, *x)
}

func init() { *d6 = m.D{K: m.Map, Key: d1, Elem: d9, Omit: true} }

func view6(x *map[string]Base) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view1(&k), view9(&e))
	}
	return g
}

func fill6(g *m.G, x *map[string]Base) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]Base)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e Base
			fill1(g.Kids[i], &k)
			fill9(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d7 = m.D{K: m.Int, Bits: 0} }

func view7(x *int) *m.G {
	return m.I(int64(*x))
}

func fill7(g *m.G, x *int) {
	*x = int(g.I)
}

func init() { *d8 = m.D{K: m.Slice, Elem: d7} }

func view8(x *[]int) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view7(&(*x)[i]))
	}
	return g
}

func fill8(g *m.G, x *[]int) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]int, len(g.Kids))
		for i := range g.Kids {
			fill7(g.Kids[i], &(*x)[i])
		}
	}
}

func init() {
	*d9 = m.D{K: m.Struct, Strict: true, Hosts: 0, Unknown: []string{"zz", "ID"}, F: []m.F{
		{Name: "id", D: d7, Omit: true, Host: nil},
	}}
}

func view9(x *Base) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view7(&x.ID))
	return g
}

func fill9(g *m.G, x *Base) {
	fill7(g.Kids[0], &x.ID)
}
