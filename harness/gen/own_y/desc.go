// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)
var d7 = new(m.D)
var d8 = new(m.D)
var d9 = new(m.D)
var d10 = new(m.D)
var d11 = new(m.D)
var d12 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{
		{Name: "A", D: d1, Omit: false, Host: nil},
		{Name: "P", D: d2, Omit: false, Host: nil},
		{Name: "L", D: d3, Omit: false, Host: nil},
		{Name: "LP", D: d4, Omit: false, Host: nil},
		{Name: "M", D: d5, Omit: false, Host: nil},
		{Name: "AR", D: d6, Omit: false, Host: nil},
		{Name: "S", D: d7, Omit: false, Host: nil},
		{Name: "PA", D: d8, Omit: false, Host: nil},
		{Name: "PP", D: d9, Omit: false, Host: nil},
		{Name: "PL", D: d10, Omit: false, Host: nil},
		{Name: "PM", D: d11, Omit: false, Host: nil},
		{Name: "PAR", D: d12, Omit: false, Host: nil},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view1(&x.A))
	g.Kids = append(g.Kids, view2(&x.P))
	g.Kids = append(g.Kids, view3(&x.L))
	g.Kids = append(g.Kids, view4(&x.LP))
	g.Kids = append(g.Kids, view5(&x.M))
	g.Kids = append(g.Kids, view6(&x.AR))
	g.Kids = append(g.Kids, view7(&x.S))
	g.Kids = append(g.Kids, view8(&x.PA))
	g.Kids = append(g.Kids, view9(&x.PP))
	g.Kids = append(g.Kids, view10(&x.PL))
	g.Kids = append(g.Kids, view11(&x.PM))
	g.Kids = append(g.Kids, view12(&x.PAR))
	return g
}

func fill0(g *m.G, x *T) {
	fill1(g.Kids[0], &x.A)
	fill2(g.Kids[1], &x.P)
	fill3(g.Kids[2], &x.L)
	fill4(g.Kids[3], &x.LP)
	fill5(g.Kids[4], &x.M)
	fill6(g.Kids[5], &x.AR)
	fill7(g.Kids[6], &x.S)
	fill8(g.Kids[7], &x.PA)
	fill9(g.Kids[8], &x.PP)
	fill10(g.Kids[9], &x.PL)
	fill11(g.Kids[10], &x.PM)
	fill12(g.Kids[11], &x.PAR)
}

func init() { *d1 = *new(Raw).Desc() }

func view1(x *Raw) *m.G {
	return x.View()
}

func fill1(g *m.G, x *Raw) {
	x.Fill(g)
}

func init() { *d2 = m.D{K: m.Ptr, Elem: d1} }

func view2(x **Raw) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view1(*x)
}

func fill2(g *m.G, x **Raw) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(Raw)
	fill1(g, *x)
}

func init() { *d3 = m.D{K: m.Slice, Elem: d1} }

func view3(x *[]Raw) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view1(&(*x)[i]))
	}
	return g
}

func fill3(g *m.G, x *[]Raw) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]Raw, len(g.Kids))
		for i := range g.Kids {
			fill1(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d4 = m.D{K: m.Slice, Elem: d2} }

func view4(x *[]*Raw) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view2(&(*x)[i]))
	}
	return g
}

func fill4(g *m.G, x *[]*Raw) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]*Raw, len(g.Kids))
		for i := range g.Kids {
			fill2(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d5 = m.D{K: m.Map, Key: d7, Elem: d1, Omit: false} }

func view5(x *map[string]Raw) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view7(&k), view1(&e))
	}
	return g
}

func fill5(g *m.G, x *map[string]Raw) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]Raw)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e Raw
			fill7(g.Kids[i], &k)
			fill1(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d6 = m.D{K: m.Array, N: 2, Elem: d1} }

func view6(x *[2]Raw) *m.G {
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view1(&(*x)[i]))
	}
	return g
}

func fill6(g *m.G, x *[2]Raw) {
	for i := range g.Kids {
		fill1(g.Kids[i], &(*x)[i])
	}
}

func init() { *d7 = m.D{K: m.Str, Bits: 0} }

func view7(x *string) *m.G {
	return m.S(string(*x))
}

func fill7(g *m.G, x *string) {
	*x = string(g.S)
}

func init() { *d8 = *new(PRaw).Desc() }

func view8(x *PRaw) *m.G {
	return x.View()
}

func fill8(g *m.G, x *PRaw) {
	x.Fill(g)
}

func init() { *d9 = m.D{K: m.Ptr, Elem: d8} }

func view9(x **PRaw) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view8(*x)
}

func fill9(g *m.G, x **PRaw) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(PRaw)
	fill8(g, *x)
}

func init() { *d10 = m.D{K: m.Slice, Elem: d8} }

func view10(x *[]PRaw) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view8(&(*x)[i]))
	}
	return g
}

func fill10(g *m.G, x *[]PRaw) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]PRaw, len(g.Kids))
		for i := range g.Kids {
			fill8(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d11 = m.D{K: m.Map, Key: d7, Elem: d8, Omit: false} }

func view11(x *map[string]PRaw) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view7(&k), view8(&e))
	}
	return g
}

func fill11(g *m.G, x *map[string]PRaw) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]PRaw)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e PRaw
			fill7(g.Kids[i], &k)
			fill8(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d12 = m.D{K: m.Array, N: 1, Elem: d8} }

func view12(x *[1]PRaw) *m.G {
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view8(&(*x)[i]))
	}
	return g
}

func fill12(g *m.G, x *[1]PRaw) {
	for i := range g.Kids {
		fill8(g.Kids[i], &(*x)[i])
	}
}
