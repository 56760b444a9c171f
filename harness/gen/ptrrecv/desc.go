// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)
var d7 = new(m.D)
var d8 = new(m.D)
var d9 = new(m.D)
var d10 = new(m.D)
var d11 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{
		{Name: "V", D: d1, Omit: false, Host: nil},
		{Name: "P", D: d2, Omit: false, Host: nil},
		{Name: "L", D: d3, Omit: false, Host: nil},
		{Name: "LP", D: d4, Omit: false, Host: nil},
		{Name: "A", D: d5, Omit: false, Host: nil},
		{Name: "M", D: d6, Omit: false, Host: nil},
		{Name: "MP", D: d7, Omit: false, Host: nil},
		{Name: "Next", D: d8, Omit: false, Host: nil},
		{Name: "PP", D: d9, Omit: false, Host: nil},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view1(&x.V))
	g.Kids = append(g.Kids, view2(&x.P))
	g.Kids = append(g.Kids, view3(&x.L))
	g.Kids = append(g.Kids, view4(&x.LP))
	g.Kids = append(g.Kids, view5(&x.A))
	g.Kids = append(g.Kids, view6(&x.M))
	g.Kids = append(g.Kids, view7(&x.MP))
	g.Kids = append(g.Kids, view8(&x.Next))
	g.Kids = append(g.Kids, view9(&x.PP))
	return g
}

func fill0(g *m.G, x *T) {
	fill1(g.Kids[0], &x.V)
	fill2(g.Kids[1], &x.P)
	fill3(g.Kids[2], &x.L)
	fill4(g.Kids[3], &x.LP)
	fill5(g.Kids[4], &x.A)
	fill6(g.Kids[5], &x.M)
	fill7(g.Kids[6], &x.MP)
	fill8(g.Kids[7], &x.Next)
	fill9(g.Kids[8], &x.PP)
}

func init() {
	*d1 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz", "A"}, F: []m.F{
		{Name: "a", D: d10, Omit: false, Host: nil},
	}}
}

func view1(x *Sub) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view10(&x.A))
	return g
}

func fill1(g *m.G, x *Sub) {
	fill10(g.Kids[0], &x.A)
}

func init() { *d2 = m.D{K: m.Ptr, Elem: d1} }

func view2(x **Sub) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view1(*x)
}

func fill2(g *m.G, x **Sub) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(Sub)
	fill1(g, *x)
}

func init() { *d3 = m.D{K: m.Slice, Elem: d1} }

func view3(x *[]Sub) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view1(&(*x)[i]))
	}
	return g
}

func fill3(g *m.G, x *[]Sub) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]Sub, len(g.Kids))
		for i := range g.Kids {
			fill1(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d4 = m.D{K: m.Slice, Elem: d2} }

func view4(x *[]*Sub) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view2(&(*x)[i]))
	}
	return g
}

func fill4(g *m.G, x *[]*Sub) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]*Sub, len(g.Kids))
		for i := range g.Kids {
			fill2(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d5 = m.D{K: m.Array, N: 2, Elem: d1} }

func view5(x *[2]Sub) *m.G {
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view1(&(*x)[i]))
	}
	return g
}

func fill5(g *m.G, x *[2]Sub) {
	for i := range g.Kids {
		fill1(g.Kids[i], &(*x)[i])
	}
}

func init() { *d6 = m.D{K: m.Map, Key: d11, Elem: d1, Omit: false} }

func view6(x *map[string]Sub) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view11(&k), view1(&e))
	}
	return g
}

func fill6(g *m.G, x *map[string]Sub) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]Sub)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e Sub
			fill11(g.Kids[i], &k)
			fill1(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d7 = m.D{K: m.Map, Key: d11, Elem: d2, Omit: false} }

func view7(x *map[string]*Sub) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view11(&k), view2(&e))
	}
	return g
}

func fill7(g *m.G, x *map[string]*Sub) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]*Sub)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e *Sub
			fill11(g.Kids[i], &k)
			fill2(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d8 = m.D{K: m.Ptr, Elem: d0} }

func view8(x **T) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view0(*x)
}

func fill8(g *m.G, x **T) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(T)
	fill0(g, *x)
}

func init() { *d9 = m.D{K: m.Ptr, Elem: d2} }

func view9(x ***Sub) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view2(*x)
}

func fill9(g *m.G, x ***Sub) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(*Sub)
	fill2(g, *x)
}

func init() { *d10 = m.D{K: m.Int, Bits: 0} }

func view10(x *int) *m.G {
	return m.I(int64(*x))
}

func fill10(g *m.G, x *int) {
	*x = int(g.I)
}

func init() { *d11 = m.D{K: m.Str, Bits: 0} }

func view11(x *string) *m.G {
	return m.S(string(*x))
}

func fill11(g *m.G, x *string) {
	*x = string(g.S)
}
