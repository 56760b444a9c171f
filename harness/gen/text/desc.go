// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)
var d7 = new(m.D)
var d8 = new(m.D)
var d9 = new(m.D)
var d10 = new(m.D)
var d11 = new(m.D)
var d12 = new(m.D)
var d13 = new(m.D)
var d14 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{
		{Name: "A", D: d1, Omit: false, Host: nil},
		{Name: "P", D: d2, Omit: false, Host: nil},
		{Name: "L", D: d3, Omit: false, Host: nil},
		{Name: "LP", D: d4, Omit: false, Host: nil},
		{Name: "AR", D: d5, Omit: false, Host: nil},
		{Name: "M", D: d6, Omit: false, Host: nil},
		{Name: "O", D: d7, Omit: false, Host: nil},
		{Name: "OP", D: d8, Omit: false, Host: nil},
		{Name: "OL", D: d9, Omit: false, Host: nil},
		{Name: "OM", D: d10, Omit: false, Host: nil},
		{Name: "N", D: d11, Omit: false, Host: nil},
		{Name: "NL", D: d12, Omit: false, Host: nil},
		{Name: "PP", D: d13, Omit: false, Host: nil},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view1(&x.A))
	g.Kids = append(g.Kids, view2(&x.P))
	g.Kids = append(g.Kids, view3(&x.L))
	g.Kids = append(g.Kids, view4(&x.LP))
	g.Kids = append(g.Kids, view5(&x.AR))
	g.Kids = append(g.Kids, view6(&x.M))
	g.Kids = append(g.Kids, view7(&x.O))
	g.Kids = append(g.Kids, view8(&x.OP))
	g.Kids = append(g.Kids, view9(&x.OL))
	g.Kids = append(g.Kids, view10(&x.OM))
	g.Kids = append(g.Kids, view11(&x.N))
	g.Kids = append(g.Kids, view12(&x.NL))
	g.Kids = append(g.Kids, view13(&x.PP))
	return g
}

func fill0(g *m.G, x *T) {
	fill1(g.Kids[0], &x.A)
	fill2(g.Kids[1], &x.P)
	fill3(g.Kids[2], &x.L)
	fill4(g.Kids[3], &x.LP)
	fill5(g.Kids[4], &x.AR)
	fill6(g.Kids[5], &x.M)
	fill7(g.Kids[6], &x.O)
	fill8(g.Kids[7], &x.OP)
	fill9(g.Kids[8], &x.OL)
	fill10(g.Kids[9], &x.OM)
	fill11(g.Kids[10], &x.N)
	fill12(g.Kids[11], &x.NL)
	fill13(g.Kids[12], &x.PP)
}

func init() { *d1 = *new(Txt).Desc() }

func view1(x *Txt) *m.G {
	return x.View()
}

func fill1(g *m.G, x *Txt) {
	x.Fill(g)
}

func init() { *d2 = m.D{K: m.Ptr, Elem: d1} }

func view2(x **Txt) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view1(*x)
}

func fill2(g *m.G, x **Txt) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(Txt)
	fill1(g, *x)
}

func init() { *d3 = m.D{K: m.Slice, Elem: d1} }

func view3(x *[]Txt) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view1(&(*x)[i]))
	}
	return g
}

func fill3(g *m.G, x *[]Txt) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]Txt, len(g.Kids))
		for i := range g.Kids {
			fill1(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d4 = m.D{K: m.Slice, Elem: d2} }

func view4(x *[]*Txt) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view2(&(*x)[i]))
	}
	return g
}

func fill4(g *m.G, x *[]*Txt) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]*Txt, len(g.Kids))
		for i := range g.Kids {
			fill2(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d5 = m.D{K: m.Array, N: 2, Elem: d1} }

func view5(x *[2]Txt) *m.G {
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view1(&(*x)[i]))
	}
	return g
}

func fill5(g *m.G, x *[2]Txt) {
	for i := range g.Kids {
		fill1(g.Kids[i], &(*x)[i])
	}
}

func init() { *d6 = m.D{K: m.Map, Key: d14, Elem: d1, Omit: false} }

func view6(x *map[string]Txt) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view14(&k), view1(&e))
	}
	return g
}

func fill6(g *m.G, x *map[string]Txt) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]Txt)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e Txt
			fill14(g.Kids[i], &k)
			fill1(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d7 = *new(Own).Desc() }

func view7(x *Own) *m.G {
	return x.View()
}

func fill7(g *m.G, x *Own) {
	x.Fill(g)
}

func init() { *d8 = m.D{K: m.Ptr, Elem: d7} }

func view8(x **Own) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view7(*x)
}

func fill8(g *m.G, x **Own) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(Own)
	fill7(g, *x)
}

func init() { *d9 = m.D{K: m.Slice, Elem: d7} }

func view9(x *[]Own) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view7(&(*x)[i]))
	}
	return g
}

func fill9(g *m.G, x *[]Own) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]Own, len(g.Kids))
		for i := range g.Kids {
			fill7(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d10 = m.D{K: m.Map, Key: d14, Elem: d8, Omit: false} }

func view10(x *map[string]*Own) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view14(&k), view8(&e))
	}
	return g
}

func fill10(g *m.G, x *map[string]*Own) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]*Own)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e *Own
			fill14(g.Kids[i], &k)
			fill8(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d11 = *new(Num).Desc() }

func view11(x *Num) *m.G {
	return x.View()
}

func fill11(g *m.G, x *Num) {
	x.Fill(g)
}

func init() { *d12 = m.D{K: m.Slice, Elem: d11} }

func view12(x *[]Num) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view11(&(*x)[i]))
	}
	return g
}

func fill12(g *m.G, x *[]Num) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]Num, len(g.Kids))
		for i := range g.Kids {
			fill11(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d13 = m.D{K: m.Ptr, Elem: d2} }

func view13(x ***Txt) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view2(*x)
}

func fill13(g *m.G, x ***Txt) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(*Txt)
	fill2(g, *x)
}

func init() { *d14 = m.D{K: m.Str, Bits: 0} }

func view14(x *string) *m.G {
	return m.S(string(*x))
}

func fill14(g *m.G, x *string) {
	*x = string(g.S)
}
