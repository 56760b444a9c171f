// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)
var d7 = new(m.D)
var d8 = new(m.D)
var d9 = new(m.D)
var d10 = new(m.D)
var d11 = new(m.D)
var d12 = new(m.D)
var d13 = new(m.D)
var d14 = new(m.D)
var d15 = new(m.D)
var d16 = new(m.D)
var d17 = new(m.D)
var d18 = new(m.D)
var d19 = new(m.D)
var d20 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{
		{Name: "A", D: d1, Omit: false, Host: nil},
		{Name: "P", D: d2, Omit: false, Host: nil},
		{Name: "L", D: d3, Omit: false, Host: nil},
		{Name: "LP", D: d4, Omit: false, Host: nil},
		{Name: "M", D: d5, Omit: false, Host: nil},
		{Name: "AR", D: d6, Omit: false, Host: nil},
		{Name: "B", D: d7, Omit: false, Host: nil},
		{Name: "BP", D: d8, Omit: false, Host: nil},
		{Name: "S", D: d9, Omit: false, Host: nil},
		{Name: "MA", D: d10, Omit: false, Host: nil},
		{Name: "MP", D: d11, Omit: false, Host: nil},
		{Name: "ML", D: d12, Omit: false, Host: nil},
		{Name: "MLP", D: d13, Omit: false, Host: nil},
		{Name: "MM", D: d14, Omit: false, Host: nil},
		{Name: "MAR", D: d15, Omit: false, Host: nil},
		{Name: "PA", D: d16, Omit: false, Host: nil},
		{Name: "PP", D: d17, Omit: false, Host: nil},
		{Name: "PL", D: d18, Omit: false, Host: nil},
		{Name: "PM", D: d19, Omit: false, Host: nil},
		{Name: "PAR", D: d20, Omit: false, Host: nil},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view1(&x.A))
	g.Kids = append(g.Kids, view2(&x.P))
	g.Kids = append(g.Kids, view3(&x.L))
	g.Kids = append(g.Kids, view4(&x.LP))
	g.Kids = append(g.Kids, view5(&x.M))
	g.Kids = append(g.Kids, view6(&x.AR))
	g.Kids = append(g.Kids, view7(&x.B))
	g.Kids = append(g.Kids, view8(&x.BP))
	g.Kids = append(g.Kids, view9(&x.S))
	g.Kids = append(g.Kids, view10(&x.MA))
	g.Kids = append(g.Kids, view11(&x.MP))
	g.Kids = append(g.Kids, view12(&x.ML))
	g.Kids = append(g.Kids, view13(&x.MLP))
	g.Kids = append(g.Kids, view14(&x.MM))
	g.Kids = append(g.Kids, view15(&x.MAR))
	g.Kids = append(g.Kids, view16(&x.PA))
	g.Kids = append(g.Kids, view17(&x.PP))
	g.Kids = append(g.Kids, view18(&x.PL))
	g.Kids = append(g.Kids, view19(&x.PM))
	g.Kids = append(g.Kids, view20(&x.PAR))
	return g
}

func fill0(g *m.G, x *T) {
	fill1(g.Kids[0], &x.A)
	fill2(g.Kids[1], &x.P)
	fill3(g.Kids[2], &x.L)
	fill4(g.Kids[3], &x.LP)
	fill5(g.Kids[4], &x.M)
	fill6(g.Kids[5], &x.AR)
	fill7(g.Kids[6], &x.B)
	fill8(g.Kids[7], &x.BP)
	fill9(g.Kids[8], &x.S)
	fill10(g.Kids[9], &x.MA)
	fill11(g.Kids[10], &x.MP)
	fill12(g.Kids[11], &x.ML)
	fill13(g.Kids[12], &x.MLP)
	fill14(g.Kids[13], &x.MM)
	fill15(g.Kids[14], &x.MAR)
	fill16(g.Kids[15], &x.PA)
	fill17(g.Kids[16], &x.PP)
	fill18(g.Kids[17], &x.PL)
	fill19(g.Kids[18], &x.PM)
	fill20(g.Kids[19], &x.PAR)
}

func init() { *d1 = *new(Raw).Desc() }

func view1(x *Raw) *m.G {
	return x.View()
}

func fill1(g *m.G, x *Raw) {
	x.Fill(g)
}

func init() { *d2 = m.D{K: m.Ptr, Elem: d1} }

func view2(x **Raw) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view1(*x)
}

func fill2(g *m.G, x **Raw) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(Raw)
	fill1(g, *x)
}

func init() { *d3 = m.D{K: m.Slice, Elem: d1} }

func view3(x *[]Raw) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view1(&(*x)[i]))
	}
	return g
}

func fill3(g *m.G, x *[]Raw) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]Raw, len(g.Kids))
		for i := range g.Kids {
			fill1(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d4 = m.D{K: m.Slice, Elem: d2} }

func view4(x *[]*Raw) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view2(&(*x)[i]))
	}
	return g
}

func fill4(g *m.G, x *[]*Raw) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]*Raw, len(g.Kids))
		for i := range g.Kids {
			fill2(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d5 = m.D{K: m.Map, Key: d9, Elem: d1, Omit: false} }

func view5(x *map[string]Raw) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view9(&k), view1(&e))
	}
	return g
}

func fill5(g *m.G, x *map[string]Raw) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]Raw)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e Raw
			fill9(g.Kids[i], &k)
			fill1(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d6 = m.D{K: m.Array, N: 2, Elem: d1} }

func view6(x *[2]Raw) *m.G {
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view1(&(*x)[i]))
	}
	return g
}

func fill6(g *m.G, x *[2]Raw) {
	for i := range g.Kids {
		fill1(g.Kids[i], &(*x)[i])
	}
}

func init() { *d7 = *new(Both).Desc() }

func view7(x *Both) *m.G {
	return x.View()
}

func fill7(g *m.G, x *Both) {
	x.Fill(g)
}

func init() { *d8 = m.D{K: m.Ptr, Elem: d7} }

func view8(x **Both) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view7(*x)
}

func fill8(g *m.G, x **Both) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(Both)
	fill7(g, *x)
}

func init() { *d9 = m.D{K: m.Str, Bits: 0} }

func view9(x *string) *m.G {
	return m.S(string(*x))
}

func fill9(g *m.G, x *string) {
	*x = string(g.S)
}

func init() { *d10 = *new(Mar).Desc() }

func view10(x *Mar) *m.G {
	return x.View()
}

func fill10(g *m.G, x *Mar) {
	x.Fill(g)
}

func init() { *d11 = m.D{K: m.Ptr, Elem: d10} }

func view11(x **Mar) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view10(*x)
}

func fill11(g *m.G, x **Mar) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(Mar)
	fill10(g, *x)
}

func init() { *d12 = m.D{K: m.Slice, Elem: d10} }

func view12(x *[]Mar) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view10(&(*x)[i]))
	}
	return g
}

func fill12(g *m.G, x *[]Mar) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]Mar, len(g.Kids))
		for i := range g.Kids {
			fill10(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d13 = m.D{K: m.Slice, Elem: d11} }

func view13(x *[]*Mar) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view11(&(*x)[i]))
	}
	return g
}

func fill13(g *m.G, x *[]*Mar) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]*Mar, len(g.Kids))
		for i := range g.Kids {
			fill11(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d14 = m.D{K: m.Map, Key: d9, Elem: d10, Omit: false} }

func view14(x *map[string]Mar) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view9(&k), view10(&e))
	}
	return g
}

func fill14(g *m.G, x *map[string]Mar) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]Mar)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e Mar
			fill9(g.Kids[i], &k)
			fill10(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d15 = m.D{K: m.Array, N: 1, Elem: d10} }

func view15(x *[1]Mar) *m.G {
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view10(&(*x)[i]))
	}
	return g
}

func fill15(g *m.G, x *[1]Mar) {
	for i := range g.Kids {
		fill10(g.Kids[i], &(*x)[i])
	}
}

func init() { *d16 = *new(PMar).Desc() }

func view16(x *PMar) *m.G {
	return x.View()
}

func fill16(g *m.G, x *PMar) {
	x.Fill(g)
}

func init() { *d17 = m.D{K: m.Ptr, Elem: d16} }

func view17(x **PMar) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view16(*x)
}

func fill17(g *m.G, x **PMar) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(PMar)
	fill16(g, *x)
}

func init() { *d18 = m.D{K: m.Slice, Elem: d16} }

func view18(x *[]PMar) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view16(&(*x)[i]))
	}
	return g
}

func fill18(g *m.G, x *[]PMar) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]PMar, len(g.Kids))
		for i := range g.Kids {
			fill16(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d19 = m.D{K: m.Map, Key: d9, Elem: d16, Omit: false} }

func view19(x *map[string]PMar) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view9(&k), view16(&e))
	}
	return g
}

func fill19(g *m.G, x *map[string]PMar) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]PMar)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e PMar
			fill9(g.Kids[i], &k)
			fill16(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d20 = m.D{K: m.Array, N: 1, Elem: d16} }

func view20(x *[1]PMar) *m.G {
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view16(&(*x)[i]))
	}
	return g
}

func fill20(g *m.G, x *[1]PMar) {
	for i := range g.Kids {
		fill16(g.Kids[i], &(*x)[i])
	}
}
