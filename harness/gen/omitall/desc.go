// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)
var d7 = new(m.D)
var d8 = new(m.D)
var d9 = new(m.D)
var d10 = new(m.D)
var d11 = new(m.D)
var d12 = new(m.D)
var d13 = new(m.D)
var d14 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz", "F"}, F: []m.F{
		{Name: "S", D: d1, Omit: true, Host: nil},
		{Name: "U", D: d2, Omit: true, Host: nil},
		{Name: "f", D: d3, Omit: true, Host: nil},
		{Name: "B", D: d4, Omit: true, Host: nil},
		{Name: "L", D: d5, Omit: true, Host: nil},
		{Name: "M", D: d6, Omit: true, Host: nil},
		{Name: "P", D: d7, Omit: true, Host: nil},
		{Name: "V", D: d8, Omit: true, Host: nil},
		{Name: "N", D: d9, Omit: true, Host: nil},
		{Name: "PP", D: d10, Omit: true, Host: nil},
		{Name: "Y", D: d11, Omit: true, Host: nil},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view1(&x.S))
	g.Kids = append(g.Kids, view2(&x.U))
	g.Kids = append(g.Kids, view3(&x.F))
	g.Kids = append(g.Kids, view4(&x.B))
	g.Kids = append(g.Kids, view5(&x.L))
	g.Kids = append(g.Kids, view6(&x.M))
	g.Kids = append(g.Kids, view7(&x.P))
	g.Kids = append(g.Kids, view8(&x.V))
	g.Kids = append(g.Kids, view9(&x.N))
	g.Kids = append(g.Kids, view10(&x.PP))
	g.Kids = append(g.Kids, view11(&x.Y))
	return g
}

func fill0(g *m.G, x *T) {
	fill1(g.Kids[0], &x.S)
	fill2(g.Kids[1], &x.U)
	fill3(g.Kids[2], &x.F)
	fill4(g.Kids[3], &x.B)
	fill5(g.Kids[4], &x.L)
	fill6(g.Kids[5], &x.M)
	fill7(g.Kids[6], &x.P)
	fill8(g.Kids[7], &x.V)
	fill9(g.Kids[8], &x.N)
	fill10(g.Kids[9], &x.PP)
	fill11(g.Kids[10], &x.Y)
}

func init() { *d1 = m.D{K: m.Str, Bits: 0} }

func view1(x *string) *m.G {
	return m.S(string(*x))
}

func fill1(g *m.G, x *string) {
	*x = string(g.S)
}

func init() { *d2 = m.D{K: m.Uint, Bits: 64} }

func view2(x *uint64) *m.G {
	return m.U(uint64(*x))
}

func fill2(g *m.G, x *uint64) {
	*x = uint64(g.U)
}

func init() { *d3 = m.D{K: m.Float, Bits: 32} }

func view3(x *float32) *m.G {
	return m.Fl(float64(*x))
}

func fill3(g *m.G, x *float32) {
	*x = float32(g.F)
}

func init() { *d4 = m.D{K: m.Bool, Bits: 0} }

func view4(x *bool) *m.G {
	return m.B(bool(*x))
}

func fill4(g *m.G, x *bool) {
	*x = bool(g.B)
}

func init() { *d5 = m.D{K: m.Slice, Elem: d8} }

func view5(x *[]Sub) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view8(&(*x)[i]))
	}
	return g
}

func fill5(g *m.G, x *[]Sub) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]Sub, len(g.Kids))
		for i := range g.Kids {
			fill8(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d6 = m.D{K: m.Map, Key: d1, Elem: d8, Omit: true} }

func view6(x *map[string]Sub) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view1(&k), view8(&e))
	}
	return g
}

func fill6(g *m.G, x *map[string]Sub) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]Sub)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e Sub
			fill1(g.Kids[i], &k)
			fill8(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d7 = m.D{K: m.Ptr, Elem: d8} }

func view7(x **Sub) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view8(*x)
}

func fill7(g *m.G, x **Sub) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(Sub)
	fill8(g, *x)
}

func init() {
	*d8 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz", "B"}, F: []m.F{
		{Name: "A", D: d12, Omit: true, Host: nil},
		{Name: "b", D: d13, Omit: true, Host: nil},
	}}
}

func view8(x *Sub) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view12(&x.A))
	g.Kids = append(g.Kids, view13(&x.B))
	return g
}

func fill8(g *m.G, x *Sub) {
	fill12(g.Kids[0], &x.A)
	fill13(g.Kids[1], &x.B)
}

func init() { *d9 = m.D{K: m.Map, Key: d1, Elem: d14, Omit: true} }

func view9(x *map[string]map[string]int) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view1(&k), view14(&e))
	}
	return g
}

func fill9(g *m.G, x *map[string]map[string]int) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]map[string]int)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e map[string]int
			fill1(g.Kids[i], &k)
			fill14(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d10 = m.D{K: m.Ptr, Elem: d14} }

func view10(x **map[string]int) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view14(*x)
}

func fill10(g *m.G, x **map[string]int) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(map[string]int)
	fill14(g, *x)
}

func init() { *d11 = m.D{K: m.Any} }

func view11(x *any) *m.G {
	return m.A(*x)
}

func fill11(g *m.G, x *any) {
	*x = nil
}

func init() { *d12 = m.D{K: m.Int, Bits: 0} }

func view12(x *int) *m.G {
	return m.I(int64(*x))
}

func fill12(g *m.G, x *int) {
	*x = int(g.I)
}

func init() { *d13 = m.D{K: m.Slice, Elem: d1} }

func view13(x *[]string) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view1(&(*x)[i]))
	}
	return g
}

func fill13(g *m.G, x *[]string) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]string, len(g.Kids))
		for i := range g.Kids {
			fill1(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d14 = m.D{K: m.Map, Key: d1, Elem: d12, Omit: true} }

func view14(x *map[string]int) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view1(&k), view12(&e))
	}
	return g
}

func fill14(g *m.G, x *map[string]int) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]int)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e int
			fill1(g.Kids[i], &k)
			fill12(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}
