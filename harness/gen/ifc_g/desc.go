// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)
var d7 = new(m.D)
var d8 = new(m.D)
var d9 = new(m.D)
var d10 = new(m.D)
var d11 = new(m.D)
var d12 = new(m.D)
var d13 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{
		{Name: "A", D: d1, Omit: false, Host: nil},
		{Name: "B", D: d2, Omit: false, Host: nil},
		{Name: "M", D: d3, Omit: false, Host: nil},
		{Name: "E", D: d4, Omit: false, Host: nil},
		{Name: "LA", D: d5, Omit: false, Host: nil},
		{Name: "LB", D: d6, Omit: false, Host: nil},
		{Name: "LM", D: d7, Omit: false, Host: nil},
		{Name: "LE", D: d8, Omit: false, Host: nil},
		{Name: "MA", D: d9, Omit: false, Host: nil},
		{Name: "ME", D: d10, Omit: false, Host: nil},
		{Name: "AM", D: d11, Omit: false, Host: nil},
		{Name: "PE", D: d12, Omit: false, Host: nil},
		{Name: "OA", D: d1, Omit: true, Host: nil},
		{Name: "OB", D: d2, Omit: true, Host: nil},
		{Name: "OM", D: d3, Omit: true, Host: nil},
		{Name: "OE", D: d4, Omit: true, Host: nil},
		{Name: "S", D: d13, Omit: false, Host: nil},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view1(&x.A))
	g.Kids = append(g.Kids, view2(&x.B))
	g.Kids = append(g.Kids, view3(&x.M))
	g.Kids = append(g.Kids, view4(&x.E))
	g.Kids = append(g.Kids, view5(&x.LA))
	g.Kids = append(g.Kids, view6(&x.LB))
	g.Kids = append(g.Kids, view7(&x.LM))
	g.Kids = append(g.Kids, view8(&x.LE))
	g.Kids = append(g.Kids, view9(&x.MA))
	g.Kids = append(g.Kids, view10(&x.ME))
	g.Kids = append(g.Kids, view11(&x.AM))
	g.Kids = append(g.Kids, view12(&x.PE))
	g.Kids = append(g.Kids, view1(&x.OA))
	g.Kids = append(g.Kids, view2(&x.OB))
	g.Kids = append(g.Kids, view3(&x.OM))
	g.Kids = append(g.Kids, view4(&x.OE))
	g.Kids = append(g.Kids, view13(&x.S))
	return g
}

func fill0(g *m.G, x *T) {
	fill1(g.Kids[0], &x.A)
	fill2(g.Kids[1], &x.B)
	fill3(g.Kids[2], &x.M)
	fill4(g.Kids[3], &x.E)
	fill5(g.Kids[4], &x.LA)
	fill6(g.Kids[5], &x.LB)
	fill7(g.Kids[6], &x.LM)
	fill8(g.Kids[7], &x.LE)
	fill9(g.Kids[8], &x.MA)
	fill10(g.Kids[9], &x.ME)
	fill11(g.Kids[10], &x.AM)
	fill12(g.Kids[11], &x.PE)
	fill1(g.Kids[12], &x.OA)
	fill2(g.Kids[13], &x.OB)
	fill3(g.Kids[14], &x.OM)
	fill4(g.Kids[15], &x.OE)
	fill13(g.Kids[16], &x.S)
}

func init() { *d1 = m.D{K: m.Any, Pre: "<"} }

func view1(x *A) *m.G {
	if h, ok := (*x).(*HeldA); ok {
		return m.S(h.s)
	}
	return m.A(*x)
}

func fill1(g *m.G, x *A) {
	*x = nil
	if g.K != m.GNil {
		*x = &HeldA{g.S}
	}
}

func init() { *d2 = m.D{K: m.Any, Pre: "<"} }

func view2(x *B) *m.G {
	if h, ok := (*x).(*HeldB); ok {
		return m.S(h.s)
	}
	return m.A(*x)
}

func fill2(g *m.G, x *B) {
	*x = nil
	if g.K != m.GNil {
		*x = &HeldB{g.S}
	}
}

func init() { *d3 = m.D{K: m.Iface, Pre: "<"} }

func view3(x *M) *m.G {
	if *x == nil {
		return m.Nil()
	}
	if h, ok := (*x).(*HeldM); ok {
		return m.S(h.s)
	}
	return &m.G{K: -1}
}

func fill3(g *m.G, x *M) {
	*x = nil
	if g.K != m.GNil {
		*x = &HeldM{g.S}
	}
}

func init() { *d4 = m.D{K: m.Iface, Pre: "<"} }

func view4(x *E) *m.G {
	if *x == nil {
		return m.Nil()
	}
	if h, ok := (*x).(*HeldE); ok {
		return m.S(h.s)
	}
	return &m.G{K: -1}
}

func fill4(g *m.G, x *E) {
	*x = nil
	if g.K != m.GNil {
		*x = &HeldE{g.S}
	}
}

func init() { *d5 = m.D{K: m.Slice, Elem: d1} }

func view5(x *[]A) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view1(&(*x)[i]))
	}
	return g
}

func fill5(g *m.G, x *[]A) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]A, len(g.Kids))
		for i := range g.Kids {
			fill1(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d6 = m.D{K: m.Slice, Elem: d2} }

func view6(x *[]B) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view2(&(*x)[i]))
	}
	return g
}

func fill6(g *m.G, x *[]B) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]B, len(g.Kids))
		for i := range g.Kids {
			fill2(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d7 = m.D{K: m.Slice, Elem: d3} }

func view7(x *[]M) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view3(&(*x)[i]))
	}
	return g
}

func fill7(g *m.G, x *[]M) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]M, len(g.Kids))
		for i := range g.Kids {
			fill3(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d8 = m.D{K: m.Slice, Elem: d4} }

func view8(x *[]E) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view4(&(*x)[i]))
	}
	return g
}

func fill8(g *m.G, x *[]E) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]E, len(g.Kids))
		for i := range g.Kids {
			fill4(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d9 = m.D{K: m.Map, Key: d13, Elem: d1, Omit: false} }

func view9(x *map[string]A) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view13(&k), view1(&e))
	}
	return g
}

func fill9(g *m.G, x *map[string]A) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]A)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e A
			fill13(g.Kids[i], &k)
			fill1(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d10 = m.D{K: m.Map, Key: d13, Elem: d4, Omit: false} }

func view10(x *map[string]E) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view13(&k), view4(&e))
	}
	return g
}

func fill10(g *m.G, x *map[string]E) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]E)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e E
			fill13(g.Kids[i], &k)
			fill4(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d11 = m.D{K: m.Array, N: 1, Elem: d3} }

func view11(x *[1]M) *m.G {
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view3(&(*x)[i]))
	}
	return g
}

func fill11(g *m.G, x *[1]M) {
	for i := range g.Kids {
		fill3(g.Kids[i], &(*x)[i])
	}
}

func init() { *d12 = m.D{K: m.Ptr, Elem: d4} }

func view12(x **E) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view4(*x)
}

func fill12(g *m.G, x **E) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(E)
	fill4(g, *x)
}

func init() { *d13 = m.D{K: m.Str, Bits: 0} }

func view13(x *string) *m.G {
	return m.S(string(*x))
}

func fill13(g *m.G, x *string) {
	*x = string(g.S)
}
