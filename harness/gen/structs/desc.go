// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)
var d7 = new(m.D)
var d8 = new(m.D)
var d9 = new(m.D)
var d10 = new(m.D)
var d11 = new(m.D)
var d12 = new(m.D)
var d13 = new(m.D)
var d14 = new(m.D)
var d15 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz", "Ptr", "Anon"}, F: []m.F{
		{Name: "One", D: d1, Omit: false, Host: nil},
		{Name: "ptr", D: d2, Omit: false, Host: nil},
		{Name: "List", D: d3, Omit: false, Host: nil},
		{Name: "Ptrs", D: d4, Omit: false, Host: nil},
		{Name: "Arr", D: d5, Omit: false, Host: nil},
		{Name: "Map", D: d6, Omit: false, Host: nil},
		{Name: "MPtr", D: d7, Omit: false, Host: nil},
		{Name: "anon", D: d8, Omit: false, Host: nil},
		{Name: "Other", D: d9, Omit: false, Host: nil},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view1(&x.One))
	g.Kids = append(g.Kids, view2(&x.Ptr))
	g.Kids = append(g.Kids, view3(&x.List))
	g.Kids = append(g.Kids, view4(&x.Ptrs))
	g.Kids = append(g.Kids, view5(&x.Arr))
	g.Kids = append(g.Kids, view6(&x.Map))
	g.Kids = append(g.Kids, view7(&x.MPtr))
	g.Kids = append(g.Kids, view8(&x.Anon))
	g.Kids = append(g.Kids, view9(&x.Other))
	return g
}

func fill0(g *m.G, x *T) {
	fill1(g.Kids[0], &x.One)
	fill2(g.Kids[1], &x.Ptr)
	fill3(g.Kids[2], &x.List)
	fill4(g.Kids[3], &x.Ptrs)
	fill5(g.Kids[4], &x.Arr)
	fill6(g.Kids[5], &x.Map)
	fill7(g.Kids[6], &x.MPtr)
	fill8(g.Kids[7], &x.Anon)
	fill9(g.Kids[8], &x.Other)
}

func init() {
	*d1 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz", "Name", "Point"}, F: []m.F{
		{Name: "name", D: d10, Omit: false, Host: nil},
		{Name: "point", D: d11, Omit: false, Host: nil},
	}}
}

func view1(x *Inner) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view10(&x.Name))
	g.Kids = append(g.Kids, view11(&x.Point))
	return g
}

func fill1(g *m.G, x *Inner) {
	fill10(g.Kids[0], &x.Name)
	fill11(g.Kids[1], &x.Point)
}

func init() { *d2 = m.D{K: m.Ptr, Elem: d1} }

func view2(x **Inner) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view1(*x)
}

func fill2(g *m.G, x **Inner) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(Inner)
	fill1(g, *x)
}

func init() { *d3 = m.D{K: m.Slice, Elem: d11} }

func view3(x *[]Point) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view11(&(*x)[i]))
	}
	return g
}

func fill3(g *m.G, x *[]Point) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]Point, len(g.Kids))
		for i := range g.Kids {
			fill11(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d4 = m.D{K: m.Slice, Elem: d12} }

func view4(x *[]*Point) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view12(&(*x)[i]))
	}
	return g
}

func fill4(g *m.G, x *[]*Point) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]*Point, len(g.Kids))
		for i := range g.Kids {
			fill12(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d5 = m.D{K: m.Array, N: 2, Elem: d11} }

func view5(x *[2]Point) *m.G {
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view11(&(*x)[i]))
	}
	return g
}

func fill5(g *m.G, x *[2]Point) {
	for i := range g.Kids {
		fill11(g.Kids[i], &(*x)[i])
	}
}

func init() { *d6 = m.D{K: m.Map, Key: d10, Elem: d1, Omit: false} }

func view6(x *map[string]Inner) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view10(&k), view1(&e))
	}
	return g
}

func fill6(g *m.G, x *map[string]Inner) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]Inner)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e Inner
			fill10(g.Kids[i], &k)
			fill1(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d7 = m.D{K: m.Map, Key: d10, Elem: d12, Omit: false} }

func view7(x *map[string]*Point) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view10(&k), view12(&e))
	}
	return g
}

func fill7(g *m.G, x *map[string]*Point) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]*Point)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e *Point
			fill10(g.Kids[i], &k)
			fill12(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() {
	*d8 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz", "A"}, F: []m.F{
		{Name: "a", D: d13, Omit: false, Host: nil},
		{Name: "B", D: d14, Omit: false, Host: nil},
	}}
}

func view8(x *struct {
	A int "yaml:\"a\""
	B struct{ C []string }
}) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view13(&x.A))
	g.Kids = append(g.Kids, view14(&x.B))
	return g
}

func fill8(g *m.G, x *struct {
	A int "yaml:\"a\""
	B struct{ C []string }
}) {
	fill13(g.Kids[0], &x.A)
	fill14(g.Kids[1], &x.B)
}

func init() {
	*d9 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{
		{Name: "A", D: d10, Omit: false, Host: nil},
	}}
}

func view9(x *struct{ A string }) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view10(&x.A))
	return g
}

func fill9(g *m.G, x *struct{ A string }) {
	fill10(g.Kids[0], &x.A)
}

func init() { *d10 = m.D{K: m.Str, Bits: 0} }

func view10(x *string) *m.G {
	return m.S(string(*x))
}

func fill10(g *m.G, x *string) {
	*x = string(g.S)
}

func init() {
	*d11 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{
		{Name: "X", D: d13, Omit: false, Host: nil},
		{Name: "Y", D: d13, Omit: false, Host: nil},
	}}
}

func view11(x *Point) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view13(&x.X))
	g.Kids = append(g.Kids, view13(&x.Y))
	return g
}

func fill11(g *m.G, x *Point) {
	fill13(g.Kids[0], &x.X)
	fill13(g.Kids[1], &x.Y)
}

func init() { *d12 = m.D{K: m.Ptr, Elem: d11} }

func view12(x **Point) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view11(*x)
}

func fill12(g *m.G, x **Point) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(Point)
	fill11(g, *x)
}

func init() { *d13 = m.D{K: m.Int, Bits: 0} }

func view13(x *int) *m.G {
	return m.I(int64(*x))
}

func fill13(g *m.G, x *int) {
	*x = int(g.I)
}

func init() {
	*d14 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{
		{Name: "C", D: d15, Omit: false, Host: nil},
	}}
}

func view14(x *struct{ C []string }) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view15(&x.C))
	return g
}

func fill14(g *m.G, x *struct{ C []string }) {
	fill15(g.Kids[0], &x.C)
}

func init() { *d15 = m.D{K: m.Slice, Elem: d10} }

func view15(x *[]string) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view10(&(*x)[i]))
	}
	return g
}

func fill15(g *m.G, x *[]string) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]string, len(g.Kids))
		for i := range g.Kids {
			fill10(g.Kids[i], &(*x)[i])
		}
	}
}
