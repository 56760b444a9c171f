// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	"verif/genx/a/shape"
	shape1 "verif/genx/b/shape"

	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)
var d7 = new(m.D)
var d8 = new(m.D)
var d9 = new(m.D)
var d10 = new(m.D)
var d11 = new(m.D)
var d12 = new(m.D)
var d13 = new(m.D)
var d14 = new(m.D)
var d15 = new(m.D)
var d16 = new(m.D)
var d17 = new(m.D)
var d18 = new(m.D)
var d19 = new(m.D)
var d20 = new(m.D)
var d21 = new(m.D)
var d22 = new(m.D)
var d23 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{
		{Name: "X", D: d1, Omit: false, Host: nil},
		{Name: "Y", D: d2, Omit: false, Host: nil},
		{Name: "L", D: d3, Omit: false, Host: nil},
		{Name: "M", D: d4, Omit: false, Host: nil},
		{Name: "P", D: d5, Omit: false, Host: nil},
		{Name: "Q", D: d6, Omit: false, Host: nil},
		{Name: "R", D: d7, Omit: false, Host: nil},
		{Name: "S", D: d5, Omit: false, Host: nil},
		{Name: "BA", D: d8, Omit: false, Host: nil},
		{Name: "BB", D: d9, Omit: false, Host: nil},
		{Name: "NA", D: d10, Omit: false, Host: nil},
		{Name: "NB", D: d11, Omit: false, Host: nil},
		{Name: "LA", D: d12, Omit: false, Host: nil},
		{Name: "LB", D: d13, Omit: false, Host: nil},
		{Name: "PA", D: d14, Omit: false, Host: nil},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view1(&x.X))
	g.Kids = append(g.Kids, view2(&x.Y))
	g.Kids = append(g.Kids, view3(&x.L))
	g.Kids = append(g.Kids, view4(&x.M))
	g.Kids = append(g.Kids, view5(&x.P))
	g.Kids = append(g.Kids, view6(&x.Q))
	g.Kids = append(g.Kids, view7(&x.R))
	g.Kids = append(g.Kids, view5(&x.S))
	g.Kids = append(g.Kids, view8(&x.BA))
	g.Kids = append(g.Kids, view9(&x.BB))
	g.Kids = append(g.Kids, view10(&x.NA))
	g.Kids = append(g.Kids, view11(&x.NB))
	g.Kids = append(g.Kids, view12(&x.LA))
	g.Kids = append(g.Kids, view13(&x.LB))
	g.Kids = append(g.Kids, view14(&x.PA))
	return g
}

func fill0(g *m.G, x *T) {
	fill1(g.Kids[0], &x.X)
	fill2(g.Kids[1], &x.Y)
	fill3(g.Kids[2], &x.L)
	fill4(g.Kids[3], &x.M)
	fill5(g.Kids[4], &x.P)
	fill6(g.Kids[5], &x.Q)
	fill7(g.Kids[6], &x.R)
	fill5(g.Kids[7], &x.S)
	fill8(g.Kids[8], &x.BA)
	fill9(g.Kids[9], &x.BB)
	fill10(g.Kids[10], &x.NA)
	fill11(g.Kids[11], &x.NB)
	fill12(g.Kids[12], &x.LA)
	fill13(g.Kids[13], &x.LB)
	fill14(g.Kids[14], &x.PA)
}

func init() {
	*d1 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{
		{Name: "A", D: d15, Omit: false, Host: nil},
		{Name: "N", D: d16, Omit: false, Host: nil},
	}}
}

func view1(x *FooBar) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view15(&x.A))
	g.Kids = append(g.Kids, view16(&x.N))
	return g
}

func fill1(g *m.G, x *FooBar) {
	fill15(g.Kids[0], &x.A)
	fill16(g.Kids[1], &x.N)
}

func init() {
	*d2 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{
		{Name: "B", D: d17, Omit: false, Host: nil},
		{Name: "N", D: d18, Omit: false, Host: nil},
		{Name: "O", D: d16, Omit: false, Host: nil},
	}}
}

func view2(x *Foo_Bar) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view17(&x.B))
	g.Kids = append(g.Kids, view18(&x.N))
	g.Kids = append(g.Kids, view16(&x.O))
	return g
}

func fill2(g *m.G, x *Foo_Bar) {
	fill17(g.Kids[0], &x.B)
	fill18(g.Kids[1], &x.N)
	fill16(g.Kids[2], &x.O)
}

func init() { *d3 = m.D{K: m.Slice, Elem: d2} }

func view3(x *[]Foo_Bar) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view2(&(*x)[i]))
	}
	return g
}

func fill3(g *m.G, x *[]Foo_Bar) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]Foo_Bar, len(g.Kids))
		for i := range g.Kids {
			fill2(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d4 = m.D{K: m.Slice, Elem: d1} }

func view4(x *[]FooBar) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view1(&(*x)[i]))
	}
	return g
}

func fill4(g *m.G, x *[]FooBar) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]FooBar, len(g.Kids))
		for i := range g.Kids {
			fill1(g.Kids[i], &(*x)[i])
		}
	}
}

func init() {
	*d5 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz", "A"}, F: []m.F{
		{Name: "a", D: d15, Omit: false, Host: nil},
	}}
}

func view5(x *struct {
	A int "yaml:\"a\""
}) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view15(&x.A))
	return g
}

func fill5(g *m.G, x *struct {
	A int "yaml:\"a\""
}) {
	fill15(g.Kids[0], &x.A)
}

func init() {
	*d6 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz", "A"}, F: []m.F{
		{Name: "b", D: d15, Omit: false, Host: nil},
	}}
}

func view6(x *struct {
	A int "yaml:\"b\""
}) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view15(&x.A))
	return g
}

func fill6(g *m.G, x *struct {
	A int "yaml:\"b\""
}) {
	fill15(g.Kids[0], &x.A)
}

func init() { *d7 = m.D{K: m.Slice, Elem: d6} }

func view7(x *[]struct {
	A int "yaml:\"b\""
}) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view6(&(*x)[i]))
	}
	return g
}

func fill7(g *m.G, x *[]struct {
	A int "yaml:\"b\""
}) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]struct {
			A int "yaml:\"b\""
		}, len(g.Kids))
		for i := range g.Kids {
			fill6(g.Kids[i], &(*x)[i])
		}
	}
}

func init() {
	*d8 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{
		{Name: "W", D: d15, Omit: false, Host: nil},
		{Name: "H", D: d15, Omit: false, Host: nil},
		{Name: "Next", D: d19, Omit: false, Host: nil},
	}}
}

func view8(x *shape.Box) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view15(&x.W))
	g.Kids = append(g.Kids, view15(&x.H))
	g.Kids = append(g.Kids, view19(&x.Next))
	return g
}

func fill8(g *m.G, x *shape.Box) {
	fill15(g.Kids[0], &x.W)
	fill15(g.Kids[1], &x.H)
	fill19(g.Kids[2], &x.Next)
}

func init() {
	*d9 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz", "Text", "Box"}, F: []m.F{
		{Name: "t", D: d17, Omit: false, Host: nil},
		{Name: "box", D: d20, Omit: false, Host: nil},
	}}
}

func view9(x *shape1.Box) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view17(&x.Text))
	g.Kids = append(g.Kids, view20(&x.Box))
	return g
}

func fill9(g *m.G, x *shape1.Box) {
	fill17(g.Kids[0], &x.Text)
	fill20(g.Kids[1], &x.Box)
}

func init() { *d10 = m.D{K: m.Slice, Elem: d17} }

func view10(x *shape.Names) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view17(&(*x)[i]))
	}
	return g
}

func fill10(g *m.G, x *shape.Names) {
	*x = nil
	if g.K != m.GNil {
		*x = make(shape.Names, len(g.Kids))
		for i := range g.Kids {
			fill17(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d11 = m.D{K: m.Map, Key: d17, Elem: d21, Omit: false} }

func view11(x *shape1.Names) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view17(&k), view21(&e))
	}
	return g
}

func fill11(g *m.G, x *shape1.Names) {
	*x = nil
	if g.K != m.GNil {
		*x = make(shape1.Names)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e bool
			fill17(g.Kids[i], &k)
			fill21(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d12 = m.D{K: m.Slice, Elem: d22} }

func view12(x *[]shape.Level) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view22(&(*x)[i]))
	}
	return g
}

func fill12(g *m.G, x *[]shape.Level) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]shape.Level, len(g.Kids))
		for i := range g.Kids {
			fill22(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d13 = m.D{K: m.Map, Key: d23, Elem: d22, Omit: false} }

func view13(x *map[shape1.Level]shape.Level) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view23(&k), view22(&e))
	}
	return g
}

func fill13(g *m.G, x *map[shape1.Level]shape.Level) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[shape1.Level]shape.Level)
		for i := 0; i < len(g.Kids); i += 2 {
			var k shape1.Level
			var e shape.Level
			fill23(g.Kids[i], &k)
			fill22(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d14 = m.D{K: m.Ptr, Elem: d22} }

func view14(x **shape.Level) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view22(*x)
}

func fill14(g *m.G, x **shape.Level) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(shape.Level)
	fill22(g, *x)
}

func init() { *d15 = m.D{K: m.Int, Bits: 0} }

func view15(x *int) *m.G {
	return m.I(int64(*x))
}

func fill15(g *m.G, x *int) {
	*x = int(g.I)
}

func init() { *d16 = m.D{K: m.Ptr, Elem: d1} }

func view16(x **FooBar) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view1(*x)
}

func fill16(g *m.G, x **FooBar) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(FooBar)
	fill1(g, *x)
}

func init() { *d17 = m.D{K: m.Str, Bits: 0} }

func view17(x *string) *m.G {
	return m.S(string(*x))
}

func fill17(g *m.G, x *string) {
	*x = string(g.S)
}

func init() { *d18 = m.D{K: m.Ptr, Elem: d2} }

func view18(x **Foo_Bar) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view2(*x)
}

func fill18(g *m.G, x **Foo_Bar) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(Foo_Bar)
	fill2(g, *x)
}

func init() { *d19 = m.D{K: m.Ptr, Elem: d8} }

func view19(x **shape.Box) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view8(*x)
}

func fill19(g *m.G, x **shape.Box) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(shape.Box)
	fill8(g, *x)
}

func init() { *d20 = m.D{K: m.Ptr, Elem: d9} }

func view20(x **shape1.Box) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view9(*x)
}

func fill20(g *m.G, x **shape1.Box) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(shape1.Box)
	fill9(g, *x)
}

func init() { *d21 = m.D{K: m.Bool, Bits: 0} }

func view21(x *bool) *m.G {
	return m.B(bool(*x))
}

func fill21(g *m.G, x *bool) {
	*x = bool(g.B)
}

func init() { *d22 = m.D{K: m.Int, Bits: 0} }

func view22(x *shape.Level) *m.G {
	return m.I(int64(*x))
}

func fill22(g *m.G, x *shape.Level) {
	*x = shape.Level(g.I)
}

func init() { *d23 = m.D{K: m.Str, Bits: 0} }

func view23(x *shape1.Level) *m.G {
	return m.S(string(*x))
}

func fill23(g *m.G, x *shape1.Level) {
	*x = shape1.Level(g.S)
}
