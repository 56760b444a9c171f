// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)
var d5 = new(m.D)
var d6 = new(m.D)
var d7 = new(m.D)
var d8 = new(m.D)
var d9 = new(m.D)
var d10 = new(m.D)
var d11 = new(m.D)
var d12 = new(m.D)
var d13 = new(m.D)
var d14 = new(m.D)
var d15 = new(m.D)
var d16 = new(m.D)
var d17 = new(m.D)
var d18 = new(m.D)
var d19 = new(m.D)
var d20 = new(m.D)

func init() {
	*d0 = m.D{K: m.Struct, Strict: false, Hosts: 0, Unknown: []string{"zz"}, F: []m.F{
		{Name: "S", D: d1, Omit: false, Host: nil},
		{Name: "I", D: d2, Omit: false, Host: nil},
		{Name: "K", D: d3, Omit: false, Host: nil},
		{Name: "N", D: d4, Omit: false, Host: nil},
		{Name: "L", D: d5, Omit: false, Host: nil},
		{Name: "P", D: d6, Omit: false, Host: nil},
		{Name: "A", D: d7, Omit: false, Host: nil},
		{Name: "B", D: d8, Omit: false, Host: nil},
	}}
}

func view0(x *T) *m.G {
	g := m.R()
	g.Kids = append(g.Kids, view1(&x.S))
	g.Kids = append(g.Kids, view2(&x.I))
	g.Kids = append(g.Kids, view3(&x.K))
	g.Kids = append(g.Kids, view4(&x.N))
	g.Kids = append(g.Kids, view5(&x.L))
	g.Kids = append(g.Kids, view6(&x.P))
	g.Kids = append(g.Kids, view7(&x.A))
	g.Kids = append(g.Kids, view8(&x.B))
	return g
}

func fill0(g *m.G, x *T) {
	fill1(g.Kids[0], &x.S)
	fill2(g.Kids[1], &x.I)
	fill3(g.Kids[2], &x.K)
	fill4(g.Kids[3], &x.N)
	fill5(g.Kids[4], &x.L)
	fill6(g.Kids[5], &x.P)
	fill7(g.Kids[6], &x.A)
	fill8(g.Kids[7], &x.B)
}

func init() { *d1 = m.D{K: m.Map, Key: d9, Elem: d10, Omit: false} }

func view1(x *map[string]int) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view9(&k), view10(&e))
	}
	return g
}

func fill1(g *m.G, x *map[string]int) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]int)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e int
			fill9(g.Kids[i], &k)
			fill10(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d2 = m.D{K: m.Map, Key: d11, Elem: d9, Omit: false} }

func view2(x *map[int8]string) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view11(&k), view9(&e))
	}
	return g
}

func fill2(g *m.G, x *map[int8]string) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[int8]string)
		for i := 0; i < len(g.Kids); i += 2 {
			var k int8
			var e string
			fill11(g.Kids[i], &k)
			fill9(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d3 = m.D{K: m.Map, Key: d12, Elem: d13, Omit: false} }

func view3(x *map[Key]*bool) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view12(&k), view13(&e))
	}
	return g
}

func fill3(g *m.G, x *map[Key]*bool) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[Key]*bool)
		for i := 0; i < len(g.Kids); i += 2 {
			var k Key
			var e *bool
			fill12(g.Kids[i], &k)
			fill13(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d4 = m.D{K: m.Map, Key: d9, Elem: d14, Omit: false} }

func view4(x *map[string]map[uint16]string) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view9(&k), view14(&e))
	}
	return g
}

func fill4(g *m.G, x *map[string]map[uint16]string) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]map[uint16]string)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e map[uint16]string
			fill9(g.Kids[i], &k)
			fill14(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d5 = m.D{K: m.Map, Key: d9, Elem: d15, Omit: false} }

func view5(x *map[string][]int) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view9(&k), view15(&e))
	}
	return g
}

func fill5(g *m.G, x *map[string][]int) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string][]int)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e []int
			fill9(g.Kids[i], &k)
			fill15(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d6 = m.D{K: m.Ptr, Elem: d16} }

func view6(x **map[string]string) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view16(*x)
}

func fill6(g *m.G, x **map[string]string) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(map[string]string)
	fill16(g, *x)
}

func init() { *d7 = m.D{K: m.Slice, Elem: d17} }

func view7(x *[]map[string]bool) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view17(&(*x)[i]))
	}
	return g
}

func fill7(g *m.G, x *[]map[string]bool) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]map[string]bool, len(g.Kids))
		for i := range g.Kids {
			fill17(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d8 = m.D{K: m.Map, Key: d18, Elem: d19, Omit: false} }

func view8(x *map[bool]uint8) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view18(&k), view19(&e))
	}
	return g
}

func fill8(g *m.G, x *map[bool]uint8) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[bool]uint8)
		for i := 0; i < len(g.Kids); i += 2 {
			var k bool
			var e uint8
			fill18(g.Kids[i], &k)
			fill19(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d9 = m.D{K: m.Str, Bits: 0} }

func view9(x *string) *m.G {
	return m.S(string(*x))
}

func fill9(g *m.G, x *string) {
	*x = string(g.S)
}

func init() { *d10 = m.D{K: m.Int, Bits: 0} }

func view10(x *int) *m.G {
	return m.I(int64(*x))
}

func fill10(g *m.G, x *int) {
	*x = int(g.I)
}

func init() { *d11 = m.D{K: m.Int, Bits: 8} }

func view11(x *int8) *m.G {
	return m.I(int64(*x))
}

func fill11(g *m.G, x *int8) {
	*x = int8(g.I)
}

func init() { *d12 = m.D{K: m.Str, Bits: 0} }

func view12(x *Key) *m.G {
	return m.S(string(*x))
}

func fill12(g *m.G, x *Key) {
	*x = Key(g.S)
}

func init() { *d13 = m.D{K: m.Ptr, Elem: d18} }

func view13(x **bool) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view18(*x)
}

func fill13(g *m.G, x **bool) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(bool)
	fill18(g, *x)
}

func init() { *d14 = m.D{K: m.Map, Key: d20, Elem: d9, Omit: false} }

func view14(x *map[uint16]string) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view20(&k), view9(&e))
	}
	return g
}

func fill14(g *m.G, x *map[uint16]string) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[uint16]string)
		for i := 0; i < len(g.Kids); i += 2 {
			var k uint16
			var e string
			fill20(g.Kids[i], &k)
			fill9(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d15 = m.D{K: m.Slice, Elem: d10} }

func view15(x *[]int) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view10(&(*x)[i]))
	}
	return g
}

func fill15(g *m.G, x *[]int) {
	*x = nil
	if g.K != m.GNil {
		*x = make([]int, len(g.Kids))
		for i := range g.Kids {
			fill10(g.Kids[i], &(*x)[i])
		}
	}
}

func init() { *d16 = m.D{K: m.Map, Key: d9, Elem: d9, Omit: false} }

func view16(x *map[string]string) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view9(&k), view9(&e))
	}
	return g
}

func fill16(g *m.G, x *map[string]string) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]string)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e string
			fill9(g.Kids[i], &k)
			fill9(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d17 = m.D{K: m.Map, Key: d9, Elem: d18, Omit: false} }

func view17(x *map[string]bool) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view9(&k), view18(&e))
	}
	return g
}

func fill17(g *m.G, x *map[string]bool) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[string]bool)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e bool
			fill9(g.Kids[i], &k)
			fill18(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d18 = m.D{K: m.Bool, Bits: 0} }

func view18(x *bool) *m.G {
	return m.B(bool(*x))
}

func fill18(g *m.G, x *bool) {
	*x = bool(g.B)
}

func init() { *d19 = m.D{K: m.Uint, Bits: 8} }

func view19(x *uint8) *m.G {
	return m.U(uint64(*x))
}

func fill19(g *m.G, x *uint8) {
	*x = uint8(g.U)
}

func init() { *d20 = m.D{K: m.Uint, Bits: 16} }

func view20(x *uint16) *m.G {
	return m.U(uint64(*x))
}

func fill20(g *m.G, x *uint16) {
	*x = uint16(g.U)
}
