// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)
var d4 = new(m.D)

func init() { *d0 = m.D{K: m.Array, N: 2, Elem: d1} }

func view0(x *T) *m.G {
	g := m.L()
	for i := range *x {
		g.Kids = append(g.Kids, view1(&(*x)[i]))
	}
	return g
}

func fill0(g *m.G, x *T) {
	for i := range g.Kids {
		fill1(g.Kids[i], &(*x)[i])
	}
}

func init() { *d1 = m.D{K: m.Map, Key: d2, Elem: d3, Omit: false} }

func view1(x *map[int]*string) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view2(&k), view3(&e))
	}
	return g
}

func fill1(g *m.G, x *map[int]*string) {
	*x = nil
	if g.K != m.GNil {
		*x = make(map[int]*string)
		for i := 0; i < len(g.Kids); i += 2 {
			var k int
			var e *string
			fill2(g.Kids[i], &k)
			fill3(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d2 = m.D{K: m.Int, Bits: 0} }

func view2(x *int) *m.G {
	return m.I(int64(*x))
}

func fill2(g *m.G, x *int) {
	*x = int(g.I)
}

func init() { *d3 = m.D{K: m.Ptr, Elem: d4} }

func view3(x **string) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view4(*x)
}

func fill3(g *m.G, x **string) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new(string)
	fill4(g, *x)
}

func init() { *d4 = m.D{K: m.Str, Bits: 0} }

func view4(x *string) *m.G {
	return m.S(string(*x))
}

func fill4(g *m.G, x *string) {
	*x = string(g.S)
}
