// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)
var d1 = new(m.D)
var d2 = new(m.D)
var d3 = new(m.D)

func init() { *d0 = m.D{K: m.Map, Key: d1, Elem: d2, Omit: false} }

func view0(x *T) *m.G {
	if *x == nil {
		return m.Nil()
	}
	g := &m.G{K: m.GMap}
	for k, e := range *x {
		g.Kids = append(g.Kids, view1(&k), view2(&e))
	}
	return g
}

func fill0(g *m.G, x *T) {
	*x = nil
	if g.K != m.GNil {
		*x = make(T)
		for i := 0; i < len(g.Kids); i += 2 {
			var k string
			var e *[]uint8
			fill1(g.Kids[i], &k)
			fill2(g.Kids[i+1], &e)
			(*x)[k] = e
		}
	}
}

func init() { *d1 = m.D{K: m.Str, Bits: 0} }

func view1(x *string) *m.G {
	return m.S(string(*x))
}

func fill1(g *m.G, x *string) {
	*x = string(g.S)
}

func init() { *d2 = m.D{K: m.Ptr, Elem: d3} }

func view2(x **[]uint8) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return view3(*x)
}

func fill2(g *m.G, x **[]uint8) {
	if g.K == m.GNil {
		*x = nil
		return
	}
	*x = new([]uint8)
	fill3(g, *x)
}

func init() { *d3 = m.D{K: m.Bytes} }

func view3(x *[]uint8) *m.G {
	if *x == nil {
		return m.Nil()
	}
	return m.S(string(*x))
}

func fill3(g *m.G, x *[]uint8) {
	*x = nil
	if g.K != m.GNil {
		*x = []uint8(g.S)
	}
}
