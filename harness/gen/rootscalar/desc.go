// Code generated by mkcorpus from types.go. DO NOT EDIT.

package corpus

import (
	m "verif/genm"
)

var d0 = new(m.D)

func init() { *d0 = m.D{K: m.Uint, Bits: 16} }

func view0(x *T) *m.G {
	return m.U(uint64(*x))
}

func fill0(g *m.G, x *T) {
	*x = T(g.U)
}
