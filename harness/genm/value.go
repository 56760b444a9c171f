package genm

import (
	"math"
	"time"

	"verif/vf"
)

func pick(n int) int {
	if n <= 1 {
		return 0
	}
	return int(vf.Concrete(uint64(vf.Choose(n))))
}

// Values draws values of a type. Hot is the number of positions which are arbitrary, the others are zero.
type Values struct {
	Hot   int
	N     int // length of arbitrary strings
	Depth int
}

var times = []time.Time{
	time.Date(2021, 2, 3, 4, 5, 6, 0, time.UTC),
	time.Date(2021, 12, 31, 23, 59, 59, 123456789, time.FixedZone("", 5*3600+1800)),
}

func (v *Values) str() string {
	n := pick(v.N + 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.ByteIn("a ~1:-\"\n")
	}
	return string(b)
}

func ints(bits int) []int64 {
	if bits == 0 {
		bits = 64
	}
	return []int64{1, 0, -1, math.MaxInt64 >> (64 - bits), math.MinInt64 >> (64 - bits)}
}

func uints(bits int) []uint64 {
	if bits == 0 {
		bits = 64
	}
	return []uint64{1, 0, math.MaxUint64 >> (64 - bits)}
}

// Draw gives an arbitrary value.
func (v *Values) Draw(d *D) *G {
	if v.Hot <= 0 {
		return Zero(d)
	}
	switch d.K {
	case Int:
		v.Hot--
		s := ints(d.Bits)
		return I(s[pick(len(s))])
	case Uint:
		v.Hot--
		s := uints(d.Bits)
		return U(s[pick(len(s))])
	case Float:
		v.Hot--
		s := []float64{1.5, 0, -3, math.Inf(1), float64(float32(1e21))}
		if d.Bits == 64 {
			s = append(s, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64)
		} else {
			s = append(s, float64(float32(0.1)), math.MaxFloat32, math.SmallestNonzeroFloat32)
		}
		return Fl(s[pick(len(s))])
	case Bool:
		v.Hot--
		return B(pick(2) == 0)
	case Str, Text:
		v.Hot--
		return S(v.str())
	case Bytes:
		v.Hot--
		if pick(2) == 0 {
			return Nil()
		}
		return S(v.str())
	case Iface, Any:
		v.Hot--
		if d.Pre == "" || pick(2) == 0 {
			return Nil()
		}
		return S([]string{"", "x"}[pick(2)])
	case ByteArr:
		v.Hot--
		b := []byte(v.str())
		for len(b) < d.N {
			b = append(b, 0)
		}
		return S(string(b[:d.N]))
	case Time:
		v.Hot--
		return Tm(times[pick(len(times))])
	case Ptr:
		if pick(3) == 0 {
			v.Hot--
			return Nil()
		}
		return v.deeper(d.Elem)
	case Slice:
		n := pick(4)
		if n == 3 {
			v.Hot--
			return Nil()
		}
		if n == 0 {
			v.Hot--
		}
		g := L()
		for ; n > 0; n-- {
			g.Kids = append(g.Kids, v.deeper(d.Elem))
		}
		return g
	case Array:
		g := Zero(d)
		if d.N == 0 {
			v.Hot--
		}
		for i := range g.Kids {
			g.Kids[i] = v.deeper(d.Elem)
		}
		return g
	case Map:
		n := pick(4)
		if n == 3 {
			v.Hot--
			return Nil()
		}
		if n == 0 {
			v.Hot--
		}
		g := &G{K: GMap}
		for i := 0; i < n; i++ {
			g.Kids = append(g.Kids, key(d.Key, i), v.deeper(d.Elem))
		}
		return g
	case Struct:
		g := Zero(d)
		if len(d.F) == 0 {
			v.Hot--
		}
		for i := range g.Hosts {
			g.Hosts[i] = pick(2) == 0
		}
		at := 0
		for v.Hot > 0 && at < len(d.F) {
			// the next field which is arbitrary
			at += pick(len(d.F) - at + 1)
			if at == len(d.F) {
				v.Hot--
				break
			}
			if there(d.F[at], g) {
				g.Kids[at] = v.deeper(d.F[at].D)
			} else {
				v.Hot--
			}
			at++
		}
		return g
	}
	v.Hot--
	return Nil()
}

func (v *Values) deeper(d *D) *G {
	if v.Depth == 0 {
		v.Hot--
		return Zero(d)
	}
	v.Depth--
	g := v.Draw(d)
	v.Depth++
	return g
}

func key(d *D, i int) *G {
	switch d.K {
	case Int:
		return I([]int64{5, -7}[i])
	case Uint:
		return U([]uint64{5, 0}[i])
	case Bool:
		return B(i == 0)
	case Float:
		return Fl([]float64{1.5, -2}[i])
	}
	return S([]string{"k", "l m"}[i])
}

// Full is a value everything of which is set, as far as documents replace it.
func Full(d *D, depth int) *G {
	if depth < 0 {
		return Zero(d)
	}
	switch d.K {
	case Int:
		return I(41)
	case Uint:
		return U(41)
	case Float:
		return Fl(41.5)
	case Bool:
		return B(true)
	case Str:
		return S("old")
	case Bytes:
		return S("older than new")
	case Text:
		return S(d.Only)
	case Iface, Any:
		if d.Pre != "" {
			return S("x")
		}
	case Time:
		return Tm(times[1])
	case Ptr:
		return Full(d.Elem, depth)
	case Slice:
		return L(Full(d.Elem, depth-1), Full(d.Elem, depth-1), Full(d.Elem, depth-1))
	case Map:
		return &G{K: GMap, Kids: []*G{oldKey(d.Key), Full(d.Elem, depth-1)}}
	case Struct:
		g := Zero(d)
		for i := range g.Hosts {
			g.Hosts[i] = true
		}
		for i, f := range d.F {
			g.Kids[i] = Full(f.D, depth-1)
		}
		return g
	}
	return Zero(d)
}

func oldKey(d *D) *G {
	if d.K == Str || d.K == Text {
		return S("old key")
	}
	return key(d, 1)
}
