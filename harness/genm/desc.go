// Package genm says what generated code must do: descriptions of types, values of them, documents, and what
// encoding and decoding means for them. It knows nothing of the generator.
package genm

import (
	"math"
	"time"
)

type Kind int

const (
	Int Kind = iota
	Uint
	Float
	Bool
	Str
	Bytes
	ByteArr
	Time
	Ptr
	Slice
	Array
	Map
	Struct
	Any
	Text  // a scalar with a marshaler of its own: written and read as Pre + text
	Iface // an interface with methods, holding nothing or what is written as Pre + text; nothing can be read into it
)

// D describes a type.
type D struct {
	K       Kind
	Bits    int
	N       int
	Elem    *D
	Key     *D
	F       []F
	Hosts   int      // number of inlined fields which are pointers
	Unknown []string // keys which are not fields
	Strict  bool     // unknown fields are errors
	Omit    bool     // of a map: an empty one is not told from none
	Pre     string   // of Any: it holds nothing or what is written as Pre + text
	Only    string   // of Text: the only text besides the empty one
	Wrap    bool     // of Text: written as the only item of the only entry of a mapping
	Opaque  bool     // decoded by a method of its own: null reaches it
}

// F is a field of a struct, inlined ones included.
type F struct {
	Name string
	D    *D
	Omit bool
	Host []int // the inlined pointers on the way to it
}

const (
	GNil = iota
	GInt
	GUint
	GFloat
	GBool
	GStr
	GTime
	GSeq
	GMap // k0 v0 k1 v1 ...
	GRec
	GWild // of what is expected: anything
)

// G is a value.
type G struct {
	K     int
	I     int64
	U     uint64
	F     float64
	B     bool
	S     string
	T     time.Time
	Kids  []*G
	Hosts []bool
	Dirty bool // a field which is none of the document's business was touched
}

func Nil() *G           { return &G{} }
func I(i int64) *G      { return &G{K: GInt, I: i} }
func U(u uint64) *G     { return &G{K: GUint, U: u} }
func Fl(f float64) *G   { return &G{K: GFloat, F: f} }
func B(b bool) *G       { return &G{K: GBool, B: b} }
func S(s string) *G     { return &G{K: GStr, S: s} }
func Tm(t time.Time) *G { return &G{K: GTime, T: t} }
func L(k ...*G) *G      { return &G{K: GSeq, Kids: k} }
func R(k ...*G) *G      { return &G{K: GRec, Kids: k} }

// A is the view of an untyped value.
func A(x any) *G {
	switch v := x.(type) {
	case nil:
		return Nil()
	case int64:
		return I(v)
	case uint64:
		return U(v)
	case float64:
		return Fl(v)
	case bool:
		return B(v)
	case string:
		return S(v)
	case time.Time:
		return Tm(v)
	case []any:
		g := L()
		for _, k := range v {
			g.Kids = append(g.Kids, A(k))
		}
		return g
	case map[string]any:
		g := &G{K: GMap}
		for k, e := range v {
			g.Kids = append(g.Kids, S(k), A(e))
		}
		return g
	}
	return &G{K: -1}
}

// Zero is the value of a variable which was not set.
func Zero(d *D) *G {
	switch d.K {
	case Int:
		return I(0)
	case Uint:
		return U(0)
	case Float:
		return Fl(0)
	case Bool:
		return B(false)
	case Str, Text:
		return S("")
	case ByteArr:
		return S(string(make([]byte, d.N)))
	case Time:
		return Tm(time.Time{})
	case Array:
		g := L()
		for i := 0; i < d.N; i++ {
			g.Kids = append(g.Kids, Zero(d.Elem))
		}
		return g
	case Struct:
		g := R()
		for _, f := range d.F {
			g.Kids = append(g.Kids, Zero(f.D))
		}
		g.Hosts = make([]bool, d.Hosts)
		return g
	}
	return Nil()
}

// Same compares values.
func Same(a, b *G) bool {
	if b.K == GWild {
		return !a.Dirty
	}
	if a.K != b.K || a.Dirty || b.Dirty || len(a.Kids) != len(b.Kids) {
		return false
	}
	switch a.K {
	case GInt:
		return a.I == b.I
	case GUint:
		return a.U == b.U
	case GFloat:
		return math.Float64bits(a.F) == math.Float64bits(b.F)
	case GBool:
		return a.B == b.B
	case GStr:
		return a.S == b.S
	case GTime:
		return a.T.Equal(b.T)
	case GMap:
		for i := 0; i < len(a.Kids); i += 2 {
			found := false
			for j := 0; j < len(b.Kids) && !found; j += 2 {
				found = Same(a.Kids[i], b.Kids[j]) && Same(a.Kids[i+1], b.Kids[j+1])
			}
			if !found {
				return false
			}
		}
		return true
	}
	for i := range a.Kids {
		if !Same(a.Kids[i], b.Kids[i]) {
			return false
		}
	}
	return true
}

// Empty: what omitempty leaves out.
func Empty(d *D, g *G) bool {
	switch d.K {
	case Slice, Map, Ptr, Any, Iface, Bytes:
		return g.K == GNil || d.K != Ptr && d.K != Any && d.K != Iface && len(g.Kids) == 0 && g.S == ""
	case Bool:
		return !g.B
	case Str:
		return g.S == ""
	case Int:
		return g.I == 0
	case Uint:
		return g.U == 0
	case Float:
		return g.F == 0
	}
	return false
}

// there: the inlined pointers on the way to the field are set.
func there(f F, g *G) bool {
	for _, h := range f.Host {
		if !g.Hosts[h] {
			return false
		}
	}
	return true
}

// Norm is the value which reading the written value must give.
func Norm(d *D, g *G) *G {
	switch d.K {
	case Any:
		if d.Pre != "" && g.K != GNil {
			return S(d.Pre + g.S)
		}
	case Ptr:
		if g.K != GNil {
			return Norm(d.Elem, g)
		}
	case Slice, Array:
		if g.K != GNil {
			r := L()
			for _, k := range g.Kids {
				r.Kids = append(r.Kids, Norm(d.Elem, k))
			}
			return r
		}
	case Map:
		if g.K != GNil {
			if d.Omit && len(g.Kids) == 0 {
				return Nil()
			}
			r := &G{K: GMap}
			for i := 0; i < len(g.Kids); i += 2 {
				r.Kids = append(r.Kids, Norm(d.Key, g.Kids[i]), Norm(d.Elem, g.Kids[i+1]))
			}
			return r
		}
	case Struct:
		r := R()
		for i, f := range d.F {
			if !there(f, g) || f.Omit && Empty(f.D, g.Kids[i]) {
				r.Kids = append(r.Kids, Zero(f.D))
			} else {
				r.Kids = append(r.Kids, Norm(f.D, g.Kids[i]))
			}
		}
		return r
	}
	return g
}

// Closed: there is an interface with methods which holds something; it cannot be read back.
func Closed(d *D, g *G) bool {
	if g.K == GNil {
		return false
	}
	switch d.K {
	case Iface:
		return true
	case Ptr:
		return Closed(d.Elem, g)
	case Slice, Array:
		for _, k := range g.Kids {
			if Closed(d.Elem, k) {
				return true
			}
		}
	case Map:
		for i := 1; i < len(g.Kids); i += 2 {
			if Closed(d.Elem, g.Kids[i]) {
				return true
			}
		}
	case Struct:
		for i, f := range d.F {
			if there(f, g) && Closed(f.D, g.Kids[i]) {
				return true
			}
		}
	}
	return false
}
