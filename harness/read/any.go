package read

import (
	"math"
	"time"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	"gopkg.in/yaml.v3"
)

type pair struct {
	k string
	v *N
}

func deref(n *N) *N {
	if n.kind == alias {
		return n.to
	}
	return n
}

// pairs gives the entries of a mapping as a value: merged ones included, explicit ones first.
func pairs(n *N) []pair {
	var out []pair
	set := func(k string, v *N, over bool) {
		for i := range out {
			if out[i].k == k {
				if over {
					out[i].v = v
				}
				return
			}
		}
		out = append(out, pair{k, v})
	}
	for i := 0; i < len(n.kids); i += 2 {
		k, v := deref(n.kids[i]), deref(n.kids[i+1])
		if k.sc.text == "<<" {
			if v.kind == mapping {
				for _, p := range pairs(v) {
					set(p.k, p.v, false)
				}
				continue
			}
			if v.kind == seq && len(v.kids) > 0 && deref(v.kids[0]).kind == mapping {
				for _, m := range v.kids {
					for _, p := range pairs(deref(m)) {
						set(p.k, p.v, false)
					}
				}
				continue
			}
		}
		set(k.sc.text, v, true)
	}
	return out
}

// eq: the Go value is the value of the node.
func eq(v any, n *N) bool {
	n = deref(n)
	switch n.kind {
	case seq:
		s, ok := v.([]any)
		if !ok || len(s) != len(n.kids) {
			return false
		}
		for i, k := range n.kids {
			if !eq(s[i], k) {
				return false
			}
		}
		return true
	case mapping:
		m, ok := v.(map[string]any)
		ps := pairs(n)
		if !ok || len(m) != len(ps) {
			return false
		}
		for _, p := range ps {
			x, ok := m[p.k]
			if !ok || !eq(x, p.v) {
				return false
			}
		}
		return true
	}
	x := n.sc
	switch {
	case x.null:
		return v == nil
	case x.quoted:
		s, ok := v.(string)
		return ok && s == x.text
	case x.isT:
		t, ok := v.(time.Time)
		return ok && t.Equal(x.t)
	case x.isUint:
		u, ok := v.(uint64)
		return ok && u == x.u
	case x.isInt:
		i, ok := v.(int64)
		return ok && i == x.i
	case x.isF:
		f, ok := v.(float64)
		return ok && math.Float64bits(f) == math.Float64bits(x.f)
	case x.isB:
		b, ok := v.(bool)
		return ok && b == x.b
	}
	s, ok := v.(string)
	return ok && s == x.text
}

func reopen(e int, src []byte) (yamly.Decoder, error) {
	if e == 0 {
		r, err := ydecode.NewASTReaderFromBytes(src)
		if err != nil {
			return nil, err
		}
		return r, nil
	}
	var n yaml.Node
	if err := yaml.Unmarshal(src, &n); err != nil {
		return nil, err
	}
	return gdecode.NewASTReader(&n), nil
}
