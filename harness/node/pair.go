package node

import (
	. "verif/tree"
	"verif/vf"
)

// HPair: two nodes of any form next to each other in a collection. cont: 0 block mapping, 1 block sequence,
// 2 sequence of a mapping, 3 mapping of a sequence, 4 flow sequence, 5 flow mapping, 6 single pairs, 7 explicit key and value.
func HPair(cont, pr int) {
	var p place
	switch cont {
	case 0:
		p = place{kind: block, in: 1, seqIn: 0}
	case 1:
		p = place{kind: block, in: 1, seqIn: 1}
	case 2:
		p = place{kind: block, in: 3, seqIn: 3}
	case 3:
		p = place{kind: block, in: 3, seqIn: 2}
	case 7:
		p = place{kind: block, in: 1, seqIn: 1}
	default:
		p = place{kind: flow}
	}
	text := func() (string, *T) {
		f := newForm(p)
		if p.kind == flow && f.empty && cont != 5 && cont != 6 {
			vf.Assume(false)
		}
		if pr > 0 && pick(2) == 1 && !f.alias && !(f.empty && p.kind == flow) {
			f.t.Anchor, f.t.Tag = props[pr].anchor, props[pr].tag
			if f.own {
				return props[pr].text + "\n" + f.s, f.t
			}
			if f.empty {
				return props[pr].text, f.t
			}
			return props[pr].text + " " + f.s, f.t
		}
		if f.own {
			return "\n" + f.s, f.t
		}
		return f.s, f.t
	}
	s1, t1 := text()
	s2, t2 := text()
	k, l := sc("k"), sc("l")
	switch cont {
	case 0:
		p.wrap = func(*T) *T { return mp(k, t1, l, t2) }
		accepted("k: "+s1+"\nl: "+s2+"\n", p, nil)
	case 1:
		p.wrap = func(*T) *T { return seq(t1, t2) }
		accepted("- "+s1+"\n- "+s2+"\n", p, nil)
	case 2:
		p.wrap = func(*T) *T { return mp(k, seq(t1, t2)) }
		accepted("k:\n  - "+s1+"\n  - "+s2+"\n", p, nil)
	case 3:
		p.wrap = func(*T) *T { return seq(mp(k, t1, l, t2)) }
		accepted("- k: "+s1+"\n  l: "+s2+"\n", p, nil)
	case 4:
		p.wrap = func(*T) *T { return seq(t1, t2) }
		accepted("["+s1+","+s2+"]\n", p, nil)
	case 5:
		p.wrap = func(*T) *T { return mp(k, t1, l, t2) }
		accepted("{k: "+s1+", l: "+s2+"}\n", p, nil)
	case 6:
		p.wrap = func(*T) *T { return seq(mp(k, t1), mp(l, t2)) }
		accepted("[k: "+s1+", l: "+s2+"]\n", p, nil)
	case 7:
		p.wrap = func(*T) *T { return mp(t1, t2) }
		accepted("? "+s1+"\n: "+s2+"\n", p, nil)
	}
}
