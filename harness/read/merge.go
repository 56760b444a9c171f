package read

import "verif/vf"

// merger draws mappings with merge keys.
type merger struct {
	text  bool // keys are drawn one by one: the document is a text
	bases []*N
	count int
	null  int // which value is null
}

func str(s string) *N { return &N{kind: scalar, sc: &sc{text: s}} }

func (m *merger) value() *N {
	m.count++
	if m.count == m.null {
		return &N{kind: scalar, sc: &sc{text: "null", null: true}}
	}
	return str("v" + string([]byte{byte('0' + m.count%10)}))
}

func (m *merger) key() *N {
	if m.text {
		return str([]string{"a", "b"}[pick(2)])
	}
	return str(string([]byte{vf.ByteIn("ab")}))
}

// source is the value of a merge key.
func (m *merger) source(depth int) *N {
	k := pick(3)
	if len(m.bases) == 0 && k == 1 {
		k = 0
	}
	switch k {
	case 0:
		return m.mapping(2, depth-1)
	case 1:
		b := m.bases[pick(len(m.bases))]
		return &N{kind: alias, to: b, name: b.anchor}
	}
	n := &N{kind: seq}
	for i := 1 + pick(2); i > 0; i-- {
		if len(m.bases) > 0 && pick(2) == 0 {
			b := m.bases[pick(len(m.bases))]
			n.kids = append(n.kids, &N{kind: alias, to: b, name: b.anchor})
		} else {
			n.kids = append(n.kids, m.mapping(1, depth-1))
		}
	}
	return n
}

// mapping draws up to max entries.
func (m *merger) mapping(max, depth int) *N {
	n := &N{kind: mapping}
	for i := pick(max + 1); i > 0; i-- {
		k := 1
		if depth > 0 {
			k = pick(3)
		}
		switch k {
		case 0:
			n.kids = append(n.kids, str("<<"), m.source(depth))
		case 1:
			n.kids = append(n.kids, m.key(), m.value())
		case 2:
			n.kids = append(n.kids, str("a"), m.mapping(1, depth-1))
		}
	}
	return n
}

// HMerge: Any of a mapping with merge keys holds its own entries and those merged which it does not have itself, the earlier ones first.
func HMerge(e, src, bases, entries, depth int) {
	m := &merger{text: src != 0, null: pick(bases + entries + 2)}
	root := &N{kind: seq}
	for i := 0; i < bases; i++ {
		b := &N{kind: mapping, anchor: names[i]}
		b.kids = append(b.kids, m.key(), m.value())
		if i > 0 && pick(2) == 0 {
			b.kids = append(b.kids, str("<<"), &N{kind: alias, to: m.bases[0], name: m.bases[0].anchor})
		}
		m.bases = append(m.bases, b)
		root.kids = append(root.kids, b)
	}
	root.kids = append(root.kids, m.mapping(entries, depth), m.value())
	if src != 0 {
		vf.Observe("doc", root.flow())
	}
	d, err := open(e, src, root, false)
	vf.Assert(err == nil, "the document is accepted")
	if err != nil {
		return
	}
	got := d.Any()
	vf.Assert(d.Error() == nil, "merging reports no error")
	vf.Assert(eq(got, root), "the value has the explicit and the merged entries")
	vf.Reach("merged")
}
