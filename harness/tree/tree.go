// Package tree holds the harnesses' own notion of a YAML value: a normalised view of the yayamls AST.
package tree

import (
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
)

const (
	Bad = iota
	Null
	Plain  // plain scalar
	Quoted // quoted or block scalar: never null
	Seq
	Map // Kids: k0 v0 k1 v1 ...
	Alias
	Stream
)

type T struct {
	Kind   int
	Text   string
	Anchor string
	Tag    string
	Kids   []*T
}

// Of normalises an AST.
func Of(n ast.Node) *T {
	if n == nil {
		return &T{Kind: Null}
	}
	switch x := n.(type) {
	case *ast.StreamNode:
		t := &T{Kind: Stream}
		for _, d := range x.Documents() {
			t.Kids = append(t.Kids, Of(d))
		}
		return t
	case *ast.ContentNode:
		t := Of(x.Content())
		if p, ok := x.Properties().(*ast.PropertiesNode); ok && p != nil {
			if a, ok := p.Anchor().(*ast.AnchorNode); ok && a != nil {
				t.Anchor = a.Text()
			}
			if g, ok := p.Tag().(*ast.TagNode); ok && g != nil {
				t.Tag = "!" + g.Text()
			}
		}
		return t
	case *ast.SequenceNode:
		t := &T{Kind: Seq}
		for _, d := range x.Entries() {
			if e, ok := d.(*ast.MappingEntryNode); ok {
				// a single pair of a flow sequence
				t.Kids = append(t.Kids, &T{Kind: Map, Kids: []*T{Of(e.Key()), Of(e.Value())}})
				continue
			}
			t.Kids = append(t.Kids, Of(d))
		}
		return t
	case *ast.MappingNode:
		t := &T{Kind: Map}
		for _, d := range x.Entries() {
			e, ok := d.(*ast.MappingEntryNode)
			if !ok {
				return &T{Kind: Bad, Text: "mapping entry"}
			}
			t.Kids = append(t.Kids, Of(e.Key()), Of(e.Value()))
		}
		return t
	case *ast.TextNode:
		v, err := x.Value()
		if err != nil {
			return &T{Kind: Bad, Text: "value"}
		}
		switch x.QuotingType() {
		case ast.SingleQuotingType, ast.DoubleQuotingType, ast.BlockQuotingType:
			return &T{Kind: Quoted, Text: v}
		}
		return &T{Kind: Plain, Text: v}
	case *ast.AliasNode:
		return &T{Kind: Alias, Text: x.Text()}
	case *ast.NullNode:
		return &T{Kind: Null}
	}
	return &T{Kind: Bad, Text: "node"}
}

func isNullText(s string) bool { return s == "null" || s == "Null" || s == "NULL" || s == "~" }

// IsNull: the node means null.
func (t *T) IsNull() bool {
	return t.Kind == Null || t.Kind == Plain && (isNullText(t.Text) || t.Text == "")
}

// Scalar: the node is a scalar with a text.
func (t *T) Scalar() bool { return !t.IsNull() && (t.Kind == Plain || t.Kind == Quoted) }

// Same compares two trees as values: anchors and aliases count, scalar styles do not, except that a
// null is not a string.
func Same(a, b *T) bool {
	if a.Kind == Bad || b.Kind == Bad {
		return false
	}
	if a.Anchor != b.Anchor {
		return false
	}
	if a.IsNull() || b.IsNull() {
		return a.IsNull() && b.IsNull()
	}
	if a.Scalar() || b.Scalar() {
		return a.Scalar() && b.Scalar() && a.Text == b.Text
	}
	if a.Kind != b.Kind || a.Text != b.Text || len(a.Kids) != len(b.Kids) {
		return false
	}
	for i := range a.Kids {
		if !Same(a.Kids[i], b.Kids[i]) {
			return false
		}
	}
	return true
}

// Size counts the nodes.
func (t *T) Size() int {
	n := 1
	for _, k := range t.Kids {
		n += k.Size()
	}
	return n
}
