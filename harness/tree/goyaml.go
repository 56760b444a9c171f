package tree

import "gopkg.in/yaml.v3"

// OfYaml normalises a tree of gopkg.in/yaml.v3.
func OfYaml(n *yaml.Node) *T {
	if n == nil {
		return &T{Kind: Null}
	}
	t := &T{Anchor: n.Anchor}
	switch n.Kind {
	case yaml.DocumentNode:
		if len(n.Content) != 1 {
			return &T{Kind: Bad}
		}
		return OfYaml(n.Content[0])
	case yaml.SequenceNode:
		t.Kind = Seq
	case yaml.MappingNode:
		t.Kind = Map
	case yaml.AliasNode:
		return &T{Kind: Alias, Text: n.Value}
	case yaml.ScalarNode:
		t.Text = n.Value
		t.Kind = Plain
		if n.Style&(yaml.DoubleQuotedStyle|yaml.SingleQuotedStyle|yaml.LiteralStyle|yaml.FoldedStyle) != 0 {
			t.Kind = Quoted
		}
		return t
	default:
		return &T{Kind: Null}
	}
	for _, c := range n.Content {
		t.Kids = append(t.Kids, OfYaml(c))
	}
	return t
}
