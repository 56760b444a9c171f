// Package corpus: types with the marshalling methods of the engine.
package corpus

import (
	"errors"

	"gopkg.in/yaml.v3"

	"verif/genm"
)

// Raw unmarshals itself from a node.
type Raw struct{ s string }

func (x *Raw) Desc() *genm.D  { return &genm.D{K: genm.Text, Pre: "<"} }
func (x *Raw) View() *genm.G  { return genm.S(x.s) }
func (x *Raw) Fill(g *genm.G) { x.s = g.S }
func (x *Raw) UnmarshalYAML(n *yaml.Node) error {
	if n.Kind == yaml.DocumentNode {
		n = n.Content[0]
	}
	if n.Kind != yaml.ScalarNode || n.Tag == "!!null" || n.Value == "" || n.Value[0] != '<' {
		return errors.New("no <")
	}
	x.s = n.Value[1:]
	return nil
}
func (x Raw) MarshalText() ([]byte, error) { return []byte("<" + x.s), nil }

// Both unmarshals itself from a node and from text.
type Both struct{ s string }

func (x *Both) Desc() *genm.D  { return &genm.D{K: genm.Text, Pre: "<"} }
func (x *Both) View() *genm.G  { return genm.S(x.s) }
func (x *Both) Fill(g *genm.G) { x.s = g.S }
func (x *Both) UnmarshalYAML(n *yaml.Node) error {
	var r Raw
	err := r.UnmarshalYAML(n)
	x.s = r.s
	return err
}
func (x *Both) UnmarshalText([]byte) error  { return errors.New("not to be asked") }
func (x Both) MarshalText() ([]byte, error) { return []byte("<" + x.s), nil }

// Mar marshals itself as a node, PMar does by a method of the pointer.
type Mar struct{ s string }

func (x *Mar) Desc() *genm.D                    { return &genm.D{K: genm.Text, Pre: "<"} }
func (x *Mar) View() *genm.G                    { return genm.S(x.s) }
func (x *Mar) Fill(g *genm.G)                   { x.s = g.S }
func (x *Mar) UnmarshalYAML(n *yaml.Node) error { return (*Raw)(x).UnmarshalYAML(n) }
func (x Mar) MarshalYAML() (any, error) {
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: "<" + x.s, Style: yaml.DoubleQuotedStyle}, nil
}
func (x Mar) MarshalText() ([]byte, error) { return nil, errors.New("not to be asked") }

type PMar struct{ s string }

func (x *PMar) Desc() *genm.D                    { return &genm.D{K: genm.Text, Pre: "<"} }
func (x *PMar) View() *genm.G                    { return genm.S(x.s) }
func (x *PMar) Fill(g *genm.G)                   { x.s = g.S }
func (x *PMar) UnmarshalYAML(n *yaml.Node) error { return (*Raw)(x).UnmarshalYAML(n) }
func (x *PMar) MarshalYAML() (any, error)        { return Mar(*x).MarshalYAML() }

type T struct {
	A  Raw
	P  *Raw
	L  []Raw
	LP []*Raw
	M  map[string]Raw
	AR [2]Raw
	B  Both
	BP *Both
	S  string

	MA  Mar
	MP  *Mar
	ML  []Mar
	MLP []*Mar
	MM  map[string]Mar
	MAR [1]Mar
	PA  PMar
	PP  *PMar
	PL  []PMar
	PM  map[string]PMar
	PAR [1]PMar
}
