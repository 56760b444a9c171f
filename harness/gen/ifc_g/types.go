// Package corpus: interfaces holding values with methods.
package corpus

import (
	"errors"

	"github.com/KSpaceer/yamly"

	"gopkg.in/yaml.v3"
)

// M is an interface of methods of yamly.
type M interface {
	yamly.MarshalerYamly
	yamly.UnmarshalerYamly
}

type HeldM struct{ s string }

func (x *HeldM) MarshalYamly(out yamly.Inserter) { out.InsertString("<" + x.s) }

func (x *HeldM) UnmarshalYamly(in yamly.Decoder) {
	if s := in.String(); in.Error() == nil {
		in.AddError(x.set(s))
	}
}

func (x *HeldM) set(s string) error {
	if s == "" || s[0] != '<' {
		return errors.New("no <")
	}
	x.s = s[1:]
	return nil
}

// E is an interface of methods of the engine.
type E interface {
	yaml.Marshaler
	yaml.Unmarshaler
}

type HeldE struct{ s string }

func (x *HeldE) MarshalYAML() (any, error) {
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: "<" + x.s}, nil
}

func (x *HeldE) UnmarshalYAML(n *yaml.Node) error {
	if n.Kind != yaml.ScalarNode {
		return errors.New("no text")
	}
	return (*HeldM)(x).set(n.Value)
}

// A and B hold anything.
type A any

type HeldA struct{ s string }

func (x *HeldA) MarshalYamly(out yamly.Inserter) { (*HeldM)(x).MarshalYamly(out) }
func (x *HeldA) UnmarshalYamly(in yamly.Decoder) { (*HeldM)(x).UnmarshalYamly(in) }

type B any

type HeldB struct{ s string }

func (x *HeldB) MarshalYAML() (any, error) { return (*HeldE)(x).MarshalYAML() }

func (x *HeldB) UnmarshalYAML(n *yaml.Node) error { return (*HeldE)(x).UnmarshalYAML(n) }

type T struct {
	A  A
	B  B
	M  M
	E  E
	LA []A
	LB []B
	LM []M
	LE []E
	MA map[string]A
	ME map[string]E
	AM [1]M
	PE *E
	OA A `yaml:",omitempty"`
	OB B `yaml:",omitempty"`
	OM M `yaml:",omitempty"`
	OE E `yaml:",omitempty"`
	S  string
}
