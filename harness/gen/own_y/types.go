// Package corpus: types with the marshalling methods of the engine.
package corpus

import (
	"errors"

	"github.com/KSpaceer/yamly/engines/yayamls/decode"

	"verif/genm"
)

// Raw marshals itself as YAML.
type Raw struct{ s string }

func (x *Raw) Desc() *genm.D { return &genm.D{K: genm.Text, Pre: "<", Wrap: true} }
func (x *Raw) View() *genm.G { return genm.S(x.s) }
func (x *Raw) Fill(g *genm.G) {
	if g.S != "" {
		g.S = "x"
	}
	x.s = g.S
}
func (x Raw) MarshalYAML() ([]byte, error) {
	return []byte("{ raw: [ <" + x.s + " ] }"), nil
}
func (x *Raw) UnmarshalYAML(data []byte) error {
	in, err := decode.NewASTReaderFromBytes(data)
	if err != nil {
		return err
	}
	v := in.Any()
	if err := in.Error(); err != nil {
		return err
	}
	if m, ok := v.(map[string]any); ok && len(m) == 1 {
		if l, ok := m["raw"].([]any); ok && len(l) == 1 {
			v = l[0]
		}
	}
	s, ok := v.(string)
	if !ok || s == "" || s[0] != '<' {
		return errors.New("no <")
	}
	x.s = s[1:]
	return nil
}

// PRaw marshals itself by a method of the pointer.
type PRaw struct{ s string }

func (x *PRaw) Desc() *genm.D                   { return new(Raw).Desc() }
func (x *PRaw) View() *genm.G                   { return genm.S(x.s) }
func (x *PRaw) Fill(g *genm.G)                  { (*Raw)(x).Fill(g) }
func (x *PRaw) UnmarshalYAML(data []byte) error { return (*Raw)(x).UnmarshalYAML(data) }
func (x *PRaw) MarshalYAML() ([]byte, error)    { return Raw(*x).MarshalYAML() }

type T struct {
	A  Raw
	P  *Raw
	L  []Raw
	LP []*Raw
	M  map[string]Raw
	AR [2]Raw
	S  string

	PA  PRaw
	PP  *PRaw
	PL  []PRaw
	PM  map[string]PRaw
	PAR [1]PRaw
}
