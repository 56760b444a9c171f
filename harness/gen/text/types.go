// Package corpus: types with marshalling methods of their own.
package corpus

import (
	"errors"

	"github.com/KSpaceer/yamly"

	"verif/genm"
)

// Txt marshals itself as text.
type Txt struct{ s string }

func (x *Txt) Desc() *genm.D               { return &genm.D{K: genm.Text, Pre: "<"} }
func (x *Txt) View() *genm.G               { return genm.S(x.s) }
func (x *Txt) Fill(g *genm.G)              { x.s = g.S }
func (x Txt) MarshalText() ([]byte, error) { return []byte("<" + x.s), nil }
func (x *Txt) UnmarshalText(b []byte) error {
	if len(b) == 0 || b[0] != '<' {
		return errors.New("no <")
	}
	x.s = string(b[1:])
	return nil
}

// Own knows yamly, and text too, which is not to be asked.
type Own struct{ s string }

func (x *Own) Desc() *genm.D  { return &genm.D{K: genm.Text, Pre: "<"} }
func (x *Own) View() *genm.G  { return genm.S(x.s) }
func (x *Own) Fill(g *genm.G) { x.s = g.S }
func (x *Own) MarshalYamly(out yamly.Inserter) {
	out.InsertString("<" + x.s)
}
func (x *Own) UnmarshalYamly(in yamly.Decoder) {
	s := in.String()
	if s == "" || s[0] != '<' {
		in.AddError(errors.New("no <"))
		return
	}
	x.s = s[1:]
}
func (x Own) MarshalText() ([]byte, error)  { return []byte("wrong"), nil }
func (x *Own) UnmarshalText(b []byte) error { x.s = "wrong"; return nil }

// Num is a number which marshals itself as text.
type Num int

func (x *Num) Desc() *genm.D { return &genm.D{K: genm.Text, Pre: "<", Only: "x"} }
func (x *Num) View() *genm.G {
	if *x == 0 {
		return genm.S("")
	}
	return genm.S("x")
}
func (x *Num) Fill(g *genm.G) {
	*x = 0
	if g.S != "" {
		*x, g.S = 1, "x"
	}
}
func (x Num) MarshalText() ([]byte, error) {
	if x == 0 {
		return []byte("<"), nil
	}
	return []byte("<x"), nil
}
func (x *Num) UnmarshalText(b []byte) error {
	switch string(b) {
	case "<":
		*x = 0
	case "<x":
		*x = 1
	default:
		return errors.New("no <")
	}
	return nil
}

type T struct {
	A  Txt
	P  *Txt
	L  []Txt
	LP []*Txt
	AR [2]Txt
	M  map[string]Txt
	O  Own
	OP *Own
	OL []Own
	OM map[string]*Own
	N  Num
	NL []Num
	PP **Txt
}
