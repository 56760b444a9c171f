// Package corpus: embedded structs inlined.
//
// flags: -inline-embedded
package corpus

type Base struct {
	ID   int    `yaml:"id"`
	Same string `yaml:"same"`
}

type Deep struct {
	*Deeper
	D bool
}

type Deeper struct {
	E []int
}

type Kind int8

type Opt struct {
	O *string `yaml:"o"`
	Q string
}

type Named struct {
	N int
}

type T struct {
	Base
	Name string `yaml:"name"`
	*Opt
	Deep
	Kind
	Named `yaml:"named"`
	Same  uint8 `yaml:"sam"`
}
