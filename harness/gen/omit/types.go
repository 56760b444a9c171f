// Package corpus: fields left out by their tags.
package corpus

import "time"

type Empty struct{}

type T struct {
	S  string         `yaml:"s,omitempty"`
	I  int            `yaml:",omitempty"`
	U  uint8          `yaml:"u,omitempty"`
	F  float64        `yaml:"f,omitempty"`
	B  bool           `yaml:"b,omitempty"`
	L  []int          `yaml:"l,omitempty"`
	M  map[string]int `yaml:"m,omitempty"`
	P  *int           `yaml:"p,omitempty"`
	Q  *string
	A  [2]int          `yaml:"a,omitempty"`
	Z  struct{ V int } `yaml:"z,omitempty"`
	T  time.Time       `yaml:"t,omitempty"`
	D  []byte          `yaml:"d,omitempty"`
	LP []*int          `yaml:"lp,omitempty"`
	PS *Empty          `yaml:"ps,omitempty"`
	K  []int
}
