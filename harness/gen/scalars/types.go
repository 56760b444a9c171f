// Package corpus: the other scalars and their names.
package corpus

import "time"

type Name string

type T struct {
	S       string `yaml:"s"`
	Hidden  int    `yaml:"-"`
	inner   int
	N       Name `json:"n" yaml:"first name"`
	B       bool `yaml:",omitempty"`
	F32     float32
	F64     float64 `yaml:"a: b"`
	At      time.Time
	Maybe   *time.Time `yaml:"maybe"`
	Data    []byte
	Fixed   [3]byte
	Ok      *bool
	Int     **int
	Another string `yaml:"S"`
	Quoted  string `yaml:"a\"b\\"`
}
