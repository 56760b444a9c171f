// Package corpus: a type containing itself.
package corpus

type T struct {
	V     int          `yaml:"v"`
	Next  *T           `yaml:"next"`
	Kids  []T          `yaml:"kids"`
	Named map[string]T `yaml:"named"`
	Edge  *Edge
}

type Edge struct {
	To  *T
	Len uint8
}
