// Package corpus: untyped values.
package corpus

type T struct {
	A any
	L []any
	M map[string]any
	P *any `yaml:"p"`
	S string
}
