// Package corpus: a sequence.
package corpus

type Item struct {
	A int `yaml:"a"`
	B *string
}

type T []Item
