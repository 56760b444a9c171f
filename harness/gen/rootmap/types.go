// Package corpus: a mapping.
package corpus

type T map[string]*[]uint8
