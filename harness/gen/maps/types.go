// Package corpus: mappings.
package corpus

type Key string

type T struct {
	S map[string]int
	I map[int8]string
	K map[Key]*bool
	N map[string]map[uint16]string
	L map[string][]int
	P *map[string]string
	A []map[string]bool
	B map[bool]uint8
}
