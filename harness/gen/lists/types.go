// Package corpus: sequences.
package corpus

type Flags []bool

type T struct {
	S  []string
	P  []*int8
	A  [2]uint16
	N  [][]bool
	M  [2][]int
	F  Flags
	Q  *[]int
	AP [1]*string
	B  [][]byte
	E  [0]int
}
