// Package corpus: every empty field left out.
//
// flags: -omitempty
package corpus

type Sub struct {
	A int
	B []string `yaml:"b"`
}

type T struct {
	S  string
	U  uint64
	F  float32 `yaml:"f"`
	B  bool
	L  []Sub
	M  map[string]Sub
	P  *Sub
	V  Sub
	N  map[string]map[string]int
	PP *map[string]int
	Y  any
}
