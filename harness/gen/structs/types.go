// Package corpus: structs within structs.
package corpus

type Point struct {
	X, Y int
}

type Inner struct {
	Name  string `yaml:"name"`
	Point Point  `yaml:"point"`
}

type T struct {
	One  Inner
	Ptr  *Inner `yaml:"ptr"`
	List []Point
	Ptrs []*Point
	Arr  [2]Point
	Map  map[string]Inner
	MPtr map[string]*Point
	Anon struct {
		A int `yaml:"a"`
		B struct{ C []string }
	} `yaml:"anon"`
	Other struct{ A string }
}
