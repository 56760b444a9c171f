// Package corpus: unknown fields are errors.
//
// flags: -disallow-unknown-fields
package corpus

type Sub struct {
	A      int `yaml:"a"`
	hidden int
}

type T struct {
	A    int
	Skip int `yaml:"-"`
	Sub  Sub `yaml:"sub"`
	Ptr  *Sub
	List []Sub
	Map  map[string]Sub
	Last string `yaml:"last"`
}
