// Package corpus: marshalling methods on pointers.
//
// flags: -encode-pointer-receiver
package corpus

type Sub struct {
	A int `yaml:"a"`
}

type T struct {
	V    Sub
	P    *Sub
	L    []Sub
	LP   []*Sub
	A    [2]Sub
	M    map[string]Sub
	MP   map[string]*Sub
	Next *T
	PP   **Sub
}
