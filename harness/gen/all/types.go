// Package corpus: every option.
//
// flags: -omitempty -disallow-unknown-fields -encode-pointer-receiver -inline-embedded
package corpus

type Base struct {
	ID int `yaml:"id"`
}

type Sub struct {
	*Base
	V []int `yaml:"v"`
}

type T struct {
	Base
	Name string          `yaml:"name"`
	Sub  Sub             `yaml:"sub"`
	Ptr  *Sub            `yaml:"ptr"`
	List []*Sub          `yaml:"list"`
	Next *T              `yaml:"next"`
	M    map[string]Base `yaml:"m"`
}
