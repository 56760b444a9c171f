// Package corpus: fields inlined by their tags, embedded fields which are not.
package corpus

type Base struct {
	ID int `yaml:"id"`
}

type More struct {
	M    string `yaml:"m"`
	Last Last   `yaml:",inline"`
}

type Last struct {
	L []bool `yaml:"l"`
}

type Opt struct {
	O *string `yaml:"o"`
}

type Ref struct {
	R int8
	W Opt `yaml:"w"`
}

type T struct {
	Base `yaml:",inline"`
	More More `yaml:"more,inline"`
	*Opt
	Ref  *Ref `yaml:"ref,inline"`
	Name string
}
