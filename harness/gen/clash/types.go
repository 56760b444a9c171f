// Package corpus: types and packages whose names are alike.
package corpus

import (
	"verif/genx/a/shape"
	shape1 "verif/genx/b/shape"
)

type FooBar struct {
	A int
	N *FooBar
}

type Foo_Bar struct {
	B string
	N *Foo_Bar
	O *FooBar
}

type T struct {
	X FooBar
	Y Foo_Bar
	L []Foo_Bar
	M []FooBar
	P struct {
		A int `yaml:"a"`
	}
	Q struct {
		A int `yaml:"b"`
	}
	R []struct {
		A int `yaml:"b"`
	}
	S struct {
		A int `yaml:"a"`
	}
	BA shape.Box
	BB shape1.Box
	NA shape.Names
	NB shape1.Names
	LA []shape.Level
	LB map[shape1.Level]shape.Level
	PA *shape.Level
}
