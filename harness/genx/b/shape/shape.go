// Package shape: a package with the name of another one.
package shape

type Box struct {
	Text string `yaml:"t"`
	Box  *Box   `yaml:"box"`
}

type Names map[string]bool

type Level string
