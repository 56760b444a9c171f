// Package shape: types used by generated code in another package.
package shape

type Box struct {
	W, H int
	Next *Box
}

type Names []string

type Level int
