// Package corpus: an array.
//
// flags: -encode-pointer-receiver
package corpus

type T [2]map[int]*string
