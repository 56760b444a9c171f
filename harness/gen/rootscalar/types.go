// Package corpus: a scalar.
package corpus

type T uint16
