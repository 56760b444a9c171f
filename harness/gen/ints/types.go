// Package corpus: integers of every size.
package corpus

import "time"

type Level int8

type T struct {
	I   int
	I8  int8
	I16 int16
	I32 int32
	I64 int64 `yaml:"i64"`
	U   uint
	U8  uint8
	U16 uint16
	U32 uint32
	U64 uint64 `yaml:"-,"`
	L   Level
	D   time.Duration `yaml:"d d"`
}
