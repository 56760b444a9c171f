// Package vf is the vocabulary of the harnesses. Under the symbolic executor every function here is an
// intrinsic (inputs become solver variables, Assert becomes a query); compiled natively the same
// functions read a recorded input vector, so that a harness replays a solver model on the real code.
package vf

import (
	"fmt"
	"math"
	"runtime"
	"sync"
	"time"
)

// Stop ends a native run.
type Stop struct{ Kind, Label string }

var (
	In     []uint64
	pos    int
	Obs    []string
	Short  bool
	Reachd []string
)

func Reset(in []uint64) {
	In, pos, Obs, Short, Reachd = in, 0, nil, false, nil
	base = runtime.NumGoroutine()
}

var base int

// Race runs f. Under the symbolic executor a write of f to memory which another call of f could reach at the same time (package variables
// of the library and what shared refers to) is a violation; natively two goroutines run f again and again, for the race detector.
func Race(f func(), shared any) {
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < Rounds; k++ {
				f()
			}
		}()
	}
	wg.Wait()
}

// Rounds is how often each goroutine of Race runs its function.
var Rounds = 2

// Leaked tells how many goroutines started since the beginning of the harness never end.
func Leaked() int {
	n := 0
	for i := 0; i < 100; i++ {
		if n = runtime.NumGoroutine() - base; n <= 0 {
			return 0
		}
		time.Sleep(time.Millisecond)
	}
	return n
}

func next() uint64 {
	if pos >= len(In) {
		Short = true
		pos++
		return 0
	}
	pos++
	return In[pos-1]
}

func Byte() byte                     { return byte(next()) }
func ByteIn(set string) byte         { return byte(next()) }
func Bool() bool                     { return next() == 1 }
func Uint8() uint8                   { return uint8(next()) }
func Uint16() uint16                 { return uint16(next()) }
func Uint32() uint32                 { return uint32(next()) }
func Uint64() uint64                 { return next() }
func Int64() int64                   { return int64(next()) }
func Rune() rune                     { return rune(int32(next())) }
func Choose(n int) int               { return int(next()) }
func Symbolic() bool                 { return false }
func Concrete(x uint64) uint64       { return x }
func ConcreteString(s string) string { return s }
func Reach(label string)             { Reachd = append(Reachd, label) }
func Known(label string)             {}

func Assume(c bool) {
	if !c {
		panic(Stop{"assume", ""})
	}
}

func Assert(c bool, label string) {
	if !c {
		panic(Stop{"assert", label})
	}
}

func Observe(label string, vs ...any) {
	s := label
	for _, v := range vs {
		s += " " + show(v)
	}
	Obs = append(Obs, s)
}

func show(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return fmt.Sprintf("%q", []byte(x))
	case []byte:
		return fmt.Sprintf("%q", x)
	case float64:
		return fmt.Sprintf("f%x", math.Float64bits(x))
	case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		return fmt.Sprint(x)
	}
	return "?"
}
