package main

import (
	"fmt"
	"go/types"
	"math"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Intrinsics that may run inside a speculative (merged) region: they neither fork nor write.
var lightIntrinsics = map[string]bool{
	"strings.ContainsRune": true, "strings.IndexRune": true, "strings.IndexByte": true, "strings.ContainsAny": false,
	"verif/vf.Symbolic": true, "strings.HasPrefix": true, "strings.HasSuffix": true,
}

type intrinsic = func(m *Machine, fn *Fn, args []Value) Value

var intrinsics map[string]intrinsic

// packages of the standard library whose initialisers are run (once)
var stdInit = map[string]bool{
	"errors": true, "io": true, "unicode": true, "unicode/utf8": true, "strconv": true, "strings": true, "bytes": true,
	"sort": true, "slices": true, "math": true, "math/bits": true, "time": true, "encoding/base64": true,
	"encoding/binary": true, "iter": true, "maps": true, "cmp": true, "unicode/utf16": true, "internal/stringslite": true,
	"internal/bytealg": false, "internal/oserror": true, "io/fs": true, "encoding": true, "internal/byteorder": true,
	"internal/strconv": true, "gopkg.in/yaml.v3": true, "encoding/hex": true, "internal/errors": true,
}

func lookupIntrinsic(f *ssa.Function, name string) intrinsic {
	if f.Origin() != nil {
		if h, ok := intrinsics[f.Origin().String()]; ok {
			return h
		}
	}
	if h, ok := intrinsics[name]; ok {
		return h
	}
	if op, ok := strings.CutPrefix(name, "sync/atomic."); ok {
		if h := atomicOp(op); h != nil {
			return h
		}
	}
	if f.Synthetic == "package initializer" && f.Pkg != nil {
		path := f.Pkg.Pkg.Path()
		if !stdInit[path] && !isUserPkg(path) {
			return func(m *Machine, fn *Fn, args []Value) Value { return Value{} }
		}
		if !isUserPkg(path) {
			// run once, in the base machine
			return func(m *Machine, fn *Fn, args []Value) Value {
				if m.E == nil || m.E.initing {
					return m.callBody(fn, args, nil)
				}
				return Value{}
			}
		}
	}
	if strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.Value)") ||
		strings.HasPrefix(name, "internal/race.") || strings.HasPrefix(name, "internal/godebug.") || strings.HasPrefix(name, "(*internal/godebug.") ||
		strings.HasPrefix(name, "internal/asan.") || strings.HasPrefix(name, "internal/msan.") || strings.HasPrefix(name, "runtime.") || strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "internal/reflectlite.") || strings.HasPrefix(name, "fmt.") {
		return func(m *Machine, fn *Fn, args []Value) Value {
			if m.E != nil && m.E.initing {
				return zeroResults(fn)
			}
			m.unsupported("call of %s at %s", fn.name, m.where())
			return Value{}
		}
	}
	return nil
}

// line is the text of fmt.Println.
func (m *Machine) line(xs []Value) *Str {
	r := &Str{}
	for i, x := range xs {
		if i > 0 {
			r = concatStr(r, &Str{s: " "})
		}
		r = concatStr(r, m.formatOne('v', x, false))
	}
	return concatStr(r, &Str{s: "\n"})
}

// sortSlice sorts by insertion, which is stable.
func sortSlice(m *Machine, fn *Fn, a []Value) Value {
	if m.spec > 0 {
		panic(specBail{})
	}
	x := a[0].p.(*Iface).v.slice()
	for i := 1; i < len(x); i++ {
		for j := i; j > 0; j-- {
			c := m.callValue(a[1], []Value{VInt(uint64(j)), VInt(uint64(j - 1))})
			if t := c.term(); t != nil && !m.branch(t) || t == nil && c.n == 0 {
				break
			}
			if m.shared != nil {
				m.wrote(&x[j])
				m.wrote(&x[j-1])
			}
			v := copyVal(x[j])
			assign(&x[j], copyVal(x[j-1]))
			assign(&x[j-1], v)
		}
	}
	return Value{}
}

// atomicOp: goroutines run one at a time, so that every operation is atomic.
func atomicOp(op string) intrinsic {
	w := uint8(64)
	if strings.HasSuffix(op, "32") {
		w = 32
	}
	cell := func(m *Machine, v Value) *Value {
		if m.spec > 0 {
			panic(specBail{})
		}
		c, ok := v.p.(*Value)
		if !ok {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return c
	}
	switch {
	case strings.HasPrefix(op, "Load"):
		return func(m *Machine, fn *Fn, a []Value) Value { return copyVal(*cell(m, a[0])) }
	case strings.HasPrefix(op, "Store"):
		return func(m *Machine, fn *Fn, a []Value) Value {
			assign(cell(m, a[0]), a[1])
			return Value{}
		}
	case strings.HasPrefix(op, "Swap"):
		return func(m *Machine, fn *Fn, a []Value) Value {
			c := cell(m, a[0])
			old := copyVal(*c)
			assign(c, a[1])
			return old
		}
	case strings.HasPrefix(op, "Add") && !strings.HasSuffix(op, "ptr"):
		return func(m *Machine, fn *Fn, a []Value) Value {
			c := cell(m, a[0])
			if c.p != nil || a[1].p != nil {
				m.unsupported("atomic operation on a symbolic value at %s", m.where())
			}
			assign(c, VInt((c.n+a[1].n)&mask(w)))
			return *c
		}
	case strings.HasPrefix(op, "CompareAndSwap"):
		return func(m *Machine, fn *Fn, a []Value) Value {
			c := cell(m, a[0])
			if c.term() != nil || a[1].term() != nil {
				m.unsupported("atomic operation on a symbolic value at %s", m.where())
			}
			if c.n != a[1].n || c.p != a[1].p {
				return VBool(false)
			}
			assign(c, a[2])
			return VBool(true)
		}
	}
	return nil
}

func (m *Machine) waitGroup(c Value, delta int) int {
	if m.spec > 0 {
		panic(specBail{})
	}
	k := fmt.Sprintf("wg%p", c.p)
	n := int(int64(m.onceKeys[k].n)) + delta
	if n < 0 {
		m.rtPanic("sync: negative WaitGroup counter")
	}
	m.onceKeys[k] = VInt(uint64(n))
	return n
}

func isUserPkg(path string) bool {
	return strings.HasPrefix(path, "github.com/KSpaceer/yamly") || strings.HasPrefix(path, "verif/") || path == "command-line-arguments"
}

func tuple(vs ...Value) Value { return Value{p: &Agg{f: vs}} }

func allConcrete(args []Value) bool {
	for _, a := range args {
		switch p := a.p.(type) {
		case *Term:
			return false
		case *Str:
			if p.sym != nil {
				return false
			}
		case *Slice:
			for _, v := range p.a {
				if v.term() != nil {
					return false
				}
			}
		}
	}
	return true
}

func (m *Machine) mkErr(msg string) Value {
	// *errors.errorString
	sp := m.P.prog.ImportedPackage("errors")
	return m.callFn(m.P.fn(sp.Func("New")), []Value{VStr(msg)}, nil)
}

func bytesOf(v Value) []byte {
	a := v.slice()
	b := make([]byte, len(a))
	for i, x := range a {
		b[i] = byte(x.n)
	}
	return b
}

func (m *Machine) newVar(w uint8, dom *[4]uint64) *Term {
	idx := int32(len(m.vterm))
	t := m.tt.Var(idx, w)
	m.vterm = append(m.vterm, t)
	var d [4]uint64
	if dom != nil {
		d = *dom
	} else {
		d = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	}
	m.doms = append(m.doms, d)
	m.wide = append(m.wide, w != 8)
	m.ent = append(m.ent, false)
	return t
}

func (m *Machine) input(w uint8, dom *[4]uint64, kind string) *Term {
	t := m.newVar(w, dom)
	m.inputs = append(m.inputs, inputEnt{kind: kind, v: t})
	return t
}

func domOf(s string) *[4]uint64 {
	var d [4]uint64
	for i := 0; i < len(s); i++ {
		d[s[i]>>6] |= 1 << (s[i] & 63)
	}
	return &d
}

func (m *Machine) assumeNew(t *Term) {
	if t.isConst() {
		if t.val == 0 {
			panic(pathEnd{"infeasible", "assume"})
		}
		return
	}
	if m.di < len(m.dec) {
		d := m.dec[m.di]
		m.di++
		m.take(d)
		if !d.forced {
			m.assume(t)
		}
		return
	}
	r := m.feasible(t)
	if r == Unsat {
		panic(pathEnd{"infeasible", "assume"})
	}
	if r == Unknown {
		m.E.noteUnknown()
	}
	m.take(Decision{1, false})
	m.assume(t)
}

func init() {
	intrinsics = map[string]intrinsic{
		// ---- the harness vocabulary
		"verif/vf.Byte": func(m *Machine, fn *Fn, a []Value) Value { return VTerm(m.input(8, nil, "byte")) },
		"verif/vf.ByteIn": func(m *Machine, fn *Fn, a []Value) Value {
			return VTerm(m.input(8, domOf(a[0].str().s), "byte"))
		},
		"verif/vf.Bool": func(m *Machine, fn *Fn, a []Value) Value {
			t := m.input(8, &[4]uint64{3}, "bool")
			return VTerm(m.tt.Eq(t, m.tt.Const(1, 8)))
		},
		"verif/vf.Uint8":  func(m *Machine, fn *Fn, a []Value) Value { return VTerm(m.input(8, nil, "u8")) },
		"verif/vf.Uint16": func(m *Machine, fn *Fn, a []Value) Value { return VTerm(m.input(16, nil, "u16")) },
		"verif/vf.Uint32": func(m *Machine, fn *Fn, a []Value) Value { return VTerm(m.input(32, nil, "u32")) },
		"verif/vf.Uint64": func(m *Machine, fn *Fn, a []Value) Value { return VTerm(m.input(64, nil, "u64")) },
		"verif/vf.Int64":  func(m *Machine, fn *Fn, a []Value) Value { return VTerm(m.input(64, nil, "i64")) },
		"verif/vf.Rune":   func(m *Machine, fn *Fn, a []Value) Value { return VTerm(m.input(32, nil, "rune")) },
		"verif/vf.Choose": func(m *Machine, fn *Fn, a []Value) Value {
			n := m.concInt(a[0])
			if n <= 1 {
				m.inputs = append(m.inputs, inputEnt{kind: "choice"})
				return VInt(0)
			}
			if n > 256 {
				k := m.pickN(n)
				m.inputs = append(m.inputs, inputEnt{kind: "choice", c: uint64(k)})
				return VInt(uint64(k))
			}
			var d [4]uint64
			for i := 0; i < n; i++ {
				d[i>>6] |= 1 << (i & 63)
			}
			return VTerm(m.tt.Ext(m.input(8, &d, "choice"), 64, false))
		},
		"verif/vf.Assume": func(m *Machine, fn *Fn, a []Value) Value {
			m.assumeNew(m.boolTerm(a[0]))
			return Value{}
		},
		"verif/vf.Assert": func(m *Machine, fn *Fn, a []Value) Value {
			m.assertion(m.boolTerm(a[0]), a[1].str().s)
			return Value{}
		},
		"verif/vf.Race": func(m *Machine, fn *Fn, a []Value) Value {
			m.race(a[0], a[1])
			return Value{}
		},
		"verif/vf.Leaked":   func(m *Machine, fn *Fn, a []Value) Value { return VInt(uint64(m.leaked())) },
		"verif/vf.Symbolic": func(m *Machine, fn *Fn, a []Value) Value { return VBool(true) },
		"verif/vf.Reach": func(m *Machine, fn *Fn, a []Value) Value {
			m.reach[a[0].str().s] = true
			return Value{}
		},
		"verif/vf.Concrete": func(m *Machine, fn *Fn, a []Value) Value {
			if t := a[0].term(); t != nil {
				return VInt(m.concretize(t))
			}
			return a[0]
		},
		"verif/vf.ConcreteString": func(m *Machine, fn *Fn, a []Value) Value {
			s := a[0].str()
			if s.sym == nil {
				return a[0]
			}
			b := make([]byte, len(s.s))
			for i := range b {
				v := s.at(i)
				if t := v.term(); t != nil {
					b[i] = byte(m.concretize(t))
				} else {
					b[i] = byte(v.n)
				}
			}
			return VStr(string(b))
		},
		"verif/vf.Observe": func(m *Machine, fn *Fn, a []Value) Value {
			e := obsEnt{label: a[0].str().s}
			for _, v := range a[1].slice() {
				if v.p == nil {
					e.v = append(e.v, Value{})
					e.t = append(e.t, nil)
					continue
				}
				i := v.p.(*Iface)
				e.v = append(e.v, i.v)
				e.t = append(e.t, i.t)
			}
			m.obs = append(m.obs, e)
			return Value{}
		},
		"verif/vf.Known": func(m *Machine, fn *Fn, a []Value) Value {
			m.known[a[0].str().s] = "1"
			return Value{}
		},

		// without the cache of unnamed zones: globals of the standard library are shared by the paths
		"time.FixedZone": func(m *Machine, fn *Fn, a []Value) Value {
			return m.callFn(m.P.fn(fn.ssa.Pkg.Func("fixedZone")), a, nil)
		},

		// ---- unsafe-based or assembly parts of the standard library
		"(*strings.Builder).String": func(m *Machine, fn *Fn, a []Value) Value {
			c := a[0].p.(*Value).p.(*Agg)
			return mkStr(bytesToStr(c.f[1].slice()))
		},
		"(*strings.Builder).copyCheck": nop,
		"internal/bytealg.MakeNoZero": func(m *Machine, fn *Fn, a []Value) Value {
			return mkSlice(make([]Value, int(roundupsize(int64(m.concInt(a[0]))))))
		},
		"internal/stringslite.Clone":           func(m *Machine, fn *Fn, a []Value) Value { return a[0] },
		"strings.Clone":                        func(m *Machine, fn *Fn, a []Value) Value { return a[0] },
		"internal/bytealg.IndexByteString":     func(m *Machine, fn *Fn, a []Value) Value { return m.indexByte(strToBytes(a[0].str()), a[1]) },
		"internal/bytealg.IndexByte":           func(m *Machine, fn *Fn, a []Value) Value { return m.indexByte(a[0].slice(), a[1]) },
		"internal/bytealg.LastIndexByteString": func(m *Machine, fn *Fn, a []Value) Value { return m.lastIndexByte(strToBytes(a[0].str()), a[1]) },
		"internal/bytealg.LastIndexByte":       func(m *Machine, fn *Fn, a []Value) Value { return m.lastIndexByte(a[0].slice(), a[1]) },
		"internal/bytealg.CountString":         func(m *Machine, fn *Fn, a []Value) Value { return m.countByte(strToBytes(a[0].str()), a[1]) },
		"internal/bytealg.Count":               func(m *Machine, fn *Fn, a []Value) Value { return m.countByte(a[0].slice(), a[1]) },
		"internal/bytealg.Equal": func(m *Machine, fn *Fn, a []Value) Value {
			return VTerm(m.strEq(bytesToStr(a[0].slice()), bytesToStr(a[1].slice())))
		},
		"internal/bytealg.IndexString": func(m *Machine, fn *Fn, a []Value) Value { return m.indexStr(a[0].str(), a[1].str()) },
		"internal/bytealg.Index": func(m *Machine, fn *Fn, a []Value) Value {
			return m.indexStr(bytesToStr(a[0].slice()), bytesToStr(a[1].slice()))
		},
		"strings.Index":              func(m *Machine, fn *Fn, a []Value) Value { return m.indexStr(a[0].str(), a[1].str()) },
		"internal/stringslite.Index": func(m *Machine, fn *Fn, a []Value) Value { return m.indexStr(a[0].str(), a[1].str()) },
		"bytes.Index": func(m *Machine, fn *Fn, a []Value) Value {
			return m.indexStr(bytesToStr(a[0].slice()), bytesToStr(a[1].slice()))
		},
		"strings.Contains": func(m *Machine, fn *Fn, a []Value) Value {
			return VBool(int64(m.indexStr(a[0].str(), a[1].str()).n) >= 0)
		},
		"internal/bytealg.CompareString": func(m *Machine, fn *Fn, a []Value) Value { return m.compareStr(a[0].str(), a[1].str()) },
		"internal/bytealg.Compare": func(m *Machine, fn *Fn, a []Value) Value {
			return m.compareStr(bytesToStr(a[0].slice()), bytesToStr(a[1].slice()))
		},
		"strings.IndexRune": func(m *Machine, fn *Fn, a []Value) Value { return m.indexRune(fn, a) },
		"strings.ContainsRune": func(m *Machine, fn *Fn, a []Value) Value {
			if c, ok := m.containsRune(a[0].str(), a[1]); ok {
				return VTerm(c)
			}
			if m.spec > 0 {
				panic(specBail{})
			}
			return m.callBody(fn, a, nil)
		},
		"strings.IndexByte": func(m *Machine, fn *Fn, a []Value) Value {
			s := a[0].str()
			if m.spec == 0 && s.sym != nil {
				return m.indexByte(strToBytes(s), a[1])
			}
			if s.sym != nil {
				panic(specBail{})
			}
			r := m.tt.Const(^uint64(0), 64)
			b := m.scalarTerm(a[1], 8)
			for i := len(s.s) - 1; i >= 0; i-- {
				r = m.tt.Ite(m.tt.Eq(b, m.tt.Const(uint64(s.s[i]), 8)), m.tt.Const(uint64(i), 64), r)
			}
			return VTerm(r)
		},
		"strings.HasPrefix": func(m *Machine, fn *Fn, a []Value) Value {
			s, p := a[0].str(), a[1].str()
			if len(s.s) < len(p.s) {
				return VBool(false)
			}
			return VTerm(m.strEq(s.slice(0, len(p.s)), p))
		},
		"strings.HasSuffix": func(m *Machine, fn *Fn, a []Value) Value {
			s, p := a[0].str(), a[1].str()
			if len(s.s) < len(p.s) {
				return VBool(false)
			}
			return VTerm(m.strEq(s.slice(len(s.s)-len(p.s), len(s.s)), p))
		},
		"strings.ToLower":          nativeOrBody(func(a []Value) Value { return VStr(strings.ToLower(a[0].str().s)) }),
		"strings.ToUpper":          nativeOrBody(func(a []Value) Value { return VStr(strings.ToUpper(a[0].str().s)) }),
		"unicode/utf8.ValidString": nativeOrBody(func(a []Value) Value { return VBool(utf8.ValidString(a[0].str().s)) }),
		"strings.TrimSpace":        nativeOrBody(func(a []Value) Value { return VStr(strings.TrimSpace(a[0].str().s)) }),
		"strings.EqualFold":        nativeOrBody(func(a []Value) Value { return VBool(strings.EqualFold(a[0].str().s, a[1].str().s)) }),

		// ---- errors
		"errors.Is": func(m *Machine, fn *Fn, a []Value) Value {
			if a[0].p == nil || a[1].p == nil {
				return VBool(a[0].p == nil && a[1].p == nil)
			}
			return VBool(m.errorsIs(a[0], a[1]))
		},
		"errors.As": func(m *Machine, fn *Fn, a []Value) Value { return VBool(m.errorsAs(a[0], a[1])) },

		// ---- fmt
		"fmt.Sprintf": func(m *Machine, fn *Fn, a []Value) Value { return mkStr(m.format(a[0].str().s, a[1].slice())) },
		"fmt.Errorf":  func(m *Machine, fn *Fn, a []Value) Value { return m.errorf(a[0].str().s, a[1].slice()) },
		"fmt.Sprint": func(m *Machine, fn *Fn, a []Value) Value {
			r := &Str{}
			for i, x := range a[0].slice() {
				if i > 0 && !isStringIface(x) && !isStringIface(a[0].slice()[i-1]) {
					r = concatStr(r, &Str{s: " "})
				}
				r = concatStr(r, m.formatOne('v', x, false))
			}
			return mkStr(r)
		},
		"fmt.Fprintf": func(m *Machine, fn *Fn, a []Value) Value { return m.fprint(a[0], m.format(a[1].str().s, a[2].slice())) },
		"fmt.Fprint": func(m *Machine, fn *Fn, a []Value) Value {
			r := &Str{}
			for _, x := range a[1].slice() {
				r = concatStr(r, m.formatOne('v', x, false))
			}
			return m.fprint(a[0], r)
		},
		"fmt.Fprintln": func(m *Machine, fn *Fn, a []Value) Value { return m.fprint(a[0], m.line(a[1].slice())) },
		"fmt.Sprintln": func(m *Machine, fn *Fn, a []Value) Value { return mkStr(m.line(a[0].slice())) },
		"fmt.Appendf": func(m *Machine, fn *Fn, a []Value) Value {
			return mkSlice(append(append([]Value(nil), a[0].slice()...), strToBytes(m.format(a[1].str().s, a[2].slice()))...))
		},

		// ---- sync: single-threaded models
		"(*sync.Pool).Get": func(m *Machine, fn *Fn, a []Value) Value {
			c := a[0].p.(*Value)
			if l := m.pools[c]; len(l) > 0 {
				v := l[len(l)-1]
				m.pools[c] = l[:len(l)-1]
				if m.shared != nil {
					m.markPooled(v, 0)
				}
				return v
			}
			st := a[0].p.(*Value).p.(*Agg)
			f := st.f[len(st.f)-1] // New is the last field
			if f.p == nil {
				return Value{}
			}
			return m.callValue(f, nil)
		},
		"(*sync.Pool).Put": func(m *Machine, fn *Fn, a []Value) Value {
			if a[1].p == nil {
				return Value{}
			}
			c := a[0].p.(*Value)
			m.pools[c] = append(m.pools[c], a[1])
			if m.shared != nil {
				m.markPooled(a[1], pooledMem)
			}
			return Value{}
		},
		"(*sync.Mutex).Lock": nop, "(*sync.Mutex).Unlock": nop, "(*sync.RWMutex).Lock": nop, "(*sync.RWMutex).Unlock": nop,
		"(*sync.RWMutex).RLock": nop, "(*sync.RWMutex).RUnlock": nop,
		"(*sync.Mutex).TryLock": func(m *Machine, fn *Fn, a []Value) Value { return VBool(true) },
		"(*sync.WaitGroup).Add": func(m *Machine, fn *Fn, a []Value) Value {
			m.waitGroup(a[0], int(m.concInt(a[1])))
			return Value{}
		},
		"(*sync.WaitGroup).Done": func(m *Machine, fn *Fn, a []Value) Value {
			m.waitGroup(a[0], -1)
			return Value{}
		},
		"(*sync.WaitGroup).Wait": func(m *Machine, fn *Fn, a []Value) Value {
			m.block(func() bool { return m.waitGroup(a[0], 0) == 0 })
			return Value{}
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"maps.clone": func(m *Machine, fn *Fn, a []Value) Value {
			i := a[0].p.(*Iface)
			mp, ok := i.v.p.(*Map)
			if !ok {
				return a[0]
			}
			n := newMap(mp.kt)
			for j, k := range mp.keys {
				if mp.live[j] {
					m.mapSet(n, copyVal(k), copyVal(mp.vals[j]))
				}
			}
			return Value{p: &Iface{t: i.t, v: Value{p: n}}}
		},
		"slices.overlaps": func(m *Machine, fn *Fn, a []Value) Value {
			x, y := a[0].slice(), a[1].slice()
			if len(x) == 0 || len(y) == 0 {
				return VBool(false)
			}
			at := func(v *Value) uintptr { return uintptr(unsafe.Pointer(v)) }
			return VBool(at(&x[0]) <= at(&y[len(y)-1]) && at(&y[0]) <= at(&x[len(x)-1]))
		},
		"(*sync.Once).Do": func(m *Machine, fn *Fn, a []Value) Value {
			if m.E.initing {
				return Value{}
			}
			k := fmt.Sprintf("%p", a[0].p)
			if _, ok := m.onceKeys[k]; ok {
				return Value{}
			}
			m.onceKeys[k] = Value{}
			m.callValue(a[1], nil)
			return Value{}
		},

		// ---- regexp
		"regexp.MustCompile": func(m *Machine, fn *Fn, a []Value) Value {
			return m.newRegexp(a[0].str().s)
		},
		"regexp.Compile": func(m *Machine, fn *Fn, a []Value) Value {
			return tuple(m.newRegexp(a[0].str().s), Value{})
		},
		"(*regexp.Regexp).MatchString": func(m *Machine, fn *Fn, a []Value) Value { return m.reMatch(a[0], a[1].str()) },
		"(*regexp.Regexp).Match":       func(m *Machine, fn *Fn, a []Value) Value { return m.reMatch(a[0], bytesToStr(a[1].slice())) },
		"(*regexp.Regexp).String": func(m *Machine, fn *Fn, a []Value) Value {
			return VStr(a[0].p.(*Value).p.(*nativeRe).src)
		},
		"(*regexp.Regexp).FindStringIndex": func(m *Machine, fn *Fn, a []Value) Value {
			s := a[1].str()
			if s.sym != nil {
				m.unsupported("FindStringIndex on a symbolic string")
			}
			r := a[0].p.(*Value).p.(*nativeRe).re.FindStringIndex(s.s)
			if r == nil {
				return Value{}
			}
			return mkSlice([]Value{VInt(uint64(r[0])), VInt(uint64(r[1]))})
		},
		"(*regexp.Regexp).FindStringSubmatch": func(m *Machine, fn *Fn, a []Value) Value {
			s := a[1].str()
			if s.sym != nil {
				m.unsupported("FindStringSubmatch on a symbolic string")
			}
			r := a[0].p.(*Value).p.(*nativeRe).re.FindStringSubmatch(s.s)
			if r == nil {
				return Value{}
			}
			var vs []Value
			for _, x := range r {
				vs = append(vs, VStr(x))
			}
			return mkSlice(vs)
		},

		// ---- strconv: concrete natively, decimal symbolically by contract, otherwise interpreted
		"strconv.FormatInt": func(m *Machine, fn *Fn, a []Value) Value {
			b := m.concInt(a[1])
			if t := a[0].term(); t != nil && b == 10 {
				return mkStr(bytesToStr(m.decimal(t, true)))
			}
			if a[0].p == nil {
				return VStr(strconv.FormatInt(int64(a[0].n), b))
			}
			return m.callBody(fn, a, nil)
		},
		"strconv.FormatUint": func(m *Machine, fn *Fn, a []Value) Value {
			b := m.concInt(a[1])
			if t := a[0].term(); t != nil && b == 10 {
				return mkStr(bytesToStr(m.decimal(t, false)))
			}
			if a[0].p == nil {
				return VStr(strconv.FormatUint(a[0].n, b))
			}
			return m.callBody(fn, a, nil)
		},
		"strconv.Itoa": func(m *Machine, fn *Fn, a []Value) Value {
			if t := a[0].term(); t != nil {
				return mkStr(bytesToStr(m.decimal(t, true)))
			}
			return VStr(strconv.Itoa(int(a[0].n)))
		},
		"strconv.AppendInt": func(m *Machine, fn *Fn, a []Value) Value {
			b := m.concInt(a[2])
			var ds []Value
			if t := a[1].term(); t != nil && b == 10 {
				ds = m.decimal(t, true)
			} else if a[1].p == nil {
				ds = strToBytes(&Str{s: strconv.FormatInt(int64(a[1].n), b)})
			} else {
				return m.callBody(fn, a, nil)
			}
			return mkSlice(append(append([]Value{}, a[0].slice()...), ds...))
		},
		"strconv.ParseInt":  func(m *Machine, fn *Fn, a []Value) Value { return m.parseDecimal(fn, a, true) },
		"strconv.ParseUint": func(m *Machine, fn *Fn, a []Value) Value { return m.parseDecimal(fn, a, false) },
		"strconv.ParseFloat": func(m *Machine, fn *Fn, a []Value) Value {
			if !allConcrete(a) {
				return m.parseFloatSym(fn, a)
			}
			f, err := strconv.ParseFloat(a[0].str().s, m.concInt(a[1]))
			return tuple(VFloat(f), m.numErr("ParseFloat", a[0], err))
		},
		"strconv.FormatFloat": func(m *Machine, fn *Fn, a []Value) Value {
			if !allConcrete(a) {
				m.unsupported("FormatFloat of a symbolic value")
			}
			return VStr(strconv.FormatFloat(a[0].float(), byte(a[1].n), int(int64(a[2].n)), int(int64(a[3].n))))
		},
		"strconv.Quote": func(m *Machine, fn *Fn, a []Value) Value {
			if s := a[0].str(); s.sym == nil {
				return VStr(strconv.Quote(s.s))
			}
			return m.callBody(fn, a, nil)
		},
		"math.Float64bits":     func(m *Machine, fn *Fn, a []Value) Value { return VInt(a[0].n) },
		"math.Float64frombits": func(m *Machine, fn *Fn, a []Value) Value { return VFloat(math.Float64frombits(a[0].n)) },
		"math.Float32bits": func(m *Machine, fn *Fn, a []Value) Value {
			return VInt(uint64(math.Float32bits(float32(a[0].float()))))
		},
		"math.Float32frombits": func(m *Machine, fn *Fn, a []Value) Value {
			return VFloat(float64(math.Float32frombits(uint32(a[0].n))))
		},
		"math.IsNaN": func(m *Machine, fn *Fn, a []Value) Value { return VBool(math.IsNaN(a[0].float())) },
		"math.IsInf": func(m *Machine, fn *Fn, a []Value) Value {
			return VBool(math.IsInf(a[0].float(), int(int64(a[1].n))))
		},
		"math.Inf": func(m *Machine, fn *Fn, a []Value) Value { return VFloat(math.Inf(int(int64(a[0].n)))) },
		"math.NaN": func(m *Machine, fn *Fn, a []Value) Value { return VFloat(math.NaN()) },

		// ---- reflect-lite bits used by initialisers
		"reflect.TypeOf": func(m *Machine, fn *Fn, a []Value) Value {
			if a[0].p == nil || m.E.initing {
				return Value{}
			}
			t := a[0].p.(*Iface).t
			return Value{p: &Iface{t: rtypeOf(types.NewPointer(types.Typ[types.Int])), v: Value{p: t}}}
		},
		"(*time.Location).get": func(m *Machine, fn *Fn, a []Value) Value {
			if a[0].p == nil {
				g := m.P.prog.ImportedPackage("time").Var("utcLoc")
				return Value{p: m.global(m.P.globalID(g))}
			}
			return a[0]
		},
		"time.runtimeNano": func(m *Machine, fn *Fn, a []Value) Value { return VInt(1) },
		"time.now":         func(m *Machine, fn *Fn, a []Value) Value { return tuple(VInt(1700000000), VInt(0), VInt(1)) },
	}
}

func nop(m *Machine, fn *Fn, args []Value) Value { return Value{} }

func nativeOrBody(f func(a []Value) Value) intrinsic {
	return func(m *Machine, fn *Fn, a []Value) Value {
		if allConcrete(a) {
			return f(a)
		}
		return m.callBody(fn, a, nil)
	}
}

func (m *Machine) indexByte(a []Value, c Value) Value {
	ct := m.scalarTerm(c, 8)
	for i, v := range a {
		if m.branch(m.tt.Eq(m.scalarTerm(v, 8), ct)) {
			return VInt(uint64(i))
		}
	}
	return VInt(^uint64(0))
}

func (m *Machine) lastIndexByte(a []Value, c Value) Value {
	ct := m.scalarTerm(c, 8)
	for i := len(a) - 1; i >= 0; i-- {
		if m.branch(m.tt.Eq(m.scalarTerm(a[i], 8), ct)) {
			return VInt(uint64(i))
		}
	}
	return VInt(^uint64(0))
}

func (m *Machine) countByte(a []Value, c Value) Value {
	ct := m.scalarTerm(c, 8)
	n := 0
	for _, v := range a {
		if m.branch(m.tt.Eq(m.scalarTerm(v, 8), ct)) {
			n++
		}
	}
	return VInt(uint64(n))
}

func (m *Machine) indexStr(s, sub *Str) Value {
	if s.sym == nil && sub.sym == nil {
		return VInt(uint64(strings.Index(s.s, sub.s)))
	}
	for i := 0; i+len(sub.s) <= len(s.s); i++ {
		if m.branch(m.strEq(s.slice(i, i+len(sub.s)), sub)) {
			return VInt(uint64(i))
		}
	}
	return VInt(^uint64(0))
}

func (m *Machine) compareStr(a, b *Str) Value {
	if m.branch(m.strEq(a, b)) {
		return VInt(0)
	}
	if m.branch(m.strLess(a, b)) {
		return VInt(^uint64(0))
	}
	return VInt(1)
}

func (m *Machine) containsRune(s *Str, r Value) (*Term, bool) {
	if s.sym != nil || !utf8.ValidString(s.s) {
		return nil, false
	}
	if r.p == nil {
		return m.tt.Bool(strings.ContainsRune(s.s, rune(int32(uint32(r.n))))), true
	}
	t := r.p.(*Term)
	c := m.tt.fls
	for _, x := range s.s {
		c = m.tt.Or(c, m.tt.Eq(t, m.tt.Const(uint64(uint32(x)), 32)))
	}
	return c, true
}

func (m *Machine) indexRune(fn *Fn, a []Value) Value {
	s := a[0].str()
	if s.sym != nil || !utf8.ValidString(s.s) {
		if m.spec > 0 {
			panic(specBail{})
		}
		return m.callBody(fn, a, nil)
	}
	if a[1].p == nil {
		return VInt(uint64(strings.IndexRune(s.s, rune(int32(uint32(a[1].n))))))
	}
	t := a[1].p.(*Term)
	type rp struct {
		r rune
		i int
	}
	var l []rp
	for i, x := range s.s {
		l = append(l, rp{x, i})
	}
	r := m.tt.Const(^uint64(0), 64)
	for k := len(l) - 1; k >= 0; k-- {
		r = m.tt.Ite(m.tt.Eq(t, m.tt.Const(uint64(uint32(l[k].r)), 32)), m.tt.Const(uint64(l[k].i), 64), r)
	}
	return VTerm(r)
}

// ---- errors

func (m *Machine) errorsIs(err, target Value) bool {
	for {
		e := err.p.(*Iface)
		tg := target.p.(*Iface)
		if e.t == tg.t && types.Comparable(e.t.t) {
			c := m.eqVal(e.t.t, e.v, tg.v)
			if m.branch(c) {
				return true
			}
		}
		if r, ok := m.callMethod(err, "Is", target); ok {
			if m.branch(m.boolTerm(r)) {
				return true
			}
		}
		u, ok := m.callMethod(err, "Unwrap")
		if !ok || u.p == nil {
			return false
		}
		if sl, ok := u.p.(*Slice); ok {
			for _, x := range sl.a {
				if x.p != nil && m.errorsIs(x, target) {
					return true
				}
			}
			return false
		}
		err = u
	}
}

func (m *Machine) errorsAs(err, target Value) bool {
	if err.p == nil {
		return false
	}
	tg := target.p.(*Iface)
	et := tg.t.t.Underlying().(*types.Pointer).Elem()
	rt := rtypeOf(et)
	_, isI := et.Underlying().(*types.Interface)
	for {
		e := err.p.(*Iface)
		if isI && implements(e.t, rt) {
			assign(tg.v.p.(*Value), err)
			return true
		}
		if !isI && e.t == rt {
			assign(tg.v.p.(*Value), e.v)
			return true
		}
		if r, ok := m.callMethod(err, "As", target); ok && m.branch(m.boolTerm(r)) {
			return true
		}
		u, ok := m.callMethod(err, "Unwrap")
		if !ok || u.p == nil {
			return false
		}
		if sl, ok := u.p.(*Slice); ok {
			for _, x := range sl.a {
				if x.p != nil && m.errorsAs(x, target) {
					return true
				}
			}
			return false
		}
		err = u
	}
}

// ---- formatting (error texts; values that stay symbolic print as a placeholder unless they are strings)

func isStringIface(v Value) bool {
	if v.p == nil {
		return false
	}
	k, _ := scalarKind(v.p.(*Iface).t.t)
	return k == kString
}

func (m *Machine) formatOne(verb byte, v Value, plus bool) *Str {
	if v.p == nil {
		return &Str{s: "<nil>"}
	}
	ifc, ok := v.p.(*Iface)
	if !ok {
		return &Str{s: "?"}
	}
	if verb == 'T' {
		return &Str{s: ifc.t.str}
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		if r, ok := m.callMethod(v, "Error"); ok {
			return m.quoteIf(verb, r.str())
		}
		if r, ok := m.callMethod(v, "String"); ok {
			return m.quoteIf(verb, r.str())
		}
	}
	return m.formatVal(verb, ifc.t.t, ifc.v)
}

func (m *Machine) quoteIf(verb byte, s *Str) *Str {
	if verb == 'q' {
		if s.sym == nil {
			return &Str{s: strconv.Quote(s.s)}
		}
		return concatStr(concatStr(&Str{s: "\""}, s), &Str{s: "\""})
	}
	return s
}

func (m *Machine) formatVal(verb byte, t types.Type, v Value) *Str {
	k, w := scalarKind(t)
	switch k {
	case kString:
		return m.quoteIf(verb, v.str())
	case kBool:
		if v.p != nil {
			if m.branch(v.p.(*Term)) {
				return &Str{s: "true"}
			}
			return &Str{s: "false"}
		}
		return &Str{s: strconv.FormatBool(v.n != 0)}
	case kInt, kUint:
		if v.p != nil {
			if verb == 'v' || verb == 'd' {
				return bytesToStr(m.decimal(m.tt.Ext(v.p.(*Term), 64, k == kInt), k == kInt))
			}
			return &Str{s: "<sym>"}
		}
		switch verb {
		case 'c':
			return &Str{s: string(rune(v.n))}
		case 'x':
			return &Str{s: strconv.FormatUint(v.n, 16)}
		case 'X':
			return &Str{s: strings.ToUpper(strconv.FormatUint(v.n, 16))}
		case 'q':
			return &Str{s: strconv.QuoteRune(rune(v.n))}
		}
		if k == kInt {
			return &Str{s: strconv.FormatInt(sext(v.n, w), 10)}
		}
		return &Str{s: strconv.FormatUint(v.n, 10)}
	case kFloat:
		return &Str{s: strconv.FormatFloat(v.float(), 'g', -1, int(w))}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return m.formatOne(verb, v, false)
	case *types.Slice:
		if isByte(u.Elem()) && (verb == 's' || verb == 'q') {
			return m.quoteIf(verb, bytesToStr(v.slice()))
		}
		r := &Str{s: "["}
		for i, x := range v.slice() {
			if i > 0 {
				r = concatStr(r, &Str{s: " "})
			}
			r = concatStr(r, m.formatVal(verb, u.Elem(), x))
		}
		return concatStr(r, &Str{s: "]"})
	case *types.Map:
		if v.p == nil {
			return &Str{s: "map[]"}
		}
		mp := v.p.(*Map)
		// fmt sorts keys; only small or concrete string keys are supported
		type kv struct {
			k string
			i int
		}
		var l []kv
		for i := range mp.keys {
			if mp.live[i] {
				ks, ok := keyString(mp.kt.t, mp.keys[i])
				if !ok && mp.n > 1 {
					m.unsupported("formatting a map with symbolic keys")
				}
				l = append(l, kv{ks, i})
			}
		}
		for i := range l {
			for j := i + 1; j < len(l); j++ {
				if l[j].k < l[i].k {
					l[i], l[j] = l[j], l[i]
				}
			}
		}
		r := &Str{s: "map["}
		for i, e := range l {
			if i > 0 {
				r = concatStr(r, &Str{s: " "})
			}
			r = concatStr(r, m.formatVal(verb, u.Key(), mp.keys[e.i]))
			r = concatStr(r, &Str{s: ":"})
			r = concatStr(r, m.formatVal(verb, u.Elem(), mp.vals[e.i]))
		}
		return concatStr(r, &Str{s: "]"})
	case *types.Struct:
		r := &Str{s: "{"}
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				r = concatStr(r, &Str{s: " "})
			}
			r = concatStr(r, m.formatVal(verb, u.Field(i).Type(), v.p.(*Agg).f[i]))
		}
		return concatStr(r, &Str{s: "}"})
	}
	return &Str{s: "<" + t.String() + ">"}
}

func (m *Machine) format(f string, args []Value) *Str {
	r := &Str{}
	ai := 0
	lit := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		r = concatStr(r, &Str{s: f[lit:i]})
		i++
		plus := false
		width := ""
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			if f[i] == '+' {
				plus = true
			}
			width += string(f[i])
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			r = concatStr(r, &Str{s: "%"})
		} else if ai < len(args) {
			x := m.formatOne(f[i], args[ai], plus)
			if width != "" && (f[i] == 'x' || f[i] == 'X' || f[i] == 'd') && x.sym == nil && width[0] == '0' {
				n, _ := strconv.Atoi(width)
				for len(x.s) < n {
					x = &Str{s: "0" + x.s}
				}
			}
			r = concatStr(r, x)
			ai++
		} else {
			r = concatStr(r, &Str{s: "%!" + string(f[i]) + "(MISSING)"})
		}
		lit = i + 1
	}
	if lit < len(f) {
		r = concatStr(r, &Str{s: f[lit:]})
	}
	return r
}

func (m *Machine) errorf(f string, args []Value) Value {
	msg := m.format(f, args)
	var wrapped []Value
	ai := 0
	for i := 0; i+1 < len(f); i++ {
		if f[i] == '%' {
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				i++
			}
			if i < len(f) && f[i] != '%' {
				if f[i] == 'w' && ai < len(args) && args[ai].p != nil {
					wrapped = append(wrapped, args[ai])
				}
				ai++
			}
		}
	}
	fp := m.P.prog.ImportedPackage("fmt")
	mk := func(name string, fields ...Value) Value {
		t := fp.Type(name).Type()
		c := new(Value)
		*c = Value{p: &Agg{f: fields}}
		return Value{p: &Iface{t: rtypeOf(types.NewPointer(t)), v: Value{p: c}}}
	}
	switch len(wrapped) {
	case 0:
		ep := m.P.prog.ImportedPackage("errors")
		t := ep.Type("errorString").Type()
		c := new(Value)
		*c = Value{p: &Agg{f: []Value{mkStr(msg)}}}
		return Value{p: &Iface{t: rtypeOf(types.NewPointer(t)), v: Value{p: c}}}
	case 1:
		return mk("wrapError", mkStr(msg), wrapped[0])
	}
	return mk("wrapErrors", mkStr(msg), mkSlice(wrapped))
}

func (m *Machine) fprint(w Value, s *Str) Value {
	r, ok := m.callMethod(w, "Write", mkSlice(strToBytes(s)))
	if !ok {
		m.unsupported("Fprint to %v", w)
	}
	return r
}

// ---- regular expressions

type nativeRe struct {
	src  string
	re   *regexp.Regexp
	prog *syntax.Prog
}

func (m *Machine) newRegexp(src string) Value {
	re, err := regexp.Compile(src)
	if err != nil {
		m.rtPanic("regexp: " + err.Error())
	}
	p, _ := syntax.Parse(src, syntax.Perl)
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		m.unsupported("regexp compile %s", src)
	}
	c := new(Value)
	*c = Value{p: &nativeRe{src, re, prog}}
	return Value{p: c}
}

func (m *Machine) reMatch(rv Value, s *Str) Value {
	if rv.p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference (nil regexp)")
	}
	n := rv.p.(*Value).p.(*nativeRe)
	if s.sym == nil {
		return VBool(n.re.MatchString(s.s))
	}
	var runes []Value
	for i := 0; i < len(s.s); {
		r, k := m.decodeRune(s, i)
		runes = append(runes, r)
		i += k
	}
	prog := n.prog
	tt := m.tt
	closure := func(pc uint32, pos int) []uint32 {
		seen := map[uint32]bool{}
		var out []uint32
		var walk func(pc uint32)
		walk = func(pc uint32) {
			if seen[pc] {
				return
			}
			seen[pc] = true
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				walk(in.Out)
				walk(in.Arg)
			case syntax.InstCapture, syntax.InstNop:
				walk(in.Out)
			case syntax.InstEmptyWidth:
				op := syntax.EmptyOp(in.Arg)
				if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
					m.unsupported("word boundary in regexp")
				}
				if op&syntax.EmptyBeginText != 0 && pos != 0 {
					return
				}
				if op&syntax.EmptyEndText != 0 && pos != len(runes) {
					return
				}
				if op&(syntax.EmptyBeginLine|syntax.EmptyEndLine) != 0 {
					m.unsupported("multi-line anchors in regexp")
				}
				walk(in.Out)
			case syntax.InstFail:
			default:
				out = append(out, pc)
			}
		}
		walk(pc)
		return out
	}
	type key = uint32
	res := tt.fls
	cur := map[key]*Term{}
	var order []key
	addTo := func(mp map[key]*Term, ord *[]key, pc uint32, pos int, c *Term) {
		for _, q := range closure(pc, pos) {
			if prog.Inst[q].Op == syntax.InstMatch {
				res = tt.Or(res, c)
				continue
			}
			if o, ok := mp[q]; ok {
				mp[q] = tt.Or(o, c)
			} else {
				mp[q] = c
				*ord = append(*ord, q)
			}
		}
	}
	addTo(cur, &order, uint32(prog.Start), 0, tt.tru)
	for pos, r := range runes {
		nxt := map[key]*Term{}
		var nord []key
		for _, pc := range order {
			c := tt.And(cur[pc], m.instMatch(&prog.Inst[pc], r))
			if c.isConst() && c.val == 0 {
				continue
			}
			addTo(nxt, &nord, prog.Inst[pc].Out, pos+1, c)
		}
		// unanchored search
		addTo(nxt, &nord, uint32(prog.Start), pos+1, tt.tru)
		cur, order = nxt, nord
	}
	return VTerm(res)
}

func (m *Machine) instMatch(in *syntax.Inst, r Value) *Term {
	if r.p == nil {
		return m.tt.Bool(in.MatchRune(rune(int32(uint32(r.n)))))
	}
	t := r.p.(*Term)
	if t.v1 != nil && t.v1.w == 8 {
		tab := t.table()
		var set []int
		for i := 0; i < 256; i++ {
			if in.MatchRune(rune(int32(uint32(tab[i])))) {
				set = append(set, i)
			}
		}
		return m.inSet(t.v1, set)
	}
	m.unsupported("regexp over a wide symbolic rune")
	return nil
}

// ---- decimal numbers by contract

var pow10 = func() [20]uint64 {
	var p [20]uint64
	p[0] = 1
	for i := 1; i < 20; i++ {
		p[i] = p[i-1] * 10
	}
	return p
}()

func (m *Machine) horner(ds []*Term) *Term {
	tt := m.tt
	r := tt.Const(0, 64)
	for _, d := range ds {
		v := tt.Bin(OSub, tt.Ext(d, 64, false), tt.Const('0', 64))
		r = tt.Bin(OAdd, tt.Bin(OMul, r, tt.Const(10, 64)), v)
	}
	return r
}

// decimal gives the canonical decimal digits of a 64-bit term: fresh digit bytes d with horner(d)==|x|.
func (m *Machine) decimal(x *Term, signed bool) []Value {
	tt := m.tt
	if v, ok := m.singleton(x); ok && (x.isConst() || !m.ent[x.v1.val]) {
		if signed {
			return strToBytes(&Str{s: strconv.FormatInt(int64(v), 10)})
		}
		return strToBytes(&Str{s: strconv.FormatUint(v, 10)})
	}
	var out []Value
	u := x
	if signed && m.branch(tt.Cmp(OSlt, x, tt.Const(0, 64))) {
		out = append(out, VInt('-'))
		u = tt.Un(ONeg, x)
	}
	k := 1
	for k < 20 && !m.branch(tt.Cmp(OUlt, u, tt.Const(pow10[k], 64))) {
		k++
	}
	var ds []*Term
	dig := domOf("0123456789")
	for i := 0; i < k; i++ {
		d := dig
		if i == 0 && k > 1 {
			d = domOf("123456789")
			if k == 20 {
				d = domOf("1")
			}
		}
		v := m.newVar(8, d)
		ds = append(ds, v)
		out = append(out, VTerm(v))
	}
	if k == 20 {
		rest := m.horner(ds[1:])
		m.assume(tt.Cmp(OUle, rest, tt.Const(8446744073709551615, 64)))
		m.assume(tt.Eq(u, tt.Bin(OAdd, rest, tt.Const(pow10[19], 64))))
	} else {
		m.assume(tt.Eq(m.horner(ds), u))
	}
	return out
}

// parseDecimal: [+-]?digits with symbolic digits, base 10 or (no leading zero) base 0, at most 19 digits.
func (m *Machine) parseDecimal(fn *Fn, a []Value, signed bool) Value {
	s := a[0].str()
	base, bits := m.concInt(a[1]), m.concInt(a[2])
	if s.sym == nil {
		name := "ParseUint"
		var v uint64
		var err error
		if signed {
			name = "ParseInt"
			var i int64
			i, err = strconv.ParseInt(s.s, base, bits)
			v = uint64(i)
		} else {
			v, err = strconv.ParseUint(s.s, base, bits)
		}
		return tuple(VInt(v), m.numErr(name, a[0], err))
	}
	neg := false
	i := 0
	if signed && s.sym[0] == nil && (s.s[0] == '-' || s.s[0] == '+') {
		neg = s.s[0] == '-'
		i = 1
	}
	n := len(s.s) - i
	isDig := func(j int) bool {
		v := s.at(j)
		if v.p == nil {
			return v.n >= '0' && v.n <= '9'
		}
		t := v.p.(*Term)
		return m.below(t, ':') && m.below(m.tt.Bin(OSub, t, m.tt.Const('0', 8)), 10)
	}
	ok := n >= 1 && n <= 20 && (base == 10 || base == 0)
	for j := i; ok && j < len(s.s); j++ {
		ok = isDig(j)
	}
	if ok && base == 0 && n > 1 {
		f := s.at(i)
		if f.p == nil {
			ok = f.n != '0'
		} else {
			ok = m.below(m.tt.Bin(OSub, f.p.(*Term), m.tt.Const('1', 8)), 9)
		}
	}
	if !ok {
		return m.callBody(fn, a, nil)
	}
	tt := m.tt
	var ds []*Term
	for j := i; j < len(s.s); j++ {
		ds = append(ds, m.scalarTerm(s.at(j), 8))
	}
	if bits == 0 {
		bits = 64
	}
	name := "ParseUint"
	if signed {
		name = "ParseInt"
	}
	rangeErr := func() Value {
		return m.numErr(name, a[0], &strconv.NumError{Func: name, Num: "", Err: strconv.ErrRange})
	}
	var u *Term
	if n == 20 {
		// value = d0*10^19 + rest; fits in 64 bits iff d0=='1' and rest <= 8446744073709551615 (or d0=='0')
		rest := m.horner(ds[1:])
		fit := tt.Or(tt.Eq(ds[0], tt.Const('0', 8)), tt.And(tt.Eq(ds[0], tt.Const('1', 8)), tt.Cmp(OUle, rest, tt.Const(8446744073709551615, 64))))
		if !m.branch(fit) {
			if signed {
				if neg {
					return tuple(VInt(uint64(-(int64(1) << (bits - 1)))), rangeErr())
				}
				return tuple(VInt(uint64(1)<<(bits-1)-1), rangeErr())
			}
			return tuple(VInt(mask(uint8(bits))), rangeErr())
		}
		u = tt.Bin(OAdd, rest, tt.Bin(OMul, tt.Bin(OSub, tt.Ext(ds[0], 64, false), tt.Const('0', 64)), tt.Const(pow10[19], 64)))
	} else {
		u = m.horner(ds)
	}
	if signed {
		cut := uint64(1) << (bits - 1)
		if neg {
			if m.branch(tt.Cmp(OUlt, tt.Const(cut, 64), u)) {
				return tuple(VInt(uint64(-int64(cut))), rangeErr())
			}
			return tuple(VTerm(tt.Un(ONeg, u)), Value{})
		}
		if m.branch(tt.Cmp(OUle, tt.Const(cut, 64), u)) {
			return tuple(VInt(cut-1), rangeErr())
		}
		return tuple(VTerm(u), Value{})
	}
	if bits < 64 && m.branch(tt.Cmp(OUlt, tt.Const(mask(uint8(bits)), 64), u)) {
		return tuple(VInt(mask(uint8(bits))), rangeErr())
	}
	return tuple(VTerm(u), Value{})
}

// numErr builds a *strconv.NumError.
func (m *Machine) numErr(fname string, num Value, err error) Value {
	if err == nil {
		return Value{}
	}
	sp := m.P.prog.ImportedPackage("strconv")
	which := "ErrSyntax"
	if ne, ok := err.(*strconv.NumError); ok {
		if ne.Err == strconv.ErrRange {
			which = "ErrRange"
		} else if ne.Err != strconv.ErrSyntax {
			which = ""
		}
	}
	var inner Value
	if which != "" {
		inner = *m.global(m.P.globalID(sp.Var(which)))
	} else {
		inner = m.mkErr(err.Error())
	}
	t := sp.Type("NumError").Type()
	c := new(Value)
	*c = Value{p: &Agg{f: []Value{VStr(fname), num, inner}}}
	return Value{p: &Iface{t: rtypeOf(types.NewPointer(t)), v: Value{p: c}}}
}

// parseFloatSym: only the verdict (syntax error or not) is modelled symbolically; the value stays opaque.
func (m *Machine) parseFloatSym(fn *Fn, a []Value) Value {
	s := a[0].str()
	// concretize the string: bounded by the harness's alphabet
	b := make([]byte, len(s.s))
	for i := range b {
		v := s.at(i)
		if t := v.term(); t != nil {
			b[i] = byte(m.concretize(t))
		} else {
			b[i] = byte(v.n)
		}
	}
	f, err := strconv.ParseFloat(string(b), m.concInt(a[1]))
	return tuple(VFloat(f), m.numErr("ParseFloat", VStr(string(b)), err))
}
