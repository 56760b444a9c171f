package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type harnessRun struct {
	Name  string
	Fn    *Fn
	Args  []Value
	ArgsI []int64
}

type Violation struct {
	Harness string   `json:"harness"`
	Args    []int64  `json:"args"`
	Label   string   `json:"label"`
	Kind    string   `json:"kind"` // assert, panic, limit
	Msg     string   `json:"msg"`
	Where   string   `json:"where"`
	Inputs  []uint64 `json:"inputs"`
	Kinds   []string `json:"kinds"`
	Dec     int      `json:"-"`
}

type Sample struct {
	Inputs []uint64 `json:"inputs"`
	Obs    []string `json:"obs"`
}

type Explorer struct {
	P           *Program
	H           *harnessRun
	mu          sync.Mutex
	cond        *sync.Cond
	stack       [][]Decision
	active      int
	stop        bool
	initing     bool
	deadline    time.Time
	maxViol     int
	paths       int64
	infeasible  int64
	steps       int64
	branches    int64
	asserts     map[string]int64
	assertQ     int64
	unknown     int64
	viol        []Violation
	violKey     map[string]int
	unsup       map[string]int64
	limits      map[string]int64
	reach       map[string]int64
	known       map[string]int64
	samples     []Sample
	sampleN     int
	cover       map[int]bool
	stats       SolverStats
	timedOut    bool
	workers     int
	solverBin   string
	stepLimit   int64
	maxDepth    int
	maxPathDec  int
	certs       int64
	dumpDir     string
	sampleEvery int64
}

func (e *Explorer) noteUnknown() { atomic.AddInt64(&e.unknown, 1) }

func (e *Explorer) push(m *Machine, d Decision) {
	p := make([]Decision, len(m.trail)+1)
	copy(p, m.trail)
	p[len(m.trail)] = d
	e.mu.Lock()
	e.stack = append(e.stack, p)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Explorer) pop() ([]Decision, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return nil, false
		}
		if n := len(e.stack); n > 0 {
			p := e.stack[n-1]
			e.stack[n-1] = nil
			e.stack = e.stack[:n-1]
			e.active++
			return p, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.stack) == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Explorer) halt() {
	e.mu.Lock()
	e.stop = true
	e.cond.Broadcast()
	e.mu.Unlock()
}

func newMachine(p *Program, e *Explorer) *Machine {
	return &Machine{P: p, E: e, tt: NewTermTable(), sol: NewSolver(e.solverBin, 60000), cover: map[int]bool{},
		fcache: map[string]Result{}, limit: e.stepLimit, maxDep: e.maxDepth,
		stack: make([]Value, 1<<16), asserts: map[string]int64{}}
}

func (m *Machine) reset(dec []Decision) {
	if len(m.tt.terms) > 400000 {
		m.tt = NewTermTable()
		m.sol.Close()
		m.fcache = map[string]Result{}
	}
	m.dec, m.di = dec, 0
	m.trail = m.trail[:0]
	m.doms = m.doms[:0]
	m.wide = m.wide[:0]
	m.ent = m.ent[:0]
	m.vterm = m.vterm[:0]
	m.cons = m.cons[:0]
	m.inputs = m.inputs[:0]
	m.obs = m.obs[:0]
	m.reach = map[string]bool{}
	m.known = map[string]string{}
	for i := range m.glob {
		m.glob[i] = nil
	}
	m.steps = 0
	m.depth = 0
	m.pools = map[*Value][]Value{}
	m.onceKeys = map[string]Value{}
	m.eqs = map[*Term]uint64{}
	m.sp = 0
	m.spec = 0
	m.fr = nil
	m.resetConc()
	m.shared = nil
}

// model solves the whole path (plus extra) and returns the harness inputs.
func (m *Machine) model(extra *Term) ([]uint64, []string, map[int32]uint64, bool) {
	ts, ds, vt := m.slice(nil)
	// m.slice(nil) keeps all variables; constraints without variables cannot exist
	if extra != nil {
		ts = append(ts, extra)
	}
	model := map[int32]uint64{}
	if len(vt) > 0 {
		r, mm := m.sol.Check(ts, ds, vt)
		if r != Sat {
			return nil, nil, nil, false
		}
		model = mm
	}
	var in []uint64
	var kinds []string
	for _, x := range m.inputs {
		if x.v == nil {
			in = append(in, x.c)
		} else {
			in = append(in, model[int32(x.v.val)])
		}
		kinds = append(kinds, x.kind)
	}
	return in, kinds, model, true
}

func (m *Machine) violation(kind, label, msg, where string, extra *Term) {
	e := m.E
	k := kind + "|" + label
	if kind != "assert" {
		k += "|" + where
	}
	e.mu.Lock()
	n := e.violKey[k]
	e.violKey[k]++
	e.mu.Unlock()
	if n >= 8 {
		return
	}
	in, kinds, _, ok := m.model(extra)
	if !ok {
		e.noteUnknown()
		return
	}
	e.mu.Lock()
	e.viol = append(e.viol, Violation{Harness: e.H.Name, Args: e.H.ArgsI, Label: label, Kind: kind, Msg: msg, Where: where, Inputs: in, Kinds: kinds})
	if len(e.viol) >= e.maxViol {
		e.stop = true
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (m *Machine) assertion(c *Term, label string) {
	if m.di < len(m.dec) {
		if !c.isConst() {
			d := m.dec[m.di]
			m.di++
			m.take(d)
			if !d.forced {
				m.assume(c)
			}
			return
		}
		if c.val == 0 {
			// already reported when this prefix was first explored; unless the fork itself decides it
			panic(pathEnd{"violated", label})
		}
		return
	}
	m.nassert++
	m.asserts[label]++
	if c.isConst() {
		if c.val == 0 {
			m.violation("assert", label, "", m.where(), nil)
			panic(pathEnd{"violated", label})
		}
		return
	}
	// The deciding query: path ∧ ¬assertion.
	nc := m.tt.Not(c)
	ts, ds, _ := m.slice(nc)
	r, _ := m.sol.Check(append(ts, nc), ds, nil)
	atomic.AddInt64(&m.E.assertQ, 1)
	switch r {
	case Unsat:
		m.take(Decision{1, true})
		return
	case Unknown:
		m.E.noteUnknown()
	case Sat:
		m.violation("assert", label, "", m.where(), nc)
	}
	if m.feasible(c) == Unsat {
		panic(pathEnd{"violated", label})
	}
	m.take(Decision{1, false})
	m.assume(c)
}

func (m *Machine) runPath() (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end = x
				if x.kind == "limit" {
					w := m.where()
					m.violation("limit", "termination", x.msg, w, nil)
				}
			case *targetPanic:
				end = pathEnd{"panic", x.msg}
				m.violation("panic", "no-panic", x.msg, x.pos, nil)
			case specBail:
				end = pathEnd{"unsupported", "speculation escaped"}
			default:
				panic(r)
			}
		}
	}()
	m.runInits()
	m.callFn(m.E.H.Fn, m.E.H.Args, nil)
	return pathEnd{"ok", ""}
}

func (m *Machine) runInits() {
	m.callFn(m.P.fn(m.E.H.Fn.ssa.Pkg.Func("init")), nil, nil)
}

func (e *Explorer) worker(id int, wg *sync.WaitGroup) {
	defer wg.Done()
	m := newMachine(e.P, e)
	if e.dumpDir != "" {
		f, _ := os.Create(fmt.Sprintf("%s/q%d.smt2", e.dumpDir, id))
		m.sol.dump = f
	}
	var cnt int64
	for {
		dec, ok := e.pop()
		if !ok {
			break
		}
		if !e.deadline.IsZero() && time.Now().After(e.deadline) {
			e.mu.Lock()
			e.timedOut = true
			e.mu.Unlock()
			e.done()
			e.halt()
			break
		}
		m.reset(dec)
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprintf(os.Stderr, "engine panic at %s: %v\n", m.where(), r)
					if os.Getenv("SYMGO_DEBUG") != "" {
						panic(r)
					}
					e.mu.Lock()
					e.unsup["engine: "+fmt.Sprint(r)]++
					e.mu.Unlock()
				}
			}()
			end := m.runPath()
			n := atomic.AddInt64(&e.paths, 1)
			atomic.AddInt64(&e.steps, m.steps)
			cnt++
			e.mu.Lock()
			switch end.kind {
			case "infeasible":
				e.infeasible++
			case "late":
				e.timedOut = true
			case "unsupported":
				e.unsup[end.msg]++
			case "limit":
				e.limits[end.msg]++
			}
			if end.kind != "infeasible" && end.kind != "late" {
				for k := range m.reach {
					e.reach[k]++
				}
				for k := range m.known {
					e.known[k]++
				}
			}
			if len(m.trail) > e.maxPathDec {
				e.maxPathDec = len(m.trail)
			}
			e.mu.Unlock()
			if end.kind == "ok" && e.sampleN > 0 {
				// reservoir over a geometric schedule: keep early paths and every k-th later one
				take := n <= int64(e.sampleN)/2 || n%atomic.LoadInt64(&e.sampleEvery) == 0
				if take {
					m.sample()
				}
			}
		}()
		e.done()
	}
	m.sol.Close()
	e.mu.Lock()
	for k := range m.cover {
		e.cover[k] = true
	}
	e.branches += m.nbr
	for k, v := range m.asserts {
		e.asserts[k] += v
	}
	e.certs += m.ncert
	s := m.sol.stats
	e.stats.Queries += s.Queries
	e.stats.Sat += s.Sat
	e.stats.Unsat += s.Unsat
	e.stats.Unknown += s.Unknown
	e.stats.Seconds += s.Seconds
	e.stats.Restarts += s.Restarts
	if s.MaxQuery > e.stats.MaxQuery {
		e.stats.MaxQuery = s.MaxQuery
	}
	e.mu.Unlock()
}

func (m *Machine) sample() {
	e := m.E
	in, _, model, ok := m.model(nil)
	if !ok {
		return
	}
	memo := map[*Term]uint64{}
	env := func(i int32) uint64 { return model[i] }
	var obs []string
	for _, o := range m.obs {
		var sb strings.Builder
		sb.WriteString(o.label)
		for i, v := range o.v {
			sb.WriteByte(' ')
			sb.WriteString(m.obsStr(v, o.t[i], env, memo))
		}
		obs = append(obs, sb.String())
	}
	e.mu.Lock()
	if len(e.samples) < e.sampleN {
		e.samples = append(e.samples, Sample{in, obs})
	} else {
		i := int(e.paths) % e.sampleN
		e.samples[i] = Sample{in, obs}
		e.sampleEvery = e.sampleEvery*2 + 1
	}
	e.mu.Unlock()
}

func (m *Machine) obsStr(v Value, t *RType, env func(int32) uint64, memo map[*Term]uint64) string {
	if t == nil {
		return "nil"
	}
	k, w := scalarKind(t.t)
	ev := func(v Value) uint64 {
		if x := v.term(); x != nil {
			return x.eval(env, memo)
		}
		return v.n
	}
	switch k {
	case kBool:
		return fmt.Sprint(ev(v) == 1)
	case kInt:
		return fmt.Sprint(sext(ev(v), w))
	case kUint:
		return fmt.Sprint(ev(v))
	case kFloat:
		return fmt.Sprintf("f%x", v.n)
	case kString:
		s := v.str()
		b := make([]byte, len(s.s))
		for i := range b {
			b[i] = byte(ev(s.at(i)))
		}
		return fmt.Sprintf("%q", b)
	}
	if a, ok := v.p.(*Slice); ok && isByteSlice(t) {
		b := make([]byte, len(a.a))
		for i := range b {
			b[i] = byte(ev(a.a[i]))
		}
		return fmt.Sprintf("%q", b)
	}
	if v.p == nil && isByteSlice(t) {
		return "\"\""
	}
	return "?"
}

func isByteSlice(t *RType) bool {
	e := elemOf(t.t)
	return e != nil && isByte(e)
}

func (e *Explorer) run() {
	e.cond = sync.NewCond(&e.mu)
	e.asserts = map[string]int64{}
	e.violKey = map[string]int{}
	e.unsup = map[string]int64{}
	e.limits = map[string]int64{}
	e.reach = map[string]int64{}
	e.known = map[string]int64{}
	e.cover = map[int]bool{}
	e.sampleEvery = 1
	e.stack = [][]Decision{{}}
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go e.worker(i, &wg)
	}
	wg.Wait()
	sort.Slice(e.viol, func(i, j int) bool { return len(e.viol[i].Inputs) < len(e.viol[j].Inputs) })
}

var _ = token.NoPos
