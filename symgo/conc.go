package main

import "go/types"

// Goroutines run one at a time: a goroutine keeps running until it blocks on a channel or ends. The choice of the next
// one is fixed (the oldest that can run); harnesses which ask about schedules make them symbolic by handing batons themselves.

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	recvq  int // goroutines waiting to receive
	slots  []*sendSlot
	elem   types.Type
}

// sendSlot is a value offered on a channel whose buffer is full (or absent).
type sendSlot struct {
	v     Value
	taken bool
}

type gor struct {
	wake   chan bool // false: the path is over
	ready  func() bool
	start  func()
	gone   bool
	stack  []Value
	sp     int
	depth  int
	fr     *frame
	onMain bool
}

type killed struct{}

func (m *Machine) resetConc() {
	m.endConc()
	m.gors = nil
	m.cur = nil
	m.gpanic = nil
}

// endConc ends the goroutines a path leaves behind and tells how many they were.
func (m *Machine) endConc() int {
	n := 0
	for _, g := range m.gors {
		if g.onMain || g.gone {
			continue
		}
		n++
		if g.start == nil {
			g.wake <- false
			<-m.handed
		}
		g.gone = true
	}
	m.gors, m.cur = nil, nil
	return n
}

func (m *Machine) live() int {
	n := 0
	for _, g := range m.gors {
		if !g.gone {
			n++
		}
	}
	return n
}

func (m *Machine) spawn(f func()) {
	if m.cur == nil {
		m.cur = &gor{wake: make(chan bool), onMain: true}
		m.gors = append(m.gors, m.cur)
		m.handed = make(chan struct{})
	}
	m.gors = append(m.gors, &gor{wake: make(chan bool), start: f})
}

func (m *Machine) resume(g *gor) {
	m.cur = g
	m.stack, m.sp, m.depth, m.fr = g.stack, g.sp, g.depth, g.fr
	if g.start != nil {
		f := g.start
		g.start = nil
		m.stack, m.sp, m.depth, m.fr = make([]Value, 1<<12), 0, 0, nil
		go func() {
			defer func() {
				r := recover()
				g.gone = true
				if _, ok := r.(killed); ok {
					m.handed <- struct{}{}
					return
				}
				if tp, ok := r.(*targetPanic); ok {
					m.violation("panic", "no-panic", tp.msg, tp.pos, nil)
					r = pathEnd{"panic", tp.msg}
				}
				if r != nil {
					m.gpanic = r
					g.fr, g.sp, g.depth, g.stack = m.fr, m.sp, m.depth, m.stack
					mg := m.gors[0]
					m.cur = mg
					mg.wake <- true
					return
				}
				n := m.pick()
				if n == nil {
					m.violation("panic", "no-panic", "all goroutines are asleep - deadlock!", "goroutine", nil)
					m.gpanic = pathEnd{"panic", "deadlock"}
					n = m.gors[0]
					m.cur = n
					n.wake <- true
					return
				}
				m.resume(n)
			}()
			f()
		}()
		return
	}
	g.wake <- true
}

func (m *Machine) pick() *gor {
	for _, g := range m.gors {
		if g.gone {
			continue
		}
		if g.start != nil || g.ready != nil && g.ready() {
			return g
		}
	}
	return nil
}

// block waits until ready.
func (m *Machine) block(ready func() bool) {
	if ready() {
		return
	}
	if m.spec > 0 {
		panic(specBail{})
	}
	g := m.cur
	if g == nil {
		m.rtPanic("all goroutines are asleep - deadlock!")
	}
	g.ready = ready
	n := m.pick()
	if n == nil {
		g.ready = nil
		m.rtPanic("all goroutines are asleep - deadlock!")
	}
	g.stack, g.sp, g.depth, g.fr = m.stack, m.sp, m.depth, m.fr
	m.resume(n)
	ok := <-g.wake
	g.ready = nil
	if !ok {
		panic(killed{})
	}
	m.stack, m.sp, m.depth, m.fr = g.stack, g.sp, g.depth, g.fr
	if g.onMain && m.gpanic != nil {
		r := m.gpanic
		m.gpanic = nil
		panic(r)
	}
}

func (m *Machine) chanOf(v Value) *Chan {
	if v.p == nil {
		m.unsupported("nil channel")
	}
	return v.p.(*Chan)
}

func (m *Machine) send(c *Chan, v Value) {
	if c.closed {
		m.rtPanic("send on closed channel")
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return
	}
	s := &sendSlot{v: v}
	c.slots = append(c.slots, s)
	m.block(func() bool { return s.taken || c.closed })
	if !s.taken {
		m.rtPanic("send on closed channel")
	}
}

func (m *Machine) recv(c *Chan) (Value, bool) {
	m.block(func() bool { return len(c.buf) > 0 || len(c.slots) > 0 || c.closed })
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if len(c.slots) > 0 {
			s := c.slots[0]
			c.slots = c.slots[1:]
			s.taken = true
			c.buf = append(c.buf, s.v)
		}
		return v, true
	}
	if len(c.slots) > 0 {
		s := c.slots[0]
		c.slots = c.slots[1:]
		s.taken = true
		return s.v, true
	}
	return zero(c.elem), false
}

// leaked lets the other goroutines run as far as they can and counts those which remain.
func (m *Machine) leaked() int {
	if m.cur == nil {
		return 0
	}
	me := m.cur
	m.block(func() bool {
		for _, g := range m.gors {
			if g != me && !g.gone && (g.start != nil || g.ready != nil && g.ready()) {
				return false
			}
		}
		return true
	})
	return m.live() - 1
}

// ---- memory shared between calls

const (
	sharedMem = 1 // reachable from the variables of a package of the repository
	pooledMem = 2 // given back to a pool
)

// race runs f and reports every write to memory that other calls can reach at the same time (package variables and also), and every access to an object after it was
// given back to a pool.
func (m *Machine) race(f, also Value) {
	m.shared = map[any]int8{}
	m.markVal(also, sharedMem, 100)
	for id, g := range m.P.glist {
		if g.Pkg == nil || !m.P.inRepo(g.Pkg.Pkg.Path()) || id >= len(m.glob) || m.glob[id] == nil {
			continue
		}
		m.mark(m.glob[id], sharedMem, 100)
	}
	m.callValue(f, nil)
	m.shared = nil
}

func (m *Machine) set(k any, mode int8) bool {
	if mode == 0 {
		if m.shared[k] == pooledMem {
			delete(m.shared, k)
			return true
		}
		return false
	}
	if m.shared[k] != 0 {
		return false
	}
	m.shared[k] = mode
	return true
}

func (m *Machine) mark(c *Value, mode int8, depth int) {
	if !m.set(c, mode) {
		return
	}
	m.markVal(*c, mode, depth)
}

func (m *Machine) markVal(v Value, mode int8, depth int) {
	if depth < 0 {
		return
	}
	switch p := v.p.(type) {
	case *Agg:
		for i := range p.f {
			m.mark(&p.f[i], mode, depth)
		}
	case *Slice:
		for a, i := p.a[:cap(p.a)], 0; i < len(a); i++ {
			m.mark(&a[i], mode, depth-1)
		}
	case *Value:
		m.mark(p, mode, depth-1)
	case *Iface:
		m.markVal(p.v, mode, depth)
	case *Map:
		if m.set(p, mode) {
			for i := range p.vals {
				m.mark(&p.vals[i], mode, depth-1)
			}
		}
	case *Closure:
		for _, b := range p.binds {
			m.markVal(b, mode, depth-1)
		}
	}
}

// wrote is called before a write to a cell or map.
func (m *Machine) wrote(k any) {
	switch m.shared[k] {
	case sharedMem:
		m.raced("writes to memory shared with other calls")
	case pooledMem:
		m.raced("writes to an object which was given back to a pool")
	}
}

func (m *Machine) raced(what string) {
	w := m.where()
	m.violation("race", what, what, w, nil)
	m.shared = nil
	panic(pathEnd{"violated", what})
}

// markPooled: the object itself and the arrays of its slices.
func (m *Machine) markPooled(v Value, mode int8) {
	if i, ok := v.p.(*Iface); ok {
		v = i.v
	}
	if c, ok := v.p.(*Value); ok {
		m.mark(c, mode, 0)
	}
}
