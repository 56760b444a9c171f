package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- path state

type Decision struct {
	v      uint64
	forced bool
}

type inputEnt struct {
	kind string
	v    *Term  // nil: concrete choice
	c    uint64 // choice value
}

type obsEnt struct {
	label string
	v     []Value
	t     []*RType
}

type Machine struct {
	P         *Program
	tt        *TermTable
	sol       *Solver
	E         *Explorer
	H         *harnessRun
	dec       []Decision
	di        int
	trail     []Decision
	doms      [][4]uint64 // per variable index, 8-bit variables only
	wide      []bool      // variable is not an 8-bit domain variable
	ent       []bool      // variable occurs in a multi-variable constraint
	vterm     []*Term
	cons      []*Term
	inputs    []inputEnt
	obs       []obsEnt
	reach     map[string]bool
	glob      []*Value
	steps     int64
	limit     int64
	depth     int
	maxDep    int
	pools     map[*Value][]Value
	stack     []Value
	sp        int
	cover     map[int]bool // Fn ids executed
	coverB    map[[2]int]bool
	fcache    map[string]Result
	ncert     int64
	nbr       int64 // symbolic branch decisions taken
	nassert   int64
	spec      int
	curPos    token.Pos
	fr        *frame
	nodec     bool
	nativeSeq int
	asserts   map[string]int64
	known     map[string]string
	onceKeys  map[string]Value
	eqs       map[*Term]uint64 // terms which have one value on the path
	gors      []*gor
	shared    map[any]int8
	cur       *gor
	gpanic    any
	handed    chan struct{}
}

type frame struct {
	fn        *Fn
	r         []Value
	caller    *frame
	defers    []deferred
	panicv    *targetPanic
	recovered bool
	pos       token.Pos
}

type deferred struct {
	in   *Inst
	args []Value
	fv   Value
}

type targetPanic struct {
	v   Value // interface value
	msg string
	pos string
	rt  bool
}

type pathEnd struct {
	kind string // "infeasible", "unsupported", "limit", "violation"
	msg  string
}

type specBail struct{}

func (m *Machine) unsupported(f string, a ...any) {
	panic(pathEnd{"unsupported", fmt.Sprintf(f, a...)})
}

func (m *Machine) global(id int) *Value {
	if c := m.P.gshared[id]; c != nil {
		return c
	}
	for len(m.glob) <= id {
		m.glob = append(m.glob, nil)
	}
	if m.glob[id] == nil {
		c := new(Value)
		*c = zero(m.P.glist[id].Type().(*types.Pointer).Elem())
		m.glob[id] = c
		if g := m.P.glist[id]; m.shared != nil && g.Pkg != nil && m.P.inRepo(g.Pkg.Pkg.Path()) {
			m.mark(c, sharedMem, 100)
		}
	}
	return m.glob[id]
}

func (m *Machine) get(fr *frame, i int32) Value {
	if i >= 0 {
		v := fr.r[i]
		if len(m.eqs) > 0 && v.p != nil {
			if t, ok := v.p.(*Term); ok {
				if c, ok := m.eqs[t]; ok {
					return Value{n: c}
				}
			}
		}
		return v
	}
	if i > globalBase {
		return fr.fn.consts[-i-1]
	}
	return Value{p: m.global(int(globalBase - i))}
}

// ---- calls

func (m *Machine) callFn(fn *Fn, args []Value, binds []Value) Value {
	if fn.intr != nil {
		if m.spec > 0 && !lightIntrinsics[fn.name] {
			panic(specBail{})
		}
		return fn.intr(m, fn, args)
	}
	return m.callBody(fn, args, binds)
}

func (m *Machine) callBody(fn *Fn, args []Value, binds []Value) Value {
	m.P.compile(fn)
	if fn.bad != "" {
		m.unsupported("%s", fn.bad)
	}
	m.depth++
	if m.depth > m.maxDep {
		m.depth = 0
		panic(pathEnd{"limit", "call depth exceeds " + fmt.Sprint(m.maxDep) + " frames in " + fn.name})
	}
	if fn.repo {
		m.cover[fn.id] = true
	}
	base := m.sp
	if base+fn.nregs > len(m.stack) {
		// a new segment; the old one stays referenced by active frames
		n := 1 << 16
		if fn.nregs > n {
			n = fn.nregs
		}
		old, oldsp := m.stack, m.sp
		m.stack = make([]Value, n)
		m.sp = 0
		v := m.callBody2(fn, args, binds, 0)
		m.stack, m.sp = old, oldsp
		m.depth--
		return v
	}
	v := m.callBody2(fn, args, binds, base)
	m.sp = base
	m.depth--
	return v
}

func (m *Machine) callBody2(fn *Fn, args []Value, binds []Value, base int) Value {
	fr := frame{fn: fn, r: m.stack[base : base+fn.nregs : base+fn.nregs], caller: m.fr}
	m.sp = base + fn.nregs
	for i, r := range fn.params {
		fr.r[r] = args[i]
	}
	for i, r := range fn.fvs {
		fr.r[r] = binds[i]
	}
	m.fr = &fr
	var v Value
	if fn.hasDefer {
		v = m.execDefer(&fr)
	} else {
		v = m.exec(&fr, 0)
	}
	m.fr = fr.caller
	return v
}

func (m *Machine) execDefer(fr *frame) (res Value) {
	sp, depth, stack := m.sp, m.depth, m.stack
	normal := false
	defer func() {
		if normal {
			return
		}
		r := recover()
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r)
		}
		m.sp, m.depth, m.stack = sp, depth, stack
		m.fr = fr
		fr.panicv = tp
		m.runDefers(fr)
		if fr.panicv != nil {
			panic(fr.panicv)
		}
		// recovered
		if fr.fn.recover >= 0 {
			res = m.exec(fr, fr.fn.recover)
		} else {
			res = zeroResults(fr.fn)
		}
		m.fr = fr
	}()
	res = m.exec(fr, 0)
	normal = true
	return res
}

func zeroResults(fn *Fn) Value {
	rs := fn.ssa.Signature.Results()
	switch rs.Len() {
	case 0:
		return Value{}
	case 1:
		return zero(rs.At(0).Type())
	}
	return zero(rs)
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			sp, depth, stack := m.sp, m.depth, m.stack
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					m.sp, m.depth, m.stack = sp, depth, stack
					m.fr = fr
					fr.panicv = tp
				}
			}()
			m.doCall(fr, d.in, d.fv, d.args)
		}()
	}
}

func (m *Machine) doCall(fr *frame, in *Inst, fv Value, args []Value) Value {
	switch in.op {
	case iCall:
		if in.fn != nil {
			return m.callFn(in.fn, args, nil)
		}
		return m.callValue(fv, args)
	case iInvoke:
		return m.invoke(in.x.(*invokeInfo), fv, args)
	case iBuiltin:
		return m.builtin(fr, in, args)
	}
	panic("doCall")
}

func (m *Machine) callValue(fv Value, args []Value) Value {
	if fv.p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference (nil func call)")
	}
	c := fv.p.(*Closure)
	if c.nat != nil {
		return c.nat(m, args)
	}
	return m.callFn(c.fn, args, c.binds)
}

func (m *Machine) findMethod(rt *RType, key string, meth *types.Func) *Fn {
	if f, ok := rt.methods.Load(key); ok {
		return f.(*Fn)
	}
	f := m.P.lookupMethod(rt.t, meth)
	if f == nil {
		return nil
	}
	fn := m.P.fn(f)
	rt.methods.Store(key, fn)
	return fn
}

func (p *Program) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	sel := p.prog.MethodSets.MethodSet(t).Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (m *Machine) invoke(ii *invokeInfo, recv Value, args []Value) Value {
	if recv.p == nil && m.E.initing {
		rs := ii.method.Type().(*types.Signature).Results()
		if rs.Len() == 1 {
			return zero(rs.At(0).Type())
		}
		return zero(rs)
	}
	if recv.p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference (nil interface method call " + ii.method.Name() + ")")
	}
	ifc := recv.p.(*Iface)
	fn := m.findMethod(ifc.t, ii.key, ii.method)
	if fn == nil {
		m.unsupported("method %s not found on %s", ii.method.Name(), ifc.t.str)
	}
	full := make([]Value, 0, len(args)+1)
	full = append(full, ifc.v)
	full = append(full, args...)
	return m.callFn(fn, full, nil)
}

// callMethod calls a method by name on an interface value; ok=false if it has none.
func (m *Machine) callMethod(recv Value, name string, args ...Value) (Value, bool) {
	if recv.p == nil {
		return Value{}, false
	}
	ifc := recv.p.(*Iface)
	m.P.mu.Lock()
	ms := m.P.prog.MethodSets.MethodSet(ifc.t.t)
	var sel *types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			sel = ms.At(i)
		}
	}
	var f *ssa.Function
	if sel != nil {
		f = m.P.prog.MethodValue(sel)
	}
	m.P.mu.Unlock()
	if f == nil {
		return Value{}, false
	}
	if f.Signature.Params().Len() != len(args) {
		return Value{}, false
	}
	return m.callFn(m.P.fn(f), append([]Value{ifc.v}, args...), nil), true
}

func (m *Machine) where() string {
	s := ""
	n := 0
	for fr := m.fr; fr != nil && n < 6; fr = fr.caller {
		p := m.P.prog.Fset.Position(fr.pos)
		if s != "" {
			s += " < "
		}
		s += fmt.Sprintf("%s(%s:%d)", fr.fn.ssa.Name(), shortFile(p.Filename), p.Line)
		n++
	}
	return s
}

func (m *Machine) rtPanic(msg string) {
	if m.spec > 0 {
		panic(specBail{})
	}
	panic(&targetPanic{v: Value{p: &Iface{t: rtypeOf(types.Typ[types.String]), v: VStr("runtime error: " + msg)}}, msg: "runtime error: " + msg, pos: m.where(), rt: true})
}

// ---- the interpreter loop

func (m *Machine) phis(fr *frame, b *Block, edge int) {
	if len(b.phis) == 1 {
		ph := &b.phis[0]
		fr.r[ph.dst] = m.get(fr, ph.src[edge])
		return
	}
	var buf [16]Value
	tmp := buf[:0]
	for i := range b.phis {
		tmp = append(tmp, m.get(fr, b.phis[i].src[edge]))
	}
	for i := range b.phis {
		fr.r[b.phis[i].dst] = tmp[i]
	}
}

func (m *Machine) exec(fr *frame, start int) Value {
	fn := fr.fn
	b := fn.blocks[start]
	for {
		m.steps += int64(len(b.code))
		if m.steps > m.limit {
			panic(pathEnd{"limit", fmt.Sprintf("more than %d instructions at %s", m.limit, m.where())})
		}
		var nb *Block
		var edge int
		for i := range b.code {
			in := &b.code[i]
			switch in.op {
			case iJump:
				nb, edge = fn.blocks[b.succs[0]], b.edges[0]
			case iIf:
				c := m.get(fr, in.a)
				var side bool
				if c.p == nil {
					side = c.n != 0
				} else {
					fr.pos = in.pos
					t := m.decide(c.p.(*Term))
					if t.isConst() {
						side = t.val == 1
					} else if b.collapse {
						bb, ret, done, ok := m.collapse(fr, b, t)
						if ok {
							if done {
								return ret
							}
							nb = bb
							edge = -1
							break
						}
						side = m.branch(t)
					} else {
						side = m.branch(t)
					}
				}
				if side {
					nb, edge = fn.blocks[b.succs[0]], b.edges[0]
				} else {
					nb, edge = fn.blocks[b.succs[1]], b.edges[1]
				}
			case iReturn:
				switch len(in.args) {
				case 0:
					return Value{}
				case 1:
					return m.get(fr, in.args[0])
				}
				a := &Agg{f: make([]Value, len(in.args))}
				for j, x := range in.args {
					a.f[j] = m.get(fr, x)
				}
				return Value{p: a}
			default:
				m.step(fr, in)
			}
		}
		if nb == nil {
			panic("fell off block in " + fn.name)
		}
		if edge >= 0 && len(nb.phis) > 0 {
			m.phis(fr, nb, edge)
		}
		b = nb
	}
}

func (m *Machine) step(fr *frame, in *Inst) {
	switch in.op {
	case iAlloc:
		c := new(Value)
		if in.flag {
			*c = zero(in.t)
		}
		fr.r[in.dst] = Value{p: c}
	case iBin:
		fr.r[in.dst] = m.binop(fr, in, m.get(fr, in.a), m.get(fr, in.b))
	case iNot:
		v := m.get(fr, in.a)
		if v.p == nil {
			v.n ^= 1
			fr.r[in.dst] = v
		} else {
			fr.r[in.dst] = VTerm(m.tt.Not(v.p.(*Term)))
		}
	case iNeg:
		v := m.get(fr, in.a)
		if in.k == kFloat {
			fr.r[in.dst] = VFloat(-v.float())
		} else if v.p == nil {
			fr.r[in.dst] = VInt(-v.n & mask(in.w))
		} else {
			fr.r[in.dst] = VTerm(m.tt.Un(ONeg, v.p.(*Term)))
		}
	case iCom:
		v := m.get(fr, in.a)
		if v.p == nil {
			fr.r[in.dst] = VInt(^v.n & mask(in.w))
		} else {
			fr.r[in.dst] = VTerm(m.tt.Un(OBNot, v.p.(*Term)))
		}
	case iLoad:
		a := m.get(fr, in.a)
		c, ok := a.p.(*Value)
		if !ok {
			fr.pos = in.pos
			if a.p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			if d, ok := a.p.(*DataPtr); ok {
				if d.s != nil && len(d.s.s) > 0 {
					fr.r[in.dst] = d.s.at(0)
					return
				}
				if len(d.a) > 0 {
					fr.r[in.dst] = d.a[0]
					return
				}
			}
			if sa, ok := a.p.(*symAddr); ok {
				fr.r[in.dst] = m.selectSym(sa.a, sa.idx, in.k, in.w)
				return
			}
			if fa, ok := a.p.(*arrPtr); ok {
				fr.r[in.dst] = Value{p: copyAgg(&Agg{f: fa.a})}
				return
			}
			m.unsupported("load through %T", a.p)
		}
		if m.shared != nil && m.shared[c] == pooledMem {
			fr.pos = in.pos
			m.raced("reads an object which was given back to a pool")
		}
		if in.flag {
			fr.r[in.dst] = copyVal(*c)
		} else {
			fr.r[in.dst] = *c
		}
	case iStore:
		a := m.get(fr, in.a)
		c, ok := a.p.(*Value)
		if !ok {
			fr.pos = in.pos
			if a.p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			if sa, ok := a.p.(*symAddr); ok {
				i := m.concretizeIdx(sa.idx, len(sa.a))
				if m.shared != nil {
					m.wrote(&sa.a[i])
				}
				assign(&sa.a[i], m.get(fr, in.b))
				return
			}
			m.unsupported("store through %T", a.p)
		}
		if m.shared != nil {
			fr.pos = in.pos
			m.wrote(c)
		}
		assign(c, m.get(fr, in.b))
	case iChangeType:
		fr.r[in.dst] = m.get(fr, in.a)
	case iConvInt:
		v := m.get(fr, in.a)
		if v.p == nil {
			if in.k == kInt {
				v.n = uint64(sext(v.n, in.w)) & mask(in.w2)
			} else {
				v.n &= mask(in.w2)
			}
			fr.r[in.dst] = v
		} else {
			fr.r[in.dst] = VTerm(m.tt.Ext(v.p.(*Term), in.w2, in.k == kInt))
		}
	case iConv:
		fr.pos = in.pos
		ts := in.x.([2]types.Type)
		fr.r[in.dst] = m.convert(m.get(fr, in.a), ts[0], ts[1])
	case iMakeIface:
		fr.r[in.dst] = Value{p: &Iface{t: in.x.(*RType), v: m.get(fr, in.a)}}
	case iMakeClosure:
		bs := make([]Value, len(in.args))
		for j, x := range in.args {
			bs[j] = m.get(fr, x)
		}
		fr.r[in.dst] = Value{p: &Closure{fn: in.fn, binds: bs}}
	case iMakeMap:
		fr.r[in.dst] = Value{p: newMap(in.x.(*RType))}
	case iMakeSlice:
		fr.pos = in.pos
		n := m.concInt(m.get(fr, in.a))
		c := m.concInt(m.get(fr, in.b))
		if n < 0 || c < n {
			m.rtPanic("makeslice: len out of range")
		}
		if c > 1<<24 {
			m.unsupported("huge make %d", c)
		}
		a := make([]Value, c)
		if in.flag {
			for j := range a {
				a[j] = zero(in.t)
			}
		}
		fr.r[in.dst] = mkSlice(a[:n])
	case iSlice:
		fr.pos = in.pos
		fr.r[in.dst] = m.sliceOp(fr, in)
	case iFieldAddr:
		a := m.get(fr, in.a)
		c, ok := a.p.(*Value)
		if !ok {
			fr.pos = in.pos
			if a.p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			m.unsupported("field address through %T", a.p)
		}
		fr.r[in.dst] = Value{p: &c.p.(*Agg).f[in.d]}
	case iField:
		a := m.get(fr, in.a)
		fr.r[in.dst] = a.p.(*Agg).f[in.d]
	case iExtract:
		fr.r[in.dst] = m.get(fr, in.a).p.(*Agg).f[in.d]
	case iIndexAddr:
		fr.pos = in.pos
		a := m.get(fr, in.a)
		var arr []Value
		if in.flag {
			switch c := a.p.(type) {
			case *Value:
				arr = c.p.(*Agg).f
			case *arrPtr:
				arr = c.a
			default:
				if a.p == nil {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
				m.unsupported("index address through %T", a.p)
			}
		} else {
			arr = a.slice()
		}
		iv := m.get(fr, in.b)
		if iv.p != nil {
			t := iv.p.(*Term)
			m.boundsSym(t, len(arr))
			if i, ok := m.singleton(t); ok {
				fr.r[in.dst] = Value{p: &arr[i]}
				return
			}
			fr.r[in.dst] = Value{p: &symAddr{a: arr, idx: t}}
			return
		}
		i := sext(iv.n, in.w)
		if i < 0 || i >= int64(len(arr)) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(arr)))
		}
		fr.r[in.dst] = Value{p: &arr[i]}
	case iIndex:
		fr.pos = in.pos
		a := m.get(fr, in.a)
		iv := m.get(fr, in.b)
		if in.flag {
			fr.r[in.dst] = m.strIndex(a.str(), iv, in.w)
			return
		}
		arr := a.p.(*Agg).f
		if iv.p != nil {
			t := iv.p.(*Term)
			m.boundsSym(t, len(arr))
			fr.r[in.dst] = m.selectSym(arr, t, in.k, in.w2)
			return
		}
		i := sext(iv.n, in.w)
		if i < 0 || i >= int64(len(arr)) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(arr)))
		}
		fr.r[in.dst] = arr[i]
	case iLookup:
		fr.pos = in.pos
		if in.flag {
			fr.r[in.dst] = m.strIndex(m.get(fr, in.a).str(), m.get(fr, in.b), in.w)
			return
		}
		mv := m.get(fr, in.a)
		var v Value
		ok := false
		if mv.p != nil {
			mp := mv.p.(*Map)
			if i := m.mapFind(mp, m.get(fr, in.b)); i >= 0 {
				v, ok = mp.vals[i], true
			}
		}
		if !ok {
			v = zero(in.x.(types.Type))
		}
		if in.w2 == 1 {
			fr.r[in.dst] = Value{p: &Agg{f: []Value{copyVal(v), VBool(ok)}}}
		} else {
			fr.r[in.dst] = copyVal(v)
		}
	case iRange:
		fr.r[in.dst] = m.rangeStart(m.get(fr, in.a), in.flag)
	case iNext:
		fr.pos = in.pos
		fr.r[in.dst] = m.next(m.get(fr, in.a), in)
	case iTypeAssert:
		fr.pos = in.pos
		fr.r[in.dst] = m.typeAssert(m.get(fr, in.a), in)
	case iRunDefers:
		m.runDefers(fr)
		if fr.panicv != nil {
			p := fr.panicv
			panic(p)
		}
	case iPanic:
		fr.pos = in.pos
		if m.spec > 0 {
			panic(specBail{})
		}
		v := m.get(fr, in.a)
		panic(&targetPanic{v: v, msg: m.describePanic(v), pos: m.where()})
	case iDefer:
		sub := in.x.(*Inst)
		args := make([]Value, len(in.args))
		for j, x := range in.args {
			args[j] = m.get(fr, x)
		}
		var fv Value
		if sub.op == iInvoke || (sub.op == iCall && sub.fn == nil) {
			fv = m.get(fr, sub.a)
		}
		fr.defers = append(fr.defers, deferred{sub, args, fv})
	case iMapUpdate:
		fr.pos = in.pos
		mv := m.get(fr, in.a)
		if mv.p == nil {
			m.rtPanic("assignment to entry in nil map")
		}
		m.mapSet(mv.p.(*Map), m.get(fr, in.b), copyVal(m.get(fr, in.c)))
	case iCall:
		fr.pos = in.pos
		args := make([]Value, len(in.args))
		for j, x := range in.args {
			args[j] = m.get(fr, x)
		}
		var v Value
		if in.fn != nil {
			v = m.callFn(in.fn, args, nil)
		} else {
			v = m.callValue(m.get(fr, in.a), args)
		}
		if in.dst >= 0 {
			fr.r[in.dst] = v
		}
	case iInvoke:
		fr.pos = in.pos
		args := make([]Value, len(in.args))
		for j, x := range in.args {
			args[j] = m.get(fr, x)
		}
		v := m.invoke(in.x.(*invokeInfo), m.get(fr, in.a), args)
		if in.dst >= 0 {
			fr.r[in.dst] = v
		}
	case iBuiltin:
		fr.pos = in.pos
		args := make([]Value, len(in.args))
		for j, x := range in.args {
			args[j] = m.get(fr, x)
		}
		v := m.builtin(fr, in, args)
		if in.dst >= 0 {
			fr.r[in.dst] = v
		}
	case iSliceToArr:
		a := m.get(fr, in.a).slice()
		n := int(in.x.(int64))
		if len(a) < n {
			m.rtPanic("cannot convert slice to array pointer")
		}
		fr.r[in.dst] = Value{p: &arrPtr{a: a[:n:n]}}
	case iGo:
		if m.spec > 0 {
			panic(specBail{})
		}
		sub := in.x.(*Inst)
		args := make([]Value, len(in.args))
		for j, x := range in.args {
			args[j] = m.get(fr, x)
		}
		var fv Value
		if sub.op == iInvoke || (sub.op == iCall && sub.fn == nil) {
			fv = m.get(fr, sub.a)
		}
		m.spawn(func() { m.doCall(nil, sub, fv, args) })
	case iMakeChan:
		n := m.get(fr, in.a)
		if n.p != nil {
			m.unsupported("symbolic channel size")
		}
		fr.r[in.dst] = Value{p: &Chan{cap: int(n.n), elem: in.t}}
	case iSend:
		fr.pos = in.pos
		if m.spec > 0 {
			panic(specBail{})
		}
		m.send(m.chanOf(m.get(fr, in.a)), copyVal(m.get(fr, in.b)))
	case iRecv:
		fr.pos = in.pos
		if m.spec > 0 {
			panic(specBail{})
		}
		v, ok := m.recv(m.chanOf(m.get(fr, in.a)))
		if in.flag {
			v = tuple(v, VBool(ok))
		}
		if in.dst >= 0 {
			fr.r[in.dst] = v
		}
	case iUnsupported:
		fr.pos = in.pos
		m.unsupported("%s", in.x.(string))
	default:
		panic("opcode")
	}
}

type symAddr struct {
	a   []Value
	idx *Term
}

type arrPtr struct{ a []Value }

// boundsSym forks on idx < n (panicking on the other side).
func (m *Machine) boundsSym(t *Term, n int) {
	var c *Term
	if t.w < 64 && uint64(n) > mask(t.w) {
		return
	}
	c = m.tt.Cmp(OUlt, t, m.tt.Const(uint64(n), t.w))
	if c.isConst() {
		if c.val == 0 {
			m.rtPanic("index out of range")
		}
		return
	}
	if m.spec > 0 {
		panic(specBail{})
	}
	if !m.branch(c) {
		m.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
}

func (m *Machine) singleton(t *Term) (uint64, bool) {
	if t.isConst() {
		return t.val, true
	}
	if t.v1 != nil && t.v1.w == 8 {
		d := &m.doms[t.v1.val]
		tab := t.table()
		var x uint64
		first := true
		for i := 0; i < 256; i++ {
			if d[i>>6]>>(uint(i)&63)&1 == 1 {
				if first {
					x, first = tab[i], false
				} else if tab[i] != x {
					return 0, false
				}
			}
		}
		return x, !first
	}
	return 0, false
}

func (m *Machine) strIndex(s *Str, iv Value, w uint8) Value {
	if iv.p != nil {
		t := iv.p.(*Term)
		m.boundsSym(t, len(s.s))
		return m.selectSym(strToBytes(s), t, kUint, 8)
	}
	i := sext(iv.n, w)
	if i < 0 || i >= int64(len(s.s)) {
		m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(s.s)))
	}
	return s.at(int(i))
}

// selectSym reads arr[t] for a symbolic in-range t.
func (m *Machine) selectSym(arr []Value, t *Term, k skind, ew uint8) Value {
	if i, ok := m.singleton(t); ok {
		return arr[i]
	}
	if len(arr) > 1024 || !(k == kBool || k == kInt || k == kUint) {
		return arr[m.concretizeIdx(t, len(arr))]
	}
	groups := map[uint64][]int{}
	var order []uint64
	var res *Term
	symIdx := []int{}
	for _, i := range m.possible(t, len(arr)) {
		if arr[i].p != nil {
			symIdx = append(symIdx, i)
			continue
		}
		if _, ok := groups[arr[i].n]; !ok {
			order = append(order, arr[i].n)
		}
		groups[arr[i].n] = append(groups[arr[i].n], i)
	}
	if len(order) == 1 && len(symIdx) == 0 {
		return VInt(order[0])
	}
	// the biggest group is the default
	sort.SliceStable(order, func(i, j int) bool { return len(groups[order[i]]) > len(groups[order[j]]) })
	for k, v := range order {
		c := m.tt.Const(v, ew)
		if k == 0 {
			res = c
			continue
		}
		res = m.tt.Ite(m.inSet(t, groups[v]), c, res)
	}
	for _, i := range symIdx {
		e := arr[i].term()
		if res == nil {
			res = e
		} else {
			res = m.tt.Ite(m.tt.Eq(t, m.tt.Const(uint64(i), t.w)), e, res)
		}
	}
	return VTerm(res)
}

func (m *Machine) inSet(t *Term, idx []int) *Term {
	r := m.tt.fls
	for i := 0; i < len(idx); {
		j := i
		for j+1 < len(idx) && idx[j+1] == idx[j]+1 {
			j++
		}
		var c *Term
		if i == j {
			c = m.tt.Eq(t, m.tt.Const(uint64(idx[i]), t.w))
		} else {
			c = m.tt.And(m.tt.Cmp(OUle, m.tt.Const(uint64(idx[i]), t.w), t), m.tt.Cmp(OUle, t, m.tt.Const(uint64(idx[j]), t.w)))
		}
		r = m.tt.Or(r, c)
		i = j + 1
	}
	return r
}

// possible lists the indices t can take given the domain of its variable (over-approximation).
func (m *Machine) possible(t *Term, n int) []int {
	if t.v1 != nil && t.v1.w == 8 {
		d := &m.doms[t.v1.val]
		tab := t.table()
		set := map[int]bool{}
		for i := 0; i < 256; i++ {
			if d[i>>6]>>(uint(i)&63)&1 == 1 && tab[i] < uint64(n) {
				set[int(tab[i])] = true
			}
		}
		r := make([]int, 0, len(set))
		for i := range set {
			r = append(r, i)
		}
		sort.Ints(r)
		return r
	}
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// ---- symbolic branching

func (m *Machine) dom(t *Term) *[4]uint64 { return &m.doms[t.val] }

// assume adds a constraint known (or required) to be satisfiable; it ends the path if it is trivially false.
func (m *Machine) assume(t *Term) {
	switch {
	case t.op == OConst:
		if t.val == 0 {
			panic(pathEnd{"infeasible", ""})
		}
		return
	case t.op == OAnd:
		m.assume(t.a)
		m.assume(t.b)
		return
	case t.op == ONot && t.a.op == OOr:
		m.assume(m.tt.Not(t.a.a))
		m.assume(m.tt.Not(t.a.b))
		return
	}
	if t.v1 != nil && t.v1.w == 8 {
		d := m.dom(t.v1)
		tr := t.truth()
		m.certify(t)
		for i := range d {
			d[i] &= tr[i]
		}
		if *d == [4]uint64{} {
			panic(pathEnd{"infeasible", ""})
		}
		return
	}
	if t.op == OEq {
		if t.b.op == OConst {
			m.eqs[t.a] = t.b.val
		} else if t.a.op == OConst {
			m.eqs[t.b] = t.a.val
		}
	}
	m.cons = append(m.cons, t)
	for _, v := range t.vars {
		m.ent[v] = true
	}
}

// certify has the solver confirm, once per distinct condition, that the set of values computed for a
// condition over one 8-bit variable is exactly its set of models; domain reasoning then is set intersection.
func (m *Machine) certify(c *Term) {
	if c.op == ONot {
		c = c.a
	}
	if _, ok := m.E.P.certs.Load(c.sh); ok {
		return
	}
	tr := c.truth()
	var no [4]uint64
	for i := range no {
		no[i] = ^tr[i]
	}
	r1, _ := m.sol.Check([]*Term{c}, []domCon{{c.v1, no}}, nil)
	r2, _ := m.sol.Check([]*Term{m.tt.Not(c)}, []domCon{{c.v1, *tr}}, nil)
	if r1 == Sat || r2 == Sat {
		panic(fmt.Sprintf("domain reasoning disagrees with the solver: term %d", c.id))
	}
	if r1 == Unsat && r2 == Unsat {
		m.E.P.certs.Store(c.sh, true)
		m.ncert++
	} else {
		m.E.noteUnknown()
	}
}

// feasible decides path ∧ c. The path itself is satisfiable.
func (m *Machine) feasible(c *Term) Result {
	if c.isConst() {
		if c.val == 1 {
			return Sat
		}
		return Unsat
	}
	if c.v1 != nil && c.v1.w == 8 && !m.ent[c.v1.val] {
		d := m.dom(c.v1)
		tr := c.truth()
		for i := range d {
			if d[i]&tr[i] != 0 {
				return Sat
			}
		}
		m.certify(c)
		return Unsat
	}
	ts, ds, _ := m.slice(c)
	key := m.key(ts, ds, c)
	if r, ok := m.fcache[key]; ok {
		return r
	}
	m.late()
	r, _ := m.sol.Check(append(ts, c), ds, nil)
	if r != Unknown {
		m.fcache[key] = r
	}
	return r
}

func (m *Machine) key(ts []*Term, ds []domCon, c *Term) string {
	b := make([]byte, 0, 8*len(ts)+40*len(ds)+8)
	put := func(x uint64) {
		for i := 0; i < 8; i++ {
			b = append(b, byte(x>>(8*i)))
		}
	}
	for _, t := range ts {
		put(uint64(t.id))
	}
	put(math.MaxUint64)
	for _, d := range ds {
		put(d.v.val)
		for _, x := range d.d {
			put(x)
		}
	}
	put(uint64(c.id))
	return string(b)
}

// slice collects the constraints connected to c's variables.
func (m *Machine) slice(c *Term) ([]*Term, []domCon, []*Term) {
	in := make([]bool, len(m.vterm))
	var vs []int32
	add := func(l []int32) bool {
		ch := false
		for _, v := range l {
			if !in[v] {
				in[v] = true
				vs = append(vs, v)
				ch = true
			}
		}
		return ch
	}
	if c != nil {
		add(c.vars)
	} else {
		for i := range m.vterm {
			add([]int32{int32(i)})
		}
	}
	used := make([]bool, len(m.cons))
	var ts []*Term
	for ch := true; ch; {
		ch = false
		for i, t := range m.cons {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range t.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ts = append(ts, t)
				add(t.vars)
				ch = true
			}
		}
	}
	sortTerms(ts)
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	var ds []domCon
	var vt []*Term
	for _, v := range vs {
		vt = append(vt, m.vterm[v])
		if !m.wide[v] {
			ds = append(ds, domCon{m.vterm[v], m.doms[v]})
		}
	}
	return ts, ds, vt
}

func (m *Machine) take(d Decision) {
	m.trail = append(m.trail, d)
}

// branch returns the side to follow; the other feasible side is queued.
func (m *Machine) branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if m.spec > 0 {
		panic(specBail{})
	}
	if m.di < len(m.dec) {
		d := m.dec[m.di]
		m.di++
		m.take(d)
		if !d.forced {
			if d.v == 1 {
				m.assume(c)
			} else {
				m.assume(m.tt.Not(c))
			}
		}
		return d.v == 1
	}
	m.nbr++
	ft := m.feasible(c)
	var ff Result
	if ft == Unsat {
		ff = Sat
	} else {
		ff = m.feasible(m.tt.Not(c))
	}
	if ft == Unknown || ff == Unknown {
		m.E.noteUnknown()
	}
	switch {
	case ft == Unsat:
		m.take(Decision{0, true})
		return false
	case ff == Unsat:
		m.take(Decision{1, true})
		return true
	}
	m.E.push(m, Decision{0, false})
	m.take(Decision{1, false})
	m.assume(c)
	return true
}

// choose picks one of exhaustive, mutually exclusive guards.
func (m *Machine) choose(gs []*Term) int {
	if m.di < len(m.dec) {
		d := m.dec[m.di]
		m.di++
		m.take(d)
		if !d.forced {
			m.assume(gs[d.v])
		}
		return int(d.v)
	}
	m.nbr++
	var feas []int
	for i, g := range gs {
		r := m.feasible(g)
		if r == Unknown {
			m.E.noteUnknown()
		}
		if r != Unsat {
			feas = append(feas, i)
		}
	}
	if len(feas) == 0 {
		panic(pathEnd{"infeasible", "no feasible guard"})
	}
	if len(feas) == 1 {
		m.take(Decision{uint64(feas[0]), true})
		return feas[0]
	}
	for k := len(feas) - 1; k > 0; k-- {
		m.E.push(m, Decision{uint64(feas[k]), false})
	}
	m.take(Decision{uint64(feas[0]), false})
	m.assume(gs[feas[0]])
	return feas[0]
}

// pickN is an n-way choice with no constraint.
func (m *Machine) pickN(n int) int {
	if m.di < len(m.dec) {
		d := m.dec[m.di]
		m.di++
		m.take(d)
		return int(d.v)
	}
	for k := n - 1; k > 0; k-- {
		m.E.push(m, Decision{uint64(k), false})
	}
	m.take(Decision{0, false})
	return 0
}

// decide gives the constant a condition over one 8-bit variable is on the path, or the condition.
func (m *Machine) decide(c *Term) *Term {
	if c.v1 == nil || c.v1.w != 8 {
		return c
	}
	d := m.dom(c.v1)
	tr := c.truth()
	yes, no := false, false
	for i := range d {
		yes = yes || d[i]&tr[i] != 0
		no = no || d[i]&^tr[i] != 0
	}
	if yes == no {
		return c
	}
	m.certify(c)
	return m.tt.Bool(yes)
}

// late gives up a path when the job's time is over.
func (m *Machine) late() {
	if !m.E.deadline.IsZero() && time.Now().After(m.E.deadline) {
		panic(pathEnd{"late", ""})
	}
}

// concretize forks over all feasible values of t.
func (m *Machine) concretize(t *Term) uint64 {
	if v, ok := m.singleton(t); ok && (t.isConst() || !m.ent[t.v1.val]) {
		return v
	}
	if m.spec > 0 {
		panic(specBail{})
	}
	eq := func(v uint64) *Term { return m.tt.Eq(t, m.tt.Const(v, t.w)) }
	if m.di < len(m.dec) {
		d := m.dec[m.di]
		m.di++
		m.take(d)
		m.assume(eq(d.v))
		return d.v
	}
	m.nbr++
	var vals []uint64
	if t.v1 != nil && t.v1.w == 8 {
		d := m.dom(t.v1)
		tab := t.table()
		seen := map[uint64]bool{}
		for i := 0; i < 256; i++ {
			if d[i>>6]>>(uint(i)&63)&1 == 1 && !seen[tab[i]] {
				seen[tab[i]] = true
				if !m.ent[t.v1.val] || m.feasible(eq(tab[i])) != Unsat {
					vals = append(vals, tab[i])
				}
			}
		}
	} else {
		ts, ds, vt := m.slice(t)
		for {
			m.late()
			r, model := m.sol.Check(ts, ds, vt)
			if r == Unsat {
				break
			}
			if r == Unknown {
				m.E.noteUnknown()
				break
			}
			v := t.eval(func(i int32) uint64 { return model[i] }, map[*Term]uint64{})
			vals = append(vals, v)
			ts = append(ts, m.tt.Not(eq(v)))
			if len(vals) > 5000 {
				m.unsupported("concretization of a wide term at %s", m.where())
			}
		}
	}
	if len(vals) == 0 {
		panic(pathEnd{"infeasible", ""})
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
	for k := len(vals) - 1; k > 0; k-- {
		m.E.push(m, Decision{vals[k], false})
	}
	m.take(Decision{vals[0], false})
	m.assume(eq(vals[0]))
	return vals[0]
}

func (m *Machine) concretizeIdx(t *Term, n int) int { return int(m.concretize(t)) }

func (m *Machine) concInt(v Value) int {
	if v.p == nil {
		return int(int64(v.n))
	}
	t := v.p.(*Term)
	return int(sext(m.concretize(t), t.w))
}

func (m *Machine) boolTerm(v Value) *Term {
	if v.p == nil {
		return m.tt.Bool(v.n != 0)
	}
	return v.p.(*Term)
}

func (m *Machine) scalarTerm(v Value, w uint8) *Term {
	if v.p == nil {
		return m.tt.Const(v.n, w)
	}
	return v.p.(*Term)
}

// ---- merging of side-effect free regions

type pend struct {
	blk   int
	guard *Term
	phi   []Value // merged phi values
	edges int
}

// collapse evaluates the light blocks reachable from b's If without forking and joins them.
// ok=false: not applicable. done: the function returned ret. Otherwise continue at blk (phis already set).
func (m *Machine) collapse(fr *frame, b *Block, c *Term) (blk *Block, ret Value, done bool, ok bool) {
	exits, rets, good := m.region(fr, b, c)
	if !good {
		return nil, Value{}, false, false
	}
	merged := false
	for _, e := range exits {
		if e.edges > 1 {
			merged = true
		}
	}
	if len(rets) > 1 {
		merged = true
	}
	if !merged {
		return nil, Value{}, false, false
	}
	// merge returns
	var retV Value
	var retG *Term
	if len(rets) > 0 {
		retG = rets[0].guard
		retV = rets[0].val
		for _, r := range rets[1:] {
			v, k := m.mergeRet(fr.fn, r.guard, r.val, retV)
			if !k {
				return nil, Value{}, false, false
			}
			retV = v
			retG = m.tt.Or(retG, r.guard)
		}
	}
	var gs []*Term
	for _, e := range exits {
		gs = append(gs, e.guard)
	}
	if retG != nil {
		gs = append(gs, retG)
	}
	if m.spec > 0 && len(gs) > 1 {
		return nil, Value{}, false, false
	}
	k := 0
	if len(gs) > 1 {
		k = m.choose(gs)
	}
	if k == len(exits) {
		return nil, retV, true, true
	}
	e := exits[k]
	nb := fr.fn.blocks[e.blk]
	for i := range nb.phis {
		fr.r[nb.phis[i].dst] = e.phi[i]
	}
	return nb, Value{}, false, true
}

type guardedRet struct {
	guard *Term
	val   Value
}

func (m *Machine) mergeRet(fn *Fn, g *Term, a, b Value) (Value, bool) {
	if fn.nres == 0 {
		return Value{}, true
	}
	if fn.nres == 1 {
		return m.mergeVal(g, a, b, fn.retK[0], fn.retW[0])
	}
	aa, ab := a.p.(*Agg), b.p.(*Agg)
	r := &Agg{f: make([]Value, fn.nres)}
	for i := range r.f {
		v, ok := m.mergeVal(g, aa.f[i], ab.f[i], fn.retK[i], fn.retW[i])
		if !ok {
			return Value{}, false
		}
		r.f[i] = v
	}
	return Value{p: r}, true
}

func (m *Machine) mergeVal(g *Term, a, b Value, k skind, w uint8) (Value, bool) {
	if a == b {
		return a, true
	}
	switch k {
	case kBool, kInt, kUint:
		return VTerm(m.tt.Ite(g, m.scalarTerm(a, w), m.scalarTerm(b, w))), true
	case kString:
		x, y := a.str(), b.str()
		if len(x.s) == len(y.s) {
			if x.concrete() && y.concrete() && x.s == y.s {
				return a, true
			}
			if len(x.s) <= 8 {
				r := make([]Value, len(x.s))
				for i := range r {
					r[i] = VTerm(m.tt.Ite(g, m.scalarTerm(x.at(i), 8), m.scalarTerm(y.at(i), 8)))
				}
				return mkStr(bytesToStr(r)), true
			}
		}
	}
	return Value{}, false
}

func (m *Machine) region(fr *frame, b *Block, c *Term) (exits []pend, rets []guardedRet, good bool) {
	fn := fr.fn
	m.spec++
	nspec := m.spec
	defer func() {
		m.spec = nspec - 1
		if r := recover(); r != nil {
			if _, ok := r.(specBail); ok {
				good = false
				return
			}
			panic(r)
		}
	}()
	pending := map[int]*pend{}
	add := func(from *Block, si int, g *Term) bool {
		if g.isConst() && g.val == 0 {
			return true
		}
		to := fn.blocks[from.succs[si]]
		edge := from.edges[si]
		p, ok := pending[to.idx]
		vals := make([]Value, len(to.phis))
		for i := range to.phis {
			vals[i] = m.get(fr, to.phis[i].src[edge])
		}
		if !ok {
			pending[to.idx] = &pend{blk: to.idx, guard: g, phi: vals, edges: 1}
			return true
		}
		for i := range vals {
			v, k := m.mergeVal(g, vals[i], p.phi[i], to.phis[i].k, to.phis[i].w)
			if !k {
				return false
			}
			p.phi[i] = v
		}
		p.guard = m.tt.Or(p.guard, g)
		p.edges++
		return true
	}
	if !add(b, 0, c) || !add(b, 1, m.tt.Not(c)) {
		return nil, nil, false
	}
	cnt := 0
	top := b.rpo // a block is evaluated at most once: a back edge leaves the region
	for len(pending) > 0 {
		best := -1
		for x := range pending {
			if best < 0 || fn.blocks[x].rpo < fn.blocks[best].rpo {
				best = x
			}
		}
		p := pending[best]
		delete(pending, best)
		nb := fn.blocks[best]
		if len(pending) == 0 && len(exits) == 0 && len(rets) == 0 {
			// single join point
			exits = append(exits, *p)
			return exits, rets, true
		}
		if !nb.light || nb.rpo <= top || cnt >= maxRegion || !m.evalLight(fr, nb, p) {
			exits = append(exits, *p)
			continue
		}
		top = nb.rpo
		cnt++
		last := &nb.code[len(nb.code)-1]
		switch last.op {
		case iReturn:
			var v Value
			switch len(last.args) {
			case 0:
			case 1:
				v = m.get(fr, last.args[0])
			default:
				a := &Agg{f: make([]Value, len(last.args))}
				for j, x := range last.args {
					a.f[j] = m.get(fr, x)
				}
				v = Value{p: a}
			}
			rets = append(rets, guardedRet{p.guard, v})
		case iJump:
			if !add(nb, 0, p.guard) {
				return nil, nil, false
			}
		case iIf:
			cv := m.get(fr, last.a)
			ct := m.decide(m.boolTerm(cv))
			if !add(nb, 0, m.tt.And(p.guard, ct)) || !add(nb, 1, m.tt.And(p.guard, m.tt.Not(ct))) {
				return nil, nil, false
			}
		}
	}
	return exits, rets, true
}

// evalLight runs a light block's instructions speculatively; false if it would panic or fork.
func (m *Machine) evalLight(fr *frame, b *Block, p *pend) (ok bool) {
	sp, depth, cur, stack := m.sp, m.depth, m.fr, m.stack
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case specBail:
				m.sp, m.depth, m.fr, m.stack = sp, depth, cur, stack
				ok = false
				return
			}
			panic(r)
		}
	}()
	// keep the phi destinations of an exit block untouched unless we evaluate it
	for i := range b.phis {
		fr.r[b.phis[i].dst] = p.phi[i]
	}
	for i := range b.code {
		in := &b.code[i]
		switch in.op {
		case iJump, iIf, iReturn:
			continue
		}
		m.step(fr, in)
	}
	return true
}
