package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	iAlloc opcode = iota
	iBin
	iNot
	iNeg
	iCom
	iLoad
	iChangeType
	iConvInt
	iConv
	iMakeIface
	iMakeClosure
	iMakeMap
	iMakeSlice
	iSlice
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iLookup
	iRange
	iNext
	iTypeAssert
	iExtract
	iJump
	iIf
	iReturn
	iRunDefers
	iPanic
	iDefer
	iStore
	iMapUpdate
	iCall
	iBuiltin
	iInvoke
	iUnsupported
	iSliceToArr
	iGo
	iMakeChan
	iSend
	iRecv
	iConcat // reserved
)

type Inst struct {
	op      opcode
	dst     int32
	a, b, c int32
	d       int32
	args    []int32
	w       uint8
	w2      uint8
	k       skind
	k2      skind
	tok     token.Token
	flag    bool
	x       any
	fn      *Fn
	t       types.Type
	pos     token.Pos
}

type phiMove struct {
	dst int32
	src []int32 // per predecessor index
	k   skind
	w   uint8
}

type Block struct {
	idx   int
	rpo   int
	phis  []phiMove
	code  []Inst
	succs []int
	edges []int // index of this edge among the successor's predecessors
	light bool
	// static region info for a terminating If
	collapse bool
	nstep    int
}

type Fn struct {
	once     sync.Once
	ssa      *ssa.Function
	name     string
	nregs    int
	params   []int32
	fvs      []int32
	consts   []Value
	blocks   []*Block
	hasDefer bool
	recover  int // -1
	intr     func(m *Machine, fn *Fn, args []Value) Value
	repo     bool
	lightAll bool
	retK     []skind
	retW     []uint8
	nres     int
	id       int
	bad      string
}

const globalBase = -1000000

type Program struct {
	prog    *ssa.Program
	mu      sync.Mutex
	fns     map[*ssa.Function]*Fn
	globals map[*ssa.Global]int
	glist   []*ssa.Global
	gshared []*Value // shared (standard library) global cells, by id; nil if per-path
	nextFn  int
	perPath map[*ssa.Package]bool
	repoPfx []string
	certs   sync.Map // structural hashes of certified one-variable conditions
}

func (p *Program) fn(f *ssa.Function) *Fn {
	p.mu.Lock()
	r, ok := p.fns[f]
	if !ok {
		r = &Fn{ssa: f, name: f.String(), recover: -1, id: p.nextFn}
		p.nextFn++
		p.fns[f] = r
		r.intr = lookupIntrinsic(f, r.name)
		pk := f.Package()
		if pk == nil && f.Origin() != nil {
			pk = f.Origin().Package()
		}
		r.repo = pk != nil && p.inRepo(pk.Pkg.Path())
	}
	p.mu.Unlock()
	return r
}

func (p *Program) inRepo(path string) bool {
	for _, x := range p.repoPfx {
		if path == x || strings.HasPrefix(path, x+"/") {
			return true
		}
	}
	return false
}

func (p *Program) globalID(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	id, ok := p.globals[g]
	if !ok {
		id = len(p.glist)
		p.globals[g] = id
		p.glist = append(p.glist, g)
		if p.perPath[g.Pkg] {
			p.gshared = append(p.gshared, nil)
		} else {
			c := new(Value)
			*c = zero(g.Type().(*types.Pointer).Elem())
			p.gshared = append(p.gshared, c)
		}
	}
	return id
}

func (p *Program) compile(fn *Fn) {
	fn.once.Do(func() { p.compile1(fn) })
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	k, w := scalarKind(c.Type())
	switch k {
	case kBool:
		return VBool(constant.BoolVal(c.Value))
	case kInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return VInt(uint64(i) & mask(w))
		}
		u, _ := constant.Uint64Val(v)
		return VInt(u & mask(w))
	case kUint:
		v := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return VInt(u & mask(w))
		}
		i, _ := constant.Int64Val(v)
		return VInt(uint64(i) & mask(w))
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if w == 32 {
			f = float64(float32(f))
		}
		return VFloat(f)
	case kString:
		if c.Value.Kind() == constant.String {
			return VStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return VStr(string(rune(i)))
	}
	return Value{}
}

func (p *Program) compile1(fn *Fn) {
	f := fn.ssa
	if len(f.Blocks) == 0 {
		fn.bad = "no body: " + fn.name
		return
	}
	regs := map[ssa.Value]int32{}
	alloc := func(v ssa.Value) int32 {
		r := int32(fn.nregs)
		fn.nregs++
		regs[v] = r
		return r
	}
	for _, x := range f.Params {
		fn.params = append(fn.params, alloc(x))
	}
	for _, x := range f.FreeVars {
		fn.fvs = append(fn.fvs, alloc(x))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	konst := map[ssa.Value]int32{}
	opd := func(v ssa.Value) int32 {
		if r, ok := regs[v]; ok {
			return r
		}
		if r, ok := konst[v]; ok {
			return r
		}
		switch x := v.(type) {
		case *ssa.Global:
			return int32(globalBase - p.globalID(x))
		case *ssa.Const:
			fn.consts = append(fn.consts, constValue(x))
		case *ssa.Function:
			fn.consts = append(fn.consts, Value{p: &Closure{fn: p.fn(x)}})
		case *ssa.Builtin:
			fn.consts = append(fn.consts, Value{p: &Closure{bi: x}})
		default:
			panic(fmt.Sprintf("operand %T", v))
		}
		r := int32(-len(fn.consts))
		konst[v] = r
		return r
	}
	res := f.Signature.Results()
	fn.nres = res.Len()
	for i := 0; i < res.Len(); i++ {
		k, w := scalarKind(res.At(i).Type())
		fn.retK = append(fn.retK, k)
		fn.retW = append(fn.retW, w)
	}
	if f.Recover != nil {
		fn.recover = f.Recover.Index
	}
	for _, b := range f.Blocks {
		blk := &Block{idx: b.Index}
		for si, s := range b.Succs {
			blk.succs = append(blk.succs, s.Index)
			skip := 0
			for _, e := range b.Succs[:si] {
				if e == s {
					skip++
				}
			}
			for i, pb := range s.Preds {
				if pb == b {
					if skip == 0 {
						blk.edges = append(blk.edges, i)
						break
					}
					skip--
				}
			}
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				pm := phiMove{dst: regs[ph]}
				pm.k, pm.w = scalarKind(ph.Type())
				for _, e := range ph.Edges {
					pm.src = append(pm.src, opd(e))
				}
				blk.phis = append(blk.phis, pm)
				continue
			}
			p.compileInst(fn, blk, in, regs, opd)
		}
		blk.light = p.isLight(blk)
		fn.blocks = append(fn.blocks, blk)
	}
	// reverse post order
	n := len(fn.blocks)
	seen := make([]bool, n)
	order := make([]int, 0, n)
	var dfs func(int)
	dfs = func(i int) {
		seen[i] = true
		for _, s := range fn.blocks[i].succs {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, i)
	}
	dfs(0)
	for i, bi := range order {
		fn.blocks[bi].rpo = n - i
	}
	fn.lightAll = true
	for _, b := range fn.blocks {
		if !b.light && seen[b.idx] {
			fn.lightAll = false
		}
		for _, s := range b.succs {
			if fn.blocks[s].rpo <= b.rpo {
				fn.lightAll = false
			}
		}
	}
	// For speculative evaluation of calls every block has to be light and the graph acyclic.
	for _, b := range fn.blocks {
		b.collapse = p.staticCollapse(fn, b)
	}
}

const maxRegion = 40

// staticCollapse: does expanding light blocks from b's If merge at least two edges into one exit?
func (p *Program) staticCollapse(fn *Fn, b *Block) bool {
	if len(b.code) == 0 || b.code[len(b.code)-1].op != iIf {
		return false
	}
	in := map[int]int{}
	pend := map[int]bool{}
	for _, s := range b.succs {
		in[s]++
		pend[s] = true
	}
	merged := b.succs[0] == b.succs[1]
	retBlocks := 0
	cnt := 0
	for len(pend) > 0 {
		// pick smallest rpo
		best := -1
		for x := range pend {
			if best < 0 || fn.blocks[x].rpo < fn.blocks[best].rpo {
				best = x
			}
		}
		if in[best] > 1 {
			merged = true
		}
		delete(pend, best)
		if len(pend) == 0 && cnt > 0 && retBlocks == 0 {
			break
		}
		bb := fn.blocks[best]
		if !bb.light || bb.rpo <= b.rpo || cnt >= maxRegion {
			continue
		}
		cnt++
		if len(bb.succs) == 0 {
			retBlocks++
		}
		for _, s := range bb.succs {
			in[s]++
			pend[s] = true
		}
	}
	return merged || retBlocks > 1
}

func (p *Program) isLight(b *Block) bool {
	if len(b.code) > 40 {
		return false
	}
	for i := range b.code {
		in := &b.code[i]
		switch in.op {
		case iBin:
			if in.tok == token.QUO || in.tok == token.REM {
				return false
			}
			if in.k == kOther || in.k == kFloat {
				if in.tok != token.EQL && in.tok != token.NEQ {
					return false
				}
			}
			if in.k == kString && in.tok == token.ADD {
				return false
			}
		case iNot, iNeg, iCom, iLoad, iChangeType, iConvInt, iFieldAddr, iField, iIndexAddr, iIndex, iExtract, iJump, iIf, iReturn:
		case iLookup:
			if !in.flag {
				return false
			}
		case iBuiltin:
			bi := in.x.(*ssa.Builtin)
			if bi.Name() != "len" {
				return false
			}
		case iCall:
			if in.fn == nil {
				return false
			}
			if in.fn.intr != nil {
				if !lightIntrinsics[in.fn.name] {
					return false
				}
			} else if !p.lightFn(in.fn, 0) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// lightFn is a static, pre-compilation approximation of Fn.lightAll (avoids recursion between compiles).
func (p *Program) lightFn(fn *Fn, depth int) bool {
	f := fn.ssa
	if len(f.Blocks) == 0 || len(f.Blocks) > 30 || depth > 3 {
		return false
	}
	// acyclic?
	state := make([]int8, len(f.Blocks))
	var cyc func(b *ssa.BasicBlock) bool
	cyc = func(b *ssa.BasicBlock) bool {
		state[b.Index] = 1
		for _, s := range b.Succs {
			if state[s.Index] == 1 || (state[s.Index] == 0 && cyc(s)) {
				return true
			}
		}
		state[b.Index] = 2
		return false
	}
	if cyc(f.Blocks[0]) {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if x.Op == token.QUO || x.Op == token.REM {
					return false
				}
				k, _ := scalarKind(x.X.Type())
				if k == kFloat || (k == kString && x.Op == token.ADD) {
					return false
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			case *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Extract, *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Phi, *ssa.DebugRef:
			case *ssa.Convert:
				k1, _ := scalarKind(x.X.Type())
				k2, _ := scalarKind(x.Type())
				if !((k1 == kInt || k1 == kUint) && (k2 == kInt || k2 == kUint)) {
					return false
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					continue
				}
				cf := x.Call.StaticCallee()
				if cf == nil {
					return false
				}
				c := p.fn(cf)
				if c.intr != nil {
					if !lightIntrinsics[c.name] {
						return false
					}
				} else if !p.lightFn(c, depth+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func (p *Program) compileInst(fn *Fn, blk *Block, in ssa.Instruction, regs map[ssa.Value]int32, opd func(ssa.Value) int32) {
	I := Inst{pos: in.Pos(), dst: -1}
	if v, ok := in.(ssa.Value); ok {
		I.dst = regs[v]
		I.t = v.Type()
	}
	emit := func() { blk.code = append(blk.code, I) }
	unsupported := func(s string) {
		I.op = iUnsupported
		I.x = s + " in " + fn.name
		emit()
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return
	case *ssa.Alloc:
		I.op = iAlloc
		I.t = x.Type().(*types.Pointer).Elem()
		I.flag = isAggType(I.t)
		emit()
	case *ssa.BinOp:
		I.op = iBin
		I.a, I.b = opd(x.X), opd(x.Y)
		I.tok = x.Op
		I.k, I.w = scalarKind(x.X.Type())
		I.k2, I.w2 = scalarKind(x.Y.Type())
		if I.k == kOther {
			I.t = x.X.Type()
			if _, ok := x.X.(*ssa.Const); ok {
				I.t = x.Y.Type()
			}
			// comparison of interface with concrete
			_, ia := x.X.Type().Underlying().(*types.Interface)
			_, ib := x.Y.Type().Underlying().(*types.Interface)
			if ia != ib {
				if ia {
					I.t = x.X.Type()
					I.x = [2]types.Type{nil, x.Y.Type()}
				} else {
					I.t = x.Y.Type()
					I.x = [2]types.Type{x.X.Type(), nil}
				}
			}
		}
		emit()
	case *ssa.UnOp:
		I.a = opd(x.X)
		I.k, I.w = scalarKind(x.Type())
		switch x.Op {
		case token.NOT:
			I.op = iNot
		case token.SUB:
			I.op = iNeg
		case token.XOR:
			I.op = iCom
		case token.MUL:
			I.op = iLoad
			I.flag = isAggType(x.Type())
		case token.ARROW:
			I.op = iRecv
			I.flag = x.CommaOk
		default:
			unsupported("unop " + x.Op.String())
			return
		}
		emit()
	case *ssa.ChangeType:
		I.op = iChangeType
		I.a = opd(x.X)
		emit()
	case *ssa.ChangeInterface:
		I.op = iChangeType
		I.a = opd(x.X)
		emit()
	case *ssa.Convert:
		I.a = opd(x.X)
		I.k, I.w = scalarKind(x.X.Type())
		I.k2, I.w2 = scalarKind(x.Type())
		if (I.k == kInt || I.k == kUint) && (I.k2 == kInt || I.k2 == kUint) {
			I.op = iConvInt
		} else {
			I.op = iConv
			I.x = [2]types.Type{x.X.Type(), x.Type()}
		}
		emit()
	case *ssa.MultiConvert:
		unsupported("multiconvert")
	case *ssa.SliceToArrayPointer:
		I.op = iSliceToArr
		I.a = opd(x.X)
		I.w2 = 0
		I.x = x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		emit()
	case *ssa.MakeInterface:
		I.op = iMakeIface
		I.a = opd(x.X)
		I.x = rtypeOf(x.X.Type())
		emit()
	case *ssa.MakeClosure:
		I.op = iMakeClosure
		I.fn = p.fn(x.Fn.(*ssa.Function))
		for _, b := range x.Bindings {
			I.args = append(I.args, opd(b))
		}
		emit()
	case *ssa.MakeMap:
		I.op = iMakeMap
		I.x = rtypeOf(x.Type().Underlying().(*types.Map).Key())
		emit()
	case *ssa.MakeSlice:
		I.op = iMakeSlice
		I.a, I.b = opd(x.Len), opd(x.Cap)
		I.t = x.Type().Underlying().(*types.Slice).Elem()
		I.flag = isAggType(I.t)
		emit()
	case *ssa.Slice:
		I.op = iSlice
		I.a = opd(x.X)
		I.b, I.c, I.d = math.MinInt32, math.MinInt32, math.MinInt32
		if x.Low != nil {
			I.b = opd(x.Low)
		}
		if x.High != nil {
			I.c = opd(x.High)
		}
		if x.Max != nil {
			I.d = opd(x.Max)
		}
		switch u := x.X.Type().Underlying().(type) {
		case *types.Basic:
			I.k = kString
		case *types.Pointer:
			I.k = kInt // array pointer
			I.x = u
		case *types.Slice:
			I.k = kOther
		default:
			// type parameter core types are gone after instantiation
			unsupported(fmt.Sprintf("slice of %T", u))
			return
		}
		emit()
	case *ssa.FieldAddr:
		I.op = iFieldAddr
		I.a = opd(x.X)
		I.w2 = 0
		I.d = int32(x.Field)
		emit()
	case *ssa.Field:
		I.op = iField
		I.a = opd(x.X)
		I.d = int32(x.Field)
		emit()
	case *ssa.IndexAddr:
		I.op = iIndexAddr
		I.a, I.b = opd(x.X), opd(x.Index)
		I.w = indexWidth(x.Index.Type())
		_, isPtr := x.X.Type().Underlying().(*types.Pointer)
		I.flag = isPtr
		emit()
	case *ssa.Index:
		I.op = iIndex
		I.a, I.b = opd(x.X), opd(x.Index)
		I.w = indexWidth(x.Index.Type())
		k, _ := scalarKind(x.X.Type())
		I.flag = k == kString
		I.k, I.w2 = scalarKind(x.Type())
		emit()
	case *ssa.Lookup:
		I.op = iLookup
		I.a, I.b = opd(x.X), opd(x.Index)
		I.w = indexWidth(x.Index.Type())
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			I.flag = false
			I.x = m.Elem()
			if x.CommaOk {
				I.w2 = 1
			}
		} else {
			I.flag = true
		}
		emit()
	case *ssa.Range:
		I.op = iRange
		I.a = opd(x.X)
		k, _ := scalarKind(x.X.Type())
		I.flag = k == kString
		emit()
	case *ssa.Next:
		I.op = iNext
		I.a = opd(x.Iter)
		I.flag = x.IsString
		I.t = x.Type()
		emit()
	case *ssa.TypeAssert:
		I.op = iTypeAssert
		I.a = opd(x.X)
		I.flag = x.CommaOk
		I.t = x.AssertedType
		_, isI := x.AssertedType.Underlying().(*types.Interface)
		if isI {
			I.w = 1
		}
		I.x = rtypeOf(x.AssertedType)
		emit()
	case *ssa.Extract:
		I.op = iExtract
		I.a = opd(x.Tuple)
		I.d = int32(x.Index)
		emit()
	case *ssa.Jump:
		I.op = iJump
		emit()
	case *ssa.If:
		I.op = iIf
		I.a = opd(x.Cond)
		emit()
	case *ssa.Return:
		I.op = iReturn
		for _, r := range x.Results {
			I.args = append(I.args, opd(r))
		}
		emit()
	case *ssa.RunDefers:
		I.op = iRunDefers
		fn.hasDefer = true
		emit()
	case *ssa.Panic:
		I.op = iPanic
		I.a = opd(x.X)
		emit()
	case *ssa.Store:
		I.op = iStore
		I.a, I.b = opd(x.Addr), opd(x.Val)
		emit()
	case *ssa.MapUpdate:
		I.op = iMapUpdate
		I.a, I.b, I.c = opd(x.Map), opd(x.Key), opd(x.Value)
		emit()
	case *ssa.Call:
		p.compileCall(fn, &I, &x.Call, opd)
		emit()
	case *ssa.Defer:
		fn.hasDefer = true
		p.compileCall(fn, &I, &x.Call, opd)
		sub := I
		I = Inst{op: iDefer, x: &sub, args: sub.args, a: sub.a, pos: sub.pos, dst: -1}
		emit()
	case *ssa.Go:
		p.compileCall(fn, &I, &x.Call, opd)
		sub := I
		I = Inst{op: iGo, x: &sub, args: sub.args, a: sub.a, pos: sub.pos, dst: -1}
		emit()
	case *ssa.MakeChan:
		I.op = iMakeChan
		I.a = opd(x.Size)
		I.t = x.Type().Underlying().(*types.Chan).Elem()
		emit()
	case *ssa.Send:
		I.op = iSend
		I.a, I.b = opd(x.Chan), opd(x.X)
		emit()
	default:
		unsupported(fmt.Sprintf("%T", in))
	}
}

type invokeInfo struct {
	method *types.Func
	key    string
}

func (p *Program) compileCall(fn *Fn, I *Inst, c *ssa.CallCommon, opd func(ssa.Value) int32) {
	for _, a := range c.Args {
		I.args = append(I.args, opd(a))
	}
	if c.IsInvoke() {
		I.op = iInvoke
		I.a = opd(c.Value)
		I.x = &invokeInfo{method: c.Method, key: c.Method.Id()}
		return
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		I.op = iBuiltin
		I.x = bi
		if len(c.Args) > 0 {
			I.t = c.Args[0].Type()
		}
		if c.Signature().Results().Len() == 1 {
			I.k2, I.w2 = scalarKind(c.Signature().Results().At(0).Type())
		}
		return
	}
	I.op = iCall
	if sc := c.StaticCallee(); sc != nil {
		I.fn = p.fn(sc)
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			I.a = opd(mc)
			I.fn = nil // needs its bindings
		}
		return
	}
	I.a = opd(c.Value)
}

// indexWidth: the width from which a concrete index is sign-extended (64: it is not).
func indexWidth(t types.Type) uint8 {
	k, w := scalarKind(t)
	if k == kUint {
		return 64
	}
	return w
}
