package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type instr func(fr *Frame)

// Fn is a compiled function.
type Fn struct {
	f        *ssa.Function
	name     string
	nregs    int
	blocks   []*Block
	intr     func(m *Machine, args []Val, caller *Frame) Val
	compiled bool
	hasDefer bool
	recover  *Block
	target   bool
	nparams  int
	isInit   bool
	pure     int8 // 0 unknown, 1 yes, 2 no, 3 being computed
	self     Val
}

type termKind uint8

const (
	tJump termKind = iota
	tIf
	tRet
	tPanic
	tNone
)

// Block is a compiled basic block.
type Block struct {
	idx    int
	phis   []phi
	ins    []instr
	term   termKind
	cond   opnd
	succs  [2]*Block
	slot   [2]int // index of this edge among the successor's predecessors
	rets   []opnd
	retTI  []*TI
	npreds int
	ssa    *ssa.BasicBlock
	region *Region
	regOK  int8
}

type phi struct {
	dst int
	src []opnd
	ti  *TI
}

type opnd struct {
	k uint8 // 0 register, 1 constant, 2 global address, 3 free variable
	i int
	v Val
}

// Frame is an activation.
type Frame struct {
	m         *Machine
	fn        *Fn
	r         []Val
	env       []Val
	caller    *Frame
	defers    []deferred
	panicking *targetPanic
	recovered bool
	ret       Val
}

type deferred struct {
	fn   Val
	call func()
	run  func(fr *Frame)
}

func (fr *Frame) get(o *opnd) Val {
	switch o.k {
	case 0:
		return fr.r[o.i]
	case 1:
		return o.v
	case 2:
		return Val{p: fr.m.global(o.i)}
	}
	return fr.env[o.i]
}

func (m *Machine) fn(f *ssa.Function) *Fn {
	if x := m.fns[f]; x != nil {
		return x
	}
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	x := &Fn{f: f, name: name, nparams: len(f.Params)}
	x.isInit = f.Synthetic == "package initializer"
	x.self = Val{p: &Closure{fn: x}}
	if f.Pkg != nil {
		x.target = m.P.Target[f.Pkg]
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		x.target = m.P.Target[o.Pkg]
	}
	x.intr = intrinsics[name]
	if x.intr == nil && strings.HasPrefix(name, "slices.") {
		x.intr = slicesIntrinsic(f)
	}
	m.fns[f] = x
	return x
}

type compiler struct {
	m    *Machine
	fn   *Fn
	regs map[ssa.Value]int
	free map[*ssa.FreeVar]int
}

func (m *Machine) compile(x *Fn) {
	x.compiled = true
	f := x.f
	if f.Blocks == nil {
		return
	}
	c := &compiler{m: m, fn: x, regs: map[ssa.Value]int{}, free: map[*ssa.FreeVar]int{}}
	for _, p := range f.Params {
		c.regs[p] = x.nregs
		x.nregs++
	}
	for i, v := range f.FreeVars {
		c.free[v] = i
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regs[v] = x.nregs
				x.nregs++
			}
		}
	}
	blocks := make([]*Block, len(f.Blocks))
	for i, b := range f.Blocks {
		blocks[i] = &Block{idx: i, ssa: b, npreds: len(b.Preds)}
	}
	for i, b := range f.Blocks {
		nb := blocks[i]
		for k, s := range b.Succs {
			nb.succs[k] = blocks[s.Index]
			slot, dup := -1, 0
			if k == 1 && b.Succs[0] == s {
				dup = 1
			}
			for j, p := range s.Preds {
				if p == b {
					if dup == 0 {
						slot = j
						break
					}
					dup--
				}
			}
			nb.slot[k] = slot
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				p := phi{dst: c.regs[in], ti: m.ts.get(in.Type())}
				for _, e := range in.Edges {
					p.src = append(p.src, c.op(e))
				}
				nb.phis = append(nb.phis, p)
			case *ssa.Jump:
				nb.term = tJump
			case *ssa.If:
				nb.term = tIf
				nb.cond = c.op(in.Cond)
			case *ssa.Return:
				nb.term = tRet
				for _, r := range in.Results {
					nb.rets = append(nb.rets, c.op(r))
					nb.retTI = append(nb.retTI, m.ts.get(r.Type()))
				}
			case *ssa.Panic:
				nb.term = tPanic
				nb.cond = c.op(in.X)
			case *ssa.DebugRef:
			default:
				if _, ok := in.(*ssa.Defer); ok {
					x.hasDefer = true
				}
				nb.ins = append(nb.ins, c.instr(in))
			}
		}
	}
	x.blocks = blocks
	if f.Recover != nil {
		x.recover = blocks[f.Recover.Index]
	}
	for _, b := range blocks {
		if b.term == tIf {
			b.region = m.findRegion(x, b)
		}
	}
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{k: 1, v: c.m.constVal(v)}
	case *ssa.Global:
		return opnd{k: 2, i: c.m.globalID(v)}
	case *ssa.Function:
		return opnd{k: 1, v: c.m.fn(v).self}
	case *ssa.FreeVar:
		return opnd{k: 3, i: c.free[v]}
	case *ssa.Builtin:
		return opnd{k: 1}
	}
	i, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v", v))
	}
	return opnd{i: i}
}

func (m *Machine) constVal(c *ssa.Const) Val {
	ti := m.ts.get(c.Type())
	if c.Value == nil {
		return ti.zero()
	}
	switch ti.k {
	case kBool:
		return boolVal(constant.BoolVal(c.Value))
	case kInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Val{n: canon(uint64(i), ti.w, ti.signed)}
		}
		u, _ := constant.Uint64Val(v)
		return Val{n: canon(u, ti.w, ti.signed)}
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		return floatVal(f, ti)
	case kString:
		if c.Value.Kind() == constant.String {
			return Val{p: constant.StringVal(c.Value)}
		}
		i, _ := constant.Int64Val(c.Value)
		return Val{p: string(rune(i))}
	case kPtr, kComplex, kIface, kOther:
		return Val{}
	}
	return Val{}
}

// derefCell checks a pointer.
func (fr *Frame) cell(v Val) *Val {
	c, ok := v.p.(*Val)
	if !ok {
		if s, ok := v.p.(*SlcPtr); ok && len(s.a) > 0 {
			return &s.a[0]
		}
		if v.p == nil {
			fr.m.panicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		unsupported("dereference of %T", v.p)
	}
	return c
}

func (c *compiler) instr(in ssa.Instruction) instr {
	m := c.m
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.regs[v]
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		ti := m.ts.get(in.Type().Underlying().(*types.Pointer).Elem())
		return func(fr *Frame) {
			cell := new(Val)
			*cell = ti.zero()
			fr.r[dst] = Val{p: cell}
		}
	case *ssa.BinOp:
		return c.binop(in, dst)
	case *ssa.UnOp:
		return c.unop(in, dst)
	case *ssa.ChangeType, *ssa.ChangeInterface:
		x := c.op(*in.Operands(nil)[0])
		return func(fr *Frame) { fr.r[dst] = fr.get(&x) }
	case *ssa.Convert:
		x := c.op(in.X)
		from, to := m.ts.get(in.X.Type()), m.ts.get(in.Type())
		if from.k == kInt && to.k == kInt {
			w, fw, s := to.w, from.w, to.signed
			fs := from.signed
			return func(fr *Frame) {
				v := fr.get(&x)
				if v.p == nil {
					fr.r[dst] = Val{n: canon(v.n, w, s)}
					return
				}
				e := v.p.(*Expr)
				T := fr.m.T
				switch {
				case w == fw:
				case w < fw:
					e = T.Trunc(e, w)
				case fs:
					e = T.SExt(e, w)
				default:
					e = T.ZExt(e, w)
				}
				fr.r[dst] = fr.m.fromExpr(e, s)
			}
		}
		return func(fr *Frame) { fr.r[dst] = fr.m.convert(fr.get(&x), from, to) }
	case *ssa.MultiConvert:
		x := c.op(in.X)
		from, to := m.ts.get(in.X.Type()), m.ts.get(in.Type())
		return func(fr *Frame) { fr.r[dst] = fr.m.convert(fr.get(&x), from, to) }
	case *ssa.MakeInterface:
		x := c.op(in.X)
		ti := m.ts.get(in.X.Type())
		return func(fr *Frame) { fr.r[dst] = Val{p: &Iface{ti, fr.get(&x)}} }
	case *ssa.MakeClosure:
		f := m.fn(in.Fn.(*ssa.Function))
		var b []opnd
		for _, x := range in.Bindings {
			b = append(b, c.op(x))
		}
		return func(fr *Frame) {
			env := make([]Val, len(b))
			for i := range b {
				env[i] = fr.get(&b[i])
			}
			fr.r[dst] = Val{p: &Closure{fn: f, env: env}}
		}
	case *ssa.MakeMap:
		return func(fr *Frame) { fr.r[dst] = Val{p: newMap()} }
	case *ssa.MakeSlice:
		ln, cp := c.op(in.Len), c.op(in.Cap)
		elem := m.ts.get(in.Type()).elem
		return func(fr *Frame) {
			n := int(int64(fr.m.concreteInt(fr.get(&ln), 64)))
			k := int(int64(fr.m.concreteInt(fr.get(&cp), 64)))
			if n < 0 || k < n || k > 1<<24 {
				fr.m.panicStr("runtime error: makeslice: len out of range")
			}
			fr.r[dst] = Val{p: &Slc{makeVals(elem, n, k)}}
		}
	case *ssa.Slice:
		return c.slice(in, dst)
	case *ssa.FieldAddr:
		x := c.op(in.X)
		f := in.Field
		return func(fr *Frame) {
			a, ok := fr.cell(fr.get(&x)).p.(*Agg)
			if !ok {
				unsupported("field of a non-struct")
			}
			fr.r[dst] = Val{p: &a.f[f]}
		}
	case *ssa.Field:
		x := c.op(in.X)
		f := in.Field
		return func(fr *Frame) { fr.r[dst] = fr.get(&x).p.(*Agg).f[f] }
	case *ssa.IndexAddr:
		return c.indexAddr(in, dst)
	case *ssa.Index:
		x, ix := c.op(in.X), c.op(in.Index)
		xt := m.ts.get(in.X.Type())
		it := m.ts.get(in.Index.Type())
		rt := m.ts.get(in.Type())
		return func(fr *Frame) {
			v, i := fr.get(&x), fr.get(&ix)
			if xt.k == kString {
				n := strLen(v)
				if i.p == nil {
					k := int(int64(i.n))
					fr.m.boundsCheck(k, n)
					fr.r[dst] = strAt(v, k)
					return
				}
				fr.r[dst] = fr.m.symLoad(strBytes(v), i, it, rt)
				return
			}
			a := v.p.(*Agg)
			if i.p == nil {
				k := int(int64(i.n))
				fr.m.boundsCheck(k, len(a.f))
				fr.r[dst] = a.f[k]
				return
			}
			fr.r[dst] = fr.m.symLoad(a.f, i, it, rt)
		}
	case *ssa.Lookup:
		x, ix := c.op(in.X), c.op(in.Index)
		mt := m.ts.get(in.X.Type())
		commaOK := in.CommaOk
		if mt.k == kString {
			it := m.ts.get(in.Index.Type())
			return func(fr *Frame) {
				v, i := fr.get(&x), fr.get(&ix)
				if i.p == nil {
					k := int(int64(i.n))
					fr.m.boundsCheck(k, strLen(v))
					fr.r[dst] = strAt(v, k)
					return
				}
				fr.r[dst] = fr.m.symLoad(strBytes(v), i, it, fr.m.byteTI)
			}
		}
		return func(fr *Frame) {
			mv, _ := fr.get(&x).p.(*MapV)
			v, ok := fr.m.mapLookup(mv, fr.get(&ix), mt)
			if commaOK {
				fr.r[dst] = Val{p: []Val{v, ok}}
			} else {
				fr.r[dst] = v
			}
		}
	case *ssa.MapUpdate:
		x, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		mt := m.ts.get(in.Map.Type())
		return func(fr *Frame) {
			mv, _ := fr.get(&x).p.(*MapV)
			fr.m.mapSet(mv, fr.get(&k), fr.get(&v), mt)
		}
	case *ssa.Range:
		x := c.op(in.X)
		xt := m.ts.get(in.X.Type())
		return func(fr *Frame) {
			v := fr.get(&x)
			it := &rangeIter{str: xt.k == kString, s: v}
			if !it.str {
				it.m, _ = v.p.(*MapV)
			}
			fr.r[dst] = Val{p: it}
		}
	case *ssa.Next:
		x := c.op(in.Iter)
		tup := m.ts.get(in.Type())
		return func(fr *Frame) { fr.r[dst] = fr.m.next(fr.get(&x).p.(*rangeIter), tup) }
	case *ssa.TypeAssert:
		return c.typeAssert(in, dst)
	case *ssa.Extract:
		x := c.op(in.Tuple)
		i := in.Index
		return func(fr *Frame) { fr.r[dst] = fr.get(&x).p.([]Val)[i] }
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		if m.ts.get(in.Val.Type()).agg {
			return func(fr *Frame) {
				cell := fr.cell(fr.get(&a))
				if fr.m.shared != nil {
					fr.m.wrote(cell)
				}
				storeTo(cell, fr.get(&v))
			}
		}
		return func(fr *Frame) {
			p := fr.get(&a)
			cell, ok := p.p.(*Val)
			if !ok {
				cell = fr.cell(p)
			}
			if fr.m.shared != nil {
				fr.m.wrote(cell)
			}
			*cell = fr.get(&v)
		}
	case *ssa.Call:
		return c.call(&in.Call, dst, m.ts.get(in.Type()))
	case *ssa.Defer:
		args, prep := c.callPrep(&in.Call)
		return func(fr *Frame) {
			vals := make([]Val, len(args))
			for i := range args {
				vals[i] = fr.get(&args[i])
			}
			do := prep(fr, vals)
			fr.defers = append(fr.defers, deferred{run: func(f *Frame) { do(f, vals) }})
		}
	case *ssa.RunDefers:
		return func(fr *Frame) {
			fr.runDefers()
			if fr.panicking != nil {
				panic(fr.panicking)
			}
		}
	case *ssa.SliceToArrayPointer:
		x := c.op(in.X)
		n := m.ts.get(in.Type().Underlying().(*types.Pointer).Elem()).n
		return func(fr *Frame) {
			s, _ := fr.get(&x).p.(*Slc)
			if s == nil {
				if n == 0 {
					fr.r[dst] = Val{}
					return
				}
				fr.m.panicStr("runtime error: cannot convert slice to array pointer")
			}
			if len(s.a) < n {
				fr.m.panicStr("runtime error: cannot convert slice to array pointer")
			}
			fr.r[dst] = Val{p: &Val{p: &Agg{s.a[:n:n]}}}
		}
	}
	msg := fmt.Sprintf("instruction %T (%v) in %s", in, in, c.fn.name)
	return func(fr *Frame) { unsupported("%s", msg) }
}

func makeVals(elem *TI, n, k int) []Val {
	a := make([]Val, k)
	if elem.k == kString || elem.agg {
		for i := range a {
			a[i] = elem.zero()
		}
	}
	return a[:n]
}

func (m *Machine) concreteInt(v Val, w uint8) uint64 {
	if v.p == nil {
		return v.n
	}
	e := v.p.(*Expr)
	x := m.concretize(e)
	return uint64(sext(x, e.w))
}

func (m *Machine) boundsCheck(k, n int) {
	if k < 0 || k >= n {
		m.panicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", k, n))
	}
}

// idx64 widens an index.
func (m *Machine) idx64(i Val, it *TI) *Expr {
	e := m.expr(i, it)
	if it.signed {
		return m.T.SExt(e, 64)
	}
	return m.T.ZExt(e, 64)
}

// symLoad reads a[i] for a symbolic index: an if-then-else term over scalar
// elements, a fork otherwise.
func (m *Machine) symLoad(a []Val, i Val, it *TI, elem *TI) Val {
	ix := m.idx64(i, it)
	in := m.T.ULt(ix, m.T.Const(64, uint64(len(a))))
	if !m.branch(in) {
		m.panicStr(fmt.Sprintf("runtime error: index out of range [symbolic] with length %d", len(a)))
	}
	if elem.isScalar() && len(a) <= 1024 && len(a) > 0 {
		return m.fromExpr(m.tableTerm(a, ix, elem), elem.signed)
	}
	k := m.concretize(ix)
	return a[k]
}

// tableTerm groups equal constants into ranges.
func (m *Machine) tableTerm(a []Val, ix *Expr, elem *TI) *Expr {
	T := m.T
	lo, hi := int(ix.lo), len(a)-1
	if ix.hi < uint64(hi) {
		hi = int(ix.hi)
	}
	if lo > hi {
		lo = hi
	}
	// runs of equal values
	type run struct {
		lo, hi int
		v      *Expr
	}
	var runs []run
	for k := lo; k <= hi; k++ {
		v := m.expr(a[k], elem)
		if n := len(runs); n > 0 && runs[n-1].v == v {
			runs[n-1].hi = k
		} else {
			runs = append(runs, run{k, k, v})
		}
	}
	// most frequent value is the default
	cnt := map[*Expr]int{}
	for _, r := range runs {
		cnt[r.v]++
	}
	def := runs[0].v
	var order []*Expr
	seen := map[*Expr]bool{}
	for _, r := range runs {
		if cnt[r.v] > cnt[def] {
			def = r.v
		}
		if !seen[r.v] {
			seen[r.v] = true
			order = append(order, r.v)
		}
	}
	res := def
	for j := len(order) - 1; j >= 0; j-- {
		v := order[j]
		if v == def {
			continue
		}
		c := T.False
		for k := len(runs) - 1; k >= 0; k-- {
			if r := runs[k]; r.v == v {
				c = T.Or(m.inRange(ix, uint64(r.lo), uint64(r.hi)), c)
			}
		}
		res = T.Ite(c, v, res)
	}
	return res
}

func (m *Machine) inRange(e *Expr, lo, hi uint64) *Expr {
	T := m.T
	if lo == hi {
		return T.Eq(e, T.Const(e.w, lo))
	}
	c := T.True
	if lo > 0 {
		c = T.Not(T.ULt(e, T.Const(e.w, lo)))
	}
	if hi < mask(e.w) {
		c = T.And(c, T.ULt(e, T.Const(e.w, hi+1)))
	}
	return c
}

func (c *compiler) indexAddr(in *ssa.IndexAddr, dst int) instr {
	m := c.m
	x, ix := c.op(in.X), c.op(in.Index)
	xt := m.ts.get(in.X.Type())
	it := m.ts.get(in.Index.Type())
	elem := m.ts.get(in.Type().Underlying().(*types.Pointer).Elem())
	// A symbolic index whose address is only loaded from becomes a term.
	loadOnly := elem.isScalar()
	for _, r := range *in.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				loadOnly = false
			}
		case *ssa.DebugRef:
		default:
			loadOnly = false
		}
	}
	return func(fr *Frame) {
		v, i := fr.get(&x), fr.get(&ix)
		var a []Val
		if xt.k == kSlice {
			if s, ok := v.p.(*Slc); ok {
				a = s.a
			}
		} else {
			g, ok := fr.cell(v).p.(*Agg)
			if !ok {
				unsupported("index of a non-array")
			}
			a = g.f
		}
		if i.p == nil {
			k := int(int64(i.n))
			if uint(k) >= uint(len(a)) {
				fr.m.panicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", k, len(a)))
			}
			fr.r[dst] = Val{p: &a[k]}
			return
		}
		if loadOnly {
			cell := new(Val)
			*cell = fr.m.symLoad(a, i, it, elem)
			fr.r[dst] = Val{p: cell}
			return
		}
		e := fr.m.idx64(i, it)
		if !fr.m.branch(fr.m.T.ULt(e, fr.m.T.Const(64, uint64(len(a))))) {
			fr.m.panicStr("runtime error: index out of range [symbolic]")
		}
		fr.r[dst] = Val{p: &a[fr.m.concretize(e)]}
	}
}

func (c *compiler) slice(in *ssa.Slice, dst int) instr {
	x := c.op(in.X)
	xt := c.m.ts.get(in.X.Type())
	opt := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		o := c.op(v)
		return &o
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	return func(fr *Frame) {
		m := fr.m
		v := fr.get(&x)
		num := func(o *opnd, def int) int {
			if o == nil {
				return def
			}
			return int(int64(m.concreteInt(fr.get(o), 64)))
		}
		if xt.k == kString {
			n := strLen(v)
			h := num(hi, n)
			l := num(lo, 0)
			if l < 0 || h < l || h > n {
				m.panicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			fr.r[dst] = strSlice(v, l, h)
			return
		}
		var a []Val
		switch {
		case xt.k == kSlice:
			if s, ok := v.p.(*Slc); ok {
				a = s.a
			}
		default: // pointer to array
			a = fr.cell(v).p.(*Agg).f
		}
		h := num(hi, len(a))
		l := num(lo, 0)
		k := num(mx, cap(a))
		if l < 0 || h < l || k < h || k > cap(a) {
			m.panicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", l, h, k, cap(a)))
		}
		if a == nil && v.p == nil {
			fr.r[dst] = Val{}
			return
		}
		fr.r[dst] = Val{p: &Slc{a[l:h:k]}}
	}
}

func (m *Machine) implements(t *TI, iface *TI) bool {
	if b, ok := t.impl[iface]; ok {
		return b
	}
	if t.impl == nil {
		t.impl = map[*TI]bool{}
	}
	b := types.Implements(t.T, iface.u.(*types.Interface))
	t.impl[iface] = b
	return b
}

func (c *compiler) typeAssert(in *ssa.TypeAssert, dst int) instr {
	x := c.op(in.X)
	to := c.m.ts.get(in.AssertedType)
	isI := to.k == kIface
	commaOK := in.CommaOk
	zero := to.zero()
	return func(fr *Frame) {
		v := fr.get(&x)
		i, _ := v.p.(*Iface)
		ok := false
		r := zero
		if i != nil {
			if isI {
				if ok = fr.m.implements(i.t, to); ok {
					r = v
				}
			} else if i.t == to {
				ok = true
				r = i.v
			}
		}
		if commaOK {
			fr.r[dst] = Val{p: []Val{r, boolVal(ok)}}
			return
		}
		if !ok {
			have := "nil"
			if i != nil {
				have = i.t.String()
			}
			fr.m.panicStr("interface conversion: interface is " + have + ", not " + to.String())
		}
		fr.r[dst] = r
	}
}

func (c *compiler) unop(in *ssa.UnOp, dst int) instr {
	x := c.op(in.X)
	ti := c.m.ts.get(in.X.Type())
	switch in.Op {
	case token.MUL:
		if c.m.ts.get(in.Type()).agg {
			return func(fr *Frame) {
				cell := fr.cell(fr.get(&x))
				if fr.m.shared != nil && len(fr.m.shared.locked) > 0 {
					fr.m.read(cell)
				}
				fr.r[dst] = copyVal(*cell)
			}
		}
		return func(fr *Frame) {
			p := fr.get(&x)
			cell, ok := p.p.(*Val)
			if !ok {
				cell = fr.cell(p)
			}
			if fr.m.shared != nil && len(fr.m.shared.locked) > 0 {
				fr.m.read(cell)
			}
			fr.r[dst] = *cell
		}
	case token.NOT:
		return func(fr *Frame) {
			v := fr.get(&x)
			if v.p == nil {
				fr.r[dst] = Val{n: v.n ^ 1}
			} else {
				fr.r[dst] = fr.m.fromExpr(fr.m.T.Not(v.p.(*Expr)), false)
			}
		}
	case token.SUB:
		return func(fr *Frame) {
			v := fr.get(&x)
			if ti.k == kFloat {
				fr.r[dst] = floatVal(-toFloat(v, ti), ti)
			} else if v.p == nil {
				fr.r[dst] = Val{n: canon(-v.n, ti.w, ti.signed)}
			} else {
				T := fr.m.T
				fr.r[dst] = fr.m.fromExpr(T.Bin(OpSub, T.Const(ti.w, 0), v.p.(*Expr)), ti.signed)
			}
		}
	case token.XOR:
		return func(fr *Frame) {
			v := fr.get(&x)
			if v.p == nil {
				fr.r[dst] = Val{n: canon(^v.n, ti.w, ti.signed)}
			} else {
				T := fr.m.T
				fr.r[dst] = fr.m.fromExpr(T.Bin(OpXor, v.p.(*Expr), T.Const(ti.w, ^uint64(0))), ti.signed)
			}
		}
	}
	msg := in.String()
	return func(fr *Frame) { unsupported("operation %s", msg) }
}

func (c *compiler) binop(in *ssa.BinOp, dst int) instr {
	m := c.m
	x, y := c.op(in.X), c.op(in.Y)
	ti := m.ts.get(in.X.Type())
	yt := m.ts.get(in.Y.Type())
	op := in.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		xi, yi := ti.k == kIface, yt.k == kIface
		if ti.isScalar() {
			return func(fr *Frame) {
				a, b := fr.get(&x), fr.get(&y)
				if a.p == nil && b.p == nil {
					fr.r[dst] = boolVal((a.n == b.n) != neg)
					return
				}
				e := fr.m.T.Eq(fr.m.expr(a, ti), fr.m.expr(b, ti))
				if neg {
					e = fr.m.T.Not(e)
				}
				fr.r[dst] = fr.m.fromExpr(e, false)
			}
		}
		return func(fr *Frame) {
			a, b := fr.get(&x), fr.get(&y)
			t := ti
			if xi != yi { // interface and concrete value
				if xi {
					b = Val{p: &Iface{yt, b}}
				} else {
					a = Val{p: &Iface{ti, a}}
					t = yt
				}
			}
			e := fr.m.eq(a, b, t)
			if neg {
				e = fr.m.T.Not(e)
			}
			fr.r[dst] = fr.m.fromExpr(e, false)
		}
	}
	if ti.k == kString {
		return func(fr *Frame) {
			a, b := fr.get(&x), fr.get(&y)
			m := fr.m
			switch op {
			case token.ADD:
				fr.r[dst] = strConcat(a, b)
			case token.LSS:
				fr.r[dst] = m.fromExpr(m.strLt(a, b), false)
			case token.GTR:
				fr.r[dst] = m.fromExpr(m.strLt(b, a), false)
			case token.LEQ:
				fr.r[dst] = m.fromExpr(m.T.Not(m.strLt(b, a)), false)
			case token.GEQ:
				fr.r[dst] = m.fromExpr(m.T.Not(m.strLt(a, b)), false)
			}
		}
	}
	if ti.k == kFloat {
		return func(fr *Frame) {
			a, b := toFloat(fr.get(&x), ti), toFloat(fr.get(&y), ti)
			switch op {
			case token.ADD:
				fr.r[dst] = floatVal(a+b, ti)
			case token.SUB:
				fr.r[dst] = floatVal(a-b, ti)
			case token.MUL:
				fr.r[dst] = floatVal(a*b, ti)
			case token.QUO:
				fr.r[dst] = floatVal(a/b, ti)
			case token.LSS:
				fr.r[dst] = boolVal(a < b)
			case token.LEQ:
				fr.r[dst] = boolVal(a <= b)
			case token.GTR:
				fr.r[dst] = boolVal(a > b)
			case token.GEQ:
				fr.r[dst] = boolVal(a >= b)
			}
		}
	}
	if !ti.isScalar() {
		msg := in.String()
		return func(fr *Frame) { unsupported("operation %s", msg) }
	}
	w, s := ti.w, ti.signed
	return func(fr *Frame) {
		a, b := fr.get(&x), fr.get(&y)
		if a.p == nil && b.p == nil {
			fr.r[dst] = fr.m.concreteBin(op, a.n, b.n, w, s, yt)
			return
		}
		fr.r[dst] = fr.m.symBin(op, a, b, ti, yt)
	}
}

func (m *Machine) concreteBin(op token.Token, a, b uint64, w uint8, s bool, yt *TI) Val {
	switch op {
	case token.ADD:
		return Val{n: canon(a+b, w, s)}
	case token.SUB:
		return Val{n: canon(a-b, w, s)}
	case token.MUL:
		return Val{n: canon(a*b, w, s)}
	case token.QUO, token.REM:
		if b == 0 {
			m.panicStr("runtime error: integer divide by zero")
		}
		if s {
			x, y := int64(a), int64(b)
			if y == -1 {
				if op == token.QUO {
					return Val{n: canon(uint64(-x), w, s)}
				}
				return Val{}
			}
			if op == token.QUO {
				return Val{n: canon(uint64(x/y), w, s)}
			}
			return Val{n: canon(uint64(x%y), w, s)}
		}
		if op == token.QUO {
			return Val{n: a / b}
		}
		return Val{n: a % b}
	case token.AND:
		return Val{n: a & b}
	case token.OR:
		return Val{n: a | b}
	case token.XOR:
		return Val{n: canon(a^b, w, s)}
	case token.AND_NOT:
		return Val{n: canon(a&^b, w, s)}
	case token.SHL:
		if yt.signed && int64(b) < 0 {
			m.panicStr("runtime error: negative shift amount")
		}
		return Val{n: canon(a<<b, w, s)}
	case token.SHR:
		if yt.signed && int64(b) < 0 {
			m.panicStr("runtime error: negative shift amount")
		}
		if s {
			return Val{n: uint64(int64(a) >> b)}
		}
		return Val{n: a >> b}
	case token.LSS:
		if s {
			return boolVal(int64(a) < int64(b))
		}
		return boolVal(a < b)
	case token.LEQ:
		if s {
			return boolVal(int64(a) <= int64(b))
		}
		return boolVal(a <= b)
	case token.GTR:
		if s {
			return boolVal(int64(a) > int64(b))
		}
		return boolVal(a > b)
	case token.GEQ:
		if s {
			return boolVal(int64(a) >= int64(b))
		}
		return boolVal(a >= b)
	}
	unsupported("operator %v", op)
	return Val{}
}

func (m *Machine) symBin(op token.Token, a, b Val, ti, yt *TI) Val {
	T := m.T
	x := m.expr(a, ti)
	if ti.k == kBool {
		y := m.expr(b, ti)
		switch op {
		case token.AND:
			return m.fromExpr(T.And(x, y), false)
		case token.OR:
			return m.fromExpr(T.Or(x, y), false)
		}
		unsupported("boolean operator %v", op)
	}
	lt := func(p, q *Expr) *Expr {
		if ti.signed {
			return T.SLt(p, q)
		}
		return T.ULt(p, q)
	}
	switch op {
	case token.SHL, token.SHR:
		y := m.expr(b, yt)
		if yt.signed && y.hi >= 1<<(yt.w-1) {
			if m.branch(T.SLt(y, T.Const(yt.w, 0))) {
				m.panicStr("runtime error: negative shift amount")
			}
		}
		var sat *Expr
		if yt.w > ti.w {
			big := T.Not(T.ULt(y, T.Const(yt.w, uint64(ti.w))))
			sat = T.Ite(big, T.Const(ti.w, uint64(ti.w)), T.Trunc(y, ti.w))
		} else {
			sat = T.ZExt(y, ti.w)
		}
		o := OpShl
		if op == token.SHR {
			o = OpLShr
			if ti.signed {
				o = OpAShr
			}
		}
		return m.fromExpr(T.Bin(o, x, sat), ti.signed)
	}
	y := m.expr(b, ti)
	switch op {
	case token.ADD:
		return m.fromExpr(T.Bin(OpAdd, x, y), ti.signed)
	case token.SUB:
		return m.fromExpr(T.Bin(OpSub, x, y), ti.signed)
	case token.MUL:
		return m.fromExpr(T.Bin(OpMul, x, y), ti.signed)
	case token.AND:
		return m.fromExpr(T.Bin(OpAnd, x, y), ti.signed)
	case token.OR:
		return m.fromExpr(T.Bin(OpOr, x, y), ti.signed)
	case token.XOR:
		return m.fromExpr(T.Bin(OpXor, x, y), ti.signed)
	case token.AND_NOT:
		return m.fromExpr(T.Bin(OpAnd, x, T.Bin(OpXor, y, T.Const(ti.w, ^uint64(0)))), ti.signed)
	case token.QUO, token.REM:
		if m.branch(T.Eq(y, T.Const(ti.w, 0))) {
			m.panicStr("runtime error: integer divide by zero")
		}
		o := OpUDiv
		switch {
		case op == token.QUO && ti.signed:
			o = OpSDiv
		case op == token.REM && ti.signed:
			o = OpSRem
		case op == token.REM:
			o = OpURem
		}
		return m.fromExpr(T.Bin(o, x, y), ti.signed)
	case token.LSS:
		return m.fromExpr(lt(x, y), false)
	case token.GTR:
		return m.fromExpr(lt(y, x), false)
	case token.LEQ:
		return m.fromExpr(T.Not(lt(y, x)), false)
	case token.GEQ:
		return m.fromExpr(T.Not(lt(x, y)), false)
	}
	unsupported("operator %v", op)
	return Val{}
}

// convert handles all conversions except integer to integer.
func (m *Machine) convert(v Val, from, to *TI) Val {
	switch {
	case from.k == kInt && to.k == kInt:
		e := m.expr(v, from)
		switch {
		case to.w < from.w:
			e = m.T.Trunc(e, to.w)
		case to.w > from.w && from.signed:
			e = m.T.SExt(e, to.w)
		default:
			e = m.T.ZExt(e, to.w)
		}
		return m.fromExpr(e, to.signed)
	case from.k == kInt && to.k == kString:
		return m.runeToStr(v, from)
	case from.k == kString && to.k == kString, from.k == kBool, from.k == kPtr && to.k == kPtr,
		from.k == kFunc, from.k == kMap, from.k == kIface, from.k == kStruct, from.k == kArray:
		return v
	case from.k == kSlice && to.k == kSlice:
		return v
	case from.k == kString && to.k == kSlice:
		if to.elem.w == 8 {
			b := strBytes(v)
			a := make([]Val, len(b), roundCap(len(b), 1))
			copy(a, b)
			return Val{p: &Slc{a}}
		}
		var a []Val
		for i := 0; i < strLen(v); {
			r, n := m.decodeRune(v, i)
			a = append(a, r)
			i += n
		}
		return Val{p: &Slc{a[:len(a):len(a)]}}
	case from.k == kSlice && to.k == kString:
		s, _ := v.p.(*Slc)
		if s == nil {
			return Val{p: ""}
		}
		if from.elem.w == 8 {
			return mkStr(append([]Val(nil), s.a...))
		}
		r := Val{p: ""}
		for _, x := range s.a {
			r = strConcat(r, m.runeToStr(x, from.elem))
		}
		return r
	case from.k == kInt && to.k == kFloat:
		if v.p != nil {
			unsupported("symbolic integer to float")
		}
		if from.signed {
			return floatVal(float64(int64(v.n)), to)
		}
		return floatVal(float64(v.n), to)
	case from.k == kFloat && to.k == kInt:
		f := toFloat(v, from)
		if to.signed {
			return Val{n: canon(uint64(int64(f)), to.w, true)}
		}
		return Val{n: canon(uint64(f), to.w, false)}
	case from.k == kFloat && to.k == kFloat:
		return floatVal(math.Float64frombits(v.n), to)
	case from.k == kSlice && to.k == kArray:
		s, _ := v.p.(*Slc)
		if s == nil || len(s.a) < to.n {
			if to.n == 0 {
				return to.zero()
			}
			m.panicStr("runtime error: cannot convert slice to array")
		}
		return Val{p: copyAgg(&Agg{s.a[:to.n]})}
	}
	unsupported("conversion of %v to %v", from, to)
	return Val{}
}

// runeToStr encodes an integer as UTF-8.
func (m *Machine) runeToStr(v Val, ti *TI) Val {
	if v.p == nil {
		r := int64(v.n)
		if r < 0 || r > 0x10ffff {
			r = 0xfffd
		}
		return Val{p: string(rune(r))}
	}
	T := m.T
	e := v.p.(*Expr)
	if ti.signed {
		e = T.SExt(e, 64)
	} else {
		e = T.ZExt(e, 64)
	}
	if e.w < 64 {
		e = T.ZExt(e, 64)
	}
	c := func(n uint64) *Expr { return T.Const(64, n) }
	if m.branch(T.ULt(e, c(0x80))) {
		return mkStr([]Val{m.fromExpr(T.Trunc(e, 8), false)})
	}
	bad := T.Or(T.Not(T.ULt(e, c(0x110000))), m.inRange(e, 0xd800, 0xdfff))
	if m.branch(bad) {
		return Val{p: "\uFFFD"}
	}
	part := func(sh uint64, msk, or uint64) Val {
		x := T.Bin(OpAnd, T.Bin(OpLShr, e, c(sh)), c(msk))
		return m.fromExpr(T.Trunc(T.Bin(OpOr, x, c(or)), 8), false)
	}
	if m.branch(T.ULt(e, c(0x800))) {
		return mkStr([]Val{part(6, 0x1f, 0xc0), part(0, 0x3f, 0x80)})
	}
	if m.branch(T.ULt(e, c(0x10000))) {
		return mkStr([]Val{part(12, 0x0f, 0xe0), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)})
	}
	return mkStr([]Val{part(18, 0x07, 0xf0), part(12, 0x3f, 0x80), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)})
}

// decodeRune decodes at a byte offset of a string, forking on the encoding.
func (m *Machine) decodeRune(v Val, i int) (Val, int) {
	if s, ok := v.p.(string); ok {
		r, w := utf8.DecodeRuneInString(s[i:])
		return Val{n: uint64(int64(r))}, w
	}
	b := strAt(v, i)
	if b.p == nil && b.n < 0x80 {
		return b, 1
	}
	e := m.byteExpr(b)
	if m.branch(m.T.ULt(e, m.T.Const(8, 0x80))) {
		return m.fromExpr(m.T.ZExt(e, 32), true), 1
	}
	f := m.stdFunc("unicode/utf8", "DecodeRuneInString")
	end := min(strLen(v), i+4)
	t := m.call(f, []Val{strSlice(v, i, end)}, nil, nil).p.([]Val)
	n := m.concreteInt(t[1], 64)
	return t[0], int(n)
}

func (m *Machine) stdFunc(pkg, name string) *Fn {
	for _, p := range m.P.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if f := p.Func(name); f != nil {
				return m.fn(f)
			}
		}
	}
	unsupported("function %s.%s is not in the program", pkg, name)
	return nil
}

func (m *Machine) next(it *rangeIter, tup *TI) Val {
	if it.str {
		if it.i >= strLen(it.s) {
			return Val{p: []Val{{}, {}, {}}}
		}
		at := it.i
		r, n := m.decodeRune(it.s, it.i)
		it.i += n
		return Val{p: []Val{{n: 1}, intVal(at), r}}
	}
	if it.m != nil {
		for it.i < len(it.m.ents) {
			e := &it.m.ents[it.i]
			it.i++
			if !e.dead {
				return Val{p: []Val{{n: 1}, e.k, copyVal(e.v)}}
			}
		}
	}
	z := func(i int) Val {
		if i < len(tup.fields) && tup.fields[i].k != kOther {
			return tup.fields[i].zero()
		}
		return Val{}
	}
	return Val{p: []Val{{}, z(1), z(2)}}
}

// Go's slice growth.
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundCap(n int, size int64) int {
	if size <= 0 {
		return n
	}
	bytes := n * int(size)
	if bytes <= 32768 {
		for _, c := range sizeClasses {
			if c >= bytes {
				return max(n, c/int(size))
			}
		}
	}
	return (bytes + 8191) / 8192 * 8192 / int(size)
}

func growCap(oldCap, need int, size int64) int {
	nc := oldCap
	if need > 2*oldCap {
		nc = need
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	return roundCap(nc, size)
}

// appendVals appends to a slice value.
func (m *Machine) appendVals(s Val, add []Val, elem *TI) Val {
	var a []Val
	if x, ok := s.p.(*Slc); ok {
		a = x.a
	}
	if len(add) == 0 {
		return s
	}
	n := len(a) + len(add)
	if n <= cap(a) {
		b := a[:n]
		if m.shared != nil {
			for i := len(a); i < n; i++ {
				m.wrote(&b[i])
			}
		}
		if elem.agg {
			for i, v := range add {
				storeTo(&b[len(a)+i], v)
			}
		} else {
			copy(b[len(a):], add)
		}
		return Val{p: &Slc{b}}
	}
	b := make([]Val, n, max(n, growCap(cap(a), n, elem.size)))
	if elem.agg {
		for i, v := range a {
			b[i] = copyVal(v)
		}
		for i, v := range add {
			b[len(a)+i] = copyVal(v)
		}
	} else {
		copy(b, a)
		copy(b[len(a):], add)
	}
	if elem.k == kString || elem.agg {
		full := b[:cap(b)]
		for i := n; i < len(full); i++ {
			full[i] = elem.zero()
		}
	}
	return Val{p: &Slc{b}}
}
