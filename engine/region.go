package engine

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Region is a set of side-effect free, acyclic blocks dominated by a branch.
// It is executed as one step: all its blocks are evaluated under guards and
// values that meet again become if-then-else terms.
type Region struct {
	blocks []*Block // topological order, the branch first
	in     map[*Block]int
}

type regEdge struct {
	from  *Block
	to    *Block // nil for return
	slot  int
	guard *Expr
	vals  []Val // phi or return values
}

// findRegion grows the region of a branch.
func (m *Machine) findRegion(x *Fn, b *Block) *Region {
	r := &Region{blocks: []*Block{b}, in: map[*Block]int{b: 0}}
	byIdx := x.blocks
	for changed := true; changed && len(r.blocks) < 150; {
		changed = false
		for i := 0; i < len(r.blocks); i++ {
			for _, s := range r.blocks[i].ssa.Succs {
				nb := byIdx[s.Index]
				if _, ok := r.in[nb]; ok {
					continue
				}
				ok := true
				for _, p := range s.Preds {
					if _, in := r.in[byIdx[p.Index]]; !in {
						ok = false
						break
					}
				}
				if ok && m.pureBlock(s) {
					r.in[nb] = len(r.blocks)
					r.blocks = append(r.blocks, nb)
					changed = true
				}
			}
		}
	}
	if len(r.blocks) == 1 {
		return nil
	}
	return r
}

// pureBlock reports whether a block can be evaluated speculatively.
func (m *Machine) pureBlock(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if !m.pureInstr(in) {
			return false
		}
	}
	return true
}

func (m *Machine) pureInstr(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.Return, *ssa.DebugRef, *ssa.ChangeType, *ssa.ChangeInterface,
		*ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Extract, *ssa.MakeInterface:
		return true
	case *ssa.Slice:
		return isString(in.X.Type())
	case *ssa.Lookup:
		return true
	case *ssa.TypeAssert:
		return in.CommaOk
	case *ssa.Convert:
		return isInt(in.X.Type()) && isInt(in.Type())
	case *ssa.UnOp:
		return in.Op != token.ARROW
	case *ssa.BinOp:
		switch in.Op {
		case token.QUO, token.REM:
			return false
		case token.SHL, token.SHR:
			if _, ok := in.Y.(*ssa.Const); ok {
				return true
			}
			b, ok := in.Y.Type().Underlying().(*types.Basic)
			return ok && b.Info()&types.IsUnsigned != 0
		}
		return true
	case *ssa.Call:
		if in.Call.IsInvoke() {
			return false
		}
		switch v := in.Call.Value.(type) {
		case *ssa.Builtin:
			switch v.Name() {
			case "len", "cap", "min", "max":
				return true
			}
			return false
		case *ssa.Function:
			return m.pureFn(m.fn(v))
		}
	}
	return false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// pureFn reports whether a function is loop-free and without side effects.
func (m *Machine) pureFn(f *Fn) bool {
	switch f.pure {
	case 1:
		return true
	case 2, 3:
		return false
	}
	f.pure = 3
	ok := func() bool {
		if f.intr != nil {
			return pureIntrinsics[f.name]
		}
		if f.f.Blocks == nil || len(f.f.Blocks) > 120 || f.f.Recover != nil {
			return false
		}
		for _, b := range f.f.Blocks {
			if !m.pureBlock(b) {
				return false
			}
		}
		return acyclic(f.f)
	}()
	f.pure = 2
	if ok {
		f.pure = 1
	}
	return ok
}

func acyclic(f *ssa.Function) bool {
	state := make([]int8, len(f.Blocks))
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		state[b.Index] = 1
		for _, s := range b.Succs {
			if state[s.Index] == 1 || state[s.Index] == 0 && !visit(s) {
				return false
			}
		}
		state[b.Index] = 2
		return true
	}
	return visit(f.Blocks[0])
}

// runRegion evaluates a region whose branch condition is c. It returns the
// block to continue with (phis already set), or nil and the return value.
func (fr *Frame) runRegion(b *Block, c *Expr) (nb *Block, ret Val, done bool) {
	m := fr.m
	exits, ok := fr.evalRegion(b, c)
	if !ok {
		m.Stats.RegionAbort++
		return nil, Val{}, false
	}
	// group exits
	type group struct {
		edges []*regEdge
		guard *Expr
	}
	var groups []*group
	for i := range exits {
		e := &exits[i]
		placed := false
		for _, g := range groups {
			if g.edges[0].to == e.to && m.mergeable(fr.edgeTypes(e), g.edges, e) {
				g.edges = append(g.edges, e)
				g.guard = m.T.Or(g.guard, e.guard)
				placed = true
				break
			}
		}
		if !placed {
			groups = append(groups, &group{[]*regEdge{e}, e.guard})
		}
	}
	k := 0
	if len(groups) > 1 {
		conds := make([]*Expr, len(groups))
		for i, g := range groups {
			conds[i] = g.guard
		}
		k = m.fork(conds)
	}
	m.Stats.RegionsTaken++
	g := groups[k]
	last := g.edges[len(g.edges)-1]
	vals := append([]Val(nil), last.vals...)
	tis := fr.edgeTypes(last)
	for j := len(g.edges) - 2; j >= 0; j-- {
		e := g.edges[j]
		for i := range vals {
			vals[i] = m.merge(e.guard, e.vals[i], vals[i], tis[i])
		}
	}
	if last.to == nil {
		switch len(vals) {
		case 0:
			return nil, Val{}, true
		case 1:
			return nil, vals[0], true
		}
		return nil, Val{p: vals}, true
	}
	for i := range last.to.phis {
		fr.r[last.to.phis[i].dst] = vals[i]
	}
	return last.to, Val{}, true
}

func (fr *Frame) edgeTypes(e *regEdge) []*TI {
	if e.to == nil {
		return e.from.retTI
	}
	t := make([]*TI, len(e.to.phis))
	for i := range e.to.phis {
		t[i] = e.to.phis[i].ti
	}
	return t
}

// mergeable reports whether an edge's values can join a group.
func (m *Machine) mergeable(tis []*TI, g []*regEdge, e *regEdge) bool {
	for i, ti := range tis {
		if !canMerge(g[0].vals[i], e.vals[i], ti) {
			return false
		}
	}
	return true
}

func canMerge(a, b Val, ti *TI) bool {
	switch ti.k {
	case kBool, kInt:
		return true
	case kString:
		return strLen(a) == strLen(b)
	case kTuple:
		x, ok1 := a.p.([]Val)
		y, ok2 := b.p.([]Val)
		if !ok1 || !ok2 || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !canMerge(x[i], y[i], ti.fields[i]) {
				return false
			}
		}
		return true
	case kIface:
		x, ok1 := a.p.(*Iface)
		y, ok2 := b.p.(*Iface)
		if ok1 && ok2 {
			return x == y || x.t == y.t && x.t.isScalar()
		}
		return a.p == nil && b.p == nil
	case kPtr, kFunc, kMap, kSlice:
		return a.p == b.p
	case kFloat:
		return a.p == nil && b.p == nil && a.n == b.n
	}
	return false
}

func (m *Machine) merge(g *Expr, a, b Val, ti *TI) Val {
	switch ti.k {
	case kBool, kInt:
		if a == b {
			return a
		}
		return m.fromExpr(m.T.Ite(g, m.expr(a, ti), m.expr(b, ti)), ti.signed)
	case kString:
		if x, ok := a.p.(string); ok {
			if y, ok := b.p.(string); ok && x == y {
				return a
			}
		}
		x, y := strBytes(a), strBytes(b)
		r := make([]Val, len(x))
		for i := range x {
			r[i] = m.fromExpr(m.T.Ite(g, m.byteExpr(x[i]), m.byteExpr(y[i])), false)
		}
		return mkStr(r)
	case kTuple:
		x, y := a.p.([]Val), b.p.([]Val)
		r := make([]Val, len(x))
		for i := range x {
			r[i] = m.merge(g, x[i], y[i], ti.fields[i])
		}
		return Val{p: r}
	case kIface:
		if a.p == b.p || a.p == nil {
			return a
		}
		x, y := a.p.(*Iface), b.p.(*Iface)
		return Val{p: &Iface{x.t, m.merge(g, x.v, y.v, x.t)}}
	}
	return a
}

// evalRegion evaluates the blocks and returns the feasible-looking exits.
func (fr *Frame) evalRegion(b *Block, c *Expr) (exits []regEdge, ok bool) {
	m := fr.m
	T := m.T
	m.spec++
	depth, sp := m.depth, m.sp
	defer func() {
		m.spec--
		if r := recover(); r != nil {
			if _, is := r.(specAbort); !is {
				panic(r)
			}
			m.depth, m.sp = depth, sp
			exits, ok = nil, false
		}
	}()
	reg := b.region
	incoming := make([][]regEdge, len(reg.blocks))
	addEdge := func(from *Block, k int, g *Expr) {
		if g == T.False {
			return
		}
		to := from.succs[k]
		e := regEdge{from: from, to: to, slot: from.slot[k], guard: g}
		for i := range to.phis {
			e.vals = append(e.vals, fr.get(&to.phis[i].src[e.slot]))
		}
		if j, in := reg.in[to]; in && to != b {
			incoming[j] = append(incoming[j], e)
			return
		}
		exits = append(exits, e)
	}
	branch := func(blk *Block, g, c *Expr) {
		if v, ok := m.decided(c); ok {
			k := 1
			if v {
				k = 0
			}
			addEdge(blk, k, g)
			return
		}
		addEdge(blk, 0, T.And(g, c))
		addEdge(blk, 1, T.And(g, T.Not(c)))
	}
	branch(b, T.True, c)
	for j, blk := range reg.blocks {
		if j == 0 {
			continue
		}
		in := incoming[j]
		if len(in) == 0 {
			continue
		}
		g := in[len(in)-1].guard
		for i := len(in) - 2; i >= 0; i-- {
			g = T.Or(in[i].guard, g)
		}
		for i := range blk.phis {
			v := in[len(in)-1].vals[i]
			for k := len(in) - 2; k >= 0; k-- {
				if !canMerge(in[k].vals[i], v, blk.phis[i].ti) {
					panic(specAbort{})
				}
				v = m.merge(in[k].guard, in[k].vals[i], v, blk.phis[i].ti)
			}
			fr.r[blk.phis[i].dst] = v
		}
		m.steps += len(blk.ins)
		for _, ins := range blk.ins {
			ins(fr)
		}
		switch blk.term {
		case tJump:
			addEdge(blk, 0, g)
		case tIf:
			cv := fr.get(&blk.cond)
			if cv.p == nil {
				k := 0
				if cv.n == 0 {
					k = 1
				}
				addEdge(blk, k, g)
			} else {
				branch(blk, g, cv.p.(*Expr))
			}
		case tRet:
			e := regEdge{from: blk, guard: g}
			for i := range blk.rets {
				e.vals = append(e.vals, fr.get(&blk.rets[i]))
			}
			exits = append(exits, e)
		default:
			panic(specAbort{})
		}
	}
	return exits, len(exits) > 0
}
