// Package engine is a symbolic executor for Go programs in SSA form.
package engine

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is an operator of a symbolic expression.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpShl
	OpLShr
	OpAShr
	OpZExt
	OpSExt
	OpTrunc
	OpEq
	OpULt
	OpSLt
	OpIte
	OpBAnd
	OpBOr
	OpBNot
)

// Expr is a hash-consed bit-vector (w>0) or boolean (w==0) term. Tables are
// private to one machine.
type Expr struct {
	op      Op
	w       uint8
	a, b, c *Expr
	val     uint64
	id      uint32
	emitted uint32 // solver generation in which the definition was sent
	vars    VarSet // variables that occur
	lo, hi  uint64 // unsigned interval containing every value (w>0)
	// hash of the term up to a shift of variable numbers, and its least variable
	h1, h2 uint64
	minv   int16
	sv     int16   // the only variable, if it has at most 8 bits; else svConst or svMany
	bm     *bitset // values of that variable that make e true
	// evaluation memo
	ep uint32
	ev uint64
}

type exprKey struct {
	op      Op
	w       uint8
	a, b, c *Expr
	val     uint64
}

// MaxVars is the number of input variables one execution may use.
const MaxVars = 128

// VarSet is a set of input variables.
type VarSet [2]uint64

func (s VarSet) intersects(o VarSet) bool { return s[0]&o[0] != 0 || s[1]&o[1] != 0 }
func (s VarSet) has(k int) bool           { return s[k/64]>>(uint(k)%64)&1 != 0 }
func (s VarSet) union(o VarSet) VarSet    { return VarSet{s[0] | o[0], s[1] | o[1]} }

// Table creates expressions.
type Table struct {
	m     map[exprKey]*Expr
	next  uint32
	epoch uint32
	model []uint64
	True  *Expr
	False *Expr
	sets  map[setKey]*Expr
	setw  map[setKey]uint8
}

func NewTable() *Table {
	t := &Table{m: make(map[exprKey]*Expr, 4096), sets: map[setKey]*Expr{}, setw: map[setKey]uint8{}}
	t.True = t.Const(0, 1)
	t.False = t.Const(0, 0)
	return t
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (t *Table) mk(op Op, w uint8, a, b, c *Expr, val uint64) *Expr {
	k := exprKey{op, w, a, b, c, val}
	if e := t.m[k]; e != nil {
		return e
	}
	e := &Expr{op: op, w: w, a: a, b: b, c: c, val: val, id: t.next}
	t.next++
	for _, x := range [3]*Expr{a, b, c} {
		if x != nil {
			e.vars[0] |= x.vars[0]
			e.vars[1] |= x.vars[1]
		}
	}
	e.shapeHash()
	e.lo, e.hi = 0, mask(w)
	switch op {
	case OpConst:
		e.lo, e.hi = val, val
	case OpZExt:
		e.lo, e.hi = a.lo, a.hi
	case OpTrunc:
		if a.hi <= mask(w) {
			e.lo, e.hi = a.lo, a.hi
		}
	case OpAdd:
		if s, carry := bits.Add64(a.hi, b.hi, 0); carry == 0 && s <= mask(w) {
			e.lo, e.hi = a.lo+b.lo, s
		}
	case OpSub:
		if a.lo >= b.hi {
			e.lo, e.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OpMul:
		if h, l := bits.Mul64(a.hi, b.hi); h == 0 && l <= mask(w) {
			e.lo, e.hi = a.lo*b.lo, l
		}
	case OpAnd:
		e.hi = min(a.hi, b.hi)
	case OpOr, OpXor:
		e.hi = 1<<bits.Len64(a.hi|b.hi) - 1
		if op == OpOr {
			e.lo = max(a.lo, b.lo)
		}
	case OpLShr:
		if b.op == OpConst && b.val < 64 {
			e.lo, e.hi = a.lo>>b.val, a.hi>>b.val
		} else {
			e.hi = a.hi
		}
	case OpIte:
		if w > 0 {
			e.lo, e.hi = min(b.lo, c.lo), max(b.hi, c.hi)
		}
	case OpURem:
		if b.lo > 0 {
			e.hi = b.hi - 1
		}
	case OpUDiv:
		if b.lo > 0 {
			e.lo, e.hi = a.lo/b.hi, a.hi/b.lo
		}
	}
	t.m[k] = e
	return e
}

const (
	noVar   = 1 << 14
	svConst = -2
	svMany  = -1
)

// shapeHash computes h1, h2 and minv.
func (e *Expr) shapeHash() {
	e.minv = noVar
	e.sv = svConst
	if e.op == OpVar {
		e.minv = int16(e.val)
		e.sv = svMany
		if e.w <= 8 {
			e.sv = e.minv
		}
		e.h1 = mix(0x9e3779b97f4a7c15, uint64(e.w))
		e.h2 = mix(0xc2b2ae3d27d4eb4f, uint64(e.w))
		return
	}
	kids := [3]*Expr{e.a, e.b, e.c}
	for _, x := range kids {
		if x == nil {
			continue
		}
		if x.minv < e.minv {
			e.minv = x.minv
		}
		switch {
		case e.sv == svConst:
			e.sv = x.sv
		case x.sv != svConst && x.sv != e.sv:
			e.sv = svMany
		}
	}
	h1 := mix(0x51ed270b7f4a7c15, uint64(e.op)<<8|uint64(e.w))
	h2 := mix(0x2545f4914f6cdd1d, uint64(e.w)<<8|uint64(e.op))
	h1, h2 = mix(h1, e.val), mix(h2, e.val^0xabcdef)
	for i, x := range kids {
		if x == nil {
			continue
		}
		d := uint64(i)
		if x.minv != noVar {
			d |= uint64(x.minv-e.minv+1) << 8
		}
		h1 = mix(mix(h1, x.h1), d)
		h2 = mix(mix(h2, x.h2), d)
	}
	e.h1, e.h2 = h1, h2
}

func mix(h, x uint64) uint64 {
	h ^= x
	hi, lo := bits.Mul64(h^0x9e3779b97f4a7c15, 0xd6e8feb86659fd93)
	return bits.RotateLeft64(hi^lo, 23) + lo*0xff51afd7ed558ccd + h
}

func (t *Table) Const(w uint8, v uint64) *Expr { return t.mk(OpConst, w, nil, nil, nil, v&mask(w)) }
func (t *Table) Bool(b bool) *Expr {
	if b {
		return t.True
	}
	return t.False
}

// Var returns the k-th input variable with a width.
func (t *Table) Var(k int, w uint8) *Expr {
	e := t.mk(OpVar, w, nil, nil, nil, uint64(k))
	e.vars[k/64] |= 1 << (uint(k) % 64)
	return e
}

func (e *Expr) isConst() bool { return e.op == OpConst }

func (t *Table) Not(a *Expr) *Expr {
	switch a.op {
	case OpConst:
		return t.Bool(a.val == 0)
	case OpBNot:
		return a.a
	}
	return t.mk(OpBNot, 0, a, nil, nil, 0)
}

func (t *Table) And(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a.op == OpConst {
		if a.val == 0 {
			return t.False
		}
		return b
	}
	if b.op == OpConst {
		if b.val == 0 {
			return t.False
		}
		return a
	}
	if (a.op == OpBNot && a.a == b) || (b.op == OpBNot && b.a == a) {
		return t.False
	}
	// x==k1 && x==k2
	if a.op == OpEq && b.op == OpEq && a.a == b.a && a.b.op == OpConst && b.b.op == OpConst && a.b != b.b {
		return t.False
	}
	// absorption: (p && q) && p
	if a.op == OpBAnd && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OpBAnd && (b.a == a || b.b == a) {
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk(OpBAnd, 0, a, b, nil, 0)
}

func (t *Table) Or(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a.op == OpConst {
		if a.val != 0 {
			return t.True
		}
		return b
	}
	if b.op == OpConst {
		if b.val != 0 {
			return t.True
		}
		return a
	}
	if (a.op == OpBNot && a.a == b) || (b.op == OpBNot && b.a == a) {
		return t.True
	}
	// (g && c) || (g && !c) = g
	if a.op == OpBAnd && b.op == OpBAnd {
		for _, p := range [4][4]*Expr{{a.a, a.b, b.a, b.b}, {a.a, a.b, b.b, b.a}, {a.b, a.a, b.a, b.b}, {a.b, a.a, b.b, b.a}} {
			if p[0] == p[2] {
				if (p[1].op == OpBNot && p[1].a == p[3]) || (p[3].op == OpBNot && p[3].a == p[1]) {
					return p[0]
				}
			}
		}
	}
	if a.op == OpBOr && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OpBOr && (b.a == a || b.b == a) {
		return b
	}
	// x || (!x && y) = x || y
	if b.op == OpBAnd {
		if b.a.op == OpBNot && b.a.a == a {
			return t.Or(a, b.b)
		}
		if b.b.op == OpBNot && b.b.a == a {
			return t.Or(a, b.a)
		}
	}
	if a.op == OpBAnd {
		if a.a.op == OpBNot && a.a.a == b {
			return t.Or(b, a.b)
		}
		if a.b.op == OpBNot && a.b.a == b {
			return t.Or(b, a.a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk(OpBOr, 0, a, b, nil, 0)
}

func (t *Table) Ite(c, a, b *Expr) *Expr {
	if c.op == OpConst {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OpBNot {
		return t.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.op == OpConst {
			if a.val != 0 {
				return t.Or(c, b)
			}
			return t.And(t.Not(c), b)
		}
		if b.op == OpConst {
			if b.val != 0 {
				return t.Or(t.Not(c), a)
			}
			return t.And(c, a)
		}
	}
	return t.mk(OpIte, a.w, c, a, b, 0)
}

func (t *Table) ZExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	switch a.op {
	case OpConst:
		return t.Const(w, a.val)
	case OpZExt:
		return t.ZExt(a.a, w)
	case OpIte:
		if a.b.op == OpConst && a.c.op == OpConst {
			return t.Ite(a.a, t.ZExt(a.b, w), t.ZExt(a.c, w))
		}
	}
	return t.mk(OpZExt, w, a, nil, nil, 0)
}

func (t *Table) SExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return t.Const(w, uint64(sext(a.val, a.w)))
	}
	if a.hi < 1<<(a.w-1) {
		return t.ZExt(a, w)
	}
	return t.mk(OpSExt, w, a, nil, nil, 0)
}

func (t *Table) Trunc(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	switch a.op {
	case OpConst:
		return t.Const(w, a.val)
	case OpZExt, OpSExt:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return t.Trunc(a.a, w)
		}
		if a.op == OpZExt {
			return t.ZExt(a.a, w)
		}
	case OpTrunc:
		return t.Trunc(a.a, w)
	case OpIte:
		if a.b.op == OpConst || a.c.op == OpConst {
			return t.Ite(a.a, t.Trunc(a.b, w), t.Trunc(a.c, w))
		}
	}
	return t.mk(OpTrunc, w, a, nil, nil, 0)
}

func (t *Table) Eq(a, b *Expr) *Expr {
	if a == b {
		return t.True
	}
	if a.op == OpConst && b.op == OpConst {
		return t.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val != 0 {
				return a
			}
			return t.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return t.mk(OpEq, 0, a, b, nil, 0)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return t.False
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		switch a.op {
		case OpZExt:
			return t.Eq(a.a, t.Const(a.a.w, b.val)) // ranges checked above
		case OpIte:
			if a.b.op == OpConst || a.c.op == OpConst {
				return t.Ite(a.a, t.Eq(a.b, b), t.Eq(a.c, b))
			}
		case OpAdd:
			if a.b.op == OpConst {
				return t.Eq(a.a, t.Const(a.w, b.val-a.b.val))
			}
		case OpSub:
			if a.b.op == OpConst {
				return t.Eq(a.a, t.Const(a.w, b.val+a.b.val))
			}
		}
	} else {
		if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
			return t.Eq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return t.mk(OpEq, 0, a, b, nil, 0)
}

func (t *Table) ULt(a, b *Expr) *Expr {
	if a == b {
		return t.False
	}
	if a.hi < b.lo {
		return t.True
	}
	if a.lo >= b.hi {
		return t.False
	}
	if a.op == OpZExt && b.op == OpConst { // b.val <= a.hi here
		return t.ULt(a.a, t.Const(a.a.w, b.val))
	}
	if b.op == OpZExt && a.op == OpConst {
		return t.ULt(t.Const(b.a.w, a.val), b.a)
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return t.ULt(a.a, b.a)
	}
	if b.op == OpConst && a.op == OpIte && (a.b.op == OpConst || a.c.op == OpConst) {
		return t.Ite(a.a, t.ULt(a.b, b), t.ULt(a.c, b))
	}
	if a.op == OpConst && b.op == OpIte && (b.b.op == OpConst || b.c.op == OpConst) {
		return t.Ite(b.a, t.ULt(a, b.b), t.ULt(a, b.c))
	}
	return t.mk(OpULt, 0, a, b, nil, 0)
}

func (t *Table) SLt(a, b *Expr) *Expr {
	if a == b {
		return t.False
	}
	if a.op == OpConst && b.op == OpConst {
		return t.Bool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	half := uint64(1) << (a.w - 1)
	if a.hi < half && b.hi < half {
		return t.ULt(a, b)
	}
	if b.op == OpConst && a.op == OpIte && (a.b.op == OpConst || a.c.op == OpConst) {
		return t.Ite(a.a, t.SLt(a.b, b), t.SLt(a.c, b))
	}
	if a.op == OpConst && b.op == OpIte && (b.b.op == OpConst || b.c.op == OpConst) {
		return t.Ite(b.a, t.SLt(a, b.b), t.SLt(a, b.c))
	}
	// a non-negative, b a negative constant and the like
	if a.hi < half && b.op == OpConst && b.val >= half {
		return t.False
	}
	if b.hi < half && a.op == OpConst && a.val >= half {
		return t.True
	}
	return t.mk(OpSLt, 0, a, b, nil, 0)
}

// Bin makes an arithmetic term.
func (t *Table) Bin(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		if v, ok := evalBin(op, w, a.val, b.val); ok {
			return t.Const(w, v)
		}
	}
	switch op {
	case OpAdd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.b.op == OpConst {
				return t.Bin(OpAdd, a.a, t.Const(w, a.b.val+b.val))
			}
		}
	case OpSub:
		if b.op == OpConst {
			if b.val == 0 {
				return a
			}
		}
		if a == b {
			return t.Const(w, 0)
		}
	case OpMul:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OpAnd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			// mask of all possible bits
			if m := uint64(1)<<bits.Len64(a.hi) - 1; b.val&m == m {
				return a
			}
		}
		if a == b {
			return a
		}
	case OpOr:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst && b.val == 0 {
			return a
		}
		if a == b {
			return a
		}
	case OpXor:
		if a == b {
			return t.Const(w, 0)
		}
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst && b.val == 0 {
			return a
		}
	case OpShl, OpLShr, OpAShr:
		if b.op == OpConst && b.val == 0 {
			return a
		}
	case OpUDiv, OpSDiv:
		if b.op == OpConst && b.val == 1 {
			return a
		}
	}
	// narrow operations on zero-extended operands with constants
	if a.op == OpZExt && b.op == OpConst && b.val <= mask(a.a.w) {
		switch op {
		case OpAnd, OpOr, OpXor:
			return t.ZExt(t.Bin(op, a.a, t.Const(a.a.w, b.val)), w)
		}
	}
	if a.op == OpIte && b.op == OpConst && a.b.op == OpConst && a.c.op == OpConst {
		return t.Ite(a.a, t.Bin(op, a.b, b), t.Bin(op, a.c, b))
	}
	if b.op == OpIte && a.op == OpConst && b.b.op == OpConst && b.c.op == OpConst {
		return t.Ite(b.a, t.Bin(op, a, b.b), t.Bin(op, a, b.c))
	}
	return t.mk(op, w, a, b, nil, 0)
}

func evalBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpUDiv:
		if y == 0 {
			return m, true // SMT-LIB
		}
		return x / y, true
	case OpURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OpSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OpAnd:
		return x & y, true
	case OpOr:
		return x | y, true
	case OpXor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m, true
	}
	return 0, false
}

// SetModel installs the assignment used by Eval.
func (t *Table) SetModel(m []uint64) {
	t.model = m
	t.epoch++
}

// Eval evaluates e under the current model (missing variables are 0).
func (t *Table) Eval(e *Expr) uint64 {
	if e.op == OpConst {
		return e.val
	}
	if e.ep == t.epoch {
		return e.ev
	}
	var v uint64
	switch e.op {
	case OpVar:
		if int(e.val) < len(t.model) {
			v = t.model[e.val] & mask(e.w)
		}
	case OpZExt:
		v = t.Eval(e.a)
	case OpSExt:
		v = uint64(sext(t.Eval(e.a), e.a.w)) & mask(e.w)
	case OpTrunc:
		v = t.Eval(e.a) & mask(e.w)
	case OpEq:
		v = b2u(t.Eval(e.a) == t.Eval(e.b))
	case OpULt:
		v = b2u(t.Eval(e.a) < t.Eval(e.b))
	case OpSLt:
		v = b2u(sext(t.Eval(e.a), e.a.w) < sext(t.Eval(e.b), e.b.w))
	case OpIte:
		if t.Eval(e.a) != 0 {
			v = t.Eval(e.b)
		} else {
			v = t.Eval(e.c)
		}
	case OpBAnd:
		v = b2u(t.Eval(e.a) != 0 && t.Eval(e.b) != 0)
	case OpBOr:
		v = b2u(t.Eval(e.a) != 0 || t.Eval(e.b) != 0)
	case OpBNot:
		v = 1 - t.Eval(e.a)
	default:
		v, _ = evalBin(e.op, e.w, t.Eval(e.a), t.Eval(e.b))
	}
	e.ep, e.ev = t.epoch, v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

var smtOps = map[Op]string{
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv",
	OpURem: "bvurem", OpSRem: "bvsrem", OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpEq: "=", OpULt: "bvult",
	OpSLt: "bvslt", OpIte: "ite", OpBAnd: "and", OpBOr: "or", OpBNot: "not",
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// ref is how an emitted expression is written.
func (e *Expr) ref() string {
	switch e.op {
	case OpConst:
		if e.w == 0 {
			if e.val != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", e.val, e.w)
	case OpVar:
		return fmt.Sprintf("v%d_%d", e.val, e.w)
	}
	return fmt.Sprintf("e%d", e.id)
}

// emit writes the declarations and definitions e needs and that were not yet
// sent (marked by seen).
func (e *Expr) emit(sb *strings.Builder, seen func(*Expr) bool) {
	if e.op == OpConst || seen(e) {
		return
	}
	if e.op == OpVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", e.ref(), sortName(e.w))
		return
	}
	for _, x := range [3]*Expr{e.a, e.b, e.c} {
		if x != nil {
			x.emit(sb, seen)
		}
	}
	fmt.Fprintf(sb, "(define-fun e%d () %s ", e.id, sortName(e.w))
	switch e.op {
	case OpZExt:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", e.w-e.a.w, e.a.ref())
	case OpSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", e.w-e.a.w, e.a.ref())
	case OpTrunc:
		fmt.Fprintf(sb, "((_ extract %d 0) %s)", e.w-1, e.a.ref())
	default:
		sb.WriteString("(" + smtOps[e.op])
		for _, x := range [3]*Expr{e.a, e.b, e.c} {
			if x != nil {
				sb.WriteString(" " + x.ref())
			}
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
}

// String prints the expression in prefix form (for diagnostics).
func (e *Expr) String() string {
	switch e.op {
	case OpConst, OpVar:
		return e.ref()
	}
	s := "(" + fmt.Sprint(smtOps[e.op])
	switch e.op {
	case OpZExt:
		s = fmt.Sprintf("(zext%d", e.w)
	case OpSExt:
		s = fmt.Sprintf("(sext%d", e.w)
	case OpTrunc:
		s = fmt.Sprintf("(trunc%d", e.w)
	}
	for _, x := range [3]*Expr{e.a, e.b, e.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	return s + ")"
}
