package engine

import "math/bits"

// Domains: for every variable of at most 8 bits the set of values that the
// single-variable conjuncts of the path condition leave. They replace those
// conjuncts by one normal form in queries and simplify the other conjuncts.

type bitset [4]uint64

func (b *bitset) has(i uint64) bool { return b[i>>6]>>(i&63)&1 != 0 }
func (b *bitset) and(o *bitset) bitset {
	return bitset{b[0] & o[0], b[1] & o[1], b[2] & o[2], b[3] & o[3]}
}
func (b *bitset) empty() bool { return b[0]|b[1]|b[2]|b[3] == 0 }
func (b *bitset) not(w uint8) bitset {
	f := fullSet(w)
	return bitset{^b[0] & f[0], ^b[1] & f[1], ^b[2] & f[2], ^b[3] & f[3]}
}
func (b *bitset) count() int {
	return bits.OnesCount64(b[0]) + bits.OnesCount64(b[1]) + bits.OnesCount64(b[2]) + bits.OnesCount64(b[3])
}

func fullSet(w uint8) bitset {
	n := uint64(2)
	if w > 0 {
		n = 1 << w
	}
	var b bitset
	for i := range b {
		switch {
		case n >= 64:
			b[i] = ^uint64(0)
			n -= 64
		case n > 0:
			b[i] = 1<<n - 1
			n = 0
		}
	}
	return b
}

// bitmap is the set of values of its only variable that make e true.
func (m *Machine) bitmap(e *Expr) *bitset {
	if e.bm != nil {
		return e.bm
	}
	w := m.vars[e.sv].w
	var b bitset
	switch {
	case e.op == OpBNot:
		b = m.bitmap(e.a).not(w)
	case e.op == OpBAnd && e.a.sv >= 0 && e.b.sv >= 0:
		b = m.bitmap(e.a).and(m.bitmap(e.b))
	case e.op == OpBOr && e.a.sv >= 0 && e.b.sv >= 0:
		x, y := m.bitmap(e.a), m.bitmap(e.b)
		b = bitset{x[0] | y[0], x[1] | y[1], x[2] | y[2], x[3] | y[3]}
	default:
		n := uint64(2)
		if w > 0 {
			n = 1 << w
		}
		md := make([]uint64, e.sv+1)
		for v := uint64(0); v < n; v++ {
			md[e.sv] = v
			m.T.SetModel(md)
			if m.T.Eval(e) != 0 {
				b[v>>6] |= 1 << (v & 63)
			}
		}
		m.T.SetModel(m.model)
	}
	e.bm = &b
	return e.bm
}

// domDecided tells whether the domain of its variable settles e.
func (m *Machine) domDecided(e *Expr) (val, ok bool) {
	b := m.bitmap(e)
	d := &m.dom[e.sv]
	x := d.and(b)
	if x == *d {
		return true, true
	}
	if x.empty() {
		return false, true
	}
	return false, false
}

type setKey struct {
	k int16
	b bitset
}

// setExpr is the constraint that variable k has a value in b.
func (m *Machine) setExpr(k int16, b bitset) *Expr {
	v := m.vars[k]
	key := setKey{k, b}
	if e := m.T.sets[key]; e != nil && e.sv == k && m.T.setw[key] == v.w {
		return e
	}
	n := b.not(v.w)
	var e *Expr
	if b.empty() {
		return m.T.False
	}
	if n.empty() {
		return m.T.True
	}
	if ranges(&n, v.w) < ranges(&b, v.w) {
		e = m.T.Not(m.rangesExpr(v, &n))
	} else {
		e = m.rangesExpr(v, &b)
	}
	m.T.sets[key] = e
	m.T.setw[key] = v.w
	return e
}

func ranges(b *bitset, w uint8) int {
	n, in := 0, false
	for i := uint64(0); i < 1<<w; i++ {
		h := b.has(i)
		if h && !in {
			n++
		}
		in = h
	}
	return n
}

func (m *Machine) rangesExpr(v *Expr, b *bitset) *Expr {
	if v.w == 0 {
		if b.has(1) {
			return v
		}
		return m.T.Not(v)
	}
	e := m.T.False
	max := uint64(1)<<v.w - 1
	for i := uint64(0); i <= max; i++ {
		if !b.has(i) {
			continue
		}
		j := i
		for j < max && b.has(j+1) {
			j++
		}
		var r *Expr
		switch {
		case i == j:
			r = m.T.Eq(v, m.T.Const(v.w, i))
		case i == 0:
			r = m.T.ULt(v, m.T.Const(v.w, j+1))
		case j == max:
			r = m.T.Not(m.T.ULt(v, m.T.Const(v.w, i)))
		default:
			r = m.T.And(m.T.Not(m.T.ULt(v, m.T.Const(v.w, i))), m.T.ULt(v, m.T.Const(v.w, j+1)))
		}
		e = m.T.Or(e, r)
		i = j
	}
	return e
}

// simp rewrites a term under the domains.
func (m *Machine) simp(e *Expr, memo map[*Expr]*Expr) *Expr {
	if e.sv == svConst || e.op == OpVar {
		return e
	}
	if r := memo[e]; r != nil {
		return r
	}
	var r *Expr
	t := m.T
	switch {
	case e.w == 0 && e.sv >= 0:
		b := m.bitmap(e)
		d := &m.dom[e.sv]
		x := d.and(b)
		switch {
		case x == *d:
			r = t.True
		case x.empty():
			r = t.False
		default:
			// both constraints hold or fail together on the domain
			r = m.setExpr(e.sv, x)
		}
	case e.op == OpIte:
		c := m.simp(e.a, memo)
		switch c {
		case t.True:
			r = m.simp(e.b, memo)
		case t.False:
			r = m.simp(e.c, memo)
		default:
			r = t.Ite(c, m.simp(e.b, memo), m.simp(e.c, memo))
		}
	case e.op == OpBAnd:
		if a := m.simp(e.a, memo); a == t.False {
			r = a
		} else {
			r = t.And(a, m.simp(e.b, memo))
		}
	case e.op == OpBOr:
		if a := m.simp(e.a, memo); a == t.True {
			r = a
		} else {
			r = t.Or(a, m.simp(e.b, memo))
		}
	case e.op == OpBNot:
		r = t.Not(m.simp(e.a, memo))
	case e.op == OpEq:
		r = t.Eq(m.simp(e.a, memo), m.simp(e.b, memo))
	case e.op == OpULt:
		r = t.ULt(m.simp(e.a, memo), m.simp(e.b, memo))
	case e.op == OpSLt:
		r = t.SLt(m.simp(e.a, memo), m.simp(e.b, memo))
	case e.op == OpZExt:
		r = t.ZExt(m.simp(e.a, memo), e.w)
	case e.op == OpSExt:
		r = t.SExt(m.simp(e.a, memo), e.w)
	case e.op == OpTrunc:
		r = t.Trunc(m.simp(e.a, memo), e.w)
	default:
		r = t.Bin(e.op, m.simp(e.a, memo), m.simp(e.b, memo))
	}
	memo[e] = r
	return r
}
