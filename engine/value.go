package engine

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"runtime/debug"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Val is a value of the executed program. p == nil: a concrete scalar in n
// (sign- or zero-extended to 64 bits), or a nil pointer, slice, map, func or
// interface. Otherwise p is one of *Expr (symbolic scalar), string, *SymStr,
// *Val (pointer), *Agg, *Slc, *MapV, *Closure, *Iface, []Val (tuple), *rangeIter.
type Val struct {
	n uint64
	p any
}

// Agg is a struct or array value. In registers it is immutable; in memory
// each cell owns its Agg.
type Agg struct{ f []Val }

// Slc is a slice: length and capacity are those of a.
type Slc struct{ a []Val }

// SlcPtr is the address of a slice's or string's first element (package unsafe).
type SlcPtr struct{ a []Val }

// SymStr is a string with at least one symbolic byte.
type SymStr struct{ b []Val }

// Iface is a non-nil interface value.
type Iface struct {
	t *TI
	v Val
}

// Closure is a function value.
type Closure struct {
	fn  *Fn
	env []Val
}

// MapV is a map; iteration is in insertion order.
type MapV struct {
	ents []mapEnt
	idx  map[string]int // encoded concrete keys of string or integer type
	nsym int            // live entries with symbolic keys
	n    int
}

type mapEnt struct {
	k, v Val
	dead bool
}

type rangeIter struct {
	str  bool
	s    Val
	m    *MapV
	i    int
	elem *TI
}

type kind uint8

const (
	kBool kind = iota
	kInt
	kFloat
	kComplex
	kString
	kPtr
	kSlice
	kMap
	kFunc
	kIface
	kStruct
	kArray
	kTuple
	kChan
	kOther
)

// TI describes a canonical type.
type TI struct {
	T      types.Type
	u      types.Type
	id     int
	k      kind
	w      uint8 // bits of scalars
	signed bool
	elem   *TI // of pointers, slices, arrays, maps
	key    *TI
	n      int
	fields []*TI
	size   int64
	agg    bool
	ms     map[string]*Fn
	impl   map[*TI]bool
}

// Types canonicalises types.
type Types struct {
	m     typeutil.Map
	n     int
	sizes types.Sizes
}

func (ts *Types) get(t types.Type) *TI {
	if x := ts.m.At(t); x != nil {
		return x.(*TI)
	}
	ti := &TI{T: t, u: t.Underlying(), id: ts.n}
	ts.n++
	ts.m.Set(t, ti)
	switch u := ti.u.(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			ti.k, ti.w = kBool, 0
		case u.Info()&types.IsInteger != 0:
			ti.k = kInt
			ti.signed = u.Info()&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				ti.w = 8
			case types.Int16, types.Uint16:
				ti.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				ti.w = 32
			default:
				ti.w = 64
			}
		case u.Info()&types.IsFloat != 0:
			ti.k, ti.w = kFloat, 64
			if u.Kind() == types.Float32 {
				ti.w = 32
			}
		case u.Info()&types.IsString != 0:
			ti.k = kString
		case u.Info()&types.IsComplex != 0:
			ti.k = kComplex
		default: // unsafe pointer, untyped nil
			ti.k = kPtr
		}
	case *types.Pointer:
		ti.k = kPtr
	case *types.Slice:
		ti.k = kSlice
		ti.elem = ts.get(u.Elem())
	case *types.Map:
		ti.k = kMap
		ti.key, ti.elem = ts.get(u.Key()), ts.get(u.Elem())
	case *types.Signature:
		ti.k = kFunc
	case *types.Interface:
		ti.k = kIface
	case *types.Struct:
		ti.k, ti.agg = kStruct, true
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, ts.get(u.Field(i).Type()))
		}
	case *types.Array:
		ti.k, ti.agg = kArray, true
		ti.elem = ts.get(u.Elem())
		ti.n = int(u.Len())
	case *types.Tuple:
		ti.k = kTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, ts.get(u.At(i).Type()))
		}
	case *types.Chan:
		ti.k = kChan
	default:
		ti.k = kOther
	}
	if ti.k != kTuple && ti.k != kOther {
		func() {
			defer func() { recover() }()
			ti.size = ts.sizes.Sizeof(t)
		}()
	}
	if ti.k == kPtr {
		if p, ok := ti.u.(*types.Pointer); ok {
			ti.elem = ts.get(p.Elem())
		}
	}
	return ti
}

func (ti *TI) String() string { return ti.T.String() }

func (ti *TI) isScalar() bool { return ti.k == kBool || ti.k == kInt }

// zero returns a fresh zero value.
func (ti *TI) zero() Val {
	switch ti.k {
	case kString:
		return Val{p: ""}
	case kStruct:
		f := make([]Val, len(ti.fields))
		for i, x := range ti.fields {
			if x.k == kString || x.agg {
				f[i] = x.zero()
			}
		}
		return Val{p: &Agg{f}}
	case kArray:
		f := make([]Val, ti.n)
		if ti.elem.k == kString || ti.elem.agg {
			for i := range f {
				f[i] = ti.elem.zero()
			}
		}
		return Val{p: &Agg{f}}
	case kTuple:
		f := make([]Val, len(ti.fields))
		for i, x := range ti.fields {
			f[i] = x.zero()
		}
		return Val{p: f}
	}
	return Val{}
}

func copyVal(v Val) Val {
	if a, ok := v.p.(*Agg); ok {
		return Val{p: copyAgg(a)}
	}
	return v
}

func copyAgg(a *Agg) *Agg {
	f := make([]Val, len(a.f))
	for i, x := range a.f {
		if b, ok := x.p.(*Agg); ok {
			f[i] = Val{p: copyAgg(b)}
		} else {
			f[i] = x
		}
	}
	return &Agg{f}
}

// storeAgg copies src into the memory of dst, keeping interior pointers valid.
func storeAgg(dst, src *Agg) {
	if dst == src {
		return
	}
	for i, x := range src.f {
		if b, ok := x.p.(*Agg); ok {
			if d, ok := dst.f[i].p.(*Agg); ok {
				storeAgg(d, b)
				continue
			}
			dst.f[i] = Val{p: copyAgg(b)}
		} else {
			dst.f[i] = x
		}
	}
}

func storeTo(cell *Val, v Val) {
	if a, ok := v.p.(*Agg); ok {
		if d, ok := cell.p.(*Agg); ok {
			storeAgg(d, a)
		} else {
			cell.p = copyAgg(a)
		}
		return
	}
	*cell = v
}

func canon(n uint64, w uint8, signed bool) uint64 {
	if w >= 64 || w == 0 {
		return n
	}
	if signed {
		return uint64(sext(n, w))
	}
	return n & mask(w)
}

func boolVal(b bool) Val { return Val{n: b2u(b)} }
func intVal(i int) Val   { return Val{n: uint64(int64(i))} }
func (v Val) int() int   { return int(int64(v.n)) }

// expr turns a scalar into a term.
func (m *Machine) expr(v Val, ti *TI) *Expr {
	if v.p == nil {
		return m.T.Const(ti.w, v.n)
	}
	e, ok := v.p.(*Expr)
	if !ok {
		unsupported("expr of %T", v.p)
	}
	return e
}

func (m *Machine) fromExpr(e *Expr, signed bool) Val {
	if e.op == OpConst {
		if e.w == 0 {
			return Val{n: e.val}
		}
		return Val{n: canon(e.val, e.w, signed)}
	}
	return Val{p: e}
}

// Strings.

func strLen(v Val) int {
	switch s := v.p.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.p))
}

func strAt(v Val, i int) Val {
	switch s := v.p.(type) {
	case string:
		return Val{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

// mkStr makes a string of bytes (not retained if concrete; retained otherwise).
func mkStr(b []Val) Val {
	for _, x := range b {
		if x.p != nil {
			return Val{p: &SymStr{b}}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.n)
	}
	return Val{p: string(bs)}
}

func strBytes(v Val) []Val {
	switch s := v.p.(type) {
	case string:
		b := make([]Val, len(s))
		for i := 0; i < len(s); i++ {
			b[i].n = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes of %T", v.p))
}

func strSlice(v Val, lo, hi int) Val {
	switch s := v.p.(type) {
	case string:
		return Val{p: s[lo:hi]}
	case *SymStr:
		if lo == 0 && hi == len(s.b) {
			return v
		}
		return mkStr(s.b[lo:hi:hi])
	}
	panic("strSlice")
}

func strConcat(a, b Val) Val {
	x, ok1 := a.p.(string)
	y, ok2 := b.p.(string)
	if ok1 && ok2 {
		return Val{p: x + y}
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	xb, yb := strBytes(a), strBytes(b)
	r := make([]Val, 0, len(xb)+len(yb))
	r = append(append(r, xb...), yb...)
	return Val{p: &SymStr{r}}
}

func (m *Machine) strEq(a, b Val) *Expr {
	x, ok1 := a.p.(string)
	y, ok2 := b.p.(string)
	if ok1 && ok2 {
		return m.T.Bool(x == y)
	}
	if strLen(a) != strLen(b) {
		return m.T.False
	}
	r := m.T.True
	for i := strLen(a) - 1; i >= 0; i-- {
		r = m.T.And(r, m.T.Eq(m.byteExpr(strAt(a, i)), m.byteExpr(strAt(b, i))))
		if r == m.T.False {
			break
		}
	}
	return r
}

func (m *Machine) byteExpr(v Val) *Expr {
	if v.p == nil {
		return m.T.Const(8, v.n)
	}
	return v.p.(*Expr)
}

func (m *Machine) strLt(a, b Val) *Expr {
	x, ok1 := a.p.(string)
	y, ok2 := b.p.(string)
	if ok1 && ok2 {
		return m.T.Bool(x < y)
	}
	la, lb := strLen(a), strLen(b)
	n := min(la, lb)
	r := m.T.Bool(la < lb)
	for i := n - 1; i >= 0; i-- {
		p, q := m.byteExpr(strAt(a, i)), m.byteExpr(strAt(b, i))
		r = m.T.Or(m.T.ULt(p, q), m.T.And(m.T.Eq(p, q), r))
	}
	return r
}

// evalStr gives the string under the current model.
func (m *Machine) evalStr(v Val) string {
	switch s := v.p.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i, x := range s.b {
			b[i] = byte(m.evalVal(x))
		}
		return string(b)
	}
	return fmt.Sprintf("<%T>", v.p)
}

func (m *Machine) evalVal(x Val) uint64 {
	if x.p == nil {
		return x.n
	}
	return m.T.Eval(x.p.(*Expr))
}

// eq compares two values of a type.
func (m *Machine) eq(a, b Val, ti *TI) *Expr {
	T := m.T
	switch ti.k {
	case kBool, kInt:
		if a.p == nil && b.p == nil {
			return T.Bool(a.n == b.n)
		}
		return T.Eq(m.expr(a, ti), m.expr(b, ti))
	case kFloat:
		return T.Bool(toFloat(a, ti) == toFloat(b, ti))
	case kString:
		return m.strEq(a, b)
	case kIface:
		x, y := a.p, b.p
		if x == nil || y == nil {
			return T.Bool(x == nil && y == nil)
		}
		p, q := x.(*Iface), y.(*Iface)
		if p.t != q.t {
			return T.False
		}
		switch p.t.k {
		case kSlice, kMap, kFunc:
			m.panicStr("runtime error: comparing uncomparable type " + p.t.String())
		}
		return m.eq(p.v, q.v, p.t)
	case kStruct:
		x, y := a.p.(*Agg), b.p.(*Agg)
		r := T.True
		for i, f := range ti.fields {
			if ti.u.(*types.Struct).Field(i).Name() == "_" {
				continue
			}
			r = T.And(r, m.eq(x.f[i], y.f[i], f))
		}
		return r
	case kArray:
		x, y := a.p.(*Agg), b.p.(*Agg)
		r := T.True
		for i := range x.f {
			r = T.And(r, m.eq(x.f[i], y.f[i], ti.elem))
		}
		return r
	case kSlice, kFunc, kMap:
		// only comparisons with nil are legal
		return T.Bool(a.p == nil && b.p == nil)
	}
	return T.Bool(a.p == b.p)
}

func toFloat(v Val, ti *TI) float64 {
	if v.p != nil {
		unsupported("symbolic float")
	}
	return math.Float64frombits(v.n)
}

func floatVal(f float64, ti *TI) Val {
	if ti.w == 32 {
		f = float64(float32(f))
	}
	return Val{n: math.Float64bits(f)}
}

// Maps.

func keyCode(k Val, ti *TI) (string, bool) {
	switch ti.k {
	case kString:
		s, ok := k.p.(string)
		return s, ok
	case kInt, kBool:
		if k.p != nil {
			return "", false
		}
		return fmt.Sprintf("%d", k.n), true
	}
	return "", false
}

func newMap() *MapV { return &MapV{idx: map[string]int{}} }

func indexable(ti *TI) bool { return ti.k == kString || ti.k == kInt || ti.k == kBool }

// find returns the index of the entry with the key, or -1, forking if needed.
func (m *Machine) mapFind(mv *MapV, key Val, kt *TI) int {
	if indexable(kt) && mv.nsym == 0 {
		if c, ok := keyCode(key, kt); ok {
			if i, ok := mv.idx[c]; ok {
				return i
			}
			return -1
		}
	}
	var conds []*Expr
	var ids []int
	none := m.T.True
	for i := range mv.ents {
		if mv.ents[i].dead {
			continue
		}
		e := m.eq(mv.ents[i].k, key, kt)
		if e == m.T.False {
			continue
		}
		conds = append(conds, m.T.And(none, e))
		ids = append(ids, i)
		none = m.T.And(none, m.T.Not(e))
		if e == m.T.True {
			break
		}
	}
	if len(ids) == 0 {
		return -1
	}
	conds = append(conds, none)
	ids = append(ids, -1)
	return ids[m.fork(conds)]
}

func (m *Machine) mapLookup(mv *MapV, key Val, mt *TI) (Val, Val) {
	if mv == nil {
		return mt.elem.zero(), boolVal(false)
	}
	if m.shared != nil {
		m.read(mv)
	}
	if mt.elem.isScalar() && !(indexable(mt.key) && mv.nsym == 0 && concreteKey(key)) {
		r := m.expr(Val{}, mt.elem)
		found := m.T.False
		for i := len(mv.ents) - 1; i >= 0; i-- {
			if mv.ents[i].dead {
				continue
			}
			e := m.eq(mv.ents[i].k, key, mt.key)
			r = m.T.Ite(e, m.expr(mv.ents[i].v, mt.elem), r)
			found = m.T.Or(found, e)
		}
		return m.fromExpr(r, mt.elem.signed), m.fromExpr(found, false)
	}
	i := m.mapFind(mv, key, mt.key)
	if i < 0 {
		return mt.elem.zero(), boolVal(false)
	}
	return copyVal(mv.ents[i].v), boolVal(true)
}

func concreteKey(k Val) bool {
	switch k.p.(type) {
	case nil, string:
		return true
	}
	return false
}

func (m *Machine) mapSet(mv *MapV, key, v Val, mt *TI) {
	if mv == nil {
		m.panicStr("assignment to entry in nil map")
	}
	if m.shared != nil {
		m.wroteMap(mv)
	}
	i := m.mapFind(mv, key, mt.key)
	if i >= 0 {
		mv.ents[i].v = copyVal(v)
		return
	}
	mv.ents = append(mv.ents, mapEnt{k: key, v: copyVal(v)})
	mv.n++
	if indexable(mt.key) {
		if c, ok := keyCode(key, mt.key); ok {
			mv.idx[c] = len(mv.ents) - 1
		} else {
			mv.nsym++
		}
	}
}

func (m *Machine) mapDelete(mv *MapV, key Val, mt *TI) {
	if mv == nil {
		return
	}
	if m.shared != nil {
		m.wroteMap(mv)
	}
	i := m.mapFind(mv, key, mt.key)
	if i < 0 {
		return
	}
	mv.ents[i].dead = true
	mv.n--
	if indexable(mt.key) {
		if c, ok := keyCode(mv.ents[i].k, mt.key); ok {
			delete(mv.idx, c)
		} else {
			mv.nsym--
		}
	}
}

// Control transfers of the executor (Go panics).

type targetPanic struct{ v Val }

type pathEnd struct {
	kind string // "assume", "unsupported", "steps", "violation", "unknown"
	msg  string
}

type specAbort struct{}

func unsupported(format string, args ...any) {
	if os.Getenv("VERIF_STACK") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", args...)
		debug.PrintStack()
	}
	panic(pathEnd{"unsupported", fmt.Sprintf(format, args...)})
}

var _ = ssa.BuilderMode(0)
