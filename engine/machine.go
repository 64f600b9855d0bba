package engine

import (
	"cmp"
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"slices"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Program is the shared, read-only part: the SSA form of /repo, the harnesses
// and everything they import.
type Program struct {
	Prog   *ssa.Program
	Target map[*ssa.Package]bool // packages reset on every path: /repo and harnesses
	Sizes  types.Sizes
}

// Machine executes one path at a time.
type Machine struct {
	P   *Program
	T   *Table
	S   *Solver
	ts  Types
	fns map[*ssa.Function]*Fn

	gid      map[*ssa.Global]int
	globals  []*ssa.Global
	syncMaps map[*Val]*MapV // contents of sync.Map
	shared   *shared        // memory seen by other goroutines
	held     map[*Val]int   // mutexes: -1 locked, n > 0 read-locked
	pools    map[*Val][]Val // contents of sync.Pool
	onces    map[*Val]bool  // sync.Once values that are done
	once     int            // calls of (*sync.Once).Do in progress
	gcells   []*Val
	initStd  map[*ssa.Package]bool
	initPath map[*ssa.Package]bool
	inits    int // depth of running package initialisers

	stack []Val
	sp    int
	depth int

	// path state
	pc      []*Expr
	known   map[*Expr]bool
	vars    []*Expr
	model   []uint64
	modelOK bool
	prefix  []uint64
	decs    []uint64
	spec    int
	steps   int
	res     *PathResult
	work    []Item

	MaxSteps int
	MaxDepth int
	cache    *Cache
	keys     [][2]uint64
	csbuf    []*Expr
	slbuf    []*Expr
	qbuf     []*Expr
	used     []bool
	pc1      []*Expr  // single-variable conjuncts, represented by dom
	dom      []bitset // by variable

	files map[string]Val // fake file system

	Funcs   map[string]bool // target functions executed
	Stats   ExploreStats
	strTI   *TI
	byteTI  *TI
	intTI   *TI
	boolTI  *TI
	anyTI   *TI
	errTI   *TI
	errStr  *TI // *errors.errorString
	wrapErr *TI // *fmt.wrapError
	debug   bool
}

type cacheEnt struct {
	v    Verdict
	vals []uint64 // pairs of variable number (relative to the least) and value
}

// Cache remembers solver answers by the shape of the query: the same
// constraints over variables shifted by a constant are one query.
type Cache struct {
	sh [64]struct {
		sync.Mutex
		m map[[2]uint64]cacheEnt
	}
}

// NewCache makes an empty cache.
func NewCache() *Cache {
	c := &Cache{}
	for i := range c.sh {
		c.sh[i].m = map[[2]uint64]cacheEnt{}
	}
	return c
}

func (c *Cache) get(k [2]uint64) (cacheEnt, bool) {
	s := &c.sh[k[0]%64]
	s.Lock()
	e, ok := s.m[k]
	s.Unlock()
	return e, ok
}

func (c *Cache) put(k [2]uint64, e cacheEnt) {
	s := &c.sh[k[0]%64]
	s.Lock()
	s.m[k] = e
	s.Unlock()
}

// Item is a path to explore: the decisions that lead to it and a model of
// its path condition.
type Item struct {
	Prefix []uint64
	Model  []uint64
}

// Violation is a failed assertion or crash with the inputs that cause it.
type Violation struct {
	Label  string
	Model  []uint64
	Widths []uint8
	Trace  string
}

// PathResult is what one path did.
type PathResult struct {
	End        string // "", "assume", "unsupported", "steps", "violation", "unknown"
	Msg        string
	Violations []Violation
	Reached    []string
	Observed   []string
	Model      []uint64
	Widths     []uint8
	Asserts    int
	obs        []func() string
}

// ExploreStats counts what a worker did.
type ExploreStats struct {
	Decisions, Forced, Forks  int
	Asserts, AssertsByConst   int
	Steps                     int
	RegionsTaken, RegionAbort int
	ConcreteMismatch          int
}

func NewMachine(p *Program) *Machine {
	m := &Machine{P: p, T: NewTable(), S: &Solver{}, fns: map[*ssa.Function]*Fn{},
		gid: map[*ssa.Global]int{}, initStd: map[*ssa.Package]bool{},
		cache: NewCache(), Funcs: map[string]bool{}, MaxSteps: 3_000_000, MaxDepth: 3000}
	m.ts.sizes = p.Sizes
	m.strTI = m.ts.get(types.Typ[types.String])
	m.byteTI = m.ts.get(types.Typ[types.Uint8])
	m.intTI = m.ts.get(types.Typ[types.Int])
	m.boolTI = m.ts.get(types.Typ[types.Bool])
	m.anyTI = m.ts.get(types.NewInterfaceType(nil, nil))
	m.errTI = m.ts.get(types.Universe.Lookup("error").Type())
	m.errStr = m.lookupPtrType("errors", "errorString")
	m.wrapErr = m.lookupPtrType("fmt", "wrapError")
	m.stack = make([]Val, 1<<14)
	return m
}

func (m *Machine) lookupPtrType(pkg, name string) *TI {
	for _, p := range m.P.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if t := p.Type(name); t != nil {
				return m.ts.get(types.NewPointer(t.Type()))
			}
		}
	}
	return nil
}

// errorValue is an error with a message (and a wrapped error).
func (m *Machine) errorValue(msg Val, wrapped Val) Val {
	if wrapped.p != nil && m.wrapErr != nil {
		c := &Val{p: &Agg{[]Val{msg, wrapped}}}
		return Val{p: &Iface{m.wrapErr, Val{p: c}}}
	}
	c := &Val{p: &Agg{[]Val{msg}}}
	return Val{p: &Iface{m.errStr, Val{p: c}}}
}

func (m *Machine) panicStr(msg string) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	panic(&targetPanic{m.errorValue(Val{p: msg}, Val{})})
}

// resetTables drops solver terms and caches when they have grown large.
func (m *Machine) resetTables() {
	if len(m.T.m) > 400_000 {
		m.T = NewTable()
		m.S.stop()
		// compiled code keeps no terms; stdlib globals hold none either
	}
}

// RunPath executes a function from a work item.
func (m *Machine) RunPath(fn *ssa.Function, args []Val, it Item) (res *PathResult) {
	m.resetTables()
	m.pc = m.pc[:0]
	m.pc1 = m.pc1[:0]
	m.dom = m.dom[:0]
	m.known = make(map[*Expr]bool, 64)
	m.vars = m.vars[:0]
	m.model = append([]uint64(nil), it.Model...)
	m.prefix = it.Prefix
	m.decs = m.decs[:0]
	m.spec, m.steps, m.depth, m.sp, m.inits, m.once = 0, 0, 0, 0, 0, 0
	if len(m.stack) > 1<<15 {
		clear(m.stack)
	}
	m.shared = nil
	m.held = map[*Val]int{}
	m.pools = map[*Val][]Val{}
	m.onces = map[*Val]bool{}
	m.syncMaps = map[*Val]*MapV{}
	m.work = m.work[:0]
	m.files = map[string]Val{}
	m.initPath = map[*ssa.Package]bool{}
	for i, g := range m.globals {
		if m.P.Target[g.Pkg] {
			m.gcells[i] = nil
		}
	}
	m.T.SetModel(m.model)
	res = &PathResult{}
	m.res = res
	defer func() {
		m.Stats.Steps += m.steps
		if res.End == "" {
			m.T.SetModel(m.model)
			for _, f := range res.obs {
				res.Observed = append(res.Observed, f())
			}
		}
		res.obs = nil
		res.Model = append([]uint64(nil), m.model...)
		for _, v := range m.vars {
			res.Widths = append(res.Widths, v.w)
		}
		for len(res.Model) < len(m.vars) {
			res.Model = append(res.Model, 0)
		}
		res.Model = res.Model[:len(m.vars)]
	}()
	func() {
		defer func() {
			switch r := recover().(type) {
			case nil:
			case *targetPanic:
				m.violation("panic: " + m.panicText(r.v))
				res.End = "violation"
			case pathEnd:
				res.End, res.Msg = r.kind, r.msg
			default:
				if m.debug {
					panic(r)
				}
				enginePanic.Do(func() { fmt.Fprintf(os.Stderr, "executor: %v\n%s\n", r, debug.Stack()) })
				res.End, res.Msg = "unsupported", fmt.Sprintf("engine: %v", r)
			}
		}()
		m.runEagerInits()
		m.call(m.fn(fn), args, nil, nil)
	}()
	// the model must satisfy the path condition
	for _, c := range append(m.pc1, m.pc...) {
		if m.T.Eval(c) == 0 {
			if res.End == "" || res.End == "violation" {
				res.End, res.Msg = "unknown", "model does not satisfy the path condition"
			}
			m.Stats.ConcreteMismatch++
			break
		}
	}
	return res
}

var enginePanic sync.Once

func (m *Machine) panicText(v Val) string {
	if i, ok := v.p.(*Iface); ok {
		if i.t == m.errStr {
			return m.evalStr(i.v.p.(*Val).p.(*Agg).f[0])
		}
		if i.t.k == kString {
			return m.evalStr(i.v)
		}
		return "value of type " + i.t.String()
	}
	return "nil"
}

func (m *Machine) violation(label string) {
	m.res.Violations = append(m.res.Violations, Violation{Label: label, Model: m.snapshotModel(m.model), Widths: m.widths()})
}

func (m *Machine) widths() []uint8 {
	w := make([]uint8, len(m.vars))
	for i, v := range m.vars {
		w[i] = v.w
	}
	return w
}

func (m *Machine) snapshotModel(md []uint64) []uint64 {
	r := make([]uint64, len(m.vars))
	copy(r, md)
	for i, v := range m.vars {
		r[i] &= mask(v.w)
	}
	return r
}

// newVar makes the next input variable.
func (m *Machine) newVar(w uint8) *Expr {
	if m.spec > 0 {
		panic(specAbort{})
	}
	k := len(m.vars)
	if k >= MaxVars {
		unsupported("more than %d input variables", MaxVars)
	}
	e := m.T.Var(k, w)
	m.vars = append(m.vars, e)
	var d bitset
	if w <= 8 {
		d = fullSet(w)
	}
	m.dom = append(m.dom, d)
	return e
}

// addPC adds a conjunct to the path condition.
func (m *Machine) addPC(c *Expr) {
	if c.op == OpConst {
		if c.val == 0 {
			panic(pathEnd{"unknown", "false path condition"})
		}
		return
	}
	if m.known[c] {
		return
	}
	m.learn(c)
	m.csbuf = m.conjuncts(c, m.csbuf[:0])
	for _, x := range m.csbuf {
		if x.sv >= 0 {
			m.pc1 = append(m.pc1, x)
		} else {
			m.pc = append(m.pc, x)
		}
	}
}

// conjuncts splits a conjunction.
func (m *Machine) conjuncts(c *Expr, out []*Expr) []*Expr {
	switch {
	case c.op == OpBAnd:
		return m.conjuncts(c.b, m.conjuncts(c.a, out))
	case c.op == OpBNot && c.a.op == OpBOr:
		return m.conjuncts(m.T.Not(c.a.b), m.conjuncts(m.T.Not(c.a.a), out))
	}
	return append(out, c)
}

func (m *Machine) learn(c *Expr) {
	if m.known[c] {
		return
	}
	m.known[c] = true
	if c.sv >= 0 {
		m.dom[c.sv] = m.dom[c.sv].and(m.bitmap(c))
	}
	switch c.op {
	case OpBAnd:
		m.learn(c.a)
		m.learn(c.b)
	case OpBNot:
		if c.a.op == OpBOr {
			m.learn(m.T.Not(c.a.a))
			m.learn(m.T.Not(c.a.b))
		}
	}
}

// decided reports whether the facts learnt on this path settle c syntactically.
func (m *Machine) decided(c *Expr) (val, ok bool) {
	if c.op == OpConst {
		return c.val != 0, true
	}
	if c.sv >= 0 {
		return m.domDecided(c)
	}
	if m.known[c] {
		return true, true
	}
	if c.op == OpBNot {
		if m.known[c.a] {
			return false, true
		}
		v, ok := m.decidedSub(c.a, 3)
		return !v, ok
	}
	if n := m.T.m[exprKey{op: OpBNot, a: c}]; n != nil && m.known[n] {
		return false, true
	}
	return m.decidedSub(c, 3)
}

func (m *Machine) decidedSub(c *Expr, d int) (bool, bool) {
	if c.op == OpConst {
		return c.val != 0, true
	}
	if c.sv >= 0 {
		return m.domDecided(c)
	}
	if m.known[c] {
		return true, true
	}
	if n := m.T.m[exprKey{op: OpBNot, a: c}]; n != nil && m.known[n] {
		return false, true
	}
	if d == 0 {
		return false, false
	}
	switch c.op {
	case OpBNot:
		v, ok := m.decidedSub(c.a, d-1)
		return !v, ok
	case OpBAnd:
		v1, ok1 := m.decidedSub(c.a, d-1)
		if ok1 && !v1 {
			return false, true
		}
		v2, ok2 := m.decidedSub(c.b, d-1)
		if ok2 && !v2 {
			return false, true
		}
		return true, ok1 && ok2
	case OpBOr:
		v1, ok1 := m.decidedSub(c.a, d-1)
		if ok1 && v1 {
			return true, true
		}
		v2, ok2 := m.decidedSub(c.b, d-1)
		if ok2 && v2 {
			return true, true
		}
		return false, ok1 && ok2
	}
	return false, false
}

// check decides pc && c. When satisfiable it returns a model of all of pc.
// The conjuncts of c and pc are split in groups without common variables,
// and every group that contains a conjunct of c is a query of its own.
func (m *Machine) check(c *Expr) (Verdict, []uint64) {
	cs := m.conjuncts(c, m.csbuf[:0])
	m.csbuf = cs
	// single-variable conjuncts narrow the domains for this query
	var saved [8]bitset
	var savedAt [8]int16
	ns := 0
	more := map[int16]bitset(nil)
	for _, x := range cs {
		if k := x.sv; k >= 0 {
			if ns < len(saved) {
				saved[ns], savedAt[ns] = m.dom[k], k
				ns++
			} else {
				if more == nil {
					more = map[int16]bitset{}
				}
				if _, ok := more[k]; !ok {
					more[k] = m.dom[k]
				}
			}
			m.dom[k] = m.dom[k].and(m.bitmap(x))
		}
	}
	defer func() {
		for k, d := range more {
			m.dom[k] = d
		}
		for i := ns - 1; i >= 0; i-- {
			m.dom[savedAt[i]] = saved[i]
		}
	}()
	np := len(m.pc)
	if cap(m.used) < np+len(cs) {
		m.used = make([]bool, 2*(np+len(cs)))
	}
	used := m.used[:np+len(cs)]
	clear(used)
	var md []uint64
	res := Sat
	for i, x := range cs {
		if used[np+i] {
			continue
		}
		used[np+i] = true
		sl := append(m.slbuf[:0], x)
		set := x.vars
		for changed := true; changed; {
			changed = false
			for j := np + len(cs) - 1; j >= 0; j-- {
				if used[j] {
					continue
				}
				var p *Expr
				if j < np {
					p = m.pc[j]
				} else {
					p = cs[j-np]
				}
				if p.vars.intersects(set) {
					used[j] = true
					sl = append(sl, p)
					if s := set.union(p.vars); s != set {
						set = s
						changed = true
					}
				}
			}
		}
		m.slbuf = sl
		// simplify under the domains and add them
		memo := map[*Expr]*Expr{}
		q := m.qbuf[:0]
		for _, p := range sl {
			if p.sv >= 0 {
				continue
			}
			if p = m.simp(p, memo); p != m.T.True {
				q = append(q, p)
			}
		}
		for k := range m.vars {
			if set.has(k) && m.vars[k].w <= 8 && m.dom[k] != fullSet(m.vars[k].w) {
				q = append(q, m.setExpr(int16(k), m.dom[k]))
			}
		}
		m.qbuf = q
		v, base, vals := m.query(q)
		switch v {
		case Unsat:
			return Unsat, nil
		case Unknown:
			res = Unknown
		case Sat:
			if md == nil {
				md = append(make([]uint64, 0, len(m.vars)+8), m.model...)
				for len(md) < len(m.vars) {
					md = append(md, 0)
				}
			}
			for i := 0; i < len(vals); i += 2 {
				md[vals[i]+uint64(base)] = vals[i+1]
			}
		}
	}
	if res != Sat {
		return res, nil
	}
	if md == nil {
		md = append([]uint64(nil), m.model...)
	}
	return Sat, md
}

// query decides a conjunction.
func (m *Machine) query(sl []*Expr) (Verdict, int16, []uint64) {
	base := int16(noVar)
	for _, x := range sl {
		base = min(base, x.minv)
	}
	keys := m.keys[:0]
	for _, x := range sl {
		d := uint64(0)
		if x.minv != noVar {
			d = uint64(x.minv-base) + 1
		}
		keys = append(keys, [2]uint64{mix(x.h1, d), mix(x.h2, d)})
	}
	m.keys = keys
	slices.SortFunc(keys, func(a, b [2]uint64) int {
		if c := cmp.Compare(a[0], b[0]); c != 0 {
			return c
		}
		return cmp.Compare(a[1], b[1])
	})
	key := [2]uint64{uint64(len(keys)), 1}
	for _, k := range keys {
		key[0] = mix(key[0], k[0])
		key[1] = mix(key[1], k[1])
	}
	ent, ok := m.cache.get(key)
	if ok {
		m.S.Stats.CacheHits++
	} else {
		// only the variables of the query: the answer is reused for every
		// equal one
		var of VarSet
		for _, x := range sl {
			of = of.union(x.vars)
		}
		var vs []*Expr
		for k, v := range m.vars {
			if of.has(k) {
				vs = append(vs, v)
			}
		}
		v, vals := m.S.Check(sl, vs)
		ent = cacheEnt{v: v}
		if v == Sat {
			for i, x := range vs {
				ent.vals = append(ent.vals, x.val-uint64(base), vals[i])
			}
		}
		if v != Unknown {
			m.cache.put(key, ent)
		}
	}
	return ent.v, base, ent.vals
}

const forcedBit = 1 << 63

// fork chooses one of mutually exclusive and, on this path, exhaustive
// conditions; the other feasible ones are queued.
func (m *Machine) fork(conds []*Expr) int {
	// decided syntactically?
	poss, last := 0, -1
	for i, c := range conds {
		v, ok := m.decided(c)
		if ok && v {
			return i
		}
		if !ok {
			poss++
			last = i
		}
	}
	if poss == 1 {
		return last
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	if poss == 0 {
		panic(pathEnd{"unknown", "no feasible alternative"})
	}
	i := len(m.decs)
	if i < len(m.prefix) {
		d := m.prefix[i]
		m.decs = append(m.decs, d)
		c := int(d & 0xffffffff)
		if k := int(d >> 32 & 0x7fffffff); k != len(conds) || c >= len(conds) {
			panic(pathEnd{"unknown", fmt.Sprintf("replay diverged: %d alternatives, expected %d", len(conds), k)})
		}
		if d&forcedBit != 0 {
			m.learn(conds[c])
		} else {
			m.addPC(conds[c])
		}
		return c
	}
	m.Stats.Decisions++
	cur := -1
	for i, c := range conds {
		if m.T.Eval(c) != 0 {
			cur = i
			break
		}
	}
	if cur < 0 {
		panic(pathEnd{"unknown", "model satisfies no alternative"})
	}
	k := uint64(len(conds)) << 32
	feas := 1
	base := len(m.decs)
	for i, c := range conds {
		if i == cur || c == m.T.False {
			continue
		}
		if v, ok := m.decided(c); ok && !v {
			continue
		}
		v, md := m.check(c)
		switch v {
		case Sat:
			feas++
			pre := make([]uint64, base+1)
			copy(pre, m.decs)
			pre[base] = uint64(i) | k
			m.work = append(m.work, Item{pre, md})
		case Unknown:
			m.res.Msg = "solver gave no answer for an alternative"
			m.res.End = "unknown"
			feas++
		}
	}
	d := uint64(cur) | k
	if feas == 1 {
		m.Stats.Forced++
		d |= forcedBit
		m.decs = append(m.decs, d)
		m.learn(conds[cur])
	} else {
		m.Stats.Forks++
		m.decs = append(m.decs, d)
		m.addPC(conds[cur])
	}
	return cur
}

// branch decides a condition.
func (m *Machine) branch(c *Expr) bool {
	if v, ok := m.decided(c); ok {
		return v
	}
	return m.fork([]*Expr{c, m.T.Not(c)}) == 0
}

// branchVal decides a boolean value.
func (m *Machine) branchVal(v Val) bool {
	if v.p == nil {
		return v.n != 0
	}
	return m.branch(v.p.(*Expr))
}

// choice forks over 0..n-1 with a fresh variable.
func (m *Machine) choice(n int) int {
	if n <= 0 {
		unsupported("choice of %d", n)
	}
	e := m.newVar(16)
	i := len(m.decs)
	k := uint64(n) << 32
	idx := int(e.val)
	if i < len(m.prefix) {
		d := m.prefix[i]
		m.decs = append(m.decs, d)
		c := int(d & 0xffffffff)
		if int(d>>32&0x7fffffff) != n {
			panic(pathEnd{"unknown", "replay diverged at a choice"})
		}
		m.addPC(m.T.Eq(e, m.T.Const(16, uint64(c))))
		return c
	}
	for len(m.model) <= idx {
		m.model = append(m.model, 0)
	}
	m.model[idx] = 0
	m.T.SetModel(m.model)
	base := len(m.decs)
	for c := n - 1; c > 0; c-- {
		pre := make([]uint64, base+1)
		copy(pre, m.decs)
		pre[base] = uint64(c) | k
		md := append([]uint64(nil), m.model...)
		md[idx] = uint64(c)
		m.work = append(m.work, Item{pre, md})
	}
	m.Stats.Forks++
	m.decs = append(m.decs, k)
	m.addPC(m.T.Eq(e, m.T.Const(16, 0)))
	return 0
}

// concretize forks over every feasible value of e.
func (m *Machine) concretize(e *Expr) uint64 {
	if e.op == OpConst {
		return e.val
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	i := len(m.decs)
	if i+1 < len(m.prefix) || (i < len(m.prefix) && m.prefix[i] == concMark) {
		if m.prefix[i] != concMark || i+1 >= len(m.prefix) {
			panic(pathEnd{"unknown", "replay diverged at a concretisation"})
		}
		v := m.prefix[i+1]
		m.decs = append(m.decs, concMark, v)
		m.addPC(m.T.Eq(e, m.T.Const(e.w, v)))
		return v
	}
	m.Stats.Decisions++
	cur := m.T.Eval(e)
	excl := m.T.Not(m.T.Eq(e, m.T.Const(e.w, cur)))
	base := len(m.decs)
	for n := 0; ; n++ {
		if n > 600 {
			unsupported("a value with more than 600 possibilities must be concrete")
		}
		v, md := m.check(excl)
		if v == Unknown {
			m.res.End, m.res.Msg = "unknown", "solver gave no answer for a concretisation"
			break
		}
		if v == Unsat {
			break
		}
		m.T.SetModel(md)
		x := m.T.Eval(e)
		m.T.SetModel(m.model)
		pre := make([]uint64, base+2)
		copy(pre, m.decs)
		pre[base], pre[base+1] = concMark, x
		m.work = append(m.work, Item{pre, md})
		excl = m.T.And(excl, m.T.Not(m.T.Eq(e, m.T.Const(e.w, x))))
	}
	m.Stats.Forks++
	m.decs = append(m.decs, concMark, cur)
	m.addPC(m.T.Eq(e, m.T.Const(e.w, cur)))
	return cur
}

const concMark = 0x7ffffffe_ffffffff

// assume restricts the path.
func (m *Machine) assume(v Val) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	if v.p == nil {
		if v.n == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	c := v.p.(*Expr)
	if val, ok := m.decided(c); ok {
		if !val {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if m.T.Eval(c) != 0 {
		m.addPC(c)
		return
	}
	r, md := m.check(c)
	switch r {
	case Unsat:
		panic(pathEnd{"assume", ""})
	case Unknown:
		panic(pathEnd{"unknown", "solver gave no answer for an assumption"})
	}
	m.model = md
	m.T.SetModel(md)
	m.addPC(c)
}

// assert decides a property on this path for every value of the inputs.
func (m *Machine) assert(v Val, label string) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	m.Stats.Asserts++
	m.res.Asserts++
	if v.p == nil {
		m.Stats.AssertsByConst++
		if v.n == 0 {
			m.violation(label)
			panic(pathEnd{"violation", label})
		}
		return
	}
	c := v.p.(*Expr)
	for _, c := range m.conjuncts(c, nil) {
		m.assertOne(c, label)
	}
}

func (m *Machine) assertOne(c *Expr, label string) {
	if val, ok := m.decided(c); ok && val {
		return
	}
	r, md := m.check(m.T.Not(c))
	switch r {
	case Sat:
		m.res.Violations = append(m.res.Violations, Violation{Label: label, Model: m.snapshotModel(md), Widths: m.widths()})
		panic(pathEnd{"violation", label})
	case Unknown:
		m.res.End, m.res.Msg = "unknown", "solver gave no answer for assertion "+label
	case Unsat:
		m.learn(c)
	}
}

// Global variables.

func (m *Machine) globalID(g *ssa.Global) int {
	if i, ok := m.gid[g]; ok {
		return i
	}
	i := len(m.globals)
	m.gid[g] = i
	m.globals = append(m.globals, g)
	m.gcells = append(m.gcells, nil)
	return i
}

func (m *Machine) global(i int) *Val {
	if c := m.gcells[i]; c != nil {
		return c
	}
	g := m.globals[i]
	m.ensureInit(g.Pkg)
	return m.rawGlobal(i)
}

func (m *Machine) rawGlobal(i int) *Val {
	if c := m.gcells[i]; c != nil {
		return c
	}
	g := m.globals[i]
	c := new(Val)
	*c = m.ts.get(g.Type().Underlying().(*types.Pointer).Elem()).zero()
	m.gcells[i] = c
	return c
}

// ensureInit runs a package's initialiser on first use of its variables.
func (m *Machine) ensureInit(p *ssa.Package) {
	done := m.initStd
	if m.P.Target[p] {
		done = m.initPath
	}
	if done[p] {
		return
	}
	done[p] = true
	f := p.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	spec := m.spec
	m.spec = 0
	m.inits++
	depth := m.depth
	steps := m.steps
	defer func() {
		m.spec = spec
		m.inits--
		m.depth = depth
		if !m.P.Target[p] {
			m.steps = steps
			switch r := recover().(type) {
			case nil:
			case pathEnd, *targetPanic:
				if m.debug {
					fmt.Printf("init of %s stopped: %v\n", p.Pkg.Path(), r)
				}
			default:
				panic(r)
			}
		}
	}()
	m.call(m.fn(f), nil, nil, nil)
}

// runEagerInits initialises target packages that declare init functions.
func (m *Machine) runEagerInits() {
	for p := range m.P.Target {
		for name := range p.Members {
			if strings.HasPrefix(name, "init#") {
				m.ensureInit(p)
				break
			}
		}
	}
}
