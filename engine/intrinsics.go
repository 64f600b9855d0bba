package engine

import (
	"go/types"
	"math"
	"path"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic = func(m *Machine, a []Val, caller *Frame) Val

// pureIntrinsics may run speculatively.
var pureIntrinsics = map[string]bool{
	"unicode.IsLetter": true, "unicode.IsUpper": true, "unicode.IsLower": true, "unicode.IsSpace": true,
	"unicode.IsDigit": true, "unicode.IsNumber": true, "unicode.IsPunct": true, "unicode.IsControl": true,
	"strings.IndexByte": true, "bytes.IndexByte": true, "internal/bytealg.IndexByteString": true, "internal/bytealg.IndexByte": true,
	"internal/stringslite.IndexByte": true, "strings.IndexRune": true, "slices.Contains": true, "slices.Index": true,
	"unicode.IsPrint": true, "unicode.IsGraphic": true, "unicode.IsSymbol": true, "unicode.IsMark": true, "unicode.IsTitle": true,
}

var intrinsics map[string]intrinsic

func nop(m *Machine, a []Val, caller *Frame) Val { return Val{} }

func concreteBytes(b []Val) bool {
	for i := range b {
		if b[i].p != nil {
			return false
		}
	}
	return true
}

func str(v Val) (string, bool) { s, ok := v.p.(string); return s, ok }

func mustStr(v Val) string {
	s, ok := v.p.(string)
	if !ok {
		unsupported("symbolic string where a concrete one is needed")
	}
	return s
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I

	// harness interface
	I["verif/sym.Byte"] = func(m *Machine, a []Val, _ *Frame) Val { return Val{p: m.newVar(8)} }
	ascii := func(m *Machine) Val { return Val{p: m.T.ZExt(m.newVar(7), 8)} }
	I["verif/sym.ASCII"] = func(m *Machine, a []Val, _ *Frame) Val { return ascii(m) }
	I["verif/sym.Bool"] = func(m *Machine, a []Val, _ *Frame) Val { return Val{p: m.newVar(0)} }
	I["verif/sym.Any64"] = func(m *Machine, a []Val, _ *Frame) Val { return Val{p: m.newVar(64)} }
	I["verif/sym.Int"] = func(m *Machine, a []Val, _ *Frame) Val {
		e := m.T.SExt(m.newVar(32), 64)
		T := m.T
		m.assume(m.fromExpr(T.And(T.Not(T.SLt(e, T.Const(64, a[0].n))), T.Not(T.SLt(T.Const(64, a[1].n), e))), false))
		return Val{p: e}
	}
	I["verif/sym.Choice"] = func(m *Machine, a []Val, _ *Frame) Val {
		return intVal(m.choice(int(int64(m.concreteInt(a[0], 64)))))
	}
	I["verif/sym.Concrete"] = func(m *Machine, a []Val, _ *Frame) Val {
		return Val{n: m.concreteInt(a[0], 64)}
	}
	I["verif/sym.Bytes"] = func(m *Machine, a []Val, _ *Frame) Val {
		b := make([]Val, a[0].int())
		for i := range b {
			b[i] = Val{p: m.newVar(8)}
		}
		return Val{p: &Slc{b}}
	}
	I["verif/sym.ASCIIs"] = func(m *Machine, a []Val, _ *Frame) Val {
		b := make([]Val, a[0].int())
		for i := range b {
			b[i] = ascii(m)
		}
		return Val{p: &Slc{b}}
	}
	I["verif/sym.Assume"] = func(m *Machine, a []Val, _ *Frame) Val { m.assume(a[0]); return Val{} }
	I["verif/sym.Assert"] = func(m *Machine, a []Val, _ *Frame) Val {
		m.assert(a[0], m.evalStr(a[1]))
		return Val{}
	}
	I["verif/sym.Reach"] = func(m *Machine, a []Val, _ *Frame) Val {
		m.res.Reached = append(m.res.Reached, m.evalStr(a[0]))
		return Val{}
	}
	I["verif/sym.Observe"] = func(m *Machine, a []Val, _ *Frame) Val {
		v := a[0]
		m.res.observe(func() string { return m.evalStr(v) })
		return Val{}
	}
	I["verif/sym.ObserveInt"] = func(m *Machine, a []Val, _ *Frame) Val {
		v := a[0]
		m.res.observe(func() string { return strconv.FormatInt(int64(m.evalInt(v)), 10) })
		return Val{}
	}
	I["verif/sym.Concurrently"] = func(m *Machine, a []Val, fr *Frame) Val {
		return m.concurrently(int(int64(m.concreteInt(a[0], 64))), a[1], a[2], fr)
	}
	I["verif/sym.File"] = func(m *Machine, a []Val, _ *Frame) Val {
		m.files[mustStr(a[0])] = mkStr(append([]Val(nil), slcOf(a[1])...))
		return a[0]
	}
	I["os.ReadFile"] = func(m *Machine, a []Val, _ *Frame) Val {
		c, ok := m.files[path.Clean(mustStr(a[0]))]
		if !ok {
			return Val{p: []Val{{}, m.errorValue(strConcat(Val{p: "open "}, strConcat(a[0], Val{p: ": no such file or directory"})), Val{})}}
		}
		b := strBytes(c)
		s := make([]Val, len(b), len(b)+512)
		copy(s, b)
		return Val{p: []Val{{p: &Slc{s}}, {}}}
	}

	// locks and atomics: one thread
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.RWMutex).Lock"} {
		I[n] = func(m *Machine, a []Val, fr *Frame) Val { m.lock(fr.cell(a[0]), true, fr); return Val{} }
	}
	I["(*sync.RWMutex).RLock"] = func(m *Machine, a []Val, fr *Frame) Val { m.lock(fr.cell(a[0]), false, fr); return Val{} }
	for _, n := range []string{"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock"} {
		I[n] = func(m *Machine, a []Val, fr *Frame) Val { m.unlock(fr.cell(a[0])); return Val{} }
	}
	I["(*sync.Once).Do"] = func(m *Machine, a []Val, fr *Frame) Val {
		c := fr.cell(a[0])
		if m.onces[c] {
			return Val{}
		}
		m.once++
		defer func() { m.once--; m.onces[c] = true }()
		if f, ok := a[1].p.(*Closure); ok {
			m.call(f.fn, nil, f.env, fr)
		}
		return Val{}
	}
	for _, n := range []string{"runtime.KeepAlive", "runtime.Gosched", "runtime.GC",
		"(*strings.Builder).copyCheck", "internal/race.Acquire", "internal/race.Release",
		"fmt.Print", "fmt.Println", "fmt.Printf"} {
		I[n] = nop
	}
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf"} {
		I[n] = func(m *Machine, a []Val, _ *Frame) Val { return Val{p: []Val{{}, {}}} }
	}
	anyMap := func(m *Machine) *TI {
		e := types.Universe.Lookup("any").Type()
		return m.ts.get(types.NewMap(e, e))
	}
	syncMap := func(m *Machine, v Val, fr *Frame) *MapV {
		c := fr.cell(v)
		m.point(fr)
		mv := m.syncMaps[c]
		if mv == nil {
			mv = newMap()
			m.syncMaps[c] = mv
		}
		return mv
	}
	I["(*sync.Map).Load"] = func(m *Machine, a []Val, fr *Frame) Val {
		v, ok := m.mapLookup(syncMap(m, a[0], fr), a[1], anyMap(m))
		return Val{p: []Val{v, ok}}
	}
	I["(*sync.Map).Store"] = func(m *Machine, a []Val, fr *Frame) Val {
		m.mapSet(syncMap(m, a[0], fr), a[1], a[2], anyMap(m))
		return Val{}
	}
	I["(*sync.Map).LoadOrStore"] = func(m *Machine, a []Val, fr *Frame) Val {
		mv := syncMap(m, a[0], fr)
		i := m.mapFind(mv, a[1], anyMap(m).key)
		if i >= 0 {
			return Val{p: []Val{mv.ents[i].v, boolVal(true)}}
		}
		m.mapSet(mv, a[1], a[2], anyMap(m))
		return Val{p: []Val{a[2], boolVal(false)}}
	}
	I["(*sync.Map).LoadAndDelete"] = func(m *Machine, a []Val, fr *Frame) Val {
		mv := syncMap(m, a[0], fr)
		v, ok := m.mapLookup(mv, a[1], anyMap(m))
		m.mapDelete(mv, a[1], anyMap(m))
		return Val{p: []Val{v, ok}}
	}
	I["(*sync.Map).Delete"] = func(m *Machine, a []Val, fr *Frame) Val {
		m.mapDelete(syncMap(m, a[0], fr), a[1], anyMap(m))
		return Val{}
	}
	I["(*sync.Pool).Put"] = func(m *Machine, a []Val, fr *Frame) Val {
		c := fr.cell(a[0])
		if a[1].p != nil {
			m.pools[c] = append(m.pools[c], a[1])
		}
		m.point(fr)
		return Val{}
	}
	I["(*sync.Mutex).TryLock"] = func(m *Machine, a []Val, _ *Frame) Val { return boolVal(true) }
	I["(*sync.Pool).Get"] = func(m *Machine, a []Val, fr *Frame) Val {
		m.point(fr)
		c := a[0].p.(*Val)
		if l := m.pools[c]; len(l) > 0 {
			m.pools[c] = l[:len(l)-1]
			return l[len(l)-1]
		}
		ag := c.p.(*Agg)
		cl, _ := ag.f[len(ag.f)-1].p.(*Closure)
		if cl == nil {
			return Val{}
		}
		return m.call(cl.fn, nil, cl.env, fr)
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			I[pk+"Load"+t] = func(m *Machine, a []Val, _ *Frame) Val { return *a[0].p.(*Val) }
			I[pk+"Store"+t] = func(m *Machine, a []Val, _ *Frame) Val { *a[0].p.(*Val) = a[1]; return Val{} }
			I[pk+"Swap"+t] = func(m *Machine, a []Val, _ *Frame) Val {
				o := *a[0].p.(*Val)
				*a[0].p.(*Val) = a[1]
				return o
			}
			I[pk+"CompareAndSwap"+t] = func(m *Machine, a []Val, _ *Frame) Val {
				if *a[0].p.(*Val) == a[1] {
					*a[0].p.(*Val) = a[2]
					return boolVal(true)
				}
				return boolVal(false)
			}
			w, s := uint8(64), strings.HasPrefix(t, "Int")
			if strings.HasSuffix(t, "32") {
				w = 32
			}
			I[pk+"Add"+t] = func(m *Machine, a []Val, _ *Frame) Val {
				c := a[0].p.(*Val)
				if c.p != nil || a[1].p != nil {
					unsupported("atomic add of a symbolic value")
				}
				c.n = canon(c.n+a[1].n, w, s)
				return *c
			}
		}
	}

	// byte searching
	indexByte := func(m *Machine, b []Val, c Val) Val {
		if c.p != nil && len(b) <= 300 && concreteBytes(b) {
			// no case distinction: the place is a term
			r := m.T.Const(64, ^uint64(0))
			for i := len(b) - 1; i >= 0; i-- {
				r = m.T.Ite(m.T.Eq(m.byteExpr(b[i]), m.byteExpr(c)), m.T.Const(64, uint64(i)), r)
			}
			return m.fromExpr(r, true)
		}
		return m.firstMatch(len(b), func(i int) *Expr { return m.T.Eq(m.byteExpr(b[i]), m.byteExpr(c)) })
	}
	for _, n := range []string{"internal/bytealg.IndexByteString", "strings.IndexByte", "internal/stringslite.IndexByte"} {
		I[n] = func(m *Machine, a []Val, _ *Frame) Val { return indexByte(m, strBytes(a[0]), a[1]) }
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "bytes.IndexByte"} {
		I[n] = func(m *Machine, a []Val, _ *Frame) Val { return indexByte(m, slcOf(a[0]), a[1]) }
	}
	lastIndexByte := func(m *Machine, b []Val, c Val) Val {
		r := m.firstMatch(len(b), func(i int) *Expr { return m.T.Eq(m.byteExpr(b[len(b)-1-i]), m.byteExpr(c)) })
		if int64(r.n) < 0 {
			return r
		}
		return intVal(len(b) - 1 - r.int())
	}
	for _, n := range []string{"internal/bytealg.LastIndexByteString", "strings.LastIndexByte"} {
		I[n] = func(m *Machine, a []Val, _ *Frame) Val { return lastIndexByte(m, strBytes(a[0]), a[1]) }
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "bytes.LastIndexByte"} {
		I[n] = func(m *Machine, a []Val, _ *Frame) Val { return lastIndexByte(m, slcOf(a[0]), a[1]) }
	}
	I["strings.IndexRune"] = func(m *Machine, a []Val, fr *Frame) Val {
		s, ok := str(a[0])
		if !ok || a[1].p == nil || len(s) > 300 || !utf8.ValidString(s) || strings.ContainsRune(s, utf8.RuneError) {
			return m.callBody("strings.IndexRune", a, fr)
		}
		r := a[1].p.(*Expr)
		res := m.T.Const(64, ^uint64(0))
		var at []int
		for i := range s {
			at = append(at, i)
		}
		for k := len(at) - 1; k >= 0; k-- {
			c, _ := utf8.DecodeRuneInString(s[at[k]:])
			res = m.T.Ite(m.T.Eq(r, m.T.Const(32, uint64(uint32(c)))), m.T.Const(64, uint64(at[k])), res)
		}
		return m.fromExpr(res, true)
	}
	index := func(m *Machine, s, sub Val) Val {
		x, ok1 := str(s)
		y, ok2 := str(sub)
		if ok1 && ok2 {
			return intVal(strings.Index(x, y))
		}
		n, k := strLen(s), strLen(sub)
		if k > n {
			return intVal(-1)
		}
		return m.firstMatch(n-k+1, func(i int) *Expr { return m.strEq(strSlice(s, i, i+k), sub) })
	}
	for _, n := range []string{"strings.Index", "internal/stringslite.Index", "internal/bytealg.IndexString"} {
		I[n] = func(m *Machine, a []Val, _ *Frame) Val { return index(m, a[0], a[1]) }
	}
	for _, n := range []string{"bytes.Index", "internal/bytealg.Index"} {
		I[n] = func(m *Machine, a []Val, _ *Frame) Val {
			return index(m, mkStr(append([]Val(nil), slcOf(a[0])...)), mkStr(append([]Val(nil), slcOf(a[1])...)))
		}
	}
	count := func(m *Machine, b []Val, c Val) Val {
		r := m.T.Const(64, 0)
		for _, x := range b {
			e := m.T.Eq(m.byteExpr(x), m.byteExpr(c))
			r = m.T.Bin(OpAdd, r, m.T.Ite(e, m.T.Const(64, 1), m.T.Const(64, 0)))
		}
		return m.fromExpr(r, true)
	}
	I["internal/bytealg.CountString"] = func(m *Machine, a []Val, _ *Frame) Val { return count(m, strBytes(a[0]), a[1]) }
	I["internal/bytealg.Count"] = func(m *Machine, a []Val, _ *Frame) Val { return count(m, slcOf(a[0]), a[1]) }
	eqBytes := func(m *Machine, a []Val, _ *Frame) Val {
		return m.fromExpr(m.strEq(mkStr(append([]Val(nil), slcOf(a[0])...)), mkStr(append([]Val(nil), slcOf(a[1])...))), false)
	}
	I["bytes.Equal"] = eqBytes
	I["internal/bytealg.Equal"] = eqBytes
	cmp := func(m *Machine, x, y Val) Val {
		T := m.T
		lt := m.strLt(x, y)
		eq := m.strEq(x, y)
		return m.fromExpr(T.Ite(eq, T.Const(64, 0), T.Ite(lt, T.Const(64, ^uint64(0)), T.Const(64, 1))), true)
	}
	for _, n := range []string{"strings.Compare", "internal/bytealg.CompareString", "cmp.Compare[string]"} {
		I[n] = func(m *Machine, a []Val, _ *Frame) Val { return cmp(m, a[0], a[1]) }
	}
	for _, n := range []string{"bytes.Compare", "internal/bytealg.Compare"} {
		I[n] = func(m *Machine, a []Val, _ *Frame) Val {
			return cmp(m, mkStr(append([]Val(nil), slcOf(a[0])...)), mkStr(append([]Val(nil), slcOf(a[1])...)))
		}
	}
	I["internal/bytealg.MakeNoZero"] = func(m *Machine, a []Val, _ *Frame) Val {
		n := int(int64(m.concreteInt(a[0], 64)))
		return Val{p: &Slc{make([]Val, n, roundCap(n, 1))[:n:roundCap(n, 1)]}}
	}
	I["(*strings.Builder).String"] = func(m *Machine, a []Val, _ *Frame) Val {
		ag := a[0].p.(*Val).p.(*Agg)
		for _, f := range ag.f {
			if s, ok := f.p.(*Slc); ok {
				return mkStr(append([]Val(nil), s.a...))
			}
		}
		return Val{p: ""}
	}
	for _, n := range []string{"strings.Clone", "internal/stringslite.Clone", "internal/bytealg.abigen_runtime_cmpstring"} {
		I[n] = func(m *Machine, a []Val, _ *Frame) Val { return a[0] }
	}

	// ASCII summaries of case mapping; anything else runs the library code
	caseMap := func(name string, native func(string) string, lo, hi byte, delta uint64, bytesArg bool) {
		I[name] = func(m *Machine, a []Val, fr *Frame) Val {
			if s, ok := str(a[0]); ok {
				return Val{p: native(s)}
			}
			b := strBytes(a[0])
			if !m.allASCII(b) {
				return m.callBody(name, a, fr)
			}
			r := make([]Val, len(b))
			for i, x := range b {
				r[i] = m.fromExpr(m.asciiCase(m.byteExpr(x), lo, hi, delta), false)
			}
			return mkStr(r)
		}
	}
	caseMap("strings.ToLower", strings.ToLower, 'A', 'Z', 32, false)
	caseMap("strings.ToUpper", strings.ToUpper, 'a', 'z', ^uint64(31), false)
	I["strings.EqualFold"] = func(m *Machine, a []Val, fr *Frame) Val {
		x, ok1 := str(a[0])
		y, ok2 := str(a[1])
		if ok1 && ok2 {
			return boolVal(strings.EqualFold(x, y))
		}
		p, q := strBytes(a[0]), strBytes(a[1])
		if !m.allASCII(p) || !m.allASCII(q) {
			return m.callBody("strings.EqualFold", a, fr)
		}
		if len(p) != len(q) {
			return boolVal(false)
		}
		r := m.T.True
		for i := range p {
			r = m.T.And(r, m.T.Eq(m.asciiCase(m.byteExpr(p[i]), 'A', 'Z', 32), m.asciiCase(m.byteExpr(q[i]), 'A', 'Z', 32)))
		}
		return m.fromExpr(r, false)
	}

	// character classes, from Go's own tables
	class := func(name string, f func(rune) bool) {
		var rs []rune16range
		I[name] = func(m *Machine, a []Val, _ *Frame) Val {
			if a[0].p == nil {
				return boolVal(f(rune(int32(a[0].n))))
			}
			if rs == nil {
				rs = runeRanges(name, f)
			}
			e := a[0].p.(*Expr)
			r := m.T.False
			for i := len(rs) - 1; i >= 0; i-- {
				if uint64(rs[i].lo) > e.hi || uint64(rs[i].hi) < e.lo {
					continue
				}
				r = m.T.Or(m.inRange(e, uint64(rs[i].lo), uint64(rs[i].hi)), r)
			}
			return m.fromExpr(r, false)
		}
	}
	class("unicode.IsLetter", unicode.IsLetter)
	class("unicode.IsUpper", unicode.IsUpper)
	class("unicode.IsLower", unicode.IsLower)
	class("unicode.IsTitle", unicode.IsTitle)
	class("unicode.IsSpace", unicode.IsSpace)
	class("unicode.IsDigit", unicode.IsDigit)
	class("unicode.IsNumber", unicode.IsNumber)
	class("unicode.IsPunct", unicode.IsPunct)
	class("unicode.IsControl", unicode.IsControl)
	class("unicode.IsPrint", unicode.IsPrint)
	class("unicode.IsGraphic", unicode.IsGraphic)
	class("unicode.IsSymbol", unicode.IsSymbol)
	class("unicode.IsMark", unicode.IsMark)
	runeCase := func(name string, f func(rune) rune, lo, hi byte, delta uint64) {
		I[name] = func(m *Machine, a []Val, _ *Frame) Val {
			if a[0].p == nil {
				return Val{n: uint64(int64(f(rune(int32(a[0].n)))))}
			}
			e := a[0].p.(*Expr)
			if m.branch(m.T.ULt(e, m.T.Const(32, 0x80))) {
				c := m.inRange(e, uint64(lo), uint64(hi))
				return m.fromExpr(m.T.Ite(c, m.T.Bin(OpAdd, e, m.T.Const(32, delta)), e), true)
			}
			r := e
			for _, x := range caseRuns(name, f) {
				if uint64(x.lo) > e.hi || uint64(x.hi) < e.lo {
					continue
				}
				c := m.inRange(e, uint64(x.lo), uint64(x.hi))
				if x.stride == 2 {
					c = m.T.And(c, m.T.Eq(m.T.Bin(OpAnd, e, m.T.Const(32, 1)), m.T.Const(32, uint64(x.lo&1))))
				}
				r = m.T.Ite(c, m.T.Bin(OpAdd, e, m.T.Const(32, uint64(uint32(x.delta)))), r)
			}
			return m.fromExpr(r, true)
		}
	}
	runeCase("unicode.ToLower", unicode.ToLower, 'A', 'Z', 32)
	runeCase("unicode.ToUpper", unicode.ToUpper, 'a', 'z', ^uint64(31))

	// numbers
	I["strconv.Itoa"] = func(m *Machine, a []Val, _ *Frame) Val {
		return Val{p: strconv.Itoa(int(int64(m.concreteInt(a[0], 64))))}
	}
	I["strconv.FormatInt"] = func(m *Machine, a []Val, _ *Frame) Val {
		return Val{p: strconv.FormatInt(int64(m.concreteInt(a[0], 64)), int(int64(m.concreteInt(a[1], 64))))}
	}
	I["strconv.Quote"] = func(m *Machine, a []Val, _ *Frame) Val { return m.quote(a[0]) }
	I["math.Float64bits"] = func(m *Machine, a []Val, _ *Frame) Val { return a[0] }
	I["math.Float64frombits"] = func(m *Machine, a []Val, _ *Frame) Val { return a[0] }
	I["math.Float32bits"] = func(m *Machine, a []Val, _ *Frame) Val {
		return Val{n: uint64(math.Float32bits(float32(math.Float64frombits(a[0].n))))}
	}

	// errors
	I["errors.Is"] = func(m *Machine, a []Val, fr *Frame) Val { return m.errorsIs(a[0], a[1], fr) }
	I["errors.As"] = func(m *Machine, a []Val, fr *Frame) Val { return m.errorsAs(a[0], a[1], fr) }
	I["reflect.DeepEqual"] = func(m *Machine, a []Val, _ *Frame) Val {
		return m.fromExpr(m.deepEq(a[0], a[1], m.anyTI, map[[2]any]bool{}), false)
	}
	I["internal/reflectlite.TypeOf"] = nop
	I["reflect.TypeOf"] = func(m *Machine, a []Val, _ *Frame) Val { unsupported("reflect.TypeOf"); return Val{} }

	// sorting with a swapper
	sortSlice := func(m *Machine, a []Val, fr *Frame) Val {
		i, _ := a[0].p.(*Iface)
		if i == nil {
			return Val{}
		}
		s := slcOf(i.v)
		cl := a[1].p.(*Closure)
		for x := 1; x < len(s); x++ {
			for y := x; y > 0; y-- {
				if !m.branchVal(m.call(cl.fn, []Val{intVal(y), intVal(y - 1)}, cl.env, fr)) {
					break
				}
				s[y], s[y-1] = s[y-1], s[y]
			}
		}
		return Val{}
	}
	I["sort.Slice"] = sortSlice
	I["sort.SliceStable"] = sortSlice

	// formatting
	I["fmt.Sprintf"] = func(m *Machine, a []Val, fr *Frame) Val { s, _ := m.sprintf(a[0], slcOf(a[1]), fr); return s }
	I["fmt.Errorf"] = func(m *Machine, a []Val, fr *Frame) Val {
		s, w := m.sprintf(a[0], slcOf(a[1]), fr)
		return m.errorValue(s, w)
	}
	I["fmt.Sprint"] = func(m *Machine, a []Val, fr *Frame) Val { return m.sprint(slcOf(a[0]), fr, false) }
	I["fmt.Sprintln"] = func(m *Machine, a []Val, fr *Frame) Val { return m.sprint(slcOf(a[0]), fr, true) }
	fw := func(text func(m *Machine, a []Val, fr *Frame) Val) intrinsic {
		return func(m *Machine, a []Val, fr *Frame) Val {
			s := text(m, a, fr)
			i, _ := a[0].p.(*Iface)
			if i == nil {
				m.panicStr("runtime error: invalid memory address or nil pointer dereference")
			}
			b := strBytes(s)
			return m.call(m.methodOf(i.t, nil, "Write"), []Val{i.v, {p: &Slc{append([]Val(nil), b...)}}}, nil, fr)
		}
	}
	I["fmt.Fprintf"] = fw(func(m *Machine, a []Val, fr *Frame) Val { s, _ := m.sprintf(a[1], slcOf(a[2]), fr); return s })
	I["fmt.Fprint"] = fw(func(m *Machine, a []Val, fr *Frame) Val { return m.sprint(slcOf(a[1]), fr, false) })
	I["fmt.Fprintln"] = fw(func(m *Machine, a []Val, fr *Frame) Val { return m.sprint(slcOf(a[1]), fr, true) })
}

// callBody runs the Go source of a function that has an intrinsic.
func (m *Machine) callBody(name string, a []Val, fr *Frame) Val {
	for f, x := range m.fns {
		if x.name == name && x.f == f {
			in := x.intr
			x.intr = nil
			defer func() { x.intr = in }()
			return m.call(x, a, nil, fr)
		}
	}
	unsupported("no body for %s", name)
	return Val{}
}

// firstMatch is the index of the first true condition or -1.
func (m *Machine) firstMatch(n int, at func(int) *Expr) Val {
	none := m.T.True
	var conds []*Expr
	var ids []int
	for i := 0; i < n; i++ {
		e := at(i)
		if e == m.T.False {
			continue
		}
		conds = append(conds, m.T.And(none, e))
		ids = append(ids, i)
		if e == m.T.True {
			none = m.T.False
			break
		}
		none = m.T.And(none, m.T.Not(e))
	}
	conds = append(conds, none)
	ids = append(ids, -1)
	if len(conds) == 1 {
		return intVal(-1)
	}
	return intVal(ids[m.fork(conds)])
}

func (m *Machine) allASCII(b []Val) bool {
	c := m.T.True
	for _, x := range b {
		c = m.T.And(c, m.T.ULt(m.byteExpr(x), m.T.Const(8, 0x80)))
	}
	return m.branch(c)
}

func (m *Machine) asciiCase(e *Expr, lo, hi byte, delta uint64) *Expr {
	return m.T.Ite(m.inRange(e, uint64(lo), uint64(hi)), m.T.Bin(OpAdd, e, m.T.Const(8, delta)), e)
}

func (m *Machine) evalInt(v Val) uint64 {
	if e, ok := v.p.(*Expr); ok {
		return uint64(sext(m.T.Eval(e), e.w))
	}
	return v.n
}

func (r *PathResult) observe(f func() string) { r.obs = append(r.obs, f) }

type rune16range struct{ lo, hi rune }

func runeRanges(name string, f func(rune) bool) []rune16range {
	var rs []rune16range
	in := false
	for r := rune(0); r <= unicode.MaxRune+1; r++ {
		y := r <= unicode.MaxRune && f(r)
		if y && !in {
			rs = append(rs, rune16range{r, r})
		}
		if y {
			rs[len(rs)-1].hi = r
		}
		in = y
	}
	return rs
}

// errorsIs follows the Unwrap chain.
func (m *Machine) errorsIs(err, target Val, fr *Frame) Val {
	if err.p == nil || target.p == nil {
		return boolVal(err.p == nil && target.p == nil)
	}
	for {
		i := err.p.(*Iface)
		t := target.p.(*Iface)
		if i.t == t.t && types.Comparable(i.t.T) && m.branch(m.eq(i.v, t.v, i.t)) {
			return boolVal(true)
		}
		if f := m.hasMethod(i.t, "Is"); f != nil {
			if m.branchVal(m.call(f, []Val{i.v, target}, nil, fr)) {
				return boolVal(true)
			}
		}
		f := m.hasMethod(i.t, "Unwrap")
		if f == nil {
			return boolVal(false)
		}
		r := m.call(f, []Val{i.v}, nil, fr)
		if s, ok := r.p.(*Slc); ok {
			for _, e := range s.a {
				if v := m.errorsIs(e, target, fr); v.n != 0 {
					return v
				}
			}
			return boolVal(false)
		}
		if _, ok := r.p.(*Iface); !ok {
			return boolVal(false)
		}
		err = r
	}
}

func (m *Machine) errorsAs(err, target Val, fr *Frame) Val {
	t, _ := target.p.(*Iface)
	if t == nil {
		m.panicStr("errors: target cannot be nil")
	}
	want := t.t.elem
	for err.p != nil {
		i := err.p.(*Iface)
		if want.k == kIface {
			if m.implements(i.t, want) {
				storeTo(t.v.p.(*Val), err)
				return boolVal(true)
			}
		} else if i.t == want {
			storeTo(t.v.p.(*Val), i.v)
			return boolVal(true)
		}
		f := m.hasMethod(i.t, "Unwrap")
		if f == nil {
			break
		}
		r := m.call(f, []Val{i.v}, nil, fr)
		if s, ok := r.p.(*Slc); ok {
			for _, e := range s.a {
				if v := m.errorsAs(e, target, fr); v.n != 0 {
					return v
				}
			}
			break
		}
		err = r
	}
	return boolVal(false)
}

// deepEq is reflect.DeepEqual.
func (m *Machine) deepEq(a, b Val, ti *TI, seen map[[2]any]bool) *Expr {
	T := m.T
	switch ti.k {
	case kIface:
		if a.p == nil || b.p == nil {
			return T.Bool(a.p == nil && b.p == nil)
		}
		x, y := a.p.(*Iface), b.p.(*Iface)
		if x.t != y.t {
			return T.False
		}
		return m.deepEq(x.v, y.v, x.t, seen)
	case kPtr:
		if a.p == nil || b.p == nil || a.p == b.p {
			return T.Bool(a.p == b.p)
		}
		k := [2]any{a.p, b.p}
		if seen[k] {
			return T.True
		}
		seen[k] = true
		x, ok1 := a.p.(*Val)
		y, ok2 := b.p.(*Val)
		if !ok1 || !ok2 || ti.elem == nil {
			return T.False
		}
		return m.deepEq(*x, *y, ti.elem, seen)
	case kStruct, kArray:
		x, y := a.p.(*Agg), b.p.(*Agg)
		r := T.True
		for i := range x.f {
			ft := ti.elem
			if ti.k == kStruct {
				ft = ti.fields[i]
			}
			r = T.And(r, m.deepEq(x.f[i], y.f[i], ft, seen))
		}
		return r
	case kSlice:
		if a.p == nil || b.p == nil {
			return T.Bool(a.p == nil && b.p == nil)
		}
		x, y := slcOf(a), slcOf(b)
		if len(x) != len(y) {
			return T.False
		}
		r := T.True
		for i := range x {
			r = T.And(r, m.deepEq(x[i], y[i], ti.elem, seen))
		}
		return r
	case kMap:
		if a.p == nil || b.p == nil {
			return T.Bool(a.p == nil && b.p == nil)
		}
		x, y := a.p.(*MapV), b.p.(*MapV)
		if x.n != y.n {
			return T.False
		}
		r := T.True
		for i := range x.ents {
			if x.ents[i].dead {
				continue
			}
			j := m.mapFind(y, x.ents[i].k, ti.key)
			if j < 0 {
				return T.False
			}
			r = T.And(r, m.deepEq(x.ents[i].v, y.ents[j].v, ti.elem, seen))
		}
		return r
	case kFunc:
		return T.Bool(a.p == nil && b.p == nil)
	}
	return m.eq(a, b, ti)
}

var _ = utf8.RuneError

// caseRun is a run of characters that a case mapping moves by delta.
type caseRun struct {
	lo, hi rune
	stride rune
	delta  int32
}

var (
	caseMu   sync.Mutex
	caseTabs = map[string][]caseRun{}
)

func caseRuns(name string, f func(rune) rune) []caseRun {
	caseMu.Lock()
	defer caseMu.Unlock()
	if t, ok := caseTabs[name]; ok {
		return t
	}
	var t []caseRun
	for c := rune(0x80); c <= unicode.MaxRune; c++ {
		d := f(c) - c
		if d == 0 {
			continue
		}
		if n := len(t); n > 0 && t[n-1].delta == d {
			l := &t[n-1]
			if c == l.hi+1 && (l.stride == 1 || l.lo == l.hi) {
				l.hi, l.stride = c, 1
				continue
			}
			if c == l.hi+2 && (l.stride == 2 || l.lo == l.hi) {
				l.hi, l.stride = c, 2
				continue
			}
		}
		t = append(t, caseRun{c, c, 1, d})
	}
	caseTabs[name] = t
	return t
}

// slicesIntrinsic models searches in slices of integers.
func slicesIntrinsic(f *ssa.Function) intrinsic {
	o := f.Origin()
	if o == nil || o.Pkg == nil || o.Pkg.Pkg.Path() != "slices" || o.Name() != "Contains" && o.Name() != "Index" || f.Blocks == nil {
		return nil
	}
	if !isInt(f.Params[1].Type()) {
		return nil
	}
	contains := o.Name() == "Contains"
	return func(m *Machine, a []Val, fr *Frame) Val {
		ti := m.ts.get(f.Params[1].Type())
		x, xs := m.expr(a[1], ti), slcOf(a[0])
		r := m.T.Const(64, ^uint64(0))
		has := m.T.False
		for i := len(xs) - 1; i >= 0; i-- {
			e := m.T.Eq(x, m.expr(xs[i], ti))
			has = m.T.Or(has, e)
			r = m.T.Ite(e, m.T.Const(64, uint64(i)), r)
		}
		if contains {
			return m.fromExpr(has, false)
		}
		return m.fromExpr(r, true)
	}
}
