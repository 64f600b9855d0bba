package engine

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// call runs a function.
func (m *Machine) call(fn *Fn, args []Val, env []Val, caller *Frame) Val {
	if fn.intr != nil {
		return fn.intr(m, args, caller)
	}
	if !fn.compiled {
		m.compile(fn)
	}
	if fn.blocks == nil {
		unsupported("function without Go source: %s", fn.name)
	}
	if fn.target && !m.Funcs[fn.f.String()] {
		m.Funcs[fn.f.String()] = true
	}
	if m.depth++; m.depth > m.MaxDepth {
		panic(pathEnd{"steps", "call depth exceeds " + fmt.Sprint(m.MaxDepth) + " in " + fn.name})
	}
	base := m.sp
	if base+fn.nregs > len(m.stack) {
		m.stack = make([]Val, 2*len(m.stack)+fn.nregs)
		// older frames keep their registers in the old array
	}
	regs := m.stack[base : base+fn.nregs : base+fn.nregs]
	m.sp = base + fn.nregs
	copy(regs, args)
	clear(regs[len(args):])
	fr := Frame{m: m, fn: fn, r: regs, env: env, caller: caller}
	var ret Val
	if fn.hasDefer {
		ret = fr.runProtected(base)
	} else {
		ret = fr.run(fn.blocks[0])
	}
	if m.depth > 64 {
		clear(regs) // do not keep what deep calls left there
	}
	m.sp = base
	m.depth--
	return ret
}

// run executes from a block until the function returns.
func (fr *Frame) run(b *Block) Val {
	m := fr.m
	for {
		m.steps += len(b.ins) + 1
		if m.steps > m.MaxSteps {
			panic(pathEnd{"steps", "more than " + fmt.Sprint(m.MaxSteps) + " steps; last in " + fr.fn.name})
		}
		for _, in := range b.ins {
			in(fr)
		}
		k := 0
		switch b.term {
		case tIf:
			c := fr.get(&b.cond)
			if c.p == nil {
				if c.n == 0 {
					k = 1
				}
			} else {
				e := c.p.(*Expr)
				if v, ok := m.decided(e); ok {
					if !v {
						k = 1
					}
				} else {
					if b.region != nil {
						if nb, ret, ok := fr.runRegion(b, e); ok {
							if nb == nil {
								return ret
							}
							b = nb
							continue
						}
					}
					if !m.branch(e) {
						k = 1
					}
				}
			}
		case tRet:
			switch len(b.rets) {
			case 0:
				return Val{}
			case 1:
				return fr.get(&b.rets[0])
			}
			t := make([]Val, len(b.rets))
			for i := range b.rets {
				t[i] = fr.get(&b.rets[i])
			}
			return Val{p: t}
		case tPanic:
			if m.spec > 0 {
				panic(specAbort{})
			}
			panic(&targetPanic{fr.get(&b.cond)})
		case tNone:
			unsupported("block without terminator in %s", fr.fn.name)
		}
		nb := b.succs[k]
		if nb == nil {
			unsupported("missing successor in %s", fr.fn.name)
		}
		if len(nb.phis) > 0 {
			fr.phis(nb, b.slot[k])
		}
		b = nb
	}
}

func (fr *Frame) phis(nb *Block, slot int) {
	if len(nb.phis) == 1 {
		p := &nb.phis[0]
		fr.r[p.dst] = fr.get(&p.src[slot])
		return
	}
	var buf [16]Val
	t := buf[:0]
	for i := range nb.phis {
		t = append(t, fr.get(&nb.phis[i].src[slot]))
	}
	for i := range nb.phis {
		fr.r[nb.phis[i].dst] = t[i]
	}
}

// runProtected runs a function that has deferred calls.
func (fr *Frame) runProtected(base int) (ret Val) {
	m := fr.m
	depth, spec := m.depth, m.spec
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				fr.panicking = tp
				m.depth, m.spec = depth, spec
				m.sp = base + fr.fn.nregs
			}
		}()
		ret = fr.run(fr.fn.blocks[0])
	}()
	if fr.panicking == nil {
		return ret
	}
	fr.runDefers()
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	if fr.fn.recover != nil {
		return fr.run(fr.fn.recover)
	}
	res := fr.fn.f.Signature.Results()
	switch res.Len() {
	case 0:
		return Val{}
	case 1:
		return m.ts.get(res.At(0).Type()).zero()
	}
	return m.ts.get(res).zero()
}

// runDefers runs deferred calls, last first; a panic in one replaces the
// current panic.
func (fr *Frame) runDefers() {
	m := fr.m
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth, sp := m.depth, m.sp
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = tp
					m.depth, m.sp = depth, sp
				}
			}()
			d.run(fr)
		}()
	}
	if fr.panicking != nil {
		return
	}
}

// callPrep compiles a call; prep is run when the call (or defer) statement
// executes and gives the function to run.
func (c *compiler) callPrep(cc *ssa.CallCommon) ([]opnd, func(fr *Frame, args []Val) func(fr *Frame, args []Val) Val) {
	m := c.m
	var args []opnd
	if cc.IsInvoke() {
		args = append(args, c.op(cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	switch {
	case cc.IsInvoke():
		meth := cc.Method
		return args, func(fr *Frame, args []Val) func(fr *Frame, args []Val) Val {
			f := fr.m.method(args[0], meth)
			return func(fr *Frame, args []Val) Val {
				a := append([]Val{args[0].p.(*Iface).v}, args[1:]...)
				return fr.m.call(f, a, nil, fr)
			}
		}
	default:
		switch v := cc.Value.(type) {
		case *ssa.Builtin:
			b := c.builtin(v, cc)
			return args, func(fr *Frame, args []Val) func(fr *Frame, args []Val) Val { return b }
		case *ssa.Function:
			f := m.fn(v)
			return args, func(fr *Frame, args []Val) func(fr *Frame, args []Val) Val {
				return func(fr *Frame, args []Val) Val { return fr.m.call(f, args, nil, fr) }
			}
		}
		fo := c.op(cc.Value)
		return args, func(fr *Frame, args []Val) func(fr *Frame, args []Val) Val {
			cl, _ := fr.get(&fo).p.(*Closure)
			return func(fr *Frame, args []Val) Val {
				if cl == nil {
					fr.m.panicStr("runtime error: invalid memory address or nil pointer dereference")
				}
				return fr.m.call(cl.fn, args, cl.env, fr)
			}
		}
	}
}

func (c *compiler) call(cc *ssa.CallCommon, dst int, rt *TI) instr {
	m := c.m
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	na := len(args)
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		meth := cc.Method
		var lastT *TI
		var lastF *Fn
		return func(fr *Frame) {
			rv := fr.get(&recv)
			i, _ := rv.p.(*Iface)
			if i == nil {
				fr.m.panicStr("runtime error: invalid memory address or nil pointer dereference")
			}
			if i.t != lastT {
				lastF = fr.m.method(rv, meth)
				lastT = i.t
			}
			var buf [8]Val
			a := append(buf[:0], i.v)
			for k := range args {
				a = append(a, fr.get(&args[k]))
			}
			fr.r[dst] = fr.m.call(lastF, a, nil, fr)
		}
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		b := c.builtin(v, cc)
		return func(fr *Frame) {
			a := make([]Val, na)
			for k := range args {
				a[k] = fr.get(&args[k])
			}
			fr.r[dst] = b(fr, a)
		}
	case *ssa.Function:
		f := m.fn(v)
		if f.isInit {
			return func(fr *Frame) {} // packages are initialised on first use
		}
		if c.fn.isInit && !c.fn.target {
			return func(fr *Frame) {
				a := make([]Val, na)
				for k := range args {
					a[k] = fr.get(&args[k])
				}
				fr.r[dst] = fr.m.tolerantCall(f, a, fr, rt)
			}
		}
		return func(fr *Frame) {
			var buf [6]Val
			a := buf[:0]
			for k := range args {
				a = append(a, fr.get(&args[k]))
			}
			fr.r[dst] = fr.m.call(f, a, nil, fr)
		}
	}
	fo := c.op(cc.Value)
	return func(fr *Frame) {
		cl, _ := fr.get(&fo).p.(*Closure)
		if cl == nil {
			fr.m.panicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		a := make([]Val, na)
		for k := range args {
			a[k] = fr.get(&args[k])
		}
		fr.r[dst] = fr.m.call(cl.fn, a, cl.env, fr)
	}
}

// tolerantCall is used in initialisers of the standard library: what cannot
// be executed leaves a zero value behind.
func (m *Machine) tolerantCall(f *Fn, a []Val, fr *Frame, rt *TI) (v Val) {
	depth, sp := m.depth, m.sp
	defer func() {
		if r := recover(); r != nil {
			if m.debug {
				fmt.Printf("init: call of %s: %v\n", f.name, r)
			}
			m.depth, m.sp = depth, sp
			v = rt.zero()
		}
	}()
	return m.call(f, a, nil, fr)
}

// method finds the method of a dynamic type.
func (m *Machine) method(recv Val, meth *types.Func) *Fn {
	i, _ := recv.p.(*Iface)
	if i == nil {
		m.panicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	return m.methodOf(i.t, meth.Pkg(), meth.Name())
}

func (m *Machine) methodOf(t *TI, pkg *types.Package, name string) *Fn {
	if f := t.ms[name]; f != nil {
		return f
	}
	sf := m.P.Prog.LookupMethod(t.T, pkg, name)
	if sf == nil {
		unsupported("no method %s on %v", name, t)
	}
	f := m.fn(sf)
	if t.ms == nil {
		t.ms = map[string]*Fn{}
	}
	t.ms[name] = f
	return f
}

// hasMethod finds an exported method by name.
func (m *Machine) hasMethod(t *TI, name string) *Fn {
	if f, ok := t.ms["?"+name]; ok {
		return f
	}
	var f *Fn
	if sel := m.P.Prog.MethodSets.MethodSet(t.T).Lookup(nil, name); sel != nil {
		if sf := m.P.Prog.MethodValue(sel); sf != nil {
			f = m.fn(sf)
		}
	}
	if t.ms == nil {
		t.ms = map[string]*Fn{}
	}
	t.ms["?"+name] = f
	return f
}

func slcOf(v Val) []Val {
	if s, ok := v.p.(*Slc); ok {
		return s.a
	}
	return nil
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon) func(fr *Frame, a []Val) Val {
	m := c.m
	var ts []*TI
	for _, x := range cc.Args {
		ts = append(ts, m.ts.get(x.Type()))
	}
	switch b.Name() {
	case "len", "cap":
		isCap := b.Name() == "cap"
		return func(fr *Frame, a []Val) Val {
			switch x := a[0].p.(type) {
			case string:
				return intVal(len(x))
			case *SymStr:
				return intVal(len(x.b))
			case *Slc:
				if isCap {
					return intVal(cap(x.a))
				}
				return intVal(len(x.a))
			case *MapV:
				return intVal(x.n)
			case *Agg:
				return intVal(len(x.f))
			case *Val: // pointer to array
				return intVal(len(x.p.(*Agg).f))
			case nil:
				if ts[0].k == kPtr && ts[0].elem != nil {
					return intVal(ts[0].elem.n)
				}
				return Val{}
			}
			unsupported("len of %T", a[0].p)
			return Val{}
		}
	case "append":
		elem := ts[0].elem
		return func(fr *Frame, a []Val) Val {
			if len(a) == 1 {
				return a[0]
			}
			var add []Val
			switch x := a[1].p.(type) {
			case *Slc:
				add = x.a
			case string, *SymStr:
				add = strBytes(a[1])
			}
			return fr.m.appendVals(a[0], add, elem)
		}
	case "copy":
		elem := ts[0].elem
		return func(fr *Frame, a []Val) Val {
			dst := slcOf(a[0])
			var src []Val
			switch x := a[1].p.(type) {
			case *Slc:
				src = x.a
			case string, *SymStr:
				src = strBytes(a[1])
			}
			n := min(len(dst), len(src))
			if fr.m.shared != nil {
				for i := range dst[:n] {
					fr.m.wrote(&dst[i])
				}
			}
			if elem.agg {
				tmp := make([]Val, n)
				for i := range tmp {
					tmp[i] = copyVal(src[i])
				}
				for i := range tmp {
					storeTo(&dst[i], tmp[i])
				}
			} else {
				copy(dst, src[:n])
			}
			return intVal(n)
		}
	case "delete":
		return func(fr *Frame, a []Val) Val {
			mv, _ := a[0].p.(*MapV)
			fr.m.mapDelete(mv, a[1], ts[0])
			return Val{}
		}
	case "clear":
		return func(fr *Frame, a []Val) Val {
			switch x := a[0].p.(type) {
			case *MapV:
				if fr.m.shared != nil {
					fr.m.wroteMap(x)
				}
				*x = *newMap()
			case *Slc:
				for i := range x.a {
					if fr.m.shared != nil {
						fr.m.wrote(&x.a[i])
					}
					storeTo(&x.a[i], ts[0].elem.zero())
				}
			}
			return Val{}
		}
	case "panic":
		return func(fr *Frame, a []Val) Val {
			if fr.m.spec > 0 {
				panic(specAbort{})
			}
			panic(&targetPanic{a[0]})
		}
	case "recover":
		return func(fr *Frame, a []Val) Val {
			c := fr.caller
			if c == nil || c.panicking == nil {
				return Val{}
			}
			p := c.panicking
			c.panicking = nil
			return p.v
		}
	case "print", "println":
		return func(fr *Frame, a []Val) Val { return Val{} }
	case "min", "max":
		isMax := b.Name() == "max"
		t := ts[0]
		return func(fr *Frame, a []Val) Val {
			r := a[0]
			T := fr.m.T
			for _, x := range a[1:] {
				switch t.k {
				case kInt:
					p, q := fr.m.expr(x, t), fr.m.expr(r, t)
					var lt *Expr
					if t.signed {
						lt = T.SLt(p, q)
					} else {
						lt = T.ULt(p, q)
					}
					if isMax {
						r = fr.m.fromExpr(T.Ite(lt, q, p), t.signed)
					} else {
						r = fr.m.fromExpr(T.Ite(lt, p, q), t.signed)
					}
				case kFloat:
					f, g := toFloat(r, t), toFloat(x, t)
					if isMax {
						r = floatVal(max(f, g), t)
					} else {
						r = floatVal(min(f, g), t)
					}
				case kString:
					lt := fr.m.strLt(x, r)
					if fr.m.branch(lt) != isMax {
						r = x
					}
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(fr *Frame, a []Val) Val {
			if a[0].p == nil {
				fr.m.panicStr("value method called using nil pointer")
			}
			return a[0]
		}
	case "ssa:deferstack":
		return func(fr *Frame, a []Val) Val { return Val{} }
	case "String":
		return func(fr *Frame, a []Val) Val {
			n := int(int64(fr.m.concreteInt(a[1], 64)))
			switch p := a[0].p.(type) {
			case *SlcPtr:
				return mkStr(append([]Val(nil), p.a[:n]...))
			case nil:
				return Val{p: ""}
			case *Val:
				if n == 1 {
					return mkStr([]Val{*p})
				}
				if n == 0 {
					return Val{p: ""}
				}
			}
			unsupported("unsafe.String")
			return Val{}
		}
	case "StringData":
		return func(fr *Frame, a []Val) Val { return Val{p: &SlcPtr{strBytes(a[0])}} }
	case "SliceData":
		return func(fr *Frame, a []Val) Val {
			s := slcOf(a[0])
			if s == nil {
				return Val{}
			}
			return Val{p: &SlcPtr{s[:cap(s)]}}
		}
	case "Slice":
		return func(fr *Frame, a []Val) Val {
			n := int(int64(fr.m.concreteInt(a[1], 64)))
			if p, ok := a[0].p.(*SlcPtr); ok {
				return Val{p: &Slc{p.a[:n:n]}}
			}
			if a[0].p == nil {
				return Val{}
			}
			unsupported("unsafe.Slice")
			return Val{}
		}
	}
	name := b.Name()
	return func(fr *Frame, a []Val) Val {
		unsupported("builtin %s", name)
		return Val{}
	}
}
