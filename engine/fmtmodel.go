package engine

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// sprintf models fmt.Sprintf: exact for the verbs and kinds used with concrete
// operands; symbolic strings are spliced in for %s and %v. It also returns the
// operand of a %w verb.
func (m *Machine) sprintf(format Val, args []Val, fr *Frame) (Val, Val) {
	f := mustStr(format)
	res := Val{p: ""}
	var wrapped Val
	n := 0
	lit := func(s string) { res = strConcat(res, Val{p: s}) }
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			lit(f[i:])
			break
		}
		lit(f[i : i+j])
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		flags, verb := f[i+1:k], f[k]
		i = k + 1
		if verb == '%' {
			lit("%")
			continue
		}
		if n >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		arg := args[n]
		n++
		if verb == 'w' {
			wrapped = arg
		}
		res = strConcat(res, m.format(arg, flags, verb, fr))
	}
	if n < len(args) {
		lit("%!(EXTRA)")
	}
	return res, wrapped
}

func (m *Machine) sprint(args []Val, fr *Frame, ln bool) Val {
	res := Val{p: ""}
	for i, a := range args {
		if i > 0 {
			x, _ := args[i-1].p.(*Iface)
			y, _ := a.p.(*Iface)
			if ln || !(x != nil && x.t.k == kString) && !(y != nil && y.t.k == kString) {
				res = strConcat(res, Val{p: " "})
			}
		}
		res = strConcat(res, m.format(a, "", 'v', fr))
	}
	if ln {
		res = strConcat(res, Val{p: "\n"})
	}
	return res
}

// callCaught calls a String or Error method; like fmt, it turns panics into text.
func (m *Machine) callCaught(f *Fn, recv Val, name string, fr *Frame) (s Val) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(*targetPanic); !ok {
				panic(r)
			}
			s = Val{p: "%!v(PANIC=" + name + " method)"}
		}
	}()
	return m.call(f, []Val{recv}, nil, fr)
}

func (m *Machine) format(arg Val, flags string, verb byte, fr *Frame) Val {
	i, _ := arg.p.(*Iface)
	if verb == 'T' {
		if i == nil {
			return Val{p: "<nil>"}
		}
		return Val{p: types.TypeString(i.t.T, func(p *types.Package) string { return p.Name() })}
	}
	if i == nil {
		switch verb {
		case 'v':
			return Val{p: "<nil>"}
		}
		return Val{p: "%!" + string(verb) + "(<nil>)"}
	}
	if strings.IndexByte("vswq", verb) >= 0 {
		for _, name := range []string{"Error", "String"} {
			f := m.hasMethod(i.t, name)
			if f == nil || len(f.f.Params) != 1 || f.f.Signature.Results().Len() != 1 || m.ts.get(f.f.Signature.Results().At(0).Type()) != m.strTI {
				continue
			}
			if i.t.k == kPtr && i.v.p == nil {
				return Val{p: "<nil>"}
			}
			s := m.callCaught(f, i.v, name, fr)
			if verb == 'q' {
				return m.quoteApprox(s, fr)
			}
			return s
		}
	}
	switch i.t.k {
	case kString:
		switch verb {
		case 's', 'v', 'w':
			if s, ok := str(i.v); ok && flags != "" {
				return Val{p: fmt.Sprintf("%"+flags+string(verb), s)}
			}
			return i.v
		case 'q':
			return m.quoteApprox(i.v, fr)
		case 'x', 'X':
			if s, ok := str(i.v); ok {
				return Val{p: fmt.Sprintf("%"+flags+string(verb), s)}
			}
		}
	case kInt:
		if i.v.p == nil {
			sp := "%" + flags + string(verb)
			if i.t.signed {
				return Val{p: fmt.Sprintf(sp, int64(i.v.n))}
			}
			return Val{p: fmt.Sprintf(sp, i.v.n)}
		}
		if verb == 'c' {
			return m.runeToStr(i.v, i.t)
		}
		return Val{p: "?"}
	case kBool:
		if i.v.p == nil {
			return Val{p: strconv.FormatBool(i.v.n != 0)}
		}
		return Val{p: "?"}
	case kFloat:
		return Val{p: fmt.Sprintf("%"+flags+string(verb), toFloat(i.v, i.t))}
	case kSlice:
		a := slcOf(i.v)
		if verb == 's' && i.t.elem.k == kInt && i.t.elem.w == 8 {
			return mkStr(append([]Val(nil), a...))
		}
		if i.t.elem.k == kString || i.t.elem.k == kInt {
			res := Val{p: "["}
			for k, x := range a {
				if k > 0 {
					res = strConcat(res, Val{p: " "})
				}
				res = strConcat(res, m.format(Val{p: &Iface{i.t.elem, x}}, flags, verb, fr))
			}
			return strConcat(res, Val{p: "]"})
		}
	}
	return Val{p: "<" + i.t.String() + ">"}
}

// quoteApprox is exact where the text matters (the debug printer of package
// asts and harnesses); in error messages symbolic text is quoted verbatim.
func (m *Machine) quoteApprox(v Val, fr *Frame) Val {
	if s, ok := str(v); ok {
		return Val{p: strconv.Quote(s)}
	}
	if fr != nil && fr.fn.f.Pkg != nil {
		if p := fr.fn.f.Pkg.Pkg.Path(); strings.HasSuffix(p, "/asts") || strings.HasPrefix(p, "verif/") {
			return m.quote(v)
		}
	}
	return strConcat(Val{p: `"`}, strConcat(v, Val{p: `"`}))
}

// quote is strconv.Quote.
func (m *Machine) quote(v Val) Val {
	if s, ok := str(v); ok {
		return Val{p: strconv.Quote(s)}
	}
	T := m.T
	res := []Val{{n: '"'}}
	n := strLen(v)
	for i := 0; i < n; i++ {
		b := strAt(v, i)
		e := m.byteExpr(b)
		plain := T.And(m.inRange(e, 0x20, 0x7e), T.And(T.Not(T.Eq(e, T.Const(8, '"'))), T.Not(T.Eq(e, T.Const(8, '\\')))))
		if m.branch(plain) {
			res = append(res, b)
			continue
		}
		if m.branch(T.Or(T.Eq(e, T.Const(8, '"')), T.Eq(e, T.Const(8, '\\')))) {
			res = append(res, Val{n: '\\'}, b)
			continue
		}
		if !m.branch(T.ULt(e, T.Const(8, 0x80))) {
			unsupported("quoting a symbolic non-ASCII string")
		}
		c := m.concretize(e)
		q := strconv.Quote(string(rune(c)))
		res = append(res, strBytes(Val{p: q[1 : len(q)-1]})...)
	}
	return mkStr(append(res, Val{n: '"'}))
}
