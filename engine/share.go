package engine

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// shared is the memory that other goroutines can see while a function runs:
// everything reachable from the package-level variables of the repository and
// from what the function captures. Synchronised objects (package sync and the
// file sets of go/token) are left out.
type shared struct {
	cells  map[*Val]struct{}
	maps   map[*MapV]struct{}
	locked map[any]bool // cells and maps written under a lock

	points int // lock acquisitions and uses of pools so far
	at     int // the one at which the other goroutine runs
	other  *Closure
	inside bool
}

func synchronised(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "go/token":
		return true
	}
	return false
}

func (s *shared) addCell(m *Machine, c *Val, ti *TI) {
	if ti == nil || synchronised(ti.T) {
		return
	}
	if _, ok := s.cells[c]; ok {
		if !ti.agg {
			return
		}
		if a, ok := c.p.(*Agg); !ok || len(a.f) == 0 {
			return
		} else if _, ok := s.cells[&a.f[0]]; ok {
			return
		}
	}
	s.cells[c] = struct{}{}
	s.add(m, *c, ti)
}

func (s *shared) add(m *Machine, v Val, ti *TI) {
	if v.p == nil || ti == nil || synchronised(ti.T) {
		return
	}
	switch ti.k {
	case kPtr:
		if c, ok := v.p.(*Val); ok && ti.elem != nil {
			s.addCell(m, c, ti.elem)
		}
	case kSlice:
		if x, ok := v.p.(*Slc); ok {
			a := x.a[:cap(x.a)]
			for i := range a {
				s.addCell(m, &a[i], ti.elem)
			}
		}
	case kMap:
		x, ok := v.p.(*MapV)
		if !ok {
			return
		}
		if _, ok := s.maps[x]; ok {
			return
		}
		s.maps[x] = struct{}{}
		for _, e := range x.ents {
			if !e.dead {
				s.add(m, e.k, ti.key)
				s.add(m, e.v, ti.elem)
			}
		}
	case kFunc:
		if cl, ok := v.p.(*Closure); ok && cl.fn.f != nil {
			for i, fv := range cl.fn.f.FreeVars {
				if i < len(cl.env) {
					s.add(m, cl.env[i], m.ts.get(fv.Type()))
				}
			}
		}
	case kIface:
		if x, ok := v.p.(*Iface); ok {
			s.add(m, x.v, x.t)
		}
	case kStruct:
		if a, ok := v.p.(*Agg); ok {
			for i := range a.f {
				s.addCell(m, &a.f[i], ti.fields[i])
			}
		}
	case kArray:
		if a, ok := v.p.(*Agg); ok {
			for i := range a.f {
				s.addCell(m, &a.f[i], ti.elem)
			}
		}
	}
}

// concurrently runs f while the memory it shares must not be written.
func (m *Machine) concurrently(at int, other, f Val, fr *Frame) Val {
	if m.shared != nil {
		unsupported("nested use of sym.Concurrently")
	}
	s := &shared{cells: map[*Val]struct{}{}, maps: map[*MapV]struct{}{}, locked: map[any]bool{}, at: at}
	for p := range m.P.Target {
		if !strings.HasPrefix(p.Pkg.Path(), "github.com/") {
			continue
		}
		m.ensureInit(p)
		for name, mb := range p.Members {
			if g, ok := mb.(*ssa.Global); ok && name != "init$guard" {
				s.addCell(m, m.rawGlobal(m.globalID(g)), m.ts.get(g.Type().Underlying().(*types.Pointer).Elem()))
			}
		}
	}
	cl := f.p.(*Closure)
	s.add(m, f, m.ts.get(cl.fn.f.Signature))
	if o, ok := other.p.(*Closure); ok {
		s.other = o
		s.add(m, other, m.ts.get(o.fn.f.Signature))
	}
	m.shared = s
	defer func() { m.shared = nil }()
	return m.call(cl.fn, nil, cl.env, fr)
}

// point is a place where another goroutine may run.
func (m *Machine) point(fr *Frame) {
	if s := m.shared; s != nil && !s.inside && len(m.held) == 0 && s.other != nil {
		if s.points++; s.points == s.at {
			s.inside = true
			m.call(s.other.fn, nil, s.other.env, fr)
			s.inside = false
		}
	}
}

// lock is an acquisition of a mutex.
func (m *Machine) lock(c *Val, write bool, fr *Frame) {
	m.point(fr)
	n := m.held[c]
	if n < 0 || write && n > 0 {
		m.violation("deadlock: a mutex is locked again")
		panic(pathEnd{"violation", "deadlock"})
	}
	if write {
		m.held[c] = -1
	} else {
		m.held[c] = n + 1
	}
}

func (m *Machine) unlock(c *Val) {
	switch n := m.held[c]; {
	case n == 0:
		m.violation("unlock of an unlocked mutex")
		panic(pathEnd{"violation", "unlock"})
	case n > 1:
		m.held[c] = n - 1
	default:
		delete(m.held, c)
	}
}

func (m *Machine) race(what string) {
	m.violation(what)
	panic(pathEnd{"violation", what})
}

// wrote is called for writes while memory is shared.
func (m *Machine) wrote(c *Val) {
	if m.inits > 0 || m.once > 0 {
		return
	}
	if _, ok := m.shared.cells[c]; !ok {
		return
	}
	if len(m.held) > 0 {
		m.shared.locked[c] = true
		return
	}
	m.race("data race: a write to memory that other goroutines use")
}

func (m *Machine) wroteMap(x *MapV) {
	if m.inits > 0 || m.once > 0 {
		return
	}
	if _, ok := m.shared.maps[x]; !ok {
		return
	}
	if len(m.held) > 0 {
		m.shared.locked[x] = true
		return
	}
	m.race("data race: a write to a map that other goroutines use")
}

// read is called for reads while memory is shared.
func (m *Machine) read(x any) {
	if len(m.held) == 0 && m.inits == 0 && m.once == 0 && m.shared.locked[x] {
		m.race("data race: a read without the lock that guards the writes")
	}
}
