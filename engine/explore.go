package engine

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Load builds the SSA form of the harness package and everything it imports,
// from the sources as they are now.
func Load(dir, pattern string, env []string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	pkgs, err := packages.Load(cfg, pattern)
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("%d packages for %s", len(pkgs), pattern)
	}
	if packages.PrintErrors(pkgs) > 0 {
		return nil, fmt.Errorf("errors loading %s", pattern)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Prog: prog, Target: map[*ssa.Package]bool{}, Sizes: pkgs[0].TypesSizes}
	for _, sp := range prog.AllPackages() {
		path := sp.Pkg.Path()
		if strings.HasPrefix(path, "github.com/jschaf/bibtex") || path == "verif/h" {
			p.Target[sp] = true
		}
	}
	return p, nil
}

// Func finds a package-level function.
func (p *Program) Func(pkg, name string) *ssa.Function {
	for _, sp := range p.Prog.AllPackages() {
		if sp.Pkg.Path() == pkg {
			return sp.Func(name)
		}
	}
	return nil
}

// Report is what the exploration of one harness at one bound found.
type Report struct {
	Paths, Complete, Assumed int
	Decisions                int
	Ends                     map[string]int // reduced bound: kind and message -> paths
	Reached                  map[string]int
	Violations               []Violation // candidates, to be replayed
	Suspects                 []Violation // hang candidates and unsupported paths
	Samples                  []Sample
	Funcs                    map[string]bool
	Stats                    ExploreStats
	Solver                   SolverStats
	Exhausted                bool // every path within the bound was explored
	Wall                     time.Duration
}

// Sample is a completed path: inputs and what the executor says the code does.
type Sample struct {
	Model    []uint64
	Widths   []uint8
	Observed []string
}

// Limits bound an exploration.
type Limits struct {
	Deadline   time.Time
	Workers    int
	MaxViol    int
	MaxSamples int
	Seed       int64
	Cross      int
	Size       int // of the input, to which the limits of a path are proportional
}

// Pool keeps one machine per worker across explorations.
type Pool struct {
	P  *Program
	ms []*Machine
}

// NewPool makes a pool.
func NewPool(p *Program, workers int, debug bool) *Pool {
	pl := &Pool{P: p}
	cache := NewCache()
	for i := 0; i < workers; i++ {
		m := NewMachine(p)
		m.cache = cache
		m.debug = debug
		pl.ms = append(pl.ms, m)
	}
	return pl
}

// Close stops the solvers.
func (pl *Pool) Close() {
	for _, m := range pl.ms {
		m.S.stop()
	}
}

// IntSlice makes an argument of type []int.
func IntSlice(xs []int) Val {
	a := make([]Val, len(xs))
	for i, x := range xs {
		a[i] = Val{n: uint64(int64(x))}
	}
	return Val{p: &Slc{a}}
}

// Explore runs every path of fn(params).
func (pl *Pool) Explore(fn *ssa.Function, params []int, lim Limits) *Report {
	rep := &Report{Ends: map[string]int{}, Reached: map[string]int{}, Funcs: map[string]bool{}}
	t0 := time.Now()
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	work := []Item{{}}
	busy := 0
	stop := false
	truncated := false
	rng := uint64(lim.Seed)*0x9e3779b97f4a7c15 + 1
	seen := 0
	var wg sync.WaitGroup
	for w := range pl.ms {
		m := pl.ms[w]
		m.S.Cross = lim.Cross
		m.MaxSteps = 3_000_000 + 2000*lim.Size
		m.MaxDepth = 3000 + 20*lim.Size
		m.Stats = ExploreStats{}
		m.S.Stats = SolverStats{}
		m.Funcs = map[string]bool{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			for {
				for len(work) == 0 && busy > 0 && !stop {
					cond.Wait()
				}
				if stop || len(work) == 0 {
					cond.Broadcast()
					return
				}
				if time.Now().After(lim.Deadline) {
					truncated = true
					stop = true
					cond.Broadcast()
					return
				}
				it := work[len(work)-1]
				work = work[:len(work)-1]
				busy++
				mu.Unlock()
				r := m.RunPath(fn, []Val{IntSlice(params)}, it)
				newWork := append([]Item(nil), m.work...)
				mu.Lock()
				busy--
				work = append(work, newWork...)
				rep.Paths++
				for _, l := range r.Reached {
					rep.Reached[l]++
				}
				switch r.End {
				case "":
					rep.Complete++
					seen++
					s := Sample{r.Model, r.Widths, r.Observed}
					if len(rep.Samples) < lim.MaxSamples {
						rep.Samples = append(rep.Samples, s)
					} else if lim.MaxSamples > 0 {
						rng ^= rng << 13
						rng ^= rng >> 7
						rng ^= rng << 17
						if k := int(rng % uint64(seen)); k < lim.MaxSamples {
							rep.Samples[k] = s
						}
					}
				case "assume":
					rep.Assumed++
				case "violation":
				default:
					rep.Ends[r.End+": "+r.Msg]++
					if len(rep.Suspects) < 200 {
						rep.Suspects = append(rep.Suspects, Violation{Label: r.End + ": " + r.Msg, Model: r.Model, Widths: r.Widths})
					}
				}
				rep.Violations = append(rep.Violations, r.Violations...)
				if len(rep.Violations) >= lim.MaxViol {
					stop = true
					truncated = true
				}
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	for _, m := range pl.ms {
		rep.Stats.add(m.Stats)
		rep.Solver.Add(m.S.Stats)
		for f := range m.Funcs {
			rep.Funcs[f] = true
		}
	}
	rep.Decisions = rep.Stats.Decisions
	rep.Exhausted = !truncated && len(rep.Ends) == 0
	rep.Wall = time.Since(t0)
	sort.Slice(rep.Samples, func(i, j int) bool { return fmt.Sprint(rep.Samples[i].Model) < fmt.Sprint(rep.Samples[j].Model) })
	return rep
}

func (a *ExploreStats) add(b ExploreStats) {
	a.Decisions += b.Decisions
	a.Forced += b.Forced
	a.Forks += b.Forks
	a.Asserts += b.Asserts
	a.AssertsByConst += b.AssertsByConst
	a.Steps += b.Steps
	a.RegionsTaken += b.RegionsTaken
	a.RegionAbort += b.RegionAbort
	a.ConcreteMismatch += b.ConcreteMismatch
}
