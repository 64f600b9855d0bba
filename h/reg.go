// Package h holds the harnesses: ordinary Go functions over the exported API
// of /repo that the symbolic executor runs for all values of their inputs and
// that run natively to replay counterexamples.
package h

// Harness is one entry point of a check.
type Harness struct {
	Prop string
	Name string
	Fn   func(p []int)
	// Quick and Thorough list the bounds to explore, smallest first.
	Quick, Thorough [][]int
	Bound           string   // what the parameters mean
	Reach           []string // labels that must be reached (against vacuity)
}

// Concurrent are the properties whose counterexamples are replayed with
// goroutines, under the race detector.
var Concurrent = map[string]bool{"C41": true}

// All is the registry.
var All []Harness

func reg(prop, name string, fn func([]int), bound string, quick, thorough [][]int, reach ...string) bool {
	All = append(All, Harness{prop, name, fn, quick, thorough, bound, reach})
	return true
}

// ps makes single-parameter bounds lo..hi.
func ps(lo, hi int) (r [][]int) {
	for i := lo; i <= hi; i++ {
		r = append(r, []int{i})
	}
	return r
}

// Assumptions are the stubs and modelling choices shared by all harnesses.
var Assumptions = []string{
	"one goroutine, except in C41; memory is never exhausted; int is 64 bits",
	"sync, os.ReadFile and fmt are replaced by models (fmt messages with symbolic operands are approximate and never compared, except %q-free error wrapping)",
	"map iteration is in insertion order; no property may depend on it",
	"z3 decides the path conditions and assertions; a fraction of the queries is repeated with cvc5",
}
