// Package sym is the interface between harnesses and the symbolic executor.
// The executor intercepts every function of this package; compiled natively
// (for replays) they read the values of a counterexample.
package sym

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

// Values are the inputs of a replay, in order of creation.
var Values []uint64

var (
	next     int
	Log      []string // observations
	Failed   string   // label of the failed assertion
	Assumed  bool     // an assumption did not hold
	Reached_ []string
)

var files []string // written by File in this run

// Stop is the panic value that ends a native run.
type Stop struct{ Why string }

// Reset starts a run with some inputs.
func Reset(v []uint64) {
	Values, next, Log, Failed, Assumed, Reached_ = v, 0, nil, "", false, nil
	for _, f := range files {
		os.Remove(f)
	}
	files = nil
}

func take() uint64 {
	if next < len(Values) {
		next++
		return Values[next-1]
	}
	next++
	return 0
}

// Byte is any byte.
func Byte() byte { return byte(take()) }

// ASCII is any byte below 0x80.
func ASCII() byte { return byte(take()) & 0x7f }

// Bool is true or false.
func Bool() bool { return take() != 0 }

// Int is any integer in [lo, hi].
func Int(lo, hi int) int {
	v := int(int32(take()))
	Assume(lo <= v && v <= hi)
	return v
}

// Any64 is any 64-bit integer.
func Any64() int { return int(take()) }

// Choice is any of 0..n-1; each is explored on paths of its own.
func Choice(n int) int {
	v := int(take())
	if v >= n {
		v = 0
	}
	return v
}

// Concrete splits paths on the value of x.
func Concrete(x int) int { return x }

// Bytes is n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

// ASCIIs is n arbitrary bytes below 0x80.
func ASCIIs(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = ASCII()
	}
	return b
}

// Assume discards executions in which c is false.
func Assume(c bool) {
	if !c {
		Assumed = true
		panic(Stop{"assume"})
	}
}

// Assert is a property: c holds in every execution.
func Assert(c bool, label string) {
	if !c {
		Failed = label
		panic(Stop{"assert"})
	}
}

// Reach records that a point is reachable (against vacuity).
func Reach(label string) {
	if !stressing {
		Reached_ = append(Reached_, label)
	}
}

// Observe records a result, to compare executor and compiled code.
func Observe(s string) {
	if !stressing {
		Log = append(Log, s)
	}
}

// ObserveInt records a number.
func ObserveInt(i int) { Observe(fmt.Sprint(i)) }

// Stress makes Concurrently run goroutines.
var Stress bool

var stressing bool

// Concurrently runs f, which may be run by other goroutines at the same time,
// while another goroutine runs other, and returns the result of f. The executor
// runs other at the at-th acquisition of a lock or use of a pool by f, or never, and reports every
// write without a lock to memory that other goroutines can see. Compiled natively, goroutines
// run f and other until one misbehaves or time is up.
func Concurrently(at int, other func(), f func() string) string {
	if !Stress {
		return f()
	}
	stressing = true
	const n = 6
	end := time.Now().Add(6 * time.Second)
	var wg sync.WaitGroup
	var first [n]string
	start := make(chan bool)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < 100000 && (k == 0 || time.Now().Before(end)); k++ {
				if i%3 == 2 {
					other()
				} else if got := f(); k == 0 {
					first[i] = got
				} else if got != first[i] {
					panic("the result differs from that without other goroutines")
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	want := first[0]
	for i := range first {
		if i%3 != 2 && first[i] != want {
			panic("the result differs from that without other goroutines")
		}
	}
	stressing = false
	return want
}

// File makes a file with some contents and returns its name; the file is
// in the scratch directory the replay runs in.
func File(name string, content []byte) string {
	if strings.ContainsAny(name, "/\\") {
		panic("sym.File: bad name")
	}
	if err := os.WriteFile(name, content, 0o600); err != nil {
		panic(err)
	}
	files = append(files, name)
	return name
}
