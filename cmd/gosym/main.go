// Command gosym decides the properties of /repo by symbolic execution of its
// code: "gosym check C01 quick", "gosym replay FILE".
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/engine"
	"verif/h"
	"verif/sym"
)

// Case is one set of inputs of a harness.
type Case struct {
	Property string   `json:"property,omitempty"`
	Harness  string   `json:"harness"`
	Params   []int    `json:"params"`
	Values   []uint64 `json:"values"`
	Label    string   `json:"label,omitempty"`
	Observed []string `json:"observed,omitempty"`
	Command  string   `json:"command,omitempty"`
}

// Result is what the compiled code did on a case.
type Result struct {
	Failed  string   `json:"failed,omitempty"`
	Panic   string   `json:"panic,omitempty"`
	Stack   string   `json:"stack,omitempty"`
	Assumed bool     `json:"assumed,omitempty"`
	Hang    bool     `json:"hang,omitempty"`
	Crash   string   `json:"crash,omitempty"`
	Log     []string `json:"log,omitempty"`
}

func (r *Result) bad() string {
	switch {
	case r.Failed != "":
		return r.Failed
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.Hang:
		return "does not terminate"
	case r.Crash != "":
		return "crash: " + r.Crash
	}
	return ""
}

func harness(prop, name string) *h.Harness {
	for i := range h.All {
		if h.All[i].Prop == prop && h.All[i].Name == name {
			return &h.All[i]
		}
	}
	return nil
}

func runNative(c *Case) (r Result) {
	hs := harness(c.Property, c.Harness)
	if hs == nil {
		return Result{Crash: "no harness " + c.Harness}
	}
	sym.Reset(c.Values)
	defer func() {
		x := recover()
		for _, l := range sym.Log {
			r.Log = append(r.Log, strconv.QuoteToASCII(l))
		}
		switch x := x.(type) {
		case nil:
		case sym.Stop:
			r.Failed, r.Assumed = sym.Failed, sym.Assumed
		default:
			r.Panic = fmt.Sprint(x)
			r.Stack = string(debug.Stack())
		}
	}()
	hs.Fn(c.Params)
	return
}

// child runs cases read from stdin and writes one result per line.
func child() {
	if sym.Stress = os.Getenv("GOSYM_STRESS") != ""; !sym.Stress {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30})
	}
	debug.SetMaxStack(256 << 20)
	var cs []*Case
	if err := json.NewDecoder(os.Stdin).Decode(&cs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out := json.NewEncoder(os.Stdout)
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // the parser's traces
	}
	for _, c := range cs {
		r := runNative(c)
		out.Encode(r)
	}
}

// raceTool is gosym compiled with the race detector.
var raceTool = sync.OnceValue(func() string {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	dir := filepath.Dir(filepath.Dir(self))
	tool := filepath.Join(dir, "bin", fmt.Sprintf("race.%d", os.Getpid()))
	cmd := exec.Command("go", "build", "-race", "-o", tool, "./cmd/gosym")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "go build -race: %v\n%s", err, out)
		return ""
	}
	raceBuilt = tool
	return tool
})

var raceBuilt string

func removeRaceTool() {
	if raceBuilt != "" {
		os.Remove(raceBuilt)
	}
}

// stress replays a counterexample with goroutines, under the race detector and without it.
func stress(c *Case) Result {
	var r Result
	for _, tool := range []string{raceTool(), ""} {
		if r = nativeWith(tool, []*Case{c}, 60*time.Second)[0]; r.bad() != "" {
			break
		}
	}
	return r
}

// native runs cases in a subprocess with a time limit, in a scratch directory.
func native(cs []*Case, limit time.Duration) []Result { return nativeWith("", cs, limit) }

func nativeWith(tool string, cs []*Case, limit time.Duration) []Result {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	stressed := len(cs) == 1 && h.Concurrent[cs[0].Property] && cs[0].Label != ""
	if tool != "" {
		self = tool
	}
	in, _ := json.Marshal(cs)
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "child")
	cmd.Dir = dir
	if stressed {
		cmd.Env = append(os.Environ(), "GOSYM_STRESS=1", "GORACE=halt_on_error=1")
	}
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &limited{w: &errb, n: 20000}
	err = cmd.Run()
	var rs []Result
	if e := (*exec.ExitError)(nil); err != nil && ctx.Err() == nil && !errors.As(err, &e) {
		fmt.Fprintln(os.Stderr, "cannot replay:", err)
		os.Exit(2)
	}
	dec := json.NewDecoder(&out)
	for {
		var r Result
		if e := dec.Decode(&r); e != nil {
			break
		}
		rs = append(rs, r)
	}
	if len(rs) < len(cs) {
		r := Result{}
		if ctx.Err() != nil {
			r.Hang = true
		} else {
			if e, ok := err.(*exec.ExitError); ok {
				if ws, ok := e.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL && len(cs) == 1 {
					// killed from outside, as when memory runs out: no verdict
					return []Result{{Assumed: true}}
				}
			}
			l, _, _ := strings.Cut(strings.TrimLeft(errb.String(), "=\n"), "\n")
			r.Crash = fmt.Sprintf("%v: %s", err, l)
			r.Stack = errb.String()
		}
		rs = append(rs, r)
		// the case that broke the batch must do so alone, too
		if k := len(rs) - 1; len(cs) > 1 {
			alone := native(cs[k:k+1], 10*time.Second)
			rs[k] = alone[0]
			if k+1 < len(cs) {
				rs = append(rs, native(cs[k+1:], limit)...)
			}
		}
	}
	return rs
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if k := min(l.n, len(p)); k > 0 {
		l.w.Write(p[:k])
		l.n -= k
	}
	return len(p), nil
}

// Known is a line of known_findings.jsonl.
type Known struct {
	Status   string `json:"status"` // "known" or "fixed"
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"` // of the failure and the observed inputs
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(root string) (ks []Known) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		var k Known
		if strings.TrimSpace(l) != "" && json.Unmarshal([]byte(l), &k) == nil && k.Status == "known" {
			ks = append(ks, k)
		}
	}
	return ks
}

// instance is a harness at one bound.
type instance struct {
	Harness     string         `json:"harness"`
	Params      []int          `json:"params"`
	Bound       string         `json:"bound"`
	Exhausted   bool           `json:"every_path_explored"`
	Paths       int            `json:"paths"`
	Complete    int            `json:"paths_completed"`
	Assumed     int            `json:"paths_excluded_by_assumptions"`
	Asserts     int            `json:"assertions_decided"`
	Decisions   int            `json:"decisions"`
	Reached     map[string]int `json:"reached,omitempty"`
	Unreached   []string       `json:"not_reached,omitempty"`
	Reduced     map[string]int `json:"reduced_bound,omitempty"`
	Validated   int            `json:"traces_validated"`
	Mismatched  int            `json:"traces_mismatched,omitempty"`
	Unconfirmed int            `json:"counterexamples_not_reproduced,omitempty"`
	Wall        float64        `json:"wall_s"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|replay|child|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "child":
		child()
	case "list":
		for _, x := range h.All {
			fmt.Printf("%s\t%s\t%v\t%v\t%s\n", x.Prop, x.Name, x.Quick, x.Thorough, x.Bound)
		}
	case "replay":
		replay(os.Args[2:])
	case "check":
		check(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func replay(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r Result
	if h.Concurrent[c.Property] {
		r = stress(&c)
		removeRaceTool()
	} else {
		r = native([]*Case{&c}, 10*time.Second)[0]
	}
	for _, l := range r.Log {
		fmt.Printf("  observed %s\n", l)
	}
	if bad := r.bad(); bad != "" {
		fmt.Printf("fails: %s\n%s\n", bad, r.Stack)
		os.Exit(1)
	}
	fmt.Println("holds", map[bool]string{true: "(assumption excluded it)"}[r.Assumed])
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	debugf := fs.Bool("debug", false, "crash on engine errors")
	only := fs.String("only", "", "only this harness")
	params := fs.String("p", "", "only these parameters (comma-separated)")
	workers := fs.Int("j", runtime.NumCPU(), "workers")
	budget := fs.Duration("budget", 0, "time budget")
	maxViol := fs.Int("maxviol", 8, "stop an instance after so many counterexamples")
	prof := fs.String("cpuprofile", "", "")
	verbose := fs.Bool("v", false, "print every instance")
	fs.Parse(args)
	prop, tier := fs.Arg(0), fs.Arg(1)
	if tier == "" {
		tier = "quick"
	}
	root, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *workers > 8 {
		*workers = 8
	}
	start := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	total := 300 * time.Second
	cross := 400
	if tier == "thorough" {
		total = 780 * time.Second
		cross = 50
	}
	if *budget > 0 {
		total = *budget
	}
	deadline := start.Add(total)
	prog, err := engine.Load(root, "verif/h", append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	loadTime := time.Since(start)
	pool := engine.NewPool(prog, *workers, *debugf)
	defer pool.Close()
	known := loadKnown(root)

	// smallest bounds of every harness first
	type job struct {
		h *h.Harness
		p []int
	}
	var jobs []job
	for round := 0; ; round++ {
		any := false
		for i := range h.All {
			x := &h.All[i]
			if x.Prop != prop || *only != "" && !regexp.MustCompile("^("+*only+")$").MatchString(x.Name) {
				continue
			}
			pl := x.Quick
			if tier == "thorough" {
				pl = append(append([][]int{}, x.Quick...), x.Thorough...)
			}
			if *params != "" {
				var p []int
				for _, s := range strings.Split(*params, ",") {
					v, _ := strconv.Atoi(s)
					p = append(p, v)
				}
				pl = [][]int{p}
			}
			if round < len(pl) {
				jobs = append(jobs, job{x, pl[round]})
				any = true
			}
		}
		if !any {
			break
		}
	}
	if len(jobs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		os.Exit(2)
	}
	var insts []*instance
	funcs := map[string]bool{}
	var sol engine.SolverStats
	var samples []any
	states, transitions, validated, mismatched, unconfirmed, nasserts, steps := 0, 0, 0, 0, 0, 0, 0
	var violations, knownHits []string
	nviol := 0
	knownSeen := map[string]bool{}
	replayDir := filepath.Join(root, "evidence", "replay")
	skipped := []string{}
	for ji, j := range jobs {
		left := time.Until(deadline)
		if left < 2*time.Second {
			skipped = append(skipped, fmt.Sprint(j.h.Name, j.p))
			continue
		}
		d := left
		if ji+1 < len(jobs) {
			d = left/2 + time.Second
		}
		fname := runtime.FuncForPC(reflect.ValueOf(j.h.Fn).Pointer()).Name()
		fn := prog.Func("verif/h", fname[strings.LastIndex(fname, ".")+1:])
		if fn == nil {
			fmt.Fprintln(os.Stderr, "no function", fname)
			os.Exit(2)
		}
		lim := engine.Limits{Deadline: time.Now().Add(d), Workers: *workers, MaxViol: *maxViol, MaxSamples: 60, Seed: seed + int64(ji), Cross: cross, Size: slices.Max(append([]int{0}, j.p...))}
		rep := pool.Explore(fn, j.p, lim)
		in := &instance{Harness: j.h.Name, Params: j.p, Bound: j.h.Bound, Exhausted: rep.Exhausted, Paths: rep.Paths,
			Complete: rep.Complete, Assumed: rep.Assumed, Asserts: rep.Stats.Asserts, Decisions: rep.Decisions, Reached: rep.Reached, Reduced: rep.Ends,
			Wall: rep.Wall.Seconds()}
		insts = append(insts, in)
		for _, l := range j.h.Reach {
			if rep.Reached[l] == 0 {
				in.Unreached = append(in.Unreached, l)
			}
		}
		states += rep.Paths
		transitions += rep.Decisions + rep.Stats.Forks
		nasserts += rep.Stats.Asserts
		steps += rep.Stats.Steps
		sol.Add(rep.Solver)
		for f := range rep.Funcs {
			if !strings.HasPrefix(f, "verif/") {
				funcs[f] = true
			}
		}

		// replay against the compiled code
		var cs []*Case
		nv := len(rep.Violations)
		for _, v := range append(rep.Violations, rep.Suspects...) {
			cs = append(cs, &Case{Property: prop, Harness: j.h.Name, Params: j.p, Values: v.Model, Label: v.Label})
		}
		ns := len(cs)
		for _, s := range rep.Samples {
			for i, l := range s.Observed {
				s.Observed[i] = strconv.QuoteToASCII(l)
			}
			cs = append(cs, &Case{Property: prop, Harness: j.h.Name, Params: j.p, Values: s.Model, Observed: s.Observed})
		}
		if len(cs) == 0 {
			continue
		}
		// hang candidates run alone, few of them
		var batch []*Case
		hang := 0
		for i, c := range cs {
			if i < ns && strings.HasPrefix(c.Label, "steps:") {
				if hang++; hang > 3 {
					continue
				}
			}
			batch = append(batch, c)
		}
		var rs []Result
		if h.Concurrent[prop] { // replay the counterexamples with goroutines; a few are enough
			var few, rest []*Case
			for _, c := range batch {
				switch {
				case c.Label == "":
					rest = append(rest, c)
				case len(few) < 3:
					few = append(few, c)
					rs = append(rs, stress(c))
				}
			}
			batch = append(few, rest...)
		}
		rs = append(rs, native(batch[len(rs):], 20*time.Second)...)
		for i, r := range rs {
			c := batch[i]
			bad := r.bad()
			isViol := false
			for _, v := range cs[:nv] {
				if v == c {
					isViol = true
				}
			}
			if bad == "" {
				switch {
				case isViol:
					in.Unconfirmed++
					unconfirmed++
					fmt.Fprintf(os.Stderr, "counterexample not reproduced: %s %v %v: %s (assumed %v, log %q)\n", c.Harness, c.Params, c.Values, c.Label, r.Assumed, r.Log)
				case c.Label == "":
					if !r.Assumed && equal(r.Log, c.Observed) {
						in.Validated++
						validated++
					} else {
						in.Mismatched++
						mismatched++
						if mismatched <= 5 {
							fmt.Fprintf(os.Stderr, "trace mismatch: %s %v %v: executor %q compiled %q assumed %v\n", c.Harness, c.Params, c.Values, c.Observed, r.Log, r.Assumed)
						}
					}
				}
				continue
			}
			nviol++
			text := bad + "\n" + strings.Join(r.Log, "\n")
			isKnown := false
			for _, k := range known {
				if k.Property == prop && (k.Harness == "" || k.Harness == c.Harness) {
					if ok, _ := regexp.MatchString(k.Match, text); ok {
						isKnown = true
						if !knownSeen[k.What] {
							knownSeen[k.What] = true
							knownHits = append(knownHits, k.What)
						}
						break
					}
				}
			}
			if isKnown {
				continue
			}
			os.MkdirAll(replayDir, 0o755)
			path := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", prop, len(violations)+1))
			c.Label = bad
			c.Observed = r.Log
			c.Command = "cd /verif && bin/gosym replay " + path
			b, _ := json.MarshalIndent(c, "", " ")
			os.WriteFile(path, b, 0o644)
			violations = append(violations, path)
			if len(violations) <= 12 {
				fmt.Printf("counterexample %s %v: %s\n", c.Harness, c.Params, bad)
				for _, l := range r.Log {
					fmt.Printf("    %s\n", l)
				}
			}
		}
		for i, s := range rep.Samples {
			if i < 2 && len(samples) < 24 {
				samples = append(samples, map[string]any{"harness": j.h.Name, "params": j.p, "inputs": s.Model, "observed": s.Observed})
			}
		}
		if *verbose {
			b, _ := json.Marshal(in)
			fmt.Fprintf(os.Stderr, "%s regions %d/%d solver %v q=%d cache=%d\n", b, rep.Stats.RegionsTaken, rep.Stats.RegionAbort, rep.Solver.Time, rep.Solver.Queries, rep.Solver.CacheHits)
		}
		if len(violations) > 0 {
			break
		}
	}
	removeRaceTool()
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []any{}
	}
	exhausted := len(skipped) == 0 && len(violations) == 0
	for _, in := range insts {
		exhausted = exhausted && in.Exhausted
	}
	var assumptions []string
	assumptions = append(assumptions, h.Assumptions...)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(violations),
		"assumptions": assumptions,
		"coverage": map[string]any{
			"states": states, "transitions": transitions,
			"traces_validated_against_impl":  validated,
			"traces_mismatched":              mismatched,
			"samples":                        samples,
			"exhaustive":                     exhausted,
			"explanation":                    "states = execution paths explored symbolically (each stands for all inputs that follow it); transitions = branch decisions put to the solver plus forks; every assertion on every path is decided for all inputs of the path",
			"functions_encoded":              fl,
			"instances":                      insts,
			"not_run_for_lack_of_time":       skipped,
			"assertions_decided":             nasserts,
			"instructions_executed":          steps,
			"counterexamples_not_reproduced": unconfirmed,
			"known_findings_seen":            knownHits,
			"solver": map[string]any{"queries": sol.Queries, "sat": sol.Sat, "unsat": sol.Unsat, "unknown": sol.Unknown,
				"answers_from_cache": sol.CacheHits, "time_s": sol.Time.Seconds(), "longest_s": sol.MaxTime.Seconds(),
				"cross_checked_with_cvc5": sol.CrossChecked, "cross_disagreements": sol.CrossDiffer},
			"load_s": loadTime.Seconds(),
		},
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, k := range knownHits {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	missing := map[string]bool{}
	for _, in := range insts {
		for _, l := range in.Unreached {
			missing[in.Harness+": "+l] = true
		}
	}
	for _, in := range insts {
		for l := range in.Reached {
			delete(missing, in.Harness+": "+l)
		}
	}
	for l := range missing {
		if len(violations) == 0 {
			fmt.Fprintln(os.Stderr, "not reached:", l)
		}
	}
	for _, in := range insts {
		if len(in.Reduced) > 0 {
			fmt.Fprintf(os.Stderr, "reduced bound: %s %v %v\n", in.Harness, in.Params, in.Reduced)
		}
	}
	fmt.Printf("%s %s: %d instances, %d paths, %d assertions, %d solver queries (%.1fs), %d traces validated, %d mismatched, exhaustive=%v, %.1fs\n",
		prop, tier, len(insts), states, nasserts, sol.Queries, sol.Time.Seconds(), validated, mismatched, exhausted, time.Since(start).Seconds())
	if len(violations) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, violations[0])
		pprof.StopCPUProfile()
		os.Exit(1)
	}
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
