package engine

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Verdict is a solver answer.
type Verdict uint8

const (
	Unknown Verdict = iota
	Sat
	Unsat
)

// SolverStats counts the work of solvers.
type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	CacheHits                    int
	Time                         time.Duration
	MaxTime                      time.Duration
	CrossChecked, CrossDiffer    int
}

func (a *SolverStats) Add(b SolverStats) {
	a.Queries += b.Queries
	a.Sat += b.Sat
	a.Unsat += b.Unsat
	a.Unknown += b.Unknown
	a.CacheHits += b.CacheHits
	a.Time += b.Time
	a.MaxTime = max(a.MaxTime, b.MaxTime)
	a.CrossChecked += b.CrossChecked
	a.CrossDiffer += b.CrossDiffer
}

// Solver is a z3 process.
type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	gen   uint32
	ndefs int
	sb    strings.Builder
	Stats SolverStats
	// Cross is how often (one in Cross) a query is repeated with cvc5.
	Cross int
	nx    int
}

func (s *Solver) start() {
	s.stop()
	bin := os.Getenv("VERIF_Z3")
	if bin == "" {
		bin = "z3-new"
	}
	s.cmd = exec.Command(bin, "-in", "-smt2", "-memory:3000")
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start z3: %v", err))
	}
	s.gen++
	s.ndefs = 0
	io.WriteString(s.in, "(set-option :timeout 20000)\n(set-logic QF_BV)\n")
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check decides the conjunction; when satisfiable, vals are the values of vars.
func (s *Solver) Check(conj []*Expr, vars []*Expr) (Verdict, []uint64) {
	if s.cmd == nil || s.ndefs > 40000 {
		s.start()
	}
	t0 := time.Now()
	sb := &s.sb
	sb.Reset()
	seen := func(e *Expr) bool {
		if e.emitted == s.gen {
			return true
		}
		e.emitted = s.gen
		s.ndefs++
		return false
	}
	for _, v := range vars {
		v.emit(sb, seen)
	}
	for _, c := range conj {
		c.emit(sb, seen)
	}
	sb.WriteString("(push 1)\n")
	for _, c := range conj {
		sb.WriteString("(assert " + c.ref() + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.start()
		s.Stats.Queries++
		s.Stats.Unknown++
		return Unknown, nil
	}
	line := s.line()
	res := Unknown
	switch line {
	case "sat":
		res = Sat
		s.Stats.Sat++
	case "unsat":
		res = Unsat
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
		fmt.Fprintf(os.Stderr, "z3: %s\n", line)
		if strings.HasPrefix(line, "(error") {
			// inconclusive: start afresh
			s.stop()
		}
	}
	var vals []uint64
	if res == Sat && len(vars) > 0 {
		sb.Reset()
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.ref() + " ")
		}
		sb.WriteString("))\n")
		io.WriteString(s.in, sb.String())
		vals = s.values(len(vars))
	}
	if s.cmd != nil {
		io.WriteString(s.in, "(pop 1)\n")
	}
	d := time.Since(t0)
	if dir := os.Getenv("VERIF_SLOW"); dir != "" && d > 2*time.Second {
		dumpQuery(dir, conj, d)
	}
	s.Stats.Queries++
	s.Stats.Time += d
	s.Stats.MaxTime = max(s.Stats.MaxTime, d)
	if s.Cross > 0 && res != Unknown {
		if s.nx++; s.nx%s.Cross == 1%s.Cross {
			s.Stats.CrossChecked++
			if r := crossCheck(conj, vars); r != res && r != Unknown {
				s.Stats.CrossDiffer++
				fmt.Fprintf(os.Stderr, "solvers disagree: z3 %v cvc5 %v\n", res, r)
				res = Unknown
			}
		}
	}
	return res, vals
}

// dumpQuery writes a slow query to a file.
func dumpQuery(dir string, conj []*Expr, d time.Duration) {
	var sb strings.Builder
	m := map[*Expr]bool{}
	seen := func(e *Expr) bool {
		if m[e] {
			return true
		}
		m[e] = true
		return false
	}
	for _, c := range conj {
		c.emit(&sb, seen)
		sb.WriteString("(assert " + c.ref() + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	os.WriteFile(fmt.Sprintf("%s/q%d-%d.smt2", dir, d.Milliseconds(), time.Now().UnixNano()%100000), []byte(sb.String()), 0o644)
}

// crossCheck decides the same query with cvc5.
func crossCheck(conj, vars []*Expr) Verdict {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n")
	m := map[*Expr]bool{}
	seen := func(e *Expr) bool {
		if m[e] {
			return true
		}
		m[e] = true
		return false
	}
	for _, c := range conj {
		c.emit(&sb, seen)
		sb.WriteString("(assert " + c.ref() + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	cmd := exec.Command("cvc5", "--lang=smt2", "--tlimit=20000", "-")
	cmd.Stdin = strings.NewReader(sb.String())
	out, err := cmd.Output()
	if err != nil {
		return Unknown
	}
	switch strings.TrimSpace(string(out)) {
	case "sat":
		return Sat
	case "unsat":
		return Unsat
	}
	return Unknown
}

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error " + err.Error() + ")"
	}
	return strings.TrimSpace(l)
}

// values reads "((v0_8 #x41) (v1_0 true) ...)".
func (s *Solver) values(n int) []uint64 {
	depth := 0
	var toks []string
	var cur []byte
	flush := func() {
		if len(cur) > 0 {
			toks = append(toks, string(cur))
			cur = cur[:0]
		}
	}
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic("z3 died in get-value")
		}
		switch c {
		case '(':
			depth++
			flush()
		case ')':
			depth--
			flush()
		case ' ', '\n', '\r', '\t':
			flush()
		default:
			cur = append(cur, c)
		}
		if depth == 0 && len(toks) > 0 {
			break
		}
	}
	s.out.ReadString('\n')
	if len(toks) != 2*n {
		panic(fmt.Sprintf("z3 get-value: %q", toks))
	}
	vals := make([]uint64, n)
	for i := 0; i < n; i++ {
		v := toks[2*i+1]
		var x uint64
		var err error
		switch {
		case v == "true":
			x = 1
		case v == "false":
		case strings.HasPrefix(v, "#x"):
			x, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, err = strconv.ParseUint(v[2:], 2, 64)
		default:
			panic("z3 value " + v)
		}
		if err != nil {
			panic("z3 value " + v)
		}
		vals[i] = x
	}
	return vals
}
