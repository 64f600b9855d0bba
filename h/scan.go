package h

import (
	gotoken "go/token"

	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
	"verif/sym"
)

const fileName = "a.bib"

type scanErr struct {
	off  int
	line int
	col  int
	name string
}

// scan is a scanner over a source with its errors recorded.
type scan struct {
	s     *scanner.Scanner
	f     *gotoken.File
	fset  *gotoken.FileSet
	errs  []scanErr
	quiet bool // no error handler
}

func newScan(src []byte, strs bool) *scan {
	sc := &scan{s: &scanner.Scanner{}}
	sc.init(src, strs)
	return sc
}

func (sc *scan) init(src []byte, strs bool) {
	sc.fset = gotoken.NewFileSet()
	sc.f = sc.fset.AddFile(fileName, sc.fset.Base(), len(src))
	sc.errs = nil
	mode := scanner.Mode(0)
	if strs {
		mode = scanner.ScanStrings
	}
	if sc.quiet {
		sc.s.Init(sc.f, src, nil, mode)
		return
	}
	sc.s.Init(sc.f, src, func(pos gotoken.Position, msg string) {
		sc.errs = append(sc.errs, scanErr{pos.Offset, pos.Line, pos.Column, pos.Filename})
	}, mode)
}

// tok is a token with its offset in the source.
type tok struct {
	off int
	t   token.Token
	lit string
}

func (sc *scan) next() tok {
	pos, t, lit := sc.s.Scan()
	return tok{int(pos) - sc.f.Base(), t, lit}
}

func observeTok(t tok) {
	sym.ObserveInt(t.off)
	sym.Observe(t.t.String())
	sym.Observe(t.lit)
}

// C02: progress.

var _ = reg("C02", "ScanProgress", C02ScanProgress, "p[0] arbitrary bytes; both scanner modes", ps(0, 3), ps(4, 5), "eof")

// C02ScanProgress: scanning always progresses to the end of input.
func C02ScanProgress(p []int) {
	progress(sym.Bytes(p[0]), sym.Choice(2) == 1)
}

var scanStarts = []string{`={`, `={{`, `="`, `="{`, `={\`, `={$`, `={\'{`, `="\c `, `={a`, `="$\`}

var _ = reg("C02", "ScanProgressInString", C02ScanProgressInString, "one of the openings ={ ={{ =\" =\"{ ={\\ ={$ ={\\'{ =\"\\c ={a =\"$\\ then p[0] arbitrary bytes; both scanner modes", ps(0, 3), ps(4, 4), "eof")

// C02ScanProgressInString: the same from inside strings.
func C02ScanProgressInString(p []int) {
	st := scanStarts[sym.Choice(len(scanStarts))]
	src := append([]byte(st), sym.Bytes(p[0])...)
	progress(src, sym.Choice(2) == 1)
}

func progress(src []byte, strs bool) {
	n := len(src)
	sym.Observe(string(src))
	sc := newScan(src, strs)
	last := tok{}
	for i := 0; ; i++ {
		t := sc.next()
		observeTok(t)
		sym.Assert(t.off >= last.off, "token positions do not decrease")
		sym.Assert(t.off <= n, "token positions are inside the file")
		last = t
		if t.t == token.EOF {
			break
		}
		sym.Assert(i < n, "at most one token per byte")
	}
	sym.Reach("eof")
	errs := len(sc.errs)
	for i := 0; i < 2; i++ {
		t := sc.next()
		sym.Assert(len(sc.errs) == errs && sc.s.ErrorCount == errs, "the end of input gives no further errors")
		sym.Assert(t.t == token.EOF, "end of input is reported again")
		sym.Assert(t.off == last.off, "end of input is reported at the same position")
	}
}

// C03: tokens tile the source (no string scanning).

var _ = reg("C03", "Tiles", C03Tiles, "p[0] arbitrary bytes, strings not scanned", ps(1, 3), ps(4, 5), "tok", "eof", "illegal")

// C03Tiles: tokens and white space tile arbitrary input.
func C03Tiles(p []int) { tiles(sym.Bytes(p[0])) }

var _ = reg("C03", "TilesText", C03TilesText, "an ASCII letter or digit, quote, brace or comment opening and p[0] bytes out of: letters, digits, quote, braces, comma, equals, newline, space, percent, at", ps(3, 5), ps(6, 6), "tok", "eof")

// C03TilesText: the same over the characters that matter to the lexer.
func C03TilesText(p []int) {
	src := make([]byte, p[0])
	for i := range src {
		src[i] = lexByte()
	}
	tiles(src)
}

// lexByte is a byte among the classes the lexer tells apart.
func lexByte() byte {
	b := sym.ASCII()
	sym.Assume(b == 'a' || b == 'Z' || b == '-' || b == '7' || b == '"' || b == '{' || b == '}' || b == ',' ||
		b == '=' || b == '\n' || b == ' ' || b == '%' || b == '@' || b == '#' || b == '(' || b == '\r')
	return b
}

func tiles(src []byte) {
	n := len(src)
	sym.Observe(string(src))
	sc := newScan(src, false)
	end := 0
	if n >= 3 && src[0] == 0xEF && src[1] == 0xBB && src[2] == 0xBF {
		end = 3
	}
	for i := 0; i <= n+1; i++ {
		t := sc.next()
		observeTok(t)
		sym.Assert(t.off >= end && t.off <= n, "token starts after the previous one")
		for k := end; k < t.off; k++ {
			c := src[k]
			sym.Assert(c == ' ' || c == '\t' || c == '\r' || c == '\n', "only white space between tokens")
		}
		if t.t == token.EOF {
			sym.Reach("eof")
			sym.Assert(t.off == n, "end of input is at the end")
			checkLines(sc, src)
			return
		}
		sym.Reach("tok")
		switch t.t {
		case token.Ident, token.Number, token.TexComment, token.Abbrev, token.Comment, token.Preamble, token.BibEntry:
			end = t.off + len(t.lit)
			sym.Assert(end > t.off && end <= n, "literal is inside the source")
			sym.Assert(string(src[t.off:end]) == t.lit, "literal is the source text")
		case token.String, token.BraceString:
			body := t.off + 1
			end = body + len(t.lit)
			sym.Assert(end <= n, "string literal is inside the source")
			sym.Assert(string(src[body:end]) == t.lit, "string literal is the source text")
			open, cl := byte('"'), byte('"')
			if t.t == token.BraceString {
				open, cl = '{', '}'
			}
			sym.Assert(src[t.off] == open, "string token starts at its delimiter")
			if end < n {
				sym.Assert(src[end] == cl, "string ends at its delimiter")
				end++
			}
		case token.Illegal:
			sym.Reach("illegal")
			end = t.off + runeLen(src, t.off)
			if src[t.off] < 0x80 {
				sym.Assert(t.lit == string(src[t.off:end]), "illegal token has its text")
			}
		default:
			sym.Assert(t.t.IsOperator(), "other tokens are operators")
			sym.Assert(t.lit == "", "operators have no literal")
			end = t.off + 1
		}
		sym.Assert(end <= n, "token ends inside the source")
	}
	sym.Assert(false, "end of input is reached")
}

// runeLen is the length of the UTF-8 sequence at i, 1 if it is ill-formed.
func runeLen(src []byte, i int) int {
	c := src[i]
	if c < 0xC2 {
		return 1
	}
	at := func(k int, lo, hi byte) bool { return i+k < len(src) && src[i+k] >= lo && src[i+k] <= hi }
	switch {
	case c < 0xE0:
		if at(1, 0x80, 0xBF) {
			return 2
		}
	case c < 0xF0:
		lo, hi := byte(0x80), byte(0xBF)
		if c == 0xE0 {
			lo = 0xA0
		}
		if c == 0xED {
			hi = 0x9F
		}
		if at(1, lo, hi) && at(2, 0x80, 0xBF) {
			return 3
		}
	case c < 0xF5:
		lo, hi := byte(0x80), byte(0xBF)
		if c == 0xF0 {
			lo = 0x90
		}
		if c == 0xF4 {
			hi = 0x8F
		}
		if at(1, lo, hi) && at(2, 0x80, 0xBF) && at(3, 0x80, 0xBF) {
			return 4
		}
	}
	return 1
}

// checkLines compares the line table with newline counting.
func checkLines(sc *scan, src []byte) {
	line, col := 1, 1
	for off := 0; off <= len(src); off++ {
		ps := sc.fset.Position(sc.f.Pos(off))
		if off == len(src) && off > 0 && src[off-1] == '\n' {
			// the line table may or may not have the empty last line
			sym.Assert(ps.Offset == off, "offset of the end")
			return
		}
		sym.Assert(ps.Line == line, "line counts newlines")
		sym.Assert(ps.Column == col, "column counts from the last newline")
		sym.Assert(ps.Filename == fileName && ps.Offset == off, "position has file and offset")
		if off < len(src) && src[off] == '\n' {
			line, col = line+1, 1
		} else {
			col++
		}
	}
}

// C04: token kinds outside strings.

var _ = reg("C04", "Kinds", C04Kinds, "p[0] arbitrary ASCII bytes, strings not scanned", ps(1, 4), ps(5, 5), "eof", "illegal", "brace")

// C04Kinds compares with the reference lexer.
func C04Kinds(p []int) { kinds(sym.ASCIIs(p[0])) }

var _ = reg("C04", "KindsText", C04KindsText, "p[0] bytes out of a Z - 7 \" { } , = newline space % @ # ( return", ps(3, 4), ps(5, 6), "eof", "brace")

// C04KindsText: longer inputs over the lexer's character classes.
func C04KindsText(p []int) {
	src := make([]byte, p[0])
	for i := range src {
		src[i] = lexByte()
	}
	kinds(src)
}

var commandWords = []string{"string", "preamble", "comment", "article", "strin", "strings", "com"}

var _ = reg("C04", "Commands", C04Commands, "@ and one of 7 words in any letter case, then p[0] arbitrary bytes", ps(0, 2), ps(3, 3), "eof")

// C04Commands: commands are recognised in any letter case.
func C04Commands(p []int) {
	w := commandWords[sym.Choice(len(commandWords))]
	src := []byte{'@'}
	for i := 0; i < len(w); i++ {
		src = append(src, anyCase(w[i]))
	}
	src = append(src, sym.ASCIIs(p[0])...)
	kinds(src)
}

// anyCase is a letter in either case.
func anyCase(c byte) byte {
	b := sym.ASCII()
	sym.Assume(b|0x20 == c && b >= 'A')
	return b
}

func kinds(src []byte) {
	sym.Observe(string(src))
	ref := refLex(src)
	sc := newScan(src, false)
	for _, want := range ref.toks {
		got := sc.next()
		observeTok(got)
		sym.Assert(got.off == want.off, "token position")
		sym.Assert(got.t == want.t, "token kind")
		if want.t == token.Illegal {
			sym.Reach("illegal")
			sym.Assert(got.lit == want.lit, "illegal token has its text as literal")
		}
		if want.t == token.BraceString || want.t == token.LBrace {
			sym.Reach("brace")
		}
		if want.t == token.EOF {
			sym.Reach("eof")
		}
	}
}

// C06: lexical errors.

var _ = reg("C06", "Reported", C06Reported, "p[0] arbitrary bytes, strings not scanned", ps(0, 3), ps(4, 5), "error", "clean")

// C06Reported: an error is reported exactly when the input has one.
func C06Reported(p []int) { reported(sym.Bytes(p[0])) }

var _ = reg("C06", "ReportedText", C06ReportedText, "p[0] bytes out of a Z - 7 \" { } , = newline space % @ # ( return", ps(4, 5), ps(6, 8), "error", "clean")

// C06ReportedText: longer inputs over the lexer's character classes.
func C06ReportedText(p []int) {
	src := make([]byte, p[0])
	for i := range src {
		src[i] = lexByte()
	}
	reported(src)
}

func reported(src []byte) {
	n := len(src)
	sym.Observe(string(src))
	sc := newScan(src, false)
	illegal := false
	for i := 0; ; i++ {
		t := sc.next()
		if t.t == token.Illegal {
			illegal = true
			sym.Assert(len(sc.errs) > 0, "an illegal token comes with an error")
		}
		if t.t == token.EOF {
			break
		}
		sym.Assert(i <= n, "end of input is reached")
	}
	_ = illegal
	errorsLocated(sc, n)
	if n <= 2 {
		countsAlone(sc, src, false)
	}
	ref := refLex(src)
	bad := ref.bad
	// bytes that are never legal
	for i := 0; i < n; {
		w := runeLen(src, i)
		if src[i] == 0 || src[i] >= 0x80 && w == 1 {
			bad = true
		}
		if w == 3 && i > 0 && src[i] == 0xEF && src[i+1] == 0xBB && src[i+2] == 0xBF {
			bad = true
		}
		i += w
	}
	if bad {
		sym.Reach("error")
		sym.Assert(len(sc.errs) > 0, "a lexical error is reported")
	} else {
		sym.Reach("clean")
		sym.Assert(len(sc.errs) == 0, "valid lexemes give no error")
	}
}

// countsAlone checks that errors are counted without an error handler too.
func countsAlone(sc *scan, src []byte, strs bool) {
	q := &scan{s: new(scanner.Scanner), quiet: true}
	q.init(src, strs)
	for q.next().t != token.EOF {
	}
	sym.Assert(q.s.ErrorCount == sc.s.ErrorCount, "errors are counted without error handler")
}

func errorsLocated(sc *scan, n int) {
	sym.Assert(sc.s.ErrorCount == len(sc.errs), "the error count is the number of reports")
	for _, e := range sc.errs {
		sym.Assert(e.off >= 0 && e.off <= n, "errors are inside the file")
		sym.Assert(e.name == fileName, "errors carry the file name")
		sym.ObserveInt(e.off)
	}
}

var _ = reg("C06", "ReportedString", C06ReportedString, "a \" or { string of p[0] arbitrary bytes, strings scanned", ps(0, 3), ps(4, 5), "error", "clean")

// C06ReportedString: the same inside strings.
func C06ReportedString(p []int) { reportedString(sym.Bytes(p[0])) }

var _ = reg("C06", "ReportedStringText", C06ReportedStringText, "a \" or { string of p[0] bytes out of \\ c o { } $ \" ' , ~ space 7 newline", ps(4, 5), ps(6, 7), "error", "clean")

// C06ReportedStringText: longer strings over the classes.
func C06ReportedStringText(p []int) {
	b := make([]byte, p[0])
	for i := range b {
		b[i] = strByte()
	}
	reportedString(b)
}

func strByte() byte {
	b := sym.ASCII()
	sym.Assume(b == '\\' || b == 'c' || b == 'o' || b == '{' || b == '}' || b == '$' || b == '"' || b == '\'' ||
		b == ',' || b == '~' || b == ' ' || b == '7' || b == '\n')
	return b
}

func reportedString(body []byte) {
	q := byte('{')
	if sym.Choice(2) == 1 {
		q = '"'
	}
	src := append([]byte{'=', q}, body...)
	n := len(src)
	sym.Observe(string(src))
	for i := 2; i < n; i++ {
		if src[i] == 0xEF { // byte order marks are checked outside strings
			sym.Assume(false)
		}
	}
	ref := refString(src, 2, q)
	sym.Assume(!ref.unb)
	sc := newScan(src, true)
	a, b := sc.next(), sc.next()
	sym.Assert(a.t == token.Assign && (b.t == token.StringLBrace || b.t == token.DoubleQuote), "a string starts")
	// up to the end of the string, or to the first error
	for i := 0; ; i++ {
		t := sc.next()
		if t.t == token.Illegal {
			sym.Assert(len(sc.errs) > 0, "an illegal token comes with an error")
		}
		if t.t == token.EOF || t.off+1 >= ref.end && !ref.bad {
			break
		}
		sym.Assert(i <= n, "end of input is reached")
	}
	errorsLocated(sc, n)
	if n <= 4 {
		for sc.next().t != token.EOF {
		}
		countsAlone(sc, src, true)
	}
	bad := ref.bad
	for i := 2; i < ref.end; {
		w := runeLen(src, i)
		if src[i] == 0 || src[i] >= 0x80 && w == 1 {
			bad = true
		}
		i += w
	}
	if bad {
		sym.Reach("error")
		sym.Assert(len(sc.errs) > 0, "a lexical error in a string is reported")
	} else if ref.end == n {
		sym.Reach("clean")
		sym.Assert(len(sc.errs) == 0, "a valid string gives no error")
	}
}

// C05: string contents.

var _ = reg("C05", "StringTokens", C05StringTokens, "a \" or { string with p[0] arbitrary ASCII bytes", ps(0, 5), ps(6, 6), "end")

// C05StringTokens compares with the reference tokenizer.
func C05StringTokens(p []int) { stringTokens(sym.ASCIIs(p[0])) }

var _ = reg("C05", "StringTokensText", C05StringTokensText, "a \" or { string of p[0] bytes out of \\ c o { } $ \" ' , ~ space 7 newline", ps(4, 5), ps(6, 7), "end")

// C05StringTokensText: longer strings over the classes.
func C05StringTokensText(p []int) {
	b := make([]byte, p[0])
	for i := range b {
		b[i] = strByte()
	}
	stringTokens(b)
}

var _ = reg("C05", "Escapes", C05Escapes, "a \" or { string with backslash and p[0] arbitrary ASCII bytes after it", ps(1, 5), ps(6, 6), "end")

// C05Escapes: what follows a backslash.
func C05Escapes(p []int) {
	stringTokens(append([]byte{'\\'}, sym.ASCIIs(p[0])...))
}

var _ = reg("C05", "Unicode", C05Unicode, "a { string of p[0] arbitrary bytes that are valid UTF-8", ps(2, 4), ps(5, 5), "end")

// C05Unicode: text is kept whatever characters it has.
func C05Unicode(p []int) {
	b := sym.Bytes(p[0])
	for i := 0; i < len(b); {
		w := runeLen(b, i)
		sym.Assume(b[i] < 0x80 || w > 1)
		sym.Assume(!(w == 3 && b[i] == 0xEF && b[i+1] == 0xBB && b[i+2] == 0xBF))
		i += w
	}
	stringTokens(b)
}

func stringTokens(body []byte) {
	q := byte('{')
	if sym.Choice(2) == 1 {
		q = '"'
	}
	src := append([]byte{'=', q}, body...)
	if q == '{' {
		src = append(src, '}', ',')
	} else {
		src = append(src, '"', ',')
	}
	sym.Observe(string(src))
	ref := refString(src, 2, q)
	sc := newScan(src, true)
	a, b := sc.next(), sc.next()
	sym.Assert(a.t == token.Assign, "assignment")
	sym.Assert(b.off == 1 && (q == '{' && b.t == token.StringLBrace || q == '"' && b.t == token.DoubleQuote), "a string starts")
	for _, want := range ref.toks {
		got := sc.next()
		observeTok(got)
		sym.Assert(got.off == want.off, "position of a token in a string")
		sym.Assert(got.t == want.t, "kind of a token in a string")
		sym.Assert(got.lit == want.lit, "literal of a token in a string")
	}
	if !ref.bad {
		sym.Reach("end")
		// the scanner is outside the string now
		t := sc.next()
		want := token.EOF
		for i := ref.end; i < len(src); i++ {
			switch src[i] {
			case ' ', '\t', '\n', '\r':
				continue
			}
			if want = refKind(src, i, token.StringRBrace); want == token.String {
				want = token.DoubleQuote
			}
			break
		}
		sym.Assert(t.t == want, "scanning goes on outside the string")
	}
}
