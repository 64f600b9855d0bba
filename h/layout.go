package h

import (
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/token"
	"verif/sym"
)

// C09: layout, comments and delimiters.

// layoutDecl is the tokens of a declaration; strings are one token.
func layoutDecl(k int) []string {
	switch k {
	case 0:
		return []string{"@ab", "{", symName(1), ",", symField(2), "=", "{" + symPlain(1) + "}", ",", "n", "=", "12", "}"}
	case 1:
		return []string{"@xy", "{", "k", ",", "j", ",", symField(1), "=", "\"" + symPlain(1) + "\"", "#", "{x}", "#", symName(1), "#", "7", "}"}
	case 2:
		return []string{"@string", "{", symField(2), "=", "\"" + symPlain(1) + "{y}\"", "}"}
	case 3:
		return []string{"@preamble", "{", "{" + symPlain(1) + "}", "#", "\"z\"", "}"}
	case 4:
		return []string{"@c", "{", symField(1), "=", "1", "}"}
	}
	return []string{"@d", "{", symName(2), "}", "@string", "{", "s", "=", "{a b}", "}"}
}

const numLayoutDecls = 6

func joinToks(ts []string, gaps func(int) []byte) (b []byte) {
	for i, t := range ts {
		b = append(b, gaps(i)...)
		b = append(b, t...)
	}
	return append(b, gaps(len(ts))...)
}

func noGaps(int) []byte { return nil }

var _ = reg("C09", "Layout", C09Layout, "6 declarations (with symbolic names, values of every kind and concatenations); p[0] arbitrary white space characters, or a comment of p[0] arbitrary ASCII characters, at any one position between tokens or at all of them; every string mode", ps(1, 3), ps(4, 4), "same")

// C09Layout: white space and comments do not matter.
func C09Layout(p []int) {
	ts := layoutDecl(sym.Choice(numLayoutDecls))
	var ins []byte
	if sym.Choice(2) == 0 {
		for i := 0; i < p[0]; i++ {
			c := sym.ASCII()
			sym.Assume(isSpaceByte(c))
			ins = append(ins, c)
		}
	} else {
		ins = append(ins, '%')
		for i := 0; i < p[0]; i++ {
			c := sym.ASCII()
			sym.Assume(c != '\n' && c != 0)
			ins = append(ins, c)
		}
		ins = append(ins, '\n')
	}
	gap := sym.Choice(len(ts) + 2)
	b := joinToks(ts, func(i int) []byte {
		if i == gap || gap == len(ts)+1 {
			return ins
		}
		return nil
	})
	sameMeaning(joinToks(ts, noGaps), b)
}

func sameMeaning(a, b []byte) {
	mode := strMode()
	sym.Observe(string(a))
	sym.Observe(string(b))
	fa, _, erra := parse(a, mode)
	fb, _, errb := parse(b, mode)
	sym.Observe(errText(erra) + "," + errText(errb))
	sym.Assert(erra == nil && errb == nil, "both forms parse without error")
	sym.Assert(meaning(fa) == meaning(fb), "both forms mean the same")
	sym.Reach("same")
}

var _ = reg("C09", "TwoGaps", C09TwoGaps, "3 declarations; p[0] layout items (white space or comment of one arbitrary character) at each of two arbitrary positions between tokens", ps(1, 1), ps(2, 2), "same")

// C09TwoGaps: layout at two places.
func C09TwoGaps(p []int) {
	ts := layoutDecl(sym.Choice(4))
	item := func() (b []byte) {
		for i := 0; i < p[0]; i++ {
			c := sym.ASCII()
			if sym.Choice(2) == 0 {
				sym.Assume(isSpaceByte(c))
				b = append(b, c)
			} else {
				sym.Assume(c != '\n' && c != 0)
				b = append(b, '%', c, '\n')
			}
		}
		return b
	}
	i, j := sym.Choice(len(ts)+1), sym.Choice(len(ts)+1)
	x, y := item(), item()
	sym.Assume(i < j)
	sameMeaning(joinToks(ts, noGaps), joinToks(ts, func(k int) []byte {
		switch k {
		case i:
			return x
		case j:
			return y
		}
		return nil
	}))
}

var _ = reg("C09", "Delims", C09Delims, "6 declarations: parentheses for braces, every letter case of the type or command, a trailing comma, in any combination; every string mode", ps(0, 0), nil, "same")

// C09Delims: delimiters, letter case and trailing commas do not matter.
func C09Delims(p []int) {
	k := sym.Choice(numLayoutDecls)
	ts := layoutDecl(k)
	us := append([]string(nil), ts...)
	last := 0
	for i := 2; i < len(us); i++ {
		if us[i] == "}" {
			last = i
			break
		}
	}
	if sym.Choice(2) == 1 {
		us[1], us[last] = "(", ")"
	}
	if sym.Choice(2) == 1 {
		b := []byte(us[0])
		for i := 1; i < len(b); i++ {
			b[i] = anyCase(b[i])
		}
		us[0] = string(b)
	}
	if k != 3 && sym.Choice(2) == 1 {
		us[last] = "," + us[last]
	}
	sameMeaning(joinToks(ts, noGaps), joinToks(us, noGaps))
}

var _ = reg("C09", "Quotes", C09Quotes, "p[0] arbitrary ASCII bytes that are well-formed both in quotes and in braces, in a field; every string mode", ps(0, 5), ps(6, 6), "same")

// C09Quotes: quotes and braces delimit the same content.
func C09Quotes(p []int) { sameQuotes(sym.ASCIIs(p[0])) }

func sameQuotes(body []byte) {
	noNUL(body)
	mode := strMode()
	frame := func(o, c byte) []byte {
		b := append([]byte("@a{k,t="), o)
		return append(append(b, body...), c, '}')
	}
	q, b := frame('"', '"'), frame('{', '}')
	n := len(q) - 1
	if mode == 0 {
		sym.Assume(balanced(b, 8) == n)
		depth := 0
		for _, c := range body {
			switch c {
			case '{':
				depth++
			case '}':
				depth--
			case '"':
				sym.Assume(depth > 0)
			}
		}
	} else {
		rq, rb := refString(q, 8, '"'), refString(b, 8, '{')
		sym.Assume(!rq.bad && !rb.bad && rq.end == n && rb.end == n && okURLs(rq.toks))
	}
	sym.Observe(string(b))
	fq, _, errq := parse(q, mode)
	fb, _, errb := parse(b, mode)
	sym.Assert(errq == nil && errb == nil, "both forms parse without error")
	sym.Assert(content(fq) == content(fb), "both forms have the same content")
	sym.Reach("same")
}

// content is the content of the value of the only field.
func content(f *ast.File) string {
	d := &dumper{}
	switch x := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(type) {
	case *ast.UnparsedText:
		d.s(x.Value)
	case *ast.ParsedText:
		d.exprs(x.Values)
	default:
		return "?"
	}
	return d.sb.String()
}

// C11: unparsed strings.

var _ = reg("C11", "Verbatim", C11Verbatim, "a quoted or braced string of p[0] arbitrary valid UTF-8 bytes, in a field, an abbreviation, a preamble or after a #", ps(0, 4), ps(5, 5), "verbatim")

// C11Verbatim: strings are kept byte for byte.
func C11Verbatim(p []int) { verbatim(sym.Bytes(p[0])) }

var _ = reg("C11", "VerbatimText", C11VerbatimText, "the same of p[0] bytes out of { } \" \\ a , = % newline", ps(4, 7), ps(8, 9), "verbatim")

// C11VerbatimText: longer strings over the characters that matter.
func C11VerbatimText(p []int) {
	b := make([]byte, p[0])
	for i := range b {
		c := sym.ASCII()
		sym.Assume(c == '{' || c == '}' || c == '"' || c == '\\' || c == 'a' || c == ',' || c == '=' || c == '%' || c == '\n')
		b[i] = c
	}
	verbatim(b)
}

var verbatimFrames = []string{"@a{k,t=", "@string{t=", "@preamble{", "@a(k,t=1#"}

func verbatim(body []byte) {
	noNUL(body)
	for i := 0; i < len(body); {
		w := runeLen(body, i)
		sym.Assume(body[i] < 0x80 || w > 1)
		sym.Assume(!(w == 3 && body[i] == 0xEF && body[i+1] == 0xBB && body[i+2] == 0xBF))
		i += w
	}
	k := sym.Choice(4)
	b := []byte(verbatimFrames[k])
	start := len(b)
	kind := token.BraceString
	if anyQuote() == '{' {
		b = append(append(append(b, '{'), body...), '}')
		sym.Assume(balanced(b, start+1) == len(b))
	} else {
		kind = token.String
		b = append(append(append(b, '"'), body...), '"')
		j := start + 1
		for j < len(b) && b[j] != '"' {
			if b[j] == '{' {
				j = balanced(b, j+1)
				sym.Assume(j >= 0)
			} else {
				j++
			}
		}
		sym.Assume(j == len(b)-1)
	}
	if k == 3 {
		b = append(b, ')')
	} else {
		b = append(b, '}')
	}
	sym.Observe(string(b))
	f, _, err := parse(b, 0)
	sym.Observe(errText(err))
	sym.Assert(err == nil, "a well-formed string parses without error")
	sym.Assert(len(f.Entries) == 1, "one declaration")
	var x ast.Expr
	switch d := f.Entries[0].(type) {
	case *ast.BibDecl:
		sym.Assert(len(d.Tags) == 1, "one field")
		x = d.Tags[0].Value
		if c, ok := x.(*ast.ConcatExpr); ok {
			x = c.Y
		}
	case *ast.AbbrevDecl:
		x = d.Tag.Value
	case *ast.PreambleDecl:
		x = d.Text
	}
	u, ok := x.(*ast.UnparsedText)
	sym.Assert(ok, "a string is unparsed text")
	sym.Assert(u.Type == kind, "a string has its delimiter kind")
	sym.Assert(u.Value == string(body), "a string has its content")
	sym.Reach("verbatim")
}

// C15: errors.

var _ = reg("C15", "Errors", C15Errors, "a file of p[0] arbitrary ASCII bytes, every string mode", ps(0, 4), ps(5, 5), "error")

// C15Errors checks the errors of arbitrary files.
func C15Errors(p []int) { errorList(sym.ASCIIs(p[0])) }

var _ = reg("C15", "ErrorsOpen", C15ErrorsOpen, "one of 24 unfinished declarations and then p[0] arbitrary ASCII bytes, every string mode", ps(0, 2), ps(3, 3), "error")

// C15ErrorsOpen checks the errors of unfinished files.
func C15ErrorsOpen(p []int) {
	errorList(append([]byte(parseStarts[sym.Choice(len(parseStarts))]), sym.ASCIIs(p[0])...))
}

var _ = reg("C15", "ErrorLines", C15ErrorLines, "p[0] lines out of 6 faulty ones, the same twice each, with one arbitrary ASCII byte, every string mode", ps(1, 3), ps(4, 6), "error")

var faulty = []string{"@a{k,t=", "@a{k)", "=", "@string{1}", "x\x00", "@a{k,t=\"$"}

// C15ErrorLines checks the errors of files with many faults.
func C15ErrorLines(p []int) {
	var b []byte
	for i := 0; i < p[0]; i++ {
		l := faulty[sym.Choice(len(faulty))]
		if i == 0 {
			b = append(b, l...)
			b = append(b, sym.ASCII())
		}
		b = append(append(append(append(b, l...), '\n'), l...), '\n')
	}
	errorList(b)
}

var _ = reg("C15", "ErrorLimit", C15ErrorLimit, "p[0] times the same faulty line out of 6 and an arbitrary ASCII byte, every string mode", [][]int{{11}, {12}, {14}}, [][]int{{30}}, "error")

// C15ErrorLimit checks files with more errors than the limit.
func C15ErrorLimit(p []int) {
	l := faulty[sym.Choice(len(faulty))]
	c := sym.ASCII()
	var b []byte
	for i := 0; i < p[0]; i++ {
		b = append(append(append(b, l...), c), '\n')
	}
	errorList(b)
}

func errorList(src []byte) {
	sym.Observe(string(src))
	mode := strMode()
	_, _, err := parse(src, mode)
	_, _, err2 := parse(src, mode)
	_, _, all := parse(src, mode|parser.AllErrors)
	sym.Assert((err == nil) == (all == nil), "both modes agree on whether there is an error")
	sym.Assert((err == nil) == (err2 == nil), "parsing again gives an error again")
	if err == nil {
		return
	}
	sym.Reach("error")
	es, es2, as := errs(err, src), errs(err2, src), errs(all, src)
	sym.Assert(len(es) == len(es2), "parsing again gives as many errors")
	for i := range es {
		sym.Assert(es[i] == es2[i], "parsing again gives the same errors")
	}
	// a subset, as multisets of sorted entries
	j := 0
	for _, e := range es {
		for j < len(as) && as[j] != e {
			j++
		}
		sym.Assert(j < len(as), "all-errors reports every error that is reported without")
		j++
	}
	if len(es) > 10 {
		return // parsing stopped
	}
	for _, a := range as {
		found := false
		for _, e := range es {
			found = found || e.line == a.line
		}
		sym.Assert(found, "an error is reported on every line that has one")
	}
}

type errAt struct{ off, line, col int }
