package h

import (
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/token"
	"verif/sym"
)

// verdict is what the documented grammar says about a file.
type verdict struct {
	ok    bool
	any   bool // neither answer is wrong
	decls int
	at    int  // where the first token begins that does not fit
	lex   bool // has lexical errors
}

// grammar recognises token sequences of well-formed files.
type grammar struct {
	toks []tok
	i    int
	v    verdict
}

func (g *grammar) is(t token.Token) bool { return g.toks[g.i].t == t }

func (g *grammar) take(t token.Token) bool {
	if g.is(t) {
		g.i++
		return true
	}
	return false
}

func (g *grammar) name() bool { return g.is(token.Ident) || g.is(token.Number) }

func (g *grammar) value() bool {
	for {
		if !g.name() && !g.is(token.String) && !g.is(token.BraceString) {
			return false
		}
		g.i++
		if !g.take(token.Concat) {
			return true
		}
	}
}

func (g *grammar) decl() bool {
	kind := g.toks[g.i].t
	if kind != token.BibEntry && kind != token.Abbrev && kind != token.Preamble {
		return false
	}
	g.i++
	cl := token.RBrace
	switch {
	case g.take(token.LBrace):
	case g.take(token.LParen):
		cl = token.RParen
	default:
		return false
	}
	switch kind {
	case token.Preamble:
		return g.value() && g.take(cl)
	case token.Abbrev:
		if !g.name() {
			return false
		}
		if !isAlpha(g.toks[g.i].lit[0]) {
			g.v.any = true
		}
		g.i++
		if !g.take(token.Assign) || !g.value() {
			return false
		}
		g.take(token.Comma)
		return g.take(cl)
	}
	for g.name() {
		first := g.toks[g.i].lit[0]
		g.i++
		if g.take(token.Assign) {
			if !isAlpha(first) {
				g.i -= 2 // the name is at fault
				return false
			}
			if !g.value() {
				return false
			}
			if !g.take(token.Comma) && g.name() {
				g.v.any = true // a missing comma between fields is tolerated
			}
		} else if !g.take(token.Comma) {
			break
		}
	}
	if !g.take(cl) {
		return false
	}
	g.take(token.Comma)
	return true
}

// judge applies the grammar to a source that is not string-scanned.
func judge(src []byte) verdict {
	r := refLex(src)
	g := &grammar{}
	bad := r.bad
	for _, t := range r.toks {
		if t.t == token.TexComment {
			continue
		}
		if t.t == token.Illegal {
			bad = true
		}
		g.toks = append(g.toks, t)
	}
	for i := 0; i < len(src); {
		w := runeLen(src, i)
		if src[i] == 0 || src[i] >= 0x80 && w == 1 {
			bad = true
		}
		i += w
	}
	if bad {
		return verdict{lex: true}
	}
	for !g.is(token.EOF) {
		if !g.decl() {
			g.v.ok = false
			g.v.at = g.toks[g.i].off
			return g.v
		}
		g.v.decls++
	}
	g.v.ok = true
	return g.v
}

// C13: malformed declarations are reported.

// judged compares the parser with the grammar.
func judged(src []byte) {
	sym.Observe(string(src))
	v := judge(src)
	f, _, err := parse(src, 0)
	sym.Observe(errText(err))
	if v.any {
		return
	}
	if !v.ok {
		sym.Reach("malformed")
		sym.Assert(err != nil, "a malformed file is an error")
		errs(err, src)
		// string scanning finds the error, too, where strings are plain
		plain := true
		for _, c := range src {
			if c == '\\' || c == '$' {
				plain = false
			}
		}
		if plain {
			_, _, err = parse(src, parser.ParseStrings)
			sym.Assert(err != nil, "a malformed file is an error when strings are parsed")
			errs(err, src)
		}
		return
	}
	sym.Reach("well-formed")
	sym.Assert(err == nil, "a well-formed file is no error")
	sym.Assert(len(f.Entries) == v.decls, "a well-formed file has its declarations")
	for _, e := range f.Entries {
		_, bad := e.(*ast.BadDecl)
		sym.Assert(!bad, "a well-formed file has no bad declarations")
	}
}

var _ = reg("C13", "Judged", C13Judged, "one of 10 unfinished declarations, p[0] arbitrary ASCII bytes and one of 4 endings", ps(0, 2), ps(3, 3), "malformed", "well-formed")

var (
	judgedStarts = []string{"", "@a{k,t=1", "@a(k,", "@a{k", "@string{s=", "@string(s", "@preamble{", "@a", "@a{k,t={x}", "@a{k}\n"}
	judgedEnds   = []string{"", "}", ")", "}\n@b{j}"}
)

// C13Judged: short arbitrary text in declarations.
func C13Judged(p []int) {
	b := append([]byte(judgedStarts[sym.Choice(len(judgedStarts))]), sym.ASCIIs(p[0])...)
	judged(append(b, judgedEnds[sym.Choice(len(judgedEnds))]...))
}

var _ = reg("C13", "JudgedText", C13JudgedText, "one of 4 unfinished declarations, p[0] bytes out of a Z - 7 \" { } , = newline space % @ # ( return ) and one of 3 endings", ps(3, 3), ps(4, 5), "malformed", "well-formed")

// C13JudgedText: longer text over the character classes.
func C13JudgedText(p []int) {
	b := []byte(judgedStarts[sym.Choice(4)])
	for i := 0; i < p[0]; i++ {
		c := sym.ASCII()
		sym.Assume(c == 'a' || c == 'Z' || c == '-' || c == '7' || c == '"' || c == '{' || c == '}' || c == ',' ||
			c == '=' || c == '\n' || c == ' ' || c == '%' || c == '@' || c == '#' || c == '(' || c == ')' || c == '\r')
		b = append(b, c)
	}
	judged(append(b, judgedEnds[sym.Choice(3)]...))
}

var _ = reg("C13", "Mutated", C13Mutated, "6 well-formed declarations with one token dropped, doubled, replaced by p[0] arbitrary ASCII bytes, or with these bytes before it; then nothing or another declaration", ps(1, 1), ps(2, 3), "malformed", "well-formed")

// C13Mutated: one fault in a well-formed declaration.
func C13Mutated(p []int) {
	judged(mutatedTail(p[0], sym.Choice(2) == 1))
}

// mutatedTail is a declaration with a fault.
func mutatedTail(n int, tail bool) []byte {
	ts := layoutDecl(sym.Choice(numLayoutDecls))
	i := sym.Choice(len(ts))
	switch sym.Choice(4) {
	case 0:
		ts[i] = ""
	case 1:
		ts[i] += ts[i]
	case 2:
		ts[i] = string(sym.ASCIIs(n))
	case 3:
		ts[i] = string(sym.ASCIIs(n)) + ts[i]
	}
	b := joinToks(ts, noGaps)
	if tail {
		b = append(b, "\n@b{j}"...)
	}
	return b
}

var _ = reg("C13", "Truncated", C13Truncated, "6 well-formed declarations cut off after any token and p[0] arbitrary ASCII bytes", ps(0, 1), ps(2, 3), "malformed")

// C13Truncated: input that ends early.
func C13Truncated(p []int) {
	ts := layoutDecl(sym.Choice(numLayoutDecls))
	judged(append(joinToks(ts[:sym.Choice(len(ts))+1], noGaps), sym.ASCIIs(p[0])...))
}

var _ = reg("C13", "BadString", C13BadString, "a quoted or braced string of p[0] bytes out of \\ c o { } $ \" ' , ~ space 7 newline with a malformed piece or end, in a field, an abbreviation or a preamble, strings parsed; then nothing or another declaration", ps(0, 3), ps(4, 6), "malformed")

// C13BadString: unterminated strings, groups and math.
func C13BadString(p []int) {
	body := make([]byte, p[0])
	for i := range body {
		body[i] = strByte()
	}
	b := []byte(stringFrames[sym.Choice(3)])
	q := anyQuote()
	start := len(b) + 1
	b = append(append(b, q), body...)
	switch sym.Choice(3) {
	case 1:
		b = append(b, "\n@b{j}"...)
	case 2:
		b = append(b, "}\n@b{j}"...)
	}
	r := refString(b, start, q)
	sym.Assume(r.bad && !r.unb)
	sym.Observe(string(b))
	_, _, err := parse(b, parser.ParseStrings)
	sym.Observe(errText(err))
	sym.Assert(err != nil, "a malformed string is an error")
	errs(err, b)
	sym.Reach("malformed")
}
