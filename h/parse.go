package h

import (
	gotoken "go/token"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"verif/sym"
)

// parse parses src under the name a.bib.
func parse(src []byte, mode parser.Mode) (*ast.File, *gotoken.FileSet, error) {
	fset := gotoken.NewFileSet()
	f, err := parser.ParseFile(fset, fileName, src, mode)
	return f, fset, err
}

// anyMode is any combination of parser flags.
func anyMode() parser.Mode { return parser.Mode(sym.Int(0, 31)) }

func errText(err error) string {
	if err == nil {
		return "no error"
	}
	return "error"
}

// C01: parsing terminates without crashing.

var _ = reg("C01", "ParseBytes", C01ParseBytes, "a file of p[0] arbitrary bytes, every combination of the mode flags", ps(0, 3), ps(4, 4), "error", "ok")

// C01ParseBytes parses arbitrary input.
func C01ParseBytes(p []int) { parseTotal(sym.Bytes(p[0]), anyMode()) }

func parseTotal(src []byte, mode parser.Mode) {
	sym.Observe(string(src))
	sym.ObserveInt(int(mode))
	f, _, err := parse(src, mode)
	sym.Observe(errText(err))
	sym.Assert(f != nil, "parsing from memory yields a file")
	if err != nil {
		sym.Reach("error")
	} else {
		sym.Reach("ok")
	}
}

var parseStarts = []string{
	"@a{", "@a{k,", "@a{k,t=", "@a{k,t={", "@a(k,t=\"", "@a{k,t={a", "@a{k,t=\"{", "@a{k,t={\\'", "@a{k,t={\\", "@a{k,t={$",
	"@a{k,url={", "@a{k,url=\"", "@a{k,t={\\url", "@a{k,t=\"\\url{", "@a{k,url={\\href{", "@a{k,t=1#",
	"@string{a=", "@string(", "@string{a={", "@preamble{", "@preamble{{", "@preamble(\"", "@comment{", "%c\n@a{",
}

var _ = reg("C01", "ParseOpen", C01ParseOpen, "one of 24 unfinished declarations and then p[0] arbitrary bytes, every combination of the mode flags", ps(0, 2), ps(3, 3), "error")

// C01ParseOpen parses input that ends anywhere in a declaration.
func C01ParseOpen(p []int) {
	st := parseStarts[sym.Choice(len(parseStarts))]
	parseTotal(append([]byte(st), sym.Bytes(p[0])...), anyMode())
}

var _ = reg("C01", "ParseText", C01ParseText, "one of 24 unfinished declarations and then p[0] bytes out of \\ c o { } $ \" ' , ~ space 7 newline = # % @ ( ), parsing strings or not", ps(2, 2), ps(3, 5), "error")

// C01ParseText: the same, longer, over the characters the parser tells apart.
func C01ParseText(p []int) {
	st := parseStarts[sym.Choice(len(parseStarts))]
	b := []byte(st)
	for i := 0; i < p[0]; i++ {
		c := sym.ASCII()
		sym.Assume(c == '\\' || c == 'c' || c == 'o' || c == '{' || c == '}' || c == '$' || c == '"' || c == '\'' ||
			c == ',' || c == '~' || c == ' ' || c == '7' || c == '\n' || c == '=' || c == '#' || c == '%' || c == '@' || c == '(' || c == ')')
		b = append(b, c)
	}
	mode := parser.Mode(0)
	if sym.Choice(2) == 1 {
		mode = parser.ParseStrings
	}
	parseTotal(b, mode)
}

var _ = reg("C01", "ParseString", C01ParseString, "a quoted or braced string of p[0] bytes out of { } \" $ \\ 7 a newline and NUL in a field, a url, an abbreviation, a preamble or an expression, with an end or not; strings parsed", ps(3, 5), ps(6, 7), "error", "ok")

// C01ParseString: faulty strings.
func C01ParseString(p []int) {
	q, r := anyQuote(), "}"
	if q == '"' {
		r = "\""
	}
	k := sym.Choice(5)
	b := append([]byte([]string{"@a{k,t=", "@a{k,url=", "@string{s=", "@preamble{", ""}[k]), q)
	for i := 0; i < p[0]; i++ {
		c := sym.ASCII()
		sym.Assume(c == '{' || c == '}' || c == '"' || c == '$' || c == '\\' || c == '7' || c == 'a' || c == '\n' || c == 0)
		b = append(b, c)
	}
	if sym.Choice(2) == 1 {
		b = append(b, r...)
		if k < 4 {
			b = append(b, '}')
		}
	}
	if k == 4 {
		exprTotal(b)
		return
	}
	parseTotal(b, parser.ParseStrings)
}

var _ = reg("C01", "ParseExpr", C01ParseExpr, "an expression of p[0] arbitrary bytes", ps(0, 3), ps(4, 5), "error", "ok")

// C01ParseExpr parses arbitrary expressions.
func C01ParseExpr(p []int) { exprTotal(sym.Bytes(p[0])) }

var exprStarts = []string{"{", "\"", "{{", "\"{", "{\\", "{\\'{", "{\\url{", "\"$", "a#", "{}#", "\"\"#", "{\\c "}

var _ = reg("C01", "ParseExprOpen", C01ParseExprOpen, "one of 12 unfinished expressions and then p[0] arbitrary bytes", ps(0, 2), ps(3, 4), "error")

// C01ParseExprOpen parses expressions that end anywhere.
func C01ParseExprOpen(p []int) {
	st := exprStarts[sym.Choice(len(exprStarts))]
	exprTotal(append([]byte(st), sym.Bytes(p[0])...))
}

func exprTotal(src []byte) {
	sym.Observe(string(src))
	x, err := parser.ParseExpr(string(src))
	sym.Observe(errText(err))
	if err != nil {
		sym.Reach("error")
		sym.Assert(x == nil, "an error comes without an expression")
	} else {
		sym.Reach("ok")
		sym.Assert(x != nil, "an expression or an error")
	}
}

var _ = reg("C01", "ManyErrors", C01ManyErrors, "a file or expression opening, then p[0] lines that all hold the same 2 arbitrary ASCII bytes, then 1 arbitrary byte; every combination of the mode flags", [][]int{{3}, {12}}, [][]int{{14}, {30}}, "error")

// C01ManyErrors: the limit on the number of reported errors.
func C01ManyErrors(p []int) {
	starts := []string{"", "@a{k,t={", "@a{k,t=\"", "@string{", "{", "\"", "a#"}
	k := sym.Choice(len(starts))
	b := []byte(starts[k])
	j := sym.ASCIIs(2)
	for i := 0; i < p[0]; i++ {
		b = append(b, '\n', j[0], j[1])
	}
	b = append(b, sym.ASCII())
	if k < 4 {
		parseTotal(b, anyMode())
	} else {
		exprTotal(b)
	}
}
