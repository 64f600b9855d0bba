package h

import (
	gotoken "go/token"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"verif/sym"
)

// C40: a value means the same wherever it is written.

// valueOf is the value written in a frame, if the frame holds just one.
func valueOf(src []byte, mode parser.Mode) (x ast.Expr, ok bool) {
	f, _, err := parse(src, mode)
	if err != nil || len(f.Entries) != 1 {
		return nil, false
	}
	n := gotoken.Pos(len(src))
	switch d := f.Entries[0].(type) {
	case *ast.BibDecl:
		if len(d.Tags) != 1 || len(d.ExtraKeys) > 0 || d.RBrace != n {
			return nil, false
		}
		return d.Tags[0].Value, true
	case *ast.AbbrevDecl:
		return d.Tag.Value, d.RBrace == n
	case *ast.PreambleDecl:
		return d.Text, d.RBrace == n
	}
	return nil, false
}

var valueFrames = [][2]string{{"@preamble{", "}"}, {"@a{k,t=", "}"}, {"@b(l,year = ", ")"}, {"@string{s=", "}"}, {"@STRING(s=", ")"}, {"@preamble (", ")"}, {"@string{url=", "}"}, {"@c{t=", "}"}}

// anyField is any name of up to four letters but url, or a common one.
func anyField() string {
	if n := sym.Choice(5); n > 0 {
		s := symLetters(n)
		sym.Assume(lower(s) != "url")
		return s
	}
	return commonFields[sym.Choice(len(commonFields))]
}

var commonFields = []string{"author", "title", "journal", "volume", "number", "pages", "month", "eprint", "editor", "abstract", "keywords", "publisher", "booktitle", "organization", "howpublished", "urldate", "bdsk-url-1", "key", "isbn", "file", "crossref", "annote"}

// sameValue compares the value in all frames with that in the first.
func sameValue(v []byte) {
	sym.Observe(string(v))
	frame := func(k int) []byte {
		return append(append([]byte(valueFrames[k][0]), v...), valueFrames[k][1]...)
	}
	mode := strMode()
	x, ok := valueOf(frame(0), mode)
	if !ok {
		sym.Reach("other")
		return
	}
	want := dumpExpr(x)
	sym.Observe(want)
	k := 1 + sym.Choice(len(valueFrames))
	if k < len(valueFrames) {
		y, ok := valueOf(frame(k), mode)
		sym.Assert(ok, "a value is a value wherever it is written")
		sym.Assert(dumpExpr(y) == want, "a value means the same wherever it is written")
		sym.Reach("same")
		return
	}
	y, err := parser.ParseExpr(string(v))
	if mode&parser.ParseStrings != 0 {
		sym.Assert(err == nil && y != nil, "a value is an expression")
		sym.Assert(dumpExpr(y) == want, "an expression is the same as the value of a field")
		sym.Reach("expr")
	}
}

var _ = reg("C40", "Value", C40Value, "p[0] arbitrary ASCII bytes that are the value of a field, in 7 other places or alone, every string mode", ps(1, 4), ps(5, 5), "same", "expr", "other")

// C40Value: arbitrary values.
func C40Value(p []int) { sameValue(sym.ASCIIs(p[0])) }

var _ = reg("C40", "ValueText", C40ValueText, "p[0] bytes out of a 1 # \" { } space % newline $ \\ ' that are the value of a field, in 7 other places or alone, every string mode", ps(4, 5), ps(6, 6), "same", "expr", "other")

// C40ValueText: longer values.
func C40ValueText(p []int) {
	b := make([]byte, p[0])
	for i := range b {
		c := sym.ASCII()
		sym.Assume(c == 'a' || c == '1' || c == '#' || c == '"' || c == '{' || c == '}' || c == ' ' || c == '%' || c == '\n' || c == '$' || c == '\\' || c == '\'')
		b[i] = c
	}
	sameValue(b)
}

var _ = reg("C40", "Pieces", C40Pieces, "a quoted or braced string of p[0] pieces out of text, Latin letters, space, comma, tie, math, escape, bare, braced and spaced accent, macro, url macro, group and nested groups with arbitrary characters", ps(1, 2), ps(3, 3), "same", "expr")

func quoted(body []byte) []byte {
	q, r := anyQuote(), byte('}')
	if q == '"' {
		r = '"'
	}
	return append(append([]byte{q}, body...), r)
}

// C40Pieces: strings of several pieces.
func C40Pieces(p []int) { sameValue(quoted(pieces(p[0]))) }

var _ = reg("C40", "Concat", C40Concat, "p[0] operands of p[1] characters whose kinds are in any regular sequence joined by #; nothing, a space or a comment between tokens", [][]int{{1, 3}, {2, 2}, {10, 2}, {1, 12}, {1, 33}}, [][]int{{3, 4}, {40, 2}, {2, 20}, {1, 70}}, "same", "expr")

// C40Concat: concatenations.
func C40Concat(p []int) {
	g := newGen()
	if p[0] > 2 || p[1] > 4 {
		g.large()
	}
	g.bigConcat(p[0], p[1], cycle(numKinds))
	sameValue(g.b)
}

var _ = reg("C40", "Huge", C40Huge, hugeStrBound+"; or p[0] operands", [][]int{{300}}, [][]int{{3000}}, "same", "expr")

// C40Huge: huge values.
func C40Huge(p []int) {
	if sym.Choice(2) == 0 {
		sameValue(quoted(hugeString(p)))
		return
	}
	g := hugeGen()
	g.bigConcat(p[0], 2, lean(numKinds))
	sameValue(g.b)
}

var _ = reg("C40", "Names", C40Names, "one of 9 values with p[0] arbitrary ASCII bytes in a field named t, and in one with a name of up to 4 arbitrary letters but url or one of 22 common names", ps(0, 2), ps(3, 3), "same", "other")

// C40Names: the name of a field does not matter.
func C40Names(p []int) {
	fr := [][2]string{{"{", "}"}, {"\"", "\""}, {"", ""}, {"{a,b ~-", "}"}, {"\"a, $m$", "\""}, {"{\\'e\\&\\url{a", "}}"}, {"1 # a", ""}, {"{A b and c, d", "}"}, {"{{a,b}", "}"}}[sym.Choice(9)]
	v := fr[0] + string(sym.ASCIIs(p[0])) + fr[1]
	mode := strMode()
	x, ok := valueOf([]byte("@a{k,t="+v+"}"), mode)
	if !ok {
		sym.Reach("other")
		return
	}
	want := dumpExpr(x)
	name := anyField()
	sym.Observe(name + v + want)
	y, ok := valueOf([]byte("@a{k,"+name+"="+v+"}"), mode)
	sym.Assert(ok, "a value is a value in every field")
	sym.Assert(dumpExpr(y) == want, "a value means the same in every field")
	sym.Reach("same")
}

// C39: recognising others and empty authors.

func anyPart() (ast.Expr, string, bool) {
	switch sym.Choice(4) {
	case 0:
		return &ast.Text{}, "", true
	case 1:
		s := string(sym.ASCIIs(6))
		return &ast.Text{Value: s}, s, true
	case 2:
		s := string(sym.Bytes(1 + 6*sym.Choice(2)))
		return &ast.Text{Value: s}, s, true
	}
	switch sym.Choice(4) {
	case 0:
		return nil, "", false
	case 1:
		return &ast.Ident{Name: "others"}, "", false
	case 2:
		return &ast.ParsedText{Values: []ast.Expr{&ast.Text{Value: "others"}}}, "", false
	}
	return &ast.ParsedText{}, "", false
}

var _ = reg("C39", "Predicates", C39Predicates, "authors of which up to two parts are any text of 0, 1, 6 or 7 arbitrary bytes or another node, the others being empty", ps(0, 0), nil, "others", "empty", "neither")

// C39Predicates: any author.
func C39Predicates(p []int) {
	var parts [4]ast.Expr
	var texts [4]string
	var isText [4]bool
	for i := range parts {
		parts[i], isText[i] = &ast.Text{}, true
	}
	i, j := sym.Choice(4), sym.Choice(4)
	parts[i], texts[i], isText[i] = anyPart()
	if i != j {
		parts[j], texts[j], isText[j] = anyPart()
	}
	a := &ast.Author{First: parts[0], Prefix: parts[1], Last: parts[2], Suffix: parts[3]}
	empty, others := true, true
	for k := range parts {
		empty = empty && isText[k] && texts[k] == ""
		want := ""
		if k == 2 {
			want = "others"
		}
		others = others && isText[k] && texts[k] == want
	}
	sym.Assert(a.IsEmpty() == empty, "an author is empty exactly when its parts are empty texts")
	sym.Assert(a.IsOthers() == others, "an author is others exactly when its only part is the last name others")
	switch {
	case empty:
		sym.Reach("empty")
	case others:
		sym.Reach("others")
	default:
		sym.Reach("neither")
	}
}

var _ = reg("C39", "List", C39List, "p[0] names, each of a word with p[1] arbitrary letters or the word others, with or without a first name; joined by and with any spacing", [][]int{{1, 1}, {1, 5}, {2, 1}, {3, 1}}, [][]int{{2, 5}, {4, 1}, {6, 0}}, "others", "named")

// C39List: extracted authors.
func C39List(p []int) {
	var src []byte
	var want []bool
	for i := 0; i < p[0]; i++ {
		if i > 0 {
			src = append(src, []string{" and ", "\nand  "}[sym.Choice(2)]...)
		}
		k := sym.Choice(4)
		w := false
		switch k {
		case 0:
			src = append(src, "others"...)
			w = true
		case 1:
			b := []byte{letter()}
			for n := 0; n < p[1]; n++ {
				b = append(b, letter())
			}
			src = append(src, b...)
			w = string(b) == "others"
			if len(b) == 3 {
				sym.Assume(string(b) != "and")
			}
		case 2:
			src = append(src, "Ann others"...)
		default:
			src = append(src, "others, Bo"...)
		}
		want = append(want, w)
	}
	sym.Observe(string(src))
	t := parseString(append(append([]byte("@a{k,t={"), src...), "}}"...))
	sym.Assert(t != nil, "a list of names parses")
	as, err := bibtex.ExtractAuthors(t)
	sym.Assert(err == nil, "a list of names gives authors")
	sym.Assert(len(as) == len(want), "every name gives an author")
	for i, a := range as {
		sym.Assert(a.IsOthers() == want[i], "exactly the name others is recognised as others")
		sym.Assert(!a.IsEmpty(), "no author is empty")
		if want[i] {
			sym.Reach("others")
		} else {
			sym.Reach("named")
		}
	}
}
