package h

import (
	"unicode"
	"unicode/utf8"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"verif/sym"
)

// Authors: C17, C18 and C19.

// strip drops the spaces of a text.
func strip(s string) string {
	var r []byte
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		if !unicode.IsSpace(c) {
			r = append(r, s[i:i+n]...)
		}
		i += n
	}
	return string(r)
}

// part is the text of a part of a name.
func part(x ast.Expr) string {
	t, ok := x.(*ast.Text)
	sym.Assert(ok && t != nil, "the parts of a name are text")
	return t.Value
}

// escs are the nodes an extracted name may keep a backslash for.
func withBackslash(x ast.Expr) ast.Expr {
	switch t := x.(type) {
	case *ast.TextEscaped:
		return &ast.Text{Value: "\\" + t.Value}
	case *ast.ParsedText:
		var v []ast.Expr
		for _, y := range t.Values {
			v = append(v, withBackslash(y))
		}
		return &ast.ParsedText{Values: v}
	case *ast.TextMacro:
		var v []ast.Expr
		for _, y := range t.Values {
			v = append(v, withBackslash(y))
		}
		return &ast.TextMacro{Values: v}
	}
	return x
}

func isTextSpace(x ast.Expr) bool {
	_, ok := x.(*ast.TextSpace)
	return ok
}

// names splits a list at the standalone words "and".
func names(xs []ast.Expr) (r [][]ast.Expr) {
	from := 0
	for i, x := range xs {
		t, ok := x.(*ast.Text)
		if ok && t.Value == "and" && (i == 0 || isTextSpace(xs[i-1])) && (i == len(xs)-1 || isTextSpace(xs[i+1])) {
			r = append(r, xs[from:i])
			from = i + 1
		}
	}
	return append(r, xs[from:])
}

// nameText is the text of a name without spaces and separating commas.
func nameText(xs []ast.Expr) (plain, back string, commas int, f flatten) {
	var g flatten
	end := func() {
		plain += strip(string(f.b))
		back += strip(string(g.b))
		f.b, g.b = nil, nil
	}
	for _, x := range xs {
		if _, ok := x.(*ast.TextComma); ok {
			commas++
			end()
			continue
		}
		f.expr(x)
		g.expr(withBackslash(x))
	}
	end()
	return plain, back, commas, f
}

func noCommas(s string) string {
	var r []byte
	for i := 0; i < len(s); i++ {
		if s[i] != ',' {
			r = append(r, s[i])
		}
	}
	return string(r)
}

// authorsCheck extracts the authors of a string.
func authorsCheck(t *ast.ParsedText) {
	before := dumpExpr(t)
	sym.Observe(before)
	as, err := bibtex.ExtractAuthors(t)
	sym.Observe(errText(err))
	sym.Assert(dumpExpr(t) == before, "extracting authors leaves the string alone")
	segs := names(t.Values)
	empty, bad, may := false, false, false
	for _, xs := range segs {
		plain, back, n, f := nameText(xs)
		bad = bad || f.bad
		may = may || f.may || n > 2
		if back == "" {
			empty = true
		} else if plain == "" {
			may = true // an escaped space
		}
	}
	if bad {
		sym.Reach("bad")
		return
	}
	if may && err != nil {
		return
	}
	if empty && !may {
		sym.Assert(err != nil, "an empty name is an error")
		sym.Reach("empty")
	}
	if !empty && !may {
		sym.Assert(err == nil, "names are extracted without error")
	}
	if err != nil {
		sym.Assert(len(as) == 0, "there are no authors after an error")
		return
	}
	sym.Assert(len(as) == len(segs), "there is one author for each name")
	sym.Reach("authors")
	for i, a := range as {
		plain, back, commas, _ := nameText(segs[i])
		first, prefix, last, suffix := part(a.First), part(a.Prefix), part(a.Last), part(a.Suffix)
		var all string
		switch commas {
		case 0:
			all = strip(first) + strip(prefix) + strip(last)
			sym.Assert(suffix == "", "only the last of the forms has a suffix")
		case 1:
			all = strip(prefix) + strip(last) + strip(first)
			sym.Assert(suffix == "", "only the last of the forms has a suffix")
		case 2:
			all = strip(prefix) + strip(last) + strip(suffix) + strip(first)
		default:
			// not a form, but nothing is lost
			all = noCommas(strip(prefix) + strip(last) + strip(suffix) + strip(first))
			plain, back = noCommas(plain), noCommas(back)
		}
		sym.Assert(all == plain || all == back, "the parts of a name contain every character once")
		// alone
		if len(segs) > 1 {
			one, err := bibtex.ExtractAuthors(&ast.ParsedText{Values: segs[i]})
			sym.Assert(err == nil && len(one) == 1, "a name is extracted as if it stood alone")
			sym.Assert(dumpExpr(one) == dumpExpr(ast.Authors{a}), "a name is extracted as if it stood alone")
			sym.Reach("several")
		}
	}
}

// listPiece is a piece of a list of authors.
func listPiece(k, chars int) ast.Expr {
	switch k {
	case 0:
		return &ast.TextSpace{}
	case 1:
		return &ast.Text{Value: "and"}
	case 2:
		b := make([]byte, chars)
		for i := range b {
			b[i] = sym.ASCII()
		}
		return &ast.Text{Value: string(b)}
	case 3:
		return &ast.TextComma{}
	case 4:
		return &ast.ParsedText{Depth: 1, Values: []ast.Expr{&ast.TextSpace{}, &ast.Text{Value: "and"}, &ast.TextSpace{}, &ast.Text{Value: "x"}}}
	case 5:
		return &ast.TextAccent{Accent: '\'', Text: &ast.Text{Value: "e"}}
	case 6:
		return &ast.TextNBSP{}
	case 7:
		return &ast.TextMath{Value: "and"}
	case 8:
		return &ast.TextEscaped{Value: "&"}
	case 9:
		return &ast.ParsedText{Depth: 1, Values: []ast.Expr{&ast.Text{Value: "and"}}}
	case 10:
		return &ast.TextHyphen{}
	}
	return &ast.TextMacro{Name: "and", Values: nil}
}

var _ = reg("C17", "List", C17List, "all strings of p[0] pieces out of p[2] kinds (space, the word and, text of p[1] arbitrary ASCII characters, comma, group with and, accent, tie, math, escape, hyphen, macro)", [][]int{{1, 3, 12}, {2, 3, 12}, {3, 1, 12}, {4, 0, 12}, {5, 0, 6}, {7, 0, 3}}, [][]int{{3, 3, 12}, {4, 1, 12}, {5, 0, 12}, {6, 0, 6}, {9, 0, 3}}, "authors", "several", "empty")

// C17List: lists of pieces.
func C17List(p []int) {
	t := &ast.ParsedText{Delim: ast.BraceDelimiter}
	for i := 0; i < p[0]; i++ {
		k := sym.Choice(p[2])
		x := listPiece(k, p[1])
		t.Values = append(t.Values, x)
	}
	authorsCheck(t)
}

var _ = reg("C17", "Source", C17Source, "a list written as a name, a separator of the letters of and (in either case) with p[0] arbitrary bytes on each side, and a name; then p[1] more bytes", [][]int{{0, 0}, {1, 0}, {1, 1}}, [][]int{{2, 0}, {1, 2}}, "authors", "several")

// C17Source: lists from the parser.
func C17Source(p []int) {
	b := []byte("{Ab")
	b = append(b, sym.Bytes(p[0])...)
	b = append(b, []string{"and", "And", "AND", "an", "band", "ands"}[sym.Choice(6)]...)
	b = append(b, sym.Bytes(p[0])...)
	b = append(b, "Cd"...)
	b = append(b, sym.Bytes(p[1])...)
	authorsSource(append(b, '}'))
}

func authorsSource(src []byte) {
	x, err := parser.ParseExpr(string(src))
	if err != nil {
		return
	}
	t, ok := x.(*ast.ParsedText)
	if !ok {
		return
	}
	authorsCheck(t)
}

var _ = reg("C19", "Tree", C19Tree, "all strings of up to p[0] nodes of every kind, also those no string contains, p[1] arbitrary bytes per leaf", [][]int{{1, 2}, {2, 1}, {3, 0}}, [][]int{{3, 1}, {4, 0}}, "authors", "bad", "empty")

// C19Tree extracts from any tree.
func C19Tree(p []int) {
	g := &astGen{left: p[0], chars: p[1], bad: true}
	authorsCheck(g.str())
}

var _ = reg("C19", "Commas", C19Commas, "a string of p[0] pieces out of comma, word of an arbitrary letter, space, in runs of p[1]", [][]int{{6, 1}, {8, 2}, {9, 3}}, [][]int{{9, 1}, {20, 4}}, "authors")

// C19Commas: names with many commas.
func C19Commas(p []int) {
	t := &ast.ParsedText{Delim: ast.BraceDelimiter}
	k := 0
	for i := 0; i < p[0]; i++ {
		if i%p[1] == 0 {
			k = sym.Choice(3)
		}
		switch (k + i%p[1]) % 3 {
		case 0:
			t.Values = append(t.Values, &ast.TextComma{})
		case 1:
			c := sym.ASCII()
			sym.Assume(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z')
			t.Values = append(t.Values, &ast.Text{Value: string([]byte{c})})
		case 2:
			t.Values = append(t.Values, &ast.TextSpace{Value: " "})
		}
	}
	authorsCheck(t)
}

var _ = reg("C19", "Source", C19Source, "all strings of p[0] arbitrary bytes in braces", ps(0, 3), ps(4, 5), "authors", "empty")

// C19Source extracts from any parsed string.
func C19Source(p []int) {
	src := append([]byte("{"), sym.Bytes(p[0])...)
	authorsSource(append(src, '}'))
}

// C18: the forms of a name.

// word is a word of a name.
type word struct {
	src, text string
	lower     bool
}

// upperLetter and lowerLetter are any ASCII letters of a case.
func upperLetter() byte {
	c := sym.ASCII()
	sym.Assume(c >= 'A' && c <= 'Z')
	return c
}

func lowerLetter() byte {
	c := sym.ASCII()
	sym.Assume(c >= 'a' && c <= 'z')
	return c
}

// tailBytes are n characters inside a word.
func tailBytes(n int) string {
	b := make([]byte, n)
	for i := range b {
		c := sym.ASCII()
		sym.Assume(isAlpha(c) || isDigit(c) || c == '-' || c == '.' || c == '\'')
		b[i] = c
	}
	return string(b)
}

const numWords = 12

// nameWord is a word of a kind with n further characters.
func nameWord(kind, n int) word {
	switch kind {
	case 0:
		s := string([]byte{upperLetter()}) + tailBytes(n)
		return word{s, s, false}
	case 1:
		s := string([]byte{lowerLetter()}) + tailBytes(n)
		sym.Assume(s != "and")
		return word{s, s, true}
	case 2: // a group
		a, b := tailBytes(1), tailBytes(1)
		return word{"{" + a + " " + b + "}", a + " " + b, false}
	case 3: // an accent inside
		s := string([]byte{lowerLetter()})
		t := tailBytes(n)
		return word{s + "{\\\"o}" + t, s + "ö" + t, true}
	case 4:
		s := string([]byte{upperLetter()})
		t := tailBytes(n)
		return word{s + "\\^e" + t, s + "ê" + t, false}
	case 5: // an accent in front
		t := tailBytes(n)
		return word{"{\\'e}" + t, "é" + t, true}
	case 6:
		t := tailBytes(n)
		return word{"{\\'E}" + t, "É" + t, false}
	case 7:
		t := tailBytes(n)
		return word{"\\`a" + t, "à" + t, true}
	case 8: // letters outside of ASCII
		return word{"Øre", "Øre", false}
	case 9:
		return word{"øre", "øre", true}
	case 10: // a group in the middle
		s := string([]byte{upperLetter()})
		u := tailBytes(1)
		return word{s + "{" + u + "}x", s + u + "x", false}
	default:
		s := string([]byte{lowerLetter()})
		u := tailBytes(1)
		return word{s + "-{" + u + "}", s + "-" + u, true}
	}
}

func wordText(ws []word) string {
	s := ""
	for i, w := range ws {
		if i > 0 {
			s += " "
		}
		s += w.text
	}
	return s
}

// nameSource writes words.
func nameSource(ws []word, gap func() string) string {
	s := ""
	for i, w := range ws {
		if i > 0 {
			s += gap()
		}
		s += w.src
	}
	return s
}

func gaps() string   { return []string{" ", "\n  ", "~"}[sym.Choice(3)] }
func oneGap() string { return " " }

// leadingLower is the number of lower-case words at the front.
func leadingLower(ws []word) int {
	n := 0
	for n < len(ws) && ws[n].lower {
		n++
	}
	return n
}

var _ = reg("C18", "None", C18None, "names of p[0] words of any of p[2] kinds (capitalised, lower-case, groups, accents in and before words, letters outside of ASCII, groups in words) with p[1] more arbitrary characters each, separated by spaces, line breaks or ties when p[3]", [][]int{{1, 2, 12, 1}, {2, 1, 12, 1}, {3, 0, 12, 0}, {4, 0, 3, 1}, {3, 1, 6, 0}, {5, 0, 2, 0}}, [][]int{{2, 3, 12, 1}, {3, 1, 12, 1}, {4, 0, 12, 0}, {6, 0, 3, 0}, {7, 0, 2, 0}}, "prefix", "first", "plain")

// C18None: names without comma.
func C18None(p []int) {
	ws := anyWords(p)
	n := len(ws)
	gap := oneGap
	if p[3] != 0 {
		gap = gaps
	}
	f := 0
	for f < n-1 && !ws[f].lower {
		f++
	}
	l := f + leadingLower(ws[f:n-1])
	switch {
	case l > f:
		sym.Reach("prefix")
	case f > 0:
		sym.Reach("first")
	default:
		sym.Reach("plain")
	}
	nameCheck(nameSource(ws, gap), wordText(ws[:f]), wordText(ws[f:l]), wordText(ws[l:]), "")
}

func anyWords(p []int) []word {
	var ws []word
	for i := 0; i < p[0]; i++ {
		ws = append(ws, nameWord(sym.Choice(p[2]), p[1]))
	}
	return ws
}

func nameCheck(src, first, prefix, last, suffix string) {
	sym.Observe(src)
	x, err := parser.ParseExpr("{" + src + "}")
	sym.Assert(err == nil, "a name parses without error")
	as, err := bibtex.ExtractAuthors(x.(*ast.ParsedText))
	sym.Assert(err == nil && len(as) == 1, "a name is one author")
	sym.Observe(part(as[0].First) + "|" + part(as[0].Prefix) + "|" + part(as[0].Last) + "|" + part(as[0].Suffix))
	sym.Assert(part(as[0].Last) == last, "the last name has its words")
	sym.Assert(part(as[0].First) == first, "the first name has its words")
	sym.Assert(part(as[0].Prefix) == prefix, "the prefix has the lower-case words")
	sym.Assert(part(as[0].Suffix) == suffix, "the suffix is the part between the commas")
}

// commaSpace is the layout around a comma.
func commaSpace() string { return []string{",", ", ", " ,", " , ", ",\n "}[sym.Choice(5)] }

var _ = reg("C18", "Comma", C18Comma, "names 'von Last, First' with p[0] words before and p[3] after the comma, of any of p[2] kinds with p[1] more characters, any spacing around the comma", [][]int{{1, 1, 12, 1}, {2, 0, 12, 1}, {1, 0, 12, 2}, {3, 0, 3, 1}, {2, 1, 4, 1}}, [][]int{{2, 2, 12, 1}, {3, 0, 12, 1}, {2, 0, 12, 2}, {4, 0, 3, 2}}, "prefix", "plain")

// C18Comma: names with one comma.
func C18Comma(p []int) {
	ws := anyWords(p)
	fs := anyWords([]int{p[3], p[1], p[2]})
	n := leadingLower(ws[:len(ws)-1])
	if n > 0 {
		sym.Reach("prefix")
	} else {
		sym.Reach("plain")
	}
	nameCheck(nameSource(ws, oneGap)+commaSpace()+nameSource(fs, oneGap), wordText(fs), wordText(ws[:n]), wordText(ws[n:]), "")
}

var _ = reg("C18", "Jr", C18Jr, "names 'von Last, Jr, First' with p[0], p[3] and p[4] words in the parts, of any of p[2] kinds with p[1] more characters, any spacing around the commas", [][]int{{1, 0, 12, 1, 1}, {2, 0, 3, 1, 1}, {1, 0, 3, 2, 1}, {2, 0, 3, 1, 2}, {1, 1, 3, 1, 0}}, [][]int{{2, 1, 4, 1, 1}, {1, 0, 12, 2, 1}, {2, 0, 4, 2, 2}, {2, 0, 12, 1, 1}}, "prefix", "plain")

// C18Jr: names with two commas.
func C18Jr(p []int) {
	ws := anyWords(p)
	js := anyWords([]int{p[3], p[1], p[2]})
	fs := anyWords([]int{p[4], p[1], p[2]})
	n := leadingLower(ws[:len(ws)-1])
	if n > 0 {
		sym.Reach("prefix")
	} else {
		sym.Reach("plain")
	}
	nameCheck(nameSource(ws, oneGap)+commaSpace()+nameSource(js, oneGap)+commaSpace()+nameSource(fs, oneGap),
		wordText(fs), wordText(ws[:n]), wordText(ws[n:]), wordText(js))
}
