package h

import (
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/token"
	"verif/sym"
)

func strMode() parser.Mode {
	if sym.Choice(2) == 1 {
		return parser.ParseStrings
	}
	return 0
}

// layout is nothing, one white space character between all tokens, or a comment.
func (g *gen) layout(k int) {
	switch k {
	case 1:
		c := sym.ASCII()
		sym.Assume(isSpaceByte(c))
		g.ws = func() { g.b = append(g.b, c) }
	case 2:
		c := sym.ASCII()
		sym.Assume(c != '\n' && c != 0)
		g.ws = func() { g.b = append(g.b, '%', c, '\n') }
	}
}

// C07: an entry.

var _ = reg("C07", "Entry", C07Entry, "an entry with p[0] keys of p[2] characters and p[1] fields with names of p[2] characters and values of p[3] characters of any single kind; any type of 2 letters; every delimiter, trailing comma, string mode; no layout, one space or comment between tokens", [][]int{{0, 1, 1, 1}, {1, 0, 2, 1}, {1, 1, 2, 2}, {2, 0, 2, 0}, {1, 2, 1, 0}, {3, 1, 1, 1}}, [][]int{{1, 1, 4, 4}, {2, 2, 2, 2}, {1, 3, 2, 1}}, "parsed")

// C07Entry compares an entry with what was written.
func C07Entry(p []int) {
	g := newGen()
	g.layout(sym.Choice(3))
	d := &decl{kind: token.BibEntry}
	d.typ = symLetters(2)
	d.paren = sym.Choice(2) == 1
	d.off = g.tok("@" + d.typ)
	g.open(d)
	for i := 0; i < p[0]; i++ {
		if i > 0 {
			g.tok(",")
		}
		n := symName(p[2])
		d.keys = append(d.keys, key{n, g.tok(n)})
	}
	for i := 0; i < p[1]; i++ {
		if i+p[0] > 0 {
			g.tok(",")
		}
		g.field(d, symField(p[2]), func() *val { return g.value(valKinds[sym.Choice(numKinds)], p[3]) })
		noURL(d.fields[i].name)
	}
	if p[0]+p[1] > 0 && sym.Choice(2) == 1 {
		g.tok(",")
	}
	g.close(d)
	mode := strMode()
	sym.Observe(string(g.b))
	f, fset, err := parse(g.b, mode)
	checkFile(f, fset, err, []*decl{d}, mode)
	sym.Reach("parsed")
}

// noURL excludes the field whose strings are treated specially.
func noURL(name string) {
	if len(name) == 3 {
		sym.Assume(lower(name) != "url")
	}
}

// C08: sequences of declarations.

var _ = reg("C08", "Sequence", C08Sequence, "p[0] declarations of any kind, with names of p[1] and values of p[2] characters of every kind; delimiters alternate; every string mode; nothing or a comment between tokens, optional comma after the first entry; from 3 declarations on all have the same delimiter and kind of value", [][]int{{1, 1, 1}, {2, 1, 1}}, [][]int{{3, 1, 1}, {2, 2, 2}, {3, 2, 2}, {4, 1, 1}}, "parsed")

// C08Sequence compares a file with what was written.
func C08Sequence(p []int) {
	g := newGen()
	g.layout(2 * sym.Choice(2))
	var ds []*decl
	vk := valKinds[sym.Choice(numKinds)]
	paren := sym.Choice(2) == 1
	for i := 0; i < p[0]; i++ {
		if i > 0 && p[0] < 3 {
			vk = valKinds[sym.Choice(numKinds)]
			paren = !paren
		}
		ds = append(ds, g.decl(sym.Choice(3), paren, vk, p[1], p[2]))
		if ds[i].kind == token.BibEntry && i == 0 && sym.Choice(2) == 1 {
			g.tok(",")
		}
	}
	mode := strMode()
	sym.Observe(string(g.b))
	f, fset, err := parse(g.b, mode)
	checkFile(f, fset, err, ds, mode)
	sym.Reach("parsed")
}

// decl writes a declaration of a kind (entry, abbreviation, preamble).
func (g *gen) decl(kind int, paren bool, v token.Token, n, c int) *decl {
	d := &decl{paren: paren}
	value := func() *val { return g.value(v, c) }
	switch kind {
	case 0:
		d.kind, d.typ = token.BibEntry, symLetters(1)
		d.off = g.tok("@" + d.typ)
		g.open(d)
		k := symName(n)
		d.keys = []key{{k, g.tok(k)}}
		g.tok(",")
		g.field(d, symField(n), value)
	case 1:
		d.kind = token.Abbrev
		d.off = g.tok("@" + anyCaseWord("string"))
		g.open(d)
		g.field(d, symField(n), value)
	case 2:
		d.kind = token.Preamble
		d.off = g.tok("@" + anyCaseWord("preamble"))
		g.open(d)
		d.pre = value()
	}
	g.close(d)
	return d
}

// anyCaseWord is a word whose first letter is in either case.
func anyCaseWord(w string) string {
	b := []byte(w)
	b[0] = anyCase(b[0])
	return string(b)
}

// C12: concatenations.

var _ = reg("C12", "Concat", C12Concat, "p[0] operands of p[1] characters of any kinds joined by #, as field, abbreviation or preamble; every delimiter, string mode; nothing, a space or a comment between tokens", [][]int{{2, 1}, {2, 0}, {3, 1}}, [][]int{{4, 1}, {3, 3}, {5, 0}}, "parsed")

// C12Concat compares a concatenation with what was written.
func C12Concat(p []int) {
	g := newGen()
	g.layout(sym.Choice(3))
	kinds := make([]token.Token, p[0])
	for i := range kinds {
		kinds[i] = valKinds[sym.Choice(numKinds)]
	}
	value := func() *val { return g.concat(kinds, p[1]) }
	d := &decl{paren: sym.Choice(2) == 1}
	switch sym.Choice(3) {
	case 0:
		d.kind, d.typ = token.BibEntry, "a"
		d.off = g.tok("@a")
		g.open(d)
		d.keys = []key{{"k", g.tok("k")}}
		g.tok(",")
		g.field(d, symField(1), value)
		g.tok(",")
		g.field(d, "z", func() *val { return g.value(token.Number, 1) })
	case 1:
		d.kind = token.Abbrev
		d.off = g.tok("@string")
		g.open(d)
		g.field(d, symField(1), value)
	case 2:
		d.kind = token.Preamble
		d.off = g.tok("@preamble")
		g.open(d)
		d.pre = value()
	}
	g.close(d)
	mode := strMode()
	sym.Observe(string(g.b))
	f, fset, err := parse(g.b, mode)
	checkFile(f, fset, err, []*decl{d}, mode)
	sym.Reach("parsed")
}

var _ = reg("C12", "ConcatURL", C12ConcatURL, "a field named url in any letter case with p[0] operands of p[1] characters of any kinds", [][]int{{2, 1}, {3, 1}}, [][]int{{3, 2}}, "parsed")

// C12ConcatURL: url fields are treated specially but may be concatenations.
func C12ConcatURL(p []int) {
	g := newGen()
	kinds := make([]token.Token, p[0])
	for i := range kinds {
		kinds[i] = valKinds[sym.Choice(numKinds)]
	}
	d := &decl{kind: token.BibEntry, typ: "a"}
	d.off = g.tok("@a")
	g.open(d)
	d.keys = []key{{"k", g.tok("k")}}
	g.tok(",")
	name := string([]byte{anyCase('u'), anyCase('r'), anyCase('l')})
	g.field(d, name, func() *val { return g.concat(kinds, p[1]) })
	g.close(d)
	mode := strMode()
	sym.Observe(string(g.b))
	f, fset, err := parse(g.b, mode)
	checkFile(f, fset, err, []*decl{d}, mode)
	sym.Reach("parsed")
}

var _ = reg("C12", "ConcatExpr", C12ConcatExpr, "p[0] operands of p[1] characters of any kinds joined by #, as an expression", [][]int{{1, 1}, {2, 1}, {3, 1}}, [][]int{{4, 1}, {3, 3}}, "parsed")

// C12ConcatExpr: the same for expressions.
func C12ConcatExpr(p []int) {
	g := newGen()
	g.layout(sym.Choice(2))
	g.b = append(g.b, '=') // as the parser does
	kinds := make([]token.Token, p[0])
	for i := range kinds {
		kinds[i] = valKinds[sym.Choice(numKinds)]
	}
	v := g.concat(kinds, p[1])
	sym.Observe(string(g.b))
	x, err := parser.ParseExpr(string(g.b[1:]))
	sym.Assert(err == nil, "a concatenation parses without error")
	v.check(x, parser.ParseStrings, 1)
	sym.Reach("parsed")
}

var _ = reg("C08", "Independent", C08Independent, "two files: one of 8 declarations around p[0] arbitrary ASCII bytes, one of 3 around p[1] arbitrary ASCII bytes, each parsing without error, one after the other; every string mode", [][]int{{1, 1}, {2, 1}, {1, 2}}, [][]int{{2, 2}, {3, 1}, {1, 3}, {4, 1}}, "both")

var declFrames = [][2]string{{"@a{k,t={", "}}"}, {"@a{k,t=\"", "\"}"}, {"@a{k", "}"}, {"@string{s={", "}}"}, {"@preamble{", "}"}, {"@a(k,t=1,", ")"}, {"@a{k,t={x\\", "}}"}, {"@a{k,url={", "}}"}}

// C08Independent: the declarations of two files are those of each.
func C08Independent(p []int) {
	framed := func(k, n int) []byte {
		fr := declFrames[sym.Choice(k)]
		return append(append([]byte(fr[0]), sym.ASCIIs(n)...), fr[1]...)
	}
	a, b := framed(8, p[0]), framed(3, p[1])
	mode := strMode()
	fa, _, erra := parse(a, mode)
	sym.Assume(erra == nil)
	fb, _, errb := parse(b, mode)
	sym.Assume(errb == nil)
	sym.Reach("both")
	ab := append(append(append([]byte(nil), a...), '\n'), b...)
	sym.Observe(string(ab))
	f, _, err := parse(ab, mode)
	sym.Observe(errText(err))
	sym.Assert(err == nil, "two well-formed files are well-formed together")
	sym.Assert(meaning(f) == meaning(fa)+meaning(fb), "declarations do not influence each other")
}
