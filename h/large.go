package h

import (
	"bytes"
	gotoken "go/token"
	"io"
	"strconv"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/asts"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
	"verif/sym"
)

// Large inputs: structures beyond the sizes the other harnesses reach, with
// symbolic contents and a regular shape.

// cycle chooses a regular sequence of kinds.
func cycle(n int) func() int {
	at, step := sym.Choice(n), sym.Choice(n)
	return func() int {
		k := at % n
		at += step
		return k
	}
}

// bigValue writes an operand of a kind with n characters of content.
func (g *gen) bigValue(kind token.Token, n int) *val {
	v := &val{kind: kind}
	switch kind {
	case token.Ident:
		v.text = g.longName(max(n, 1))
	case token.Number:
		if g.small != nil {
			v.text = strings.Repeat("0", n) + strconv.Itoa(g.off())
		} else {
			v.text = symDigits(max(n, 1))
		}
	default:
		if g.small != nil {
			v.text = g.small(n)
		} else {
			v.text = longText(n)
		}
	}
	g.write(v)
	return v
}

// pooled is a function that makes texts of arbitrary small letters; from the
// 30th letter on they are the same again.
func pooled() func(n int) string {
	var pool []byte
	at := 0
	return func(n int) string {
		b := make([]byte, n)
		for i := range b {
			if len(pool) < 30 {
				pool = append(pool, smallLetter())
			}
			b[i] = pool[at%30]
			at++
		}
		return string(b)
	}
}

// large makes g write small letters only.
func (g *gen) large() { g.small = pooled() }

func (g *gen) bigType(n int) string {
	if g.small != nil {
		return g.small(n)
	}
	return longLetters(n)
}

func (g *gen) longName(n int) string {
	if g.small != nil {
		return g.small(n)
	}
	return longName(n)
}

// longField is a field name other than url.
func (g *gen) longField(n int) string {
	s := g.longName(n)
	noURL(s)
	return s
}

func (g *gen) bigConcat(ops, n int, next func() int) *val {
	v := g.bigValue(valKinds[next()], n)
	if ops > 1 {
		v.op = g.tok("#")
		v.next = g.bigConcat(ops-1, n, next)
	}
	return v
}

var _ = reg("C07", "Large", C07Large, "an entry with p[0] keys and p[1] fields with names of p[2] characters and values of p[3] characters whose kinds are in any regular sequence; a type of p[2] letters; every delimiter, trailing comma, string mode; a comment between tokens or not", [][]int{{1, 1, 1, 3}, {1, 1, 3, 2}, {1, 2, 10, 8}, {5, 2, 13, 5}, {2, 20, 4, 2}}, [][]int{{12, 1, 40, 40}, {1, 60, 6, 3}, {1, 2, 2, 2}, {1, 2, 4, 4}, {1, 2, 5, 5}, {1, 2, 6, 6}, {1, 2, 7, 7}, {1, 2, 8, 8}, {1, 2, 9, 9}, {1, 2, 11, 11}, {1, 2, 12, 12}, {1, 2, 14, 14}, {1, 2, 16, 16}, {1, 2, 33, 33}}, "parsed")

// C07Large: entries with many or long parts.
func C07Large(p []int) {
	g := newGen()
	if p[0]+p[1] > 3 {
		g.large()
	}
	g.layout(2 * sym.Choice(2))
	d := &decl{kind: token.BibEntry}
	d.typ = g.bigType(p[2])
	sym.Assume(!declWord(d.typ))
	d.paren = sym.Choice(2) == 1
	d.off = g.tok("@" + d.typ)
	g.open(d)
	for i := 0; i < p[0]; i++ {
		if i > 0 {
			g.tok(",")
		}
		n := g.longName(p[2])
		d.keys = append(d.keys, key{n, g.tok(n)})
	}
	next := cycle(numKinds)
	for i := 0; i < p[1]; i++ {
		if i+p[0] > 0 {
			g.tok(",")
		}
		g.field(d, g.longField(p[2]), func() *val { return g.bigValue(valKinds[next()], p[3]) })
	}
	if sym.Choice(2) == 1 {
		g.tok(",")
	}
	g.close(d)
	parsedAs(g, []*decl{d})
}

func declWord(s string) bool {
	switch len(s) {
	case 6, 7, 8:
		s = lower(s)
		return s == "string" || s == "comment" || s == "preamble"
	}
	return false
}

func parsedAs(g *gen, ds []*decl) {
	mode := strMode()
	sym.Observe(string(g.b))
	f, fset, err := parse(g.b, mode)
	checkFile(f, fset, err, ds, mode)
	sym.Reach("parsed")
}

// bigDecl writes a declaration.
func (g *gen) bigDecl(kind int, paren bool, n, c, ops int, next func() int) *decl {
	d := &decl{paren: paren}
	value := func() *val { return g.bigConcat(ops, c, next) }
	switch kind {
	case 0:
		d.kind, d.typ = token.BibEntry, g.bigType(n)
		sym.Assume(!declWord(d.typ))
		d.off = g.tok("@" + d.typ)
		g.open(d)
		k := g.longName(n)
		d.keys = []key{{k, g.tok(k)}}
		g.tok(",")
		g.field(d, g.longField(n), value)
	case 1:
		d.kind = token.Abbrev
		d.off = g.tok("@string")
		g.open(d)
		g.field(d, g.longName(n), value)
	case 2:
		d.kind = token.Preamble
		d.off = g.tok("@preamble")
		g.open(d)
		d.pre = value()
	}
	g.close(d)
	return d
}

var _ = reg("C08", "Large", C08Large, "p[0] declarations with names of p[1] and values of p[2] characters, whose kinds and the kinds of whose values are in any regular sequence, with alternating delimiters; nothing or a comma after every third one; every string mode; a comment between tokens or not", [][]int{{1, 3, 3}, {1, 7, 2}, {1, 10, 2}, {1, 13, 2}, {3, 4, 2}, {12, 2, 2}}, [][]int{{40, 3, 3}, {2, 2, 2}, {2, 5, 5}, {2, 6, 6}, {2, 7, 7}, {2, 8, 8}, {2, 9, 9}, {2, 11, 2}, {2, 12, 2}, {2, 14, 3}, {3, 20, 20}}, "parsed")

// C08Large: long files.
func C08Large(p []int) {
	g := newGen()
	if p[0] > 2 {
		g.large()
	}
	g.layout(2 * sym.Choice(2))
	kinds, vals := cycle(3), cycle(numKinds)
	var ds []*decl
	for i := 0; i < p[0]; i++ {
		ds = append(ds, g.bigDecl(kinds(), i%2 == 1, p[1], p[2], 1, vals))
		if ds[i].kind == token.BibEntry && i%3 == 1 {
			g.tok(",")
		}
	}
	parsedAs(g, ds)
}

var _ = reg("C12", "Large", C12Large, "p[0] operands of p[1] characters whose kinds are in any regular sequence joined by #, in a declaration of any kind; a comment between tokens or not", [][]int{{1, 2}, {2, 3}, {3, 6}, {10, 2}, {2, 12}, {2, 33}}, [][]int{{2, 2}, {2, 20}, {5, 5}, {40, 2}, {3, 70}}, "parsed")

// C12Large: long concatenations.
func C12Large(p []int) {
	g := newGen()
	if p[0] > 4 {
		g.large()
	}
	g.layout(2 * sym.Choice(2))
	parsedAs(g, []*decl{g.bigDecl(sym.Choice(3), sym.Choice(2) == 1, 2, p[1], p[0], cycle(numKinds))})
}

var _ = reg("C14", "Large", C14Large, "p[0] declarations whose kinds are in any regular sequence with values of p[1] operands of p[2] characters whose kinds are in any regular sequence, in the second file of a set", [][]int{{2, 3, 2}, {6, 2, 4}}, [][]int{{20, 2, 3}, {3, 12, 5}}, "parsed")

// C14Large: positions in long files.
func C14Large(p []int) {
	g := newGen()
	g.large()
	g.layout(2 * sym.Choice(2))
	kinds, vals := cycle(3), cycle(numKinds)
	var ds []*decl
	for i := 0; i < p[0]; i++ {
		ds = append(ds, g.bigDecl(kinds(), i%2 == 1, 3, p[2], p[1], vals))
	}
	fset := gotoken.NewFileSet()
	fset.AddFile("other.bib", -1, 5)
	base := fset.Base()
	mode := strMode()
	f, err := parser.ParseFile(fset, fileName, g.b, mode)
	checkFileAt(f, err, ds, mode, base)
	sym.Reach("parsed")
}

// C13: a fault in a long file.

var _ = reg("C13", "Large", C13Large, "p[0] well-formed declarations in any regular sequence of 3, of which one has one token dropped, doubled or replaced by p[1] arbitrary ASCII bytes", [][]int{{3, 1}}, [][]int{{8, 1}, {4, 2}}, "malformed", "well-formed")

var faultyDecls = [][]string{
	{"@ab", "{", "k", ",", "t", "=", "{x}", ",", "n", "=", "12", "}"},
	{"@string", "(", "s", "=", "\"u{y}\"", ")"},
	{"@preamble", "{", "{p}", "#", "s", "}"},
}

// C13Large: one fault in a file.
func C13Large(p []int) {
	next := cycle(3)
	at := sym.Choice(p[0])
	var b []byte
	for i := 0; i < p[0]; i++ {
		ts := append([]string(nil), faultyDecls[next()]...)
		if i == at {
			k := sym.Choice(len(ts))
			switch sym.Choice(3) {
			case 0:
				ts[k] = ""
			case 1:
				ts[k] += ts[k]
			default:
				ts[k] = string(sym.ASCIIs(p[1]))
			}
		}
		b = append(append(b, joinToks(ts, noGaps)...), '\n')
	}
	judged(b)
}

// C01, C02: depth and length.

var _ = reg("C01", "Deep", C01Deep, "p[0] nested groups or p[0] times any of 9 pieces with an arbitrary character in an unfinished or finished string, abbreviation, preamble or expression, every string mode", ps(20, 20), [][]int{{100}, {300}}, "error", "ok")

var deepPieces = []string{"{", "{}", "\\", "$", "\\'{e}", "\"", "#", "@a{k,", "%x\n", "}"}

// C01Deep parses deep or long input.
func C01Deep(p []int) {
	st := []string{"", "@a{k,t={", "@a{k,url=\"", "@string{a={", "@preamble{"}[sym.Choice(5)]
	k := sym.Choice(len(deepPieces))
	c := sym.ASCII()
	b := []byte(st)
	for i := 0; i < p[0]; i++ {
		b = append(append(b, deepPieces[k]...), c)
	}
	if sym.Choice(2) == 1 {
		for i := 0; i < p[0]; i++ {
			b = append(b, '}')
		}
		b = append(b, "}}"...)
	}
	parseTotal(b, strMode())
	exprTotal(b)
}

var _ = reg("C02", "Deep", C02Deep, "p[0] times any of 10 pieces with an arbitrary byte after one of 10 openings; both scanner modes", ps(12, 12), ps(100, 100), "eof")

// C02Deep scans deep or long input.
func C02Deep(p []int) {
	b := []byte(scanStarts[sym.Choice(len(scanStarts))])
	k := sym.Choice(len(deepPieces))
	c := sym.Byte()
	for i := 0; i < p[0]; i++ {
		b = append(append(b, deepPieces[k]...), c)
	}
	progress(b, sym.Choice(2) == 1)
}

// C10: depth of strings.

var _ = reg("C10", "Deep", C10Deep, "p[0] nested groups, each with the same one of 18 pieces with p[1] characters before the inner group and one of 8 fixed ones after it", [][]int{{3, 2}, {12, 2}}, [][]int{{60, 3}}, "tree")

// C10Deep: deep trees.
func C10Deep(p []int) { stringTree(deepString(p), anyQuote(), 0, false) }

func deepString(p []int) []byte {
	k := sym.Choice(numBigPieces)
	x := bigPiece(nil, k, p[1])
	if k == 12 {
		x = append(x, ',')
	}
	y := []byte(deepAfter[sym.Choice(len(deepAfter))])
	var b []byte
	for i := 0; i < p[0]; i++ {
		b = append(append(b, '{'), x...)
	}
	for i := 0; i < p[0]; i++ {
		b = append(append(b, y...), '}')
	}
	return b
}

var deepAfter = []string{"", "\"", " ", "a", "~", "\\'e", "$x$", "\\a "}

var _ = reg("C05", "Deep", C05Deep, "p[0] nested groups, each with the same one of 18 pieces with p[1] characters before the inner group and one of 8 fixed ones after it", [][]int{{3, 2}, {12, 2}}, [][]int{{60, 3}}, "end")

// C05Deep: deep strings.
func C05Deep(p []int) { stringTokens(deepString(p)) }

// C16: many comments.

var _ = reg("C16", "Many", C16Many, "4 files; p[0] comments of p[1] characters on lines of their own at any one position between tokens, one of them followed by any piece of layout", [][]int{{3, 3}, {8, 2}}, [][]int{{20, 10}, {40, 2}}, "checked", "doc")

// C16Many: long groups of comments.
func C16Many(p []int) {
	ts := commentDecls[sym.Choice(len(commentDecls))]
	at := sym.Choice(len(ts) + 1)
	k := sym.Choice(p[0])
	commentRun(ts, func(f *commentFile, i int) {
		if i != at {
			return
		}
		for j := 0; j < p[0]; j++ {
			f.item("%"+string([]byte{plainByte()})+longText(p[1]), true)
			f.space('\n')
			if j == k {
				f.layout(1, 1)
			}
		}
	}, strMode())
}

var _ = reg("C16", "ManyGaps", C16ManyGaps, "4 files with p[0] pieces of layout at every p[1]-th position between tokens, the same everywhere but for contents", [][]int{{1, 1}, {2, 1}, {2, 3}}, [][]int{{3, 1}, {3, 2}, {4, 4}}, "checked", "doc")

// C16ManyGaps: comments everywhere.
func C16ManyGaps(p []int) {
	ts := commentDecls[sym.Choice(len(commentDecls))]
	kinds := make([]int, p[0])
	for i := range kinds {
		kinds[i] = sym.Choice(3)
	}
	start := sym.Choice(p[1])
	commentRun(ts, func(f *commentFile, i int) {
		if i%p[1] != start {
			return
		}
		for _, k := range kinds {
			switch k {
			case 0:
				f.space(' ')
			case 1:
				f.space('\n')
			default:
				f.item("%"+longText(2), true)
				f.space('\n')
			}
		}
	}, 0)
}

// C17: long lists.

var _ = reg("C17", "Long", C17Long, "p[0] names of p[1] words of 2 letters separated by the word and (with any spacing of 3), of which any one or none is empty, has a comma, or holds and in a group", [][]int{{2, 1}, {3, 2}, {6, 1}}, [][]int{{20, 2}, {40, 1}}, "authors", "several", "empty")

// C17Long: lists of many names.
func C17Long(p []int) {
	odd, what := sym.Choice(p[0]+1), sym.Choice(3)
	space := func() string { return []string{" ", "\n", " \t "}[what] }
	b := []byte("{")
	for i := 0; i < p[0]; i++ {
		if i > 0 {
			b = append(b, space()+"and"+space()...)
		}
		if i == odd && what == 0 {
			continue
		}
		for j := 0; j < p[1]; j++ {
			if j > 0 {
				b = append(b, ' ')
			}
			b = append(b, upperLetter(), lowerLetter())
		}
		if i == odd && what == 1 {
			b = append(b, ',', ' ', upperLetter())
		}
		if i == odd && what == 2 {
			b = append(b, " {x and y}"...)
		}
	}
	authorsSource(append(b, '}'))
}

// C18: long names and letters of other scripts.

// caseLetter is a letter outside of ASCII of a case.
func caseLetter(script int, low bool) string {
	b := sym.Bytes(2)
	in := func(lo, hi rune) {
		r := rune(b[0]&0x1f)<<6 | rune(b[1]&0x3f)
		sym.Assume(b[0] >= 0xC2 && b[0] <= 0xDF && b[1] >= 0x80 && b[1] <= 0xBF && r >= lo && r <= hi)
	}
	even := func(first bool) {
		sym.Assume((b[1]&1 == 0) == first)
	}
	switch script {
	case 0: // Latin-1
		if low {
			in(0xE0, 0xF6)
		} else {
			in(0xC0, 0xD6)
		}
	case 1: // Latin Extended-A, upper-case letters are even
		in(0x100, 0x12F)
		even(!low)
	case 2:
		in(0x14A, 0x177)
		even(!low)
	case 3: // Latin Extended-A, upper-case letters are odd
		in(0x139, 0x148)
		even(low)
	case 4: // Greek
		if low {
			in(0x3B1, 0x3C9)
		} else {
			in(0x3A3, 0x3AB)
		}
	default: // Cyrillic
		if low {
			in(0x430, 0x45F)
		} else {
			in(0x400, 0x42F)
		}
	}
	return string(b)
}

var _ = reg("C18", "Letters", C18Letters, "names of p[0] words that begin with any upper- or lower-case letter of Latin-1, Latin Extended-A, Greek or Cyrillic, or of ASCII", ps(1, 2), ps(3, 3), "prefix", "first", "plain")

// C18Letters: names in other scripts.
func C18Letters(p []int) {
	var ws []word
	for i := 0; i < p[0]; i++ {
		k := sym.Choice(7)
		low := sym.Choice(2) == 1
		if k == 6 {
			if low {
				s := string([]byte{lowerLetter(), lowerLetter()})
				ws = append(ws, word{s, s, true})
			} else {
				s := string([]byte{upperLetter(), upperLetter()})
				ws = append(ws, word{s, s, false})
			}
			continue
		}
		s := caseLetter(k, low) + "x"
		ws = append(ws, word{s, s, low})
	}
	nameForms(ws)
}

// nameForms checks words in each of the forms of names.
func nameForms(ws []word) {
	n := len(ws)
	f := 0
	for f < n-1 && !ws[f].lower {
		f++
	}
	l := f + leadingLower(ws[f:n-1])
	switch {
	case l > f:
		sym.Reach("prefix")
	case f > 0:
		sym.Reach("first")
	default:
		sym.Reach("plain")
	}
	s := nameSource(ws, oneGap)
	v := leadingLower(ws[:n-1])
	switch sym.Choice(3) {
	case 0:
		nameCheck(s, wordText(ws[:f]), wordText(ws[f:l]), wordText(ws[l:]), "")
	case 1:
		nameCheck(s+", X y", "X y", wordText(ws[:v]), wordText(ws[v:]), "")
	default:
		nameCheck(s+", Jr z, X y", "X y", wordText(ws[:v]), wordText(ws[v:]), "Jr z")
	}
}

var _ = reg("C18", "Long", C18Long, "names of up to p[0] capitalised, p[0] lower-case and p[0] capitalised words with p[1] letters, in every form", [][]int{{3, 2}, {2, 6}}, [][]int{{6, 3}, {4, 12}}, "prefix", "first", "plain")

// C18Long: names of many or long words.
func C18Long(p []int) {
	var ws []word
	for part := 0; part < 3; part++ {
		n := sym.Choice(p[0] + 1)
		for i := 0; i < n; i++ {
			b := []byte{upperLetter()}
			if part == 1 {
				b[0] = lowerLetter()
			}
			for k := 0; k < p[1]; k++ {
				b = append(b, lowerLetter())
			}
			sym.Assume(string(b) != "and")
			ws = append(ws, word{string(b), string(b), part == 1})
		}
	}
	if len(ws) == 0 {
		return
	}
	nameForms(ws)
}

// Large trees.

func (g *astGen) cycleLeaves() func() int {
	if g.alike {
		k := sym.Choice(2)
		return func() int { return k }
	}
	return cycle(numLeaves)
}

// spine is a string tree of n levels of groups, macros or concatenations in any
// regular sequence, each with a leaf before and after the inner one.
func (g *astGen) spine(n int) *ast.ParsedText {
	leaves := g.cycleLeaves()
	m := 2
	if g.conc {
		m = 3
	}
	nodes := cycle(m)
	t := &ast.ParsedText{Delim: ast.BraceDelimiter}
	if sym.Choice(2) == 1 {
		t.Delim = ast.QuoteDelimiter
	}
	var inside func(n, depth int) []ast.Expr
	inside = func(n, depth int) []ast.Expr {
		r := []ast.Expr{g.leaf(leaves())}
		if n > 0 {
			switch nodes() {
			case 0:
				r = append(r, &ast.ParsedText{Depth: depth + 1, Delim: ast.BraceDelimiter, Values: inside(n-1, depth+1)})
			case 1:
				r = append(r, &ast.TextMacro{Name: "m", Values: inside(n-1, depth)})
			default:
				r = append(r, &ast.ConcatExpr{X: &ast.ParsedText{Depth: depth + 1, Values: inside(n-1, depth)}, Y: &ast.Text{Value: "y"}})
			}
		}
		return append(r, g.leaf(leaves()))
	}
	t.Values = inside(n, 0)
	return t
}

// wide is a string of n leaves in any regular sequence.
func (g *astGen) wide(n int) *ast.ParsedText {
	leaves := g.cycleLeaves()
	t := &ast.ParsedText{Delim: ast.BraceDelimiter}
	for i := 0; i < n; i++ {
		t.Values = append(t.Values, g.leaf(leaves()))
	}
	return t
}

func largeGen() *astGen { return &astGen{chars: 1, flat: true, few: []int{0}} }

func (g *astGen) large(p []int) *ast.ParsedText {
	if sym.Choice(2) == 1 {
		return g.wide(p[1])
	}
	return g.spine(p[0])
}

const largeBound = "trees of p[0] nested groups and macros in any regular sequence, with a leaf on each side, and strings of p[1] leaves; the kinds of leaves in any regular sequence with an arbitrary byte each"

var (
	largeQuick = [][]int{{4, 8}, {17, 40}}
	largeDeep  = [][]int{{60, 120}}
)

var _ = reg("C20", "Large", C20Large, largeBound, largeQuick, largeDeep, "ok")

// C20Large renders large trees.
func C20Large(p []int) { textCheck(largeGen().large(p)) }

var _ = reg("C27", "Large", C27Large, largeBound, largeQuick, largeDeep, "ok")

// C27Large renders large trees with the default renderers.
func C27Large(p []int) { defaultCheck(largeGen().large(p)) }

var _ = reg("C22", "Large", C22Large, largeBound+"; also concatenations; a failure of any of the first p[2] writes, text renderer or default renderers", [][]int{{3, 6, 12}}, [][]int{{6, 12, 30}}, "failed", "not failed")

// C22Large: failures in large trees.
func C22Large(p []int) {
	g := largeGen()
	g.conc = true
	x := g.large(p)
	if sym.Choice(2) == 1 {
		failing(func(w io.Writer) error { return render.NewTextRenderer().Render(w, x) }, p[2])
		return
	}
	b := bibtex.New()
	failing(func(w io.Writer) error { return b.Render(w, x) }, p[2])
}

var _ = reg("C23", "Large", C23Large, largeBound+" (leaves of one of two kinds), also concatenations, in a file with two declarations; an arbitrary answer of the visitor at any one call", [][]int{{3, 6}, {9, 20}}, [][]int{{18, 40}}, "complete", "error", "stop")

// C23Large walks large trees.
func C23Large(p []int) {
	g := largeGen()
	g.conc, g.alike = true, true
	x := g.large(p)
	f := &ast.File{Entries: []ast.Decl{
		&ast.BibDecl{Type: "a", Tags: []*ast.TagStmt{{Name: "t", Value: x}, {Name: "u", Value: &ast.Ident{Name: "v"}}}},
		&ast.PreambleDecl{Text: &ast.Number{Value: "1"}},
	}}
	at := sym.Int(0, 60)
	walkCheck(f, func(i int) (ast.WalkStatus, error) {
		if i == at {
			return answer(false)
		}
		return ast.WalkContinue, nil
	})
}

var _ = reg("C26", "Large", C26Large, largeBound+", also concatenations, in every kind of holder", [][]int{{3, 6}, {7, 10}}, [][]int{{30, 60}}, "nested", "plain")

// C26Large: escapes in large trees.
func C26Large(p []int) {
	g := largeGen()
	g.conc = true
	escapesCheck(g.large(p))
}

var _ = reg("C19", "Large", C19Large, largeBound, [][]int{{4, 8}}, [][]int{{20, 40}}, "authors")

// C19Large extracts from large trees.
func C19Large(p []int) {
	g := largeGen()
	g.letters = true
	authorsCheck(g.large(p))
}

// C24: many entries.

var _ = reg("C24", "Large", C24Large, "p[0] entries with one key and p[1] fields, the same key and the same field in any two places or everywhere, values of one or of all kinds", [][]int{{3, 3}, {5, 2}, {2, 8}}, [][]int{{20, 4}, {3, 30}}, "file", "repeated")

// C24Large resolves files with many entries.
func C24Large(p []int) {
	g := newGen()
	k := string([]byte{letter()})
	n := string([]byte{letter()})
	i, j := sym.Choice(p[0]), sym.Choice(p[0])
	s, t := sym.Choice(p[1]), sym.Choice(p[1])
	all := sym.Choice(2) == 1
	vk := sym.Choice(numKinds + 1)
	var ds []*decl
	for a := 0; a < p[0]; a++ {
		d := &decl{typ: "a"}
		g.tok("@a")
		g.open(d)
		d.keys = []key{{name: "k" + strconv.Itoa(a)}}
		if all || a == i || a == j {
			d.keys[0].name = k
		}
		g.tok(d.keys[0].name)
		for b := 0; b < p[1]; b++ {
			g.tok(",")
			name := "f" + strconv.Itoa(b)
			if all || b == s || b == t {
				name = n
			}
			g.field(d, name, func() *val {
				v := &val{kind: valKinds[b%numKinds], text: strconv.Itoa(b)}
				if vk < numKinds {
					v.kind = valKinds[vk]
				}
				if v.kind == token.Ident {
					v.text = "v" + v.text
				}
				g.write(v)
				return v
			})
		}
		g.close(d)
		ds = append(ds, d)
	}
	resolvesTo(g, ds)
}

// C28: long sources.

var _ = reg("C28", "Long", C28Long, "a file of p[0] or more bytes with an arbitrary plain character at the beginning and in the middle and an arbitrary byte at the end, from a reader that delivers pieces of p[1] bytes, or all but an arbitrary number of the last ones", [][]int{{520, 100}, {1100, 512}}, [][]int{{5000, 4096}, {5000, 1000}}, "error", "ok")

// C28Long: sources longer than a buffer.
func C28Long(p []int) {
	var b []byte
	hole := func(c byte) { b = append(append(append(b, "@a{k,t={"...), c), "}}\n"...) }
	fill := func(n int) {
		for len(b) < n {
			b = append(b, "@article{key, title = {some text}, year = 1999}\n"...)
		}
	}
	hole(plainByte())
	fill(p[0] / 2)
	hole(plainByte())
	fill(p[0])
	hole(sym.Byte())
	mode := strMode()
	orig := string(b)
	f, _, err := parse(b, mode)
	want := outcome(f, err)
	if err != nil {
		sym.Reach("error")
	} else {
		sym.Reach("ok")
	}
	var r io.Reader = &blocks{data: b, size: p[1]}
	if sym.Choice(2) == 1 {
		r = bytes.NewBuffer(b)
	}
	g, err2 := parser.ParseFile(gotoken.NewFileSet(), fileName, r, mode)
	sym.Assert(outcome(g, err2) == want, "the way a reader delivers a source does not matter")
	sym.Assert(string(b) == orig, "the bytes of a source are not modified")
}

// blocks is a reader of blocks of one size.
type blocks struct {
	data []byte
	size int
}

func (r *blocks) Read(b []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := min(len(r.data), len(b), r.size)
	copy(b, r.data[:n])
	r.data = r.data[n:]
	return n, nil
}

// C29: names of files.

var _ = reg("C29", "Paths", C29Paths, "p[0] files, each good or faulty with an arbitrary letter, under any of 4 spellings of its path", ps(1, 2), ps(3, 3), "good", "error")

// C29Paths: a file is under the name that was given.
func C29Paths(p []int) {
	c := letter()
	var paths []string
	var missing []bool
	for i := 0; i < p[0]; i++ {
		if sym.Choice(2) == 1 {
			sym.File(pkgNames[i], []byte{'@', c, '{', 'k', '}'})
		} else {
			sym.File(pkgNames[i], []byte{'@', c, '{', 'k'})
		}
		pre := []string{"", "./", ".//", "././"}[sym.Choice(4)]
		name := pre + pkgNames[i]
		paths = append(paths, name)
		missing = append(missing, false)
	}
	pkgCheck(paths, missing, strMode())
}

var _ = reg("C29", "Many", C29Many, "p[0] files of which any two may be missing or faulty, in any rotation", ps(6, 6), ps(20, 20), "good", "error")

// C29Many: many files.
func C29Many(p []int) {
	i, j := sym.Choice(p[0]), sym.Choice(p[0])
	miss := sym.Choice(2) == 1
	c := letter()
	var paths []string
	missing := make([]bool, p[0])
	for k := 0; k < p[0]; k++ {
		name := "f" + strconv.Itoa((k*7)%p[0]) + string([]byte{'a' + byte(k)}) + ".bib"
		paths = append(paths, name)
		switch {
		case k == i && miss:
			missing[k] = true
			continue
		case k == i || k == j:
			sym.File(name, []byte{'@', c, '{', 'k', '\n', '@'})
		default:
			sym.File(name, []byte{'@', c, '{', 'k', '}'})
		}
	}
	pkgCheck(paths, missing, 0)
}

// C31: no error handler.

var _ = reg("C31", "NoHandler", C31NoHandler, "a first source of one of 13 openings and p[0] arbitrary bytes scanned to its end with or without error handler; then a second source of one of 9 openings and p[1] arbitrary bytes without error handler", [][]int{{0, 0}, {1, 0}, {0, 1}}, [][]int{{1, 1}}, "scanned")

// C31NoHandler: scanning without error handler.
func C31NoHandler(p []int) {
	a := append([]byte(dirtyStarts[sym.Choice(len(dirtyStarts))]), sym.Bytes(p[0])...)
	b := append([]byte(nextStarts[sym.Choice(len(nextStarts))]), sym.Bytes(p[1])...)
	sym.Observe(string(a))
	sym.Observe(string(b))
	strs := sym.Choice(2) == 1
	fresh := newScan(b, strs)
	y := scanAll(fresh)
	sc := &scan{s: new(scanner.Scanner)}
	sc.quiet = sym.Choice(2) == 1
	sc.init(a, strs)
	scanAll(sc)
	sc.quiet = true
	sc.init(b, strs)
	x := scanAll(sc)
	sameScan(x, y, nil, nil)
	sym.Assert(sc.s.ErrorCount == fresh.s.ErrorCount, "errors are counted with and without handler")
	sym.Assert(fresh.s.ErrorCount == len(fresh.errs), "the error count is the number of reports")
	sym.Reach("scanned")
}

// C33: long lists.

var _ = reg("C33", "Large", C33Large, "strings of p[0] words of p[1] characters out of lower-case letters, braces, dollars, ties and backslashes, in braces or not, and lists of them", [][]int{{3, 2}, {2, 3}, {6, 1}}, [][]int{{4, 2}, {8, 1}}, "text", "group")

// C33Large: long groups.
func C33Large(p []int) {
	var ws []string
	for i := 0; i < p[0]; i++ {
		b := make([]byte, p[1])
		for k := range b {
			c := sym.ASCII()
			sym.Assume(c >= 'a' && c <= 'z' || c == '$' || c == '~' || c == '{' || c == '}' || c == '\\')
			b[k] = c
		}
		ws = append(ws, string(b))
	}
	s := strings.Join(ws, " ")
	if sym.Choice(2) == 1 {
		s = "{" + s + "}"
	}
	strategy(asts.ParseStringExpr(0, s), s, 0)
	t := asts.QuotedText(0, ws...)
	sym.Assert(len(t.Values) == len(ws), "a string has its pieces")
	for i, s := range ws {
		strategy(t.Values[i], s, 0)
	}
	d := &ast.BibDecl{}
	asts.WithBibKeys(ws...)(d)
	sym.Assert(d.Key != nil && d.Key.Name == ws[0] && len(d.ExtraKeys) == len(ws)-1, "keys are stored in order")
	for i, x := range d.ExtraKeys {
		sym.Assert(x.Name == ws[i+1], "keys are stored in order")
	}
}

// C34: nested scopes.

var _ = reg("C34", "Nested", C34Nested, "p[0] nested scopes, p[1] insertions and lookups of names of p[2] arbitrary bytes in any of them", [][]int{{3, 2, 1}, {3, 3, 1}, {5, 2, 1}}, [][]int{{4, 4, 1}, {8, 3, 1}, {3, 2, 2}}, "found", "absent", "present")

// C34Nested: scopes in scopes.
func C34Nested(p []int) {
	var ss []*ast.Scope
	var outer *ast.Scope
	for i := 0; i < p[0]; i++ {
		s := ast.NewScope(outer)
		sym.Assert(s.Outer == outer, "a scope knows its outer scope")
		ss = append(ss, s)
		outer = s
	}
	in := make([][]inserted, p[0])
	find := func(k int, name string) *ast.Object {
		for _, i := range in[k] {
			if i.name == name {
				return i.o
			}
		}
		return nil
	}
	for i := 0; i < p[1]; i++ {
		k := sym.Choice(p[0])
		name := string(sym.Bytes(p[2]))
		have := find(k, name)
		o := ast.NewObj(ast.Entry, name)
		sym.Assert(ss[k].Insert(o) == have, "inserting returns the object already there, or nothing")
		if have == nil {
			in[k] = append(in[k], inserted{name, o})
		} else {
			sym.Reach("present")
		}
		q := string(sym.Bytes(p[2]))
		for l := range ss {
			have := find(l, q)
			sym.Assert(ss[l].Lookup(q) == have, "lookup finds the object first inserted, or nothing")
			if have != nil {
				sym.Reach("found")
			} else {
				sym.Reach("absent")
			}
			sym.Assert(len(ss[l].Objects) == len(in[l]), "a scope holds one object per name")
		}
	}
}
