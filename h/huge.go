package h

import (
	"bytes"
	"errors"
	gotoken "go/token"
	"io"
	"strconv"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/asts"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/token"
	"verif/sym"
)

// Huge inputs: beyond the sizes of counters and buffers. Their bulk is fixed;
// what follows it is symbolic.

// bulk is n lower-case letters of which the last is arbitrary.
func bulk(n int) string {
	if n == 0 {
		return ""
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%26)
	}
	b[n-1] = smallLetter()
	return string(b)
}

func bulkFixed(n int) string { return "Xyzw"[:n] }

// digitBulk is n digits of which the last is arbitrary.
func digitBulk(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte(i*7%10)
	}
	b[n-1] = digit()
	return string(b)
}

const numHugeLex = 12

// hugeLex is a piece of a source outside of strings with n characters.
func hugeLex(k, n int) string {
	switch k {
	case 0:
		return bulk(n)
	case 1:
		return digitBulk(n)
	case 2:
		return "@" + bulk(n)
	case 3:
		return "\"" + bulk(n) + "\""
	case 4:
		return "={" + bulk(n) + "}"
	case 5:
		return "%" + bulk(n) + "\n"
	case 6:
		return strings.Repeat(" \t", n/2)
	case 7:
		return strings.Repeat("\n", n)
	case 8:
		return strings.Repeat("%a\r\n", n/4)
	case 9:
		return strings.Repeat("a=1,\n", n/5)
	case 10:
		return "={" + strings.Repeat("{", n/2) + bulk(1) + strings.Repeat("}", n/2) + "}"
	}
	return "=\"" + strings.Repeat("{\"", n/4) + bulk(1) + strings.Repeat("}", n/4) + "\""
}

// hugeSource is a huge piece followed by a name, a new line and p[1] arbitrary bytes.
func hugeSource(p []int, ascii bool) []byte {
	b := []byte(hugeLex(sym.Choice(numHugeLex), p[0]) + " x" + string([]byte{nameByte()}) + "\n")
	if ascii {
		return append(b, sym.ASCIIs(p[1])...)
	}
	return append(b, sym.Bytes(p[1])...)
}

const hugeLexBound = "one of 12 pieces of p[0] characters (name, digits, command, strings, comment, spaces, newlines, comment lines, fields, nested groups) with an arbitrary last letter, then a name, a newline and p[1] arbitrary bytes"

var (
	hugeQuick = [][]int{{300, 1}, {5000, 0}}
	hugeDeep  = [][]int{{300, 2}, {5000, 1}, {70000, 0}}
)

var _ = reg("C02", "Huge", C02Huge, hugeLexBound, hugeQuick, hugeDeep, "eof")

// C02Huge: progress in huge sources.
func C02Huge(p []int) { progress(hugeSource(p, false), false) }

var _ = reg("C03", "Huge", C03Huge, hugeLexBound, [][]int{{300, 1}, {5000, 0}, {70000, 0}}, [][]int{{300, 2}, {5000, 1}}, "tok", "eof")

// C03Huge: tiling of huge sources.
func C03Huge(p []int) { tiles(hugeSource(p, false)) }

var _ = reg("C04", "Huge", C04Huge, hugeLexBound, hugeQuick, hugeDeep, "eof")

// C04Huge: kinds in huge sources.
func C04Huge(p []int) { kinds(hugeSource(p, true)) }

var _ = reg("C06", "Huge", C06Huge, hugeLexBound, hugeQuick, hugeDeep, "error", "clean")

// C06Huge: errors in huge sources.
func C06Huge(p []int) { reported(hugeSource(p, false)) }

// Strings.

const numHugeStr = 12

// hugeStr is a huge piece of a string.
func hugeStr(k, n int) string {
	switch k {
	case 0:
		return bulk(n)
	case 1:
		return "$" + bulk(n) + "$"
	case 2:
		return "\\" + bulk(n) + ","
	case 3:
		return strings.Repeat(" \n", n/2)
	case 4:
		return strings.Repeat("{", n/2) + bulk(1) + strings.Repeat("}", n/2)
	case 5:
		return "{" + strings.Repeat("{\"", n/3) + bulk(1) + strings.Repeat("}", n/3) + "}"
	case 6:
		return strings.Repeat(",~", n/2)
	case 7:
		return strings.Repeat("\\&", n/2)
	case 8:
		return strings.Repeat("\\'e", n/3)
	case 9:
		return strings.Repeat("{a}b", n/4)
	case 10:
		return strings.Repeat("$a$", n/3)
	}
	return "\\url{" + bulk(n) + "}"
}

const hugeStrBound = "a quoted or braced string of one of 12 pieces of p[0] characters (text, math, macro name, spaces, nested groups, commas and ties, escapes, accents, groups, maths, url) with an arbitrary last letter, then an arbitrary plain character"

func hugeString(p []int) []byte {
	return append([]byte(hugeStr(sym.Choice(numHugeStr), p[0])), plainByte())
}

var (
	hugeStrQuick = [][]int{{300}, {3000}}
	hugeStrDeep  = [][]int{{70000}}
)

var _ = reg("C05", "Huge", C05Huge, hugeStrBound, hugeStrQuick, hugeStrDeep, "end")

// C05Huge: tokens of huge strings.
func C05Huge(p []int) { stringTokens(hugeString(p)) }

var _ = reg("C10", "Huge", C10Huge, hugeStrBound, hugeStrQuick, hugeStrDeep, "tree")

// C10Huge: trees of huge strings.
func C10Huge(p []int) { stringTree(hugeString(p), anyQuote(), 0, false) }

var _ = reg("C14", "Huge", C14Huge, hugeStrBound, [][]int{{300}, {3000}, {70000}}, nil, "tree")

// C14Huge: positions in huge strings.
func C14Huge(p []int) { stringTree(hugeString(p), anyQuote(), 0, true) }

var _ = reg("C11", "Huge", C11Huge, hugeStrBound, hugeStrQuick, hugeStrDeep, "verbatim")

// C11Huge: huge strings are kept.
func C11Huge(p []int) { verbatim(hugeString(p)) }

var _ = reg("C09", "Huge", C09Huge, hugeStrBound+"; or 4 declarations with spaces, newlines or a comment of p[0] characters at any one place", hugeStrQuick, hugeStrDeep, "same")

// C09Huge: huge strings in quotes and braces; huge layout.
func C09Huge(p []int) {
	if sym.Choice(2) == 0 {
		sameQuotes(hugeString(p))
		return
	}
	ts := layoutDecl(sym.Choice(4))
	gap := sym.Choice(len(ts) + 1)
	ins := []byte(hugeLex(5+sym.Choice(4), p[0]))
	sameMeaning(joinToks(ts, noGaps), joinToks(ts, func(i int) []byte {
		if i == gap {
			return ins
		}
		return nil
	}))
}

// Declarations.

// hugeGen writes fixed letters, but for the first few.
func hugeGen() *gen {
	g := newGen()
	first := 0
	g.small = func(n int) string {
		if n > 0 && first < 4 {
			first++
			return bulk(n)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = 'b' + byte(i%20)
		}
		return string(b)
	}
	return g
}

func lean(n int) func() int {
	at := sym.Choice(n)
	return func() int { at++; return (at - 1) % n }
}

func (g *gen) hugeEntry(keys, fields, name, value int) *decl {
	d := &decl{kind: token.BibEntry, typ: g.small(min(name, 300))}
	sym.Assume(!declWord(d.typ))
	d.off = g.tok("@" + d.typ)
	g.open(d)
	for i := 0; i < keys; i++ {
		if i > 0 {
			g.tok(",")
		}
		n := g.small(name)
		d.keys = append(d.keys, key{n, g.tok(n)})
	}
	next := lean(numKinds)
	for i := 0; i < fields; i++ {
		g.tok(",")
		n := g.small(name)
		noURL(n)
		g.field(d, n, func() *val { return g.bigValue(valKinds[next()], value) })
	}
	g.close(d)
	return d
}

var _ = reg("C07", "Huge", C07Huge, "an entry with p[0] keys, with p[0] fields, with names of p[0] letters, or with values of p[0] characters of any kinds; every string mode", [][]int{{300}, {3000}}, [][]int{{20000}}, "parsed")

// C07Huge: huge entries.
func C07Huge(p []int) {
	g := hugeGen()
	n := p[0]
	switch sym.Choice(4) {
	case 0:
		parsedAs(g, []*decl{g.hugeEntry(n, 1, 2, 2)})
	case 1:
		parsedAs(g, []*decl{g.hugeEntry(1, n, 2, 2)})
	case 2:
		parsedAs(g, []*decl{g.hugeEntry(2, 2, n, 2)})
	default:
		parsedAs(g, []*decl{g.hugeEntry(1, 2, 2, n)})
	}
}

var _ = reg("C08", "Huge", C08Huge, "p[0] declarations whose kinds and the kinds of whose values are in one sequence from any start; every string mode", [][]int{{70}, {300}}, [][]int{{5000}}, "parsed")

// C08Huge: huge files.
func C08Huge(p []int) {
	g := hugeGen()
	kinds, vals := lean(3), lean(numKinds)
	var ds []*decl
	for i := 0; i < p[0]; i++ {
		ds = append(ds, g.bigDecl(kinds(), i%2 == 1, 2, 2, 1, vals))
	}
	parsedAs(g, ds)
}

var _ = reg("C12", "Huge", C12Huge, "p[0] operands whose kinds are in one sequence from any start joined by #, in a declaration of any kind; every string mode", [][]int{{70}, {300}}, [][]int{{5000}}, "parsed")

// C12Huge: huge concatenations.
func C12Huge(p []int) {
	g := hugeGen()
	parsedAs(g, []*decl{g.bigDecl(sym.Choice(3), sym.Choice(2) == 1, 2, 2, p[0], lean(numKinds))})
}

var _ = reg("C13", "Huge", C13Huge, "p[0] well-formed declarations or one with p[0] fields, then a declaration that has one token dropped, doubled or replaced by an arbitrary ASCII byte", [][]int{{100}}, [][]int{{1000}}, "malformed", "well-formed")

// C13Huge: a fault at the end of a huge file.
func C13Huge(p []int) {
	var b []byte
	if sym.Choice(2) == 0 {
		for i := 0; i < p[0]; i++ {
			b = append(append(b, joinToks(faultyDecls[i%3], noGaps)...), '\n')
		}
	} else {
		b = append(b, "@x{k"...)
		for i := 0; i < p[0]; i++ {
			b = append(b, ",f={v w}"...)
		}
		b = append(b, "}\n"...)
	}
	ts := append([]string(nil), faultyDecls[sym.Choice(3)]...)
	k := sym.Choice(len(ts))
	switch sym.Choice(3) {
	case 0:
		ts[k] = ""
	case 1:
		ts[k] += ts[k]
	default:
		ts[k] = string(sym.ASCIIs(1))
	}
	judged(append(b, joinToks(ts, noGaps)...))
}

var _ = reg("C01", "Huge", C01Huge, "an opening and p[0] times any of 10 pieces, of which the last has an arbitrary character, then an arbitrary byte; every string mode", [][]int{{300}}, [][]int{{3000}}, "error", "ok")

// C01Huge parses huge input.
func C01Huge(p []int) {
	st := []string{"", "@a{k,t={", "@a{k,t=\"", "@a{k,t=a#"}[sym.Choice(4)]
	k := sym.Choice(len(deepPieces))
	b := []byte(st + strings.Repeat(deepPieces[k], p[0]))
	b = append(b, sym.ASCII())
	parseTotal(b, strMode())
	exprTotal(b)
}

var _ = reg("C15", "Huge", C15Huge, "p[0] lines that each begin with any of 6 faulty pieces, then an arbitrary ASCII byte", [][]int{{8}, {9}, {10}, {11}, {12}, {13}, {40}}, [][]int{{300}}, "error")

var faultyLines = []string{"@a{\n", "@a{k,t={$}}\n", "x\n", "@a{k,\x01=1}\n", "@string{=}\n", "@a{k,t=\"\\'1\"}\n"}

// C15Huge: many errors.
func C15Huge(p []int) {
	b := []byte(strings.Repeat(faultyLines[sym.Choice(len(faultyLines))], p[0]))
	errorList(append(b, sym.ASCII()))
}

var _ = reg("C16", "Huge", C16Huge, "2 files; a group of p[0] comments or a comment of p[0] characters or p[0] empty lines at any one position between tokens, with a comment before and after", [][]int{{300}}, [][]int{{5000}}, "checked", "doc")

// C16Huge: huge comments.
func C16Huge(p []int) {
	ts := commentDecls[sym.Choice(2)]
	at, what := sym.Choice(len(ts)+1), sym.Choice(3)
	commentRun(ts, func(f *commentFile, i int) {
		if i != at {
			return
		}
		line := func(s string) {
			f.item("%"+s, true)
			f.space('\n')
		}
		line("x" + string([]byte{plainByte()}))
		for j := 0; j < p[0]; j++ {
			switch what {
			case 0:
				line("y")
			case 1:
				f.space('\n')
			}
		}
		if what == 2 {
			line(bulk(p[0]))
		}
		line("z")
	}, strMode())
}

// Authors.

var _ = reg("C17", "Huge", C17Huge, "p[0] names of which the last or none is empty", [][]int{{300}}, [][]int{{3000}}, "authors", "several", "empty")

// C17Huge: huge lists of authors.
func C17Huge(p []int) {
	b := []byte("{")
	for i := 0; i < p[0]; i++ {
		b = append(b, "Xx Yy and "...)
	}
	b = append(b, upperLetter())
	if sym.Choice(2) == 1 {
		b = append(b, " and"...)
	}
	authorsSource(append(b, '}'))
}

var _ = reg("C18", "Huge", C18Huge, "names with p[0] words in any one of the three parts or with a word of p[0] letters in it, in every form", [][]int{{100}}, [][]int{{1000}}, "prefix", "first", "plain")

// C18Huge: huge names.
func C18Huge(p []int) {
	var ws []word
	big, long := sym.Choice(3), sym.Choice(2) == 1
	for part := 0; part < 3; part++ {
		n, l := sym.Choice(2), 2
		if part == 2 {
			n = 1
		}
		if part == big {
			if long {
				n, l = 1, p[0]
			} else {
				n = p[0]
			}
		}
		for i := 0; i < n; i++ {
			c := byte('X')
			if part == 1 {
				c = 'v'
			}
			s := string([]byte{c}) + strings.Repeat("y", l-1)
			if i == n-1 {
				s = s[:l-1] + string([]byte{lowerLetter()})
				if part == 1 && l == 2 {
					s = "v" + s[1:]
				}
			}
			ws = append(ws, word{s, s, part == 1})
		}
	}
	nameForms(ws)
}

// Trees.

// hugeTree is a long or deep string.
func (g *astGen) hugeTree(n int) *ast.ParsedText {
	leaves := lean(numLeaves)
	t := &ast.ParsedText{Delim: ast.BraceDelimiter}
	leaf := func() ast.Expr { g.chars = 0; return g.leaf(leaves()) }
	if sym.Choice(2) == 1 {
		for i := 0; i < n; i++ {
			t.Values = append(t.Values, leaf())
		}
		t.Values = append(t.Values, &ast.Text{Value: bulk(n)})
		return t
	}
	nodes := lean(2)
	v := []ast.Expr{leaf(), &ast.Text{Value: bulk(1)}}
	for i := 0; i < n; i++ {
		if nodes() == 0 {
			v = []ast.Expr{leaf(), &ast.ParsedText{Depth: n - i, Delim: ast.BraceDelimiter, Values: v}, leaf()}
		} else {
			v = []ast.Expr{leaf(), &ast.TextMacro{Name: "m", Values: v}, leaf()}
		}
	}
	t.Values = v
	return t
}

const hugeTreeBound = "a string of p[0] leaves whose kinds are in one sequence from any start and a text of p[0] letters, or p[0] nested groups and macros with leaves on each side"

var (
	hugeTreeQuick = [][]int{{300}}
	hugeTreeDeep  = [][]int{{3000}}
)

var _ = reg("C20", "Huge", C20Huge, hugeTreeBound, hugeTreeQuick, hugeTreeDeep, "ok")

// C20Huge renders huge trees.
func C20Huge(p []int) { textCheck(largeGen().hugeTree(p[0])) }

var _ = reg("C27", "Huge", C27Huge, hugeTreeBound, hugeTreeQuick, hugeTreeDeep, "ok")

// C27Huge renders huge trees with the default renderers.
func C27Huge(p []int) { defaultCheck(largeGen().hugeTree(p[0])) }

var _ = reg("C26", "Huge", C26Huge, hugeTreeBound+", in every kind of holder", hugeTreeQuick, hugeTreeDeep, "nested")

// C26Huge: escapes in huge trees.
func C26Huge(p []int) { escapesCheck(largeGen().hugeTree(p[0])) }

var _ = reg("C19", "Huge", C19Huge, "a string of p[0] pieces (words, spaces, ties, the word and, groups, escapes, accents) in one sequence from any start, then a word of arbitrary letters", [][]int{{50}, {300}}, [][]int{{3000}}, "authors")

// C19Huge extracts from huge trees.
func C19Huge(p []int) {
	leaves := lean(10)
	t := &ast.ParsedText{Delim: ast.BraceDelimiter}
	for i := 0; i < p[0]; i++ {
		switch leaves() {
		case 0, 6:
			t.Values = append(t.Values, &ast.Text{Value: bulkFixed(1 + i%3)})
		case 1, 3, 5:
			t.Values = append(t.Values, &ast.TextSpace{})
		case 2:
			t.Values = append(t.Values, &ast.Text{Value: "and"})
		case 4:
			t.Values = append(t.Values, &ast.TextEscaped{Value: "&"})
		case 7:
			t.Values = append(t.Values, &ast.ParsedText{Depth: 1, Delim: ast.BraceDelimiter, Values: []ast.Expr{&ast.Text{Value: "Gg"}}})
		case 8:
			t.Values = append(t.Values, &ast.TextNBSP{})
		case 9:
			t.Values = append(t.Values, &ast.TextAccent{Accent: token.AccentAcute, Text: &ast.Text{Value: "e"}})
		}
	}
	t.Values = append(t.Values, &ast.Text{Value: bulk(4)})
	authorsCheck(t)
}

var _ = reg("C23", "Huge", C23Huge, hugeTreeBound+"; an arbitrary answer of the visitor at any one of 8 calls", [][]int{{100}}, [][]int{{1000}}, "complete", "error", "stop")

// C23Huge walks huge trees.
func C23Huge(p []int) {
	x := largeGen().hugeTree(p[0])
	f := &ast.File{Entries: []ast.Decl{
		&ast.BibDecl{Type: "a", Tags: []*ast.TagStmt{{Name: "t", Value: x}}},
	}}
	at := []int{0, 2, 4, p[0], p[0] + 2, 2*p[0] + 1, 2*p[0] + 5, 1 << 30}[sym.Choice(8)]
	walkCheck(f, func(i int) (ast.WalkStatus, error) {
		if i == at {
			return answer(false)
		}
		return ast.WalkContinue, nil
	})
}

var _ = reg("C22", "Huge", C22Huge, hugeTreeBound+"; a failure of any one of 6 writes, text renderer or default renderers", [][]int{{100}}, [][]int{{1000}}, "failed")

// C22Huge: failures in huge trees.
func C22Huge(p []int) {
	x := largeGen().hugeTree(p[0])
	n := []int{0, 3, p[0] / 2, p[0] - 1, p[0] + 1, p[0] + 20}[sym.Choice(6)]
	w := &lateSink{left: n}
	var err error
	if sym.Choice(2) == 1 {
		err = render.NewTextRenderer().Render(w, x)
	} else {
		err = bibtex.New().Render(w, x)
	}
	if !w.failed {
		sym.Assert(err == nil, "without a failed write there is no error")
		return
	}
	sym.Reach("failed")
	sym.Assert(err != nil && errors.Is(err, errLate), "a failed write is reported")
	sym.Assert(w.after == 0, "nothing is written after a failure")
}

var errLate = errors.New("late failure")

// lateSink fails from some write on.
type lateSink struct {
	left   int
	failed bool
	after  int
}

func (w *lateSink) Write(b []byte) (int, error) {
	if w.failed {
		w.after++
	}
	if w.left == 0 {
		w.failed = true
		return 0, errLate
	}
	w.left--
	return len(b), nil
}

// Resolving.

var _ = reg("C24", "Huge", C24Huge, "p[0] entries, or an entry with p[0] fields, with the same name or not", [][]int{{300}}, [][]int{{3000}}, "file", "repeated")

// C24Huge resolves huge files.
func C24Huge(p []int) {
	g := newGen()
	entries, fields := p[0], 2
	if sym.Choice(2) == 1 {
		entries, fields = 2, p[0]
	}
	same := sym.Choice(2) == 1
	c := letter()
	var ds []*decl
	for a := 0; a < entries; a++ {
		d := &decl{typ: "a"}
		g.tok("@a")
		g.open(d)
		d.keys = []key{{name: "k" + strconv.Itoa(a)}}
		g.tok(d.keys[0].name)
		for b := 0; b < fields; b++ {
			g.tok(",")
			name := "f" + strconv.Itoa(b)
			if same {
				name = string([]byte{c})
			}
			g.field(d, name, func() *val {
				v := &val{kind: valKinds[b%numKinds], text: strconv.Itoa(b)}
				if v.kind == token.Ident {
					v.text = "v" + v.text
				}
				g.write(v)
				return v
			})
		}
		g.close(d)
		ds = append(ds, d)
	}
	resolvesTo(g, ds)
}

var _ = reg("C25", "Huge", C25Huge, "p[0] resolvers given in options of any size up to 3 each, of which any one or none fails", [][]int{{12}, {40}}, [][]int{{300}}, "failed", "all")

// C25Huge: many resolvers.
func C25Huge(p []int) {
	var ran []int
	fail := sym.Choice(p[0] + 1)
	size := 1 + sym.Choice(3)
	root := &ast.BibDecl{Type: "a"}
	other := false
	one := func(i int) bibtex.Resolver {
		return bibtex.ResolverFunc(func(n ast.Node) error {
			ran = append(ran, i)
			if n != ast.Node(root) {
				other = true
			}
			if i == fail {
				return errLate
			}
			return nil
		})
	}
	var opts []bibtex.Option
	for i := 0; i < p[0]; i += size {
		var rs []bibtex.Resolver
		for k := i; k < min(i+size, p[0]); k++ {
			rs = append(rs, one(k))
		}
		opts = append(opts, bibtex.WithResolvers(rs...))
	}
	es, err := bibtex.New(opts...).Resolve(root)
	sym.ObserveInt(len(ran))
	sym.Assert(!other, "resolvers are given the tree")
	for i, k := range ran {
		sym.Assert(i == k, "resolvers run in the order given")
	}
	if fail == p[0] {
		sym.Reach("all")
		sym.Assert(err == nil && len(es) == 1, "without a failure there are entries")
		sym.Assert(len(ran) == p[0], "every resolver runs")
		return
	}
	sym.Reach("failed")
	sym.Assert(err != nil && errors.Is(err, errLate) && len(es) == 0, "a failure is returned without entries")
	sym.Assert(len(ran) == fail+1, "no resolver runs after a failure")
}

// Sources.

var _ = reg("C28", "Huge", C28Huge, "a file of p[0] or more bytes with an arbitrary plain character at its end, from a reader that delivers pieces of p[1] bytes, a buffer, a string or a file", [][]int{{5000, 4096}, {70000, 100}, {70000, 70000}}, [][]int{{300000, 32768}}, "ok")

// C28Huge: huge sources.
func C28Huge(p []int) {
	b := []byte("@x{first, note={" + strings.Repeat("lorem ipsum dolor\n", p[0]/18) + "}}\n@a{k,t={")
	b = append(append(b, plainByte()), "}}\n"...)
	orig := string(b)
	var src any
	switch sym.Choice(4) {
	case 0:
		src = io.Reader(&blocks{data: b, size: p[1]})
	case 1:
		src = bytes.NewBuffer(b)
	case 2:
		src = orig
	case 3:
		sym.File(fileName, b)
	}
	f, _, err := parse(b, 0)
	g, err2 := parser.ParseFile(gotoken.NewFileSet(), fileName, src, 0)
	sym.Assert(err == nil && err2 == nil, "a well-formed source parses")
	sym.Assert(meaning(f) == meaning(g), "the source forms are equivalent")
	sym.Assert(len(g.Entries) == 2, "both entries are found")
	sym.Assert(string(b) == orig, "the bytes of a source are not modified")
	sym.Reach("ok")
}

var _ = reg("C30", "Huge", C30Huge, "a url of p[0] characters with an arbitrary URL character in the middle and at the end, in quotes or braces, bare or in a url macro", [][]int{{300}}, [][]int{{3000}}, "url")

// C30Huge: huge urls.
func C30Huge(p []int) {
	c, d := urlByte(), urlByte()
	sym.Assume(c != '$' && d != '$')
	u := "http://x.org/" + strings.Repeat("p~q,", p[0]/8) + string([]byte{c}) + strings.Repeat("_%20&", p[0]/10) + string([]byte{d})
	urlField(u, sym.Choice(4))
}

// Helpers and scopes.

var _ = reg("C33", "Huge", C33Huge, "groups of p[0] words, p[0] keys, fields and strings; a text of p[0] letters", [][]int{{100}}, [][]int{{1000}}, "text", "group")

// C33Huge: huge lists.
func C33Huge(p []int) {
	s := strings.Repeat("ab ", p[0]) + bulk(3)
	strategy(asts.ParseStringExpr(0, "{"+s+"}"), "{"+s+"}", 0)
	l := bulk(p[0])
	strategy(asts.ParseStringExpr(0, l), l, 0)
	ws := strings.Split(s, " ")
	d := &ast.BibDecl{}
	asts.WithBibKeys(ws...)(d)
	sym.Assert(d.Key != nil && d.Key.Name == ws[0] && len(d.ExtraKeys) == len(ws)-1, "keys are stored in order")
	for i, x := range d.ExtraKeys {
		sym.Assert(x.Name == ws[i+1], "keys are stored in order")
	}
	t := asts.QuotedText(0, ws...)
	sym.Assert(len(t.Values) == len(ws), "a string has its pieces")
	for i, s := range ws {
		strategy(t.Values[i], s, 0)
	}
}

var _ = reg("C34", "Huge", C34Huge, "p[0] different names and then one arbitrary letter inserted and looked up", [][]int{{300}}, [][]int{{3000}}, "found", "absent")

// C34Huge: a scope with many names.
func C34Huge(p []int) {
	s := ast.NewScope(nil)
	var os []*ast.Object
	for i := 0; i < p[0]; i++ {
		o := ast.NewObj(ast.Entry, "n"+strconv.Itoa(i))
		sym.Assert(s.Insert(o) == nil, "a free name is inserted")
		os = append(os, o)
	}
	name := "n1" + string([]byte{sym.Byte()})
	o := ast.NewObj(ast.Abbrev, name)
	have := s.Lookup(name)
	var want *ast.Object
	for _, x := range os {
		if x.Name == name {
			want = x
		}
	}
	sym.Assert(have == want, "lookup finds the object first inserted, or nothing")
	sym.Assert(s.Insert(o) == want, "inserting returns the object already there, or nothing")
	n := p[0]
	if want == nil {
		sym.Reach("absent")
		want = o
		n++
	} else {
		sym.Reach("found")
	}
	sym.Assert(s.Lookup(name) == want, "the first object stays")
	sym.Assert(len(s.Objects) == n, "a scope holds one object per name")
	for _, x := range os {
		sym.Assert(s.Lookup(x.Name) == x, "no declaration is lost")
	}
}
