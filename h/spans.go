package h

import (
	"bytes"
	gotoken "go/token"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/token"
	"verif/sym"
)

// C35: what nodes span.

// spans checks the extents of the nodes of a file against its source.
type spans struct {
	src  []byte
	base int
}

// text is the source of a node.
func (s *spans) text(n ast.Node) (string, int, int) {
	lo, hi := int(n.Pos())-s.base, int(n.End())-s.base
	sym.Assert(0 <= lo && lo <= hi && hi <= len(s.src), "a node lies in the file and ends after it begins")
	return string(s.src[lo:hi]), lo, hi
}

func (s *spans) is(n ast.Node, want string) {
	t, _, _ := s.text(n)
	sym.Assert(t == want, "a node spans its source text")
}

func (s *spans) comment(c *ast.TexComment) { s.is(c, c.Text) }

// tiled checks pieces that follow each other from lo to hi.
func (s *spans) tiled(xs []ast.Expr, lo, hi int, inURL bool) {
	gap := func(to int, prev ast.Expr) {
		sym.Assert(lo <= to, "pieces do not overlap")
		if _, ok := prev.(*ast.TextAccent); ok && lo+1 == to && s.src[lo] == '}' {
			return
		}
		_, sp := prev.(*ast.TextSpace)
		for _, c := range s.src[lo:to] {
			sym.Assert((sp || inURL) && isSpaceByte(c), "nothing is between pieces")
		}
	}
	var prev ast.Expr
	for _, x := range xs {
		_, a, b := s.text(x)
		gap(a, prev)
		s.expr(x)
		lo, prev = b, x
	}
	gap(hi, prev)
}

func (s *spans) expr(x ast.Expr) {
	t, lo, hi := s.text(x)
	switch x := x.(type) {
	case *ast.Ident:
		sym.Assert(t == x.Name, "a node spans its source text")
	case *ast.Number:
		sym.Assert(t == x.Value, "a node spans its source text")
	case *ast.UnparsedText:
		o, c := "{", "}"
		if x.Type == token.String {
			o, c = "\"", "\""
		}
		sym.Assert(t == o+x.Value+c, "a string spans its content and delimiters")
		sym.Reach("unparsed")
	case *ast.ParsedText:
		o, c := byte('{'), byte('}')
		if x.Delim == ast.QuoteDelimiter {
			o, c = '"', '"'
		}
		sym.Assert(hi-lo >= 2 && t[0] == o && t[hi-lo-1] == c, "a string spans its content and delimiters")
		sym.Assert(int(x.Closer)-s.base == hi-1, "a string ends after its closer")
		s.tiled(x.Values, lo+1, hi-1, false)
		sym.Reach("parsed")
	case *ast.Text:
		sym.Assert(t == x.Value, "a node spans its source text")
	case *ast.TextComma:
		sym.Assert(t == ",", "a node spans its source text")
	case *ast.TextNBSP:
		sym.Assert(t == "~", "a node spans its source text")
	case *ast.TextHyphen:
		sym.Assert(t == "-", "a node spans its source text")
	case *ast.TextMath:
		sym.Assert(t == "$"+x.Value+"$", "a node spans its source text")
	case *ast.TextEscaped:
		sym.Assert(t == "\\"+x.Value, "a node spans its source text")
	case *ast.TextSpace:
		sym.Assert(lo < len(s.src) && isSpaceByte(s.src[lo]), "white space is at white space")
	case *ast.TextAccent:
		sym.Assert(hi-lo >= 3 && t[0] == '\\' && t[1] == byte(x.Accent), "an accent begins with its backslash and mark")
		s.is(x.Text, x.Text.Value)
		sym.Assert(int(x.Text.End())-s.base == hi, "an accent ends after its letter")
		for _, c := range t[2 : hi-lo-len(x.Text.Value)] {
			sym.Assert(c == '{' || c == ' ' || c == '\t' || c == '\n' || c == '\r', "an accent spans its mark and letter")
		}
	case *ast.TextMacro:
		n := 1 + len(x.Name)
		sym.Assert(hi-lo >= n && t[:n] == "\\"+x.Name, "a macro begins with its name")
		if x.RBrace == gotoken.NoPos {
			sym.Assert(hi-lo == n && len(x.Values) == 0, "a macro without argument ends after its name")
			return
		}
		sym.Assert(int(x.RBrace)-s.base == hi-1 && t[hi-lo-1] == '}', "a macro ends after its closing brace")
		for _, c := range t[n:] {
			if c == '\\' || c == '{' && t[n] != '{' {
				return
			}
		}
		sym.Reach("macro")
		s.tiled(x.Values, lo+n+1, hi-1, true)
	case *ast.ConcatExpr:
		_, _, xe := s.text(x.X)
		_, yp, ye := s.text(x.Y)
		op := int(x.OpPos) - s.base
		sym.Assert(lo <= xe && xe <= op && op < yp && ye == hi, "a concatenation spans its operands")
		sym.Assert(s.src[op] == '#', "the operator is at its position")
		s.expr(x.X)
		s.expr(x.Y)
		sym.Reach("concat")
	default:
		sym.Assert(false, "a well-formed file has no other nodes")
	}
}

func (s *spans) tag(x *ast.TagStmt) {
	t, lo, hi := s.text(x)
	n := len(x.RawName)
	sym.Assert(hi-lo > n && t[:n] == x.RawName, "a field begins with its name")
	_, a, b := s.text(x.Value)
	sym.Assert(lo+n < a && b == hi, "a field ends after its value")
	s.expr(x.Value)
}

// file checks all nodes; the declarations end after the given offsets.
func (s *spans) file(f *ast.File, closers []int) {
	for _, g := range f.Comments {
		sym.Assert(g.Pos() == g.List[0].Pos() && g.End() == g.List[len(g.List)-1].End(), "a comment group spans its comments")
		at := -1
		for _, c := range g.List {
			s.comment(c)
			sym.Assert(int(c.Pos()) > at, "comments do not overlap")
			at = int(c.End()) - 1
		}
	}
	at := 0
	for i, d := range f.Entries {
		t, lo, hi := s.text(d)
		sym.Assert(at <= lo, "declarations do not overlap")
		at = hi
		sym.Assert(hi-lo >= 4 && t[0] == '@' && (t[hi-lo-1] == '}' || t[hi-lo-1] == ')'), "a declaration spans its source text")
		if closers != nil {
			sym.Assert(hi == closers[i]+1, "a declaration ends after its closing delimiter")
		}
		in := lo + 2
		inside := func(n ast.Node) {
			_, a, b := s.text(n)
			sym.Assert(in < a && b < hi, "the parts of a declaration lie in it and do not overlap")
			in = b - 1
		}
		switch d := d.(type) {
		case *ast.BibDecl:
			sym.Assert(hi-lo > len(d.Type)+2, "an entry spans its source text")
			if d.Key != nil {
				inside(d.Key)
				s.expr(d.Key)
			}
			for _, k := range d.ExtraKeys {
				inside(k)
				s.expr(k)
			}
			in = lo + 2 // keys may stand between fields
			for _, t := range d.Tags {
				inside(t)
				s.tag(t)
			}
		case *ast.AbbrevDecl:
			inside(d.Tag)
			s.tag(d.Tag)
		case *ast.PreambleDecl:
			inside(d.Text)
			s.expr(d.Text)
		}
	}
	if len(f.Entries) > 0 {
		sym.Assert(int(f.End())-s.base == at, "a file ends with its last declaration")
	}
	sym.Reach("file")
}

// spanned parses a source, alone or as the second file of a set.
func spanned(src []byte, ds []*decl) {
	mode := strMode()
	if sym.Choice(2) == 1 {
		mode |= parser.ParseComments
	}
	spannedMode(src, ds, mode)
}

func spannedMode(src []byte, ds []*decl, mode parser.Mode) {
	sym.Observe(string(src))
	fset := gotoken.NewFileSet()
	fset.AddFile("other.bib", -1, 10)
	base := fset.Base()
	f, err := parser.ParseFile(fset, fileName, src, mode)
	sym.Observe(errText(err))
	if err != nil {
		sym.Assert(ds == nil, "a well-formed file parses without error")
		return
	}
	var closers []int
	for _, d := range ds {
		closers = append(closers, d.close)
	}
	sym.Observe(dumpFile(f, base))
	(&spans{src, base}).file(f, closers)
}

// spanFrames are files with a hole.
var spanFrames = [][2]string{
	{"", ""}, {"@a{", "}"}, {"@a{k,", "}"}, {"@a(k,t=", ")"}, {"@a{k,t={", "}}"}, {"@a{k,t=\"", "\"}"}, {"@string{s=", "}"},
	{"@preamble{{", "}}"}, {"%c\n@a{k,t=1,", "t=2}%d"}, {"@a{k,url={", "}}"}, {"@a{k,t={\\url{", "}}}"}, {"@a{k,t={x", "}#y}@b{l}"},
	{"@a{k,t={\\'", "}}"}, {"% c\n%d\n@a{k,t=1", "\n%\n%e\n}%f\n%gh\n\n%i"},
}

var _ = reg("C35", "Spans", C35Spans, "one of 14 frames around p[0] arbitrary bytes, every string mode, with comments or not, in the second file of a set", ps(0, 2), ps(3, 3), "file", "parsed", "unparsed", "concat", "macro")

// C35Spans: nodes span their source text.
func C35Spans(p []int) {
	fr := spanFrames[sym.Choice(len(spanFrames))]
	spanned(append(append([]byte(fr[0]), sym.Bytes(p[0])...), fr[1]...), nil)
}

var _ = reg("C35", "SpansText", C35SpansText, "a quoted or braced string of p[0] bytes out of \\ c o { } $ \" ' , ~ space 7 newline, in a field, an abbreviation, a preamble or a url", ps(3, 4), ps(5, 6), "file", "parsed")

// C35SpansText: longer strings.
func C35SpansText(p []int) {
	b := make([]byte, p[0])
	for i := range b {
		b[i] = strByte()
	}
	spanString(b)
}

func spanString(body []byte) {
	q, r := anyQuote(), byte('}')
	if q == '"' {
		r = '"'
	}
	b := append([]byte([]string{"@a{k,t=", "@string{t=", "@preamble{", "@a{k,url="}[sym.Choice(4)]), q)
	b = append(append(append(b, body...), r), '}')
	spannedMode(b, nil, parser.ParseStrings)
}

var _ = reg("C35", "Pieces", C35Pieces, "a quoted or braced string of p[0] pieces out of text, Latin letters, space, comma, tie, math, escape, bare, braced and spaced accent, macro, url macro, group and nested groups with arbitrary characters", ps(1, 2), ps(3, 4), "file", "parsed")

// C35Pieces: strings of several pieces.
func C35Pieces(p []int) { spanString(pieces(p[0])) }

var _ = reg("C35", "Big", C35Big, "a quoted or braced string of "+bigBound, bigQuick, bigDeep, "file", "parsed")

// C35Big: long strings.
func C35Big(p []int) { spanString(bigPieces(p)) }

var _ = reg("C35", "Deep", C35Deep, "p[0] nested groups, each with the same one of 18 pieces with p[1] characters before the inner group and one of 8 fixed ones after it", [][]int{{3, 2}, {12, 2}}, [][]int{{60, 3}}, "file", "parsed")

// C35Deep: nested strings.
func C35Deep(p []int) { spanString(deepString(p)) }

var _ = reg("C35", "Huge", C35Huge, hugeStrBound, hugeStrQuick, hugeStrDeep, "file", "parsed")

// C35Huge: huge strings.
func C35Huge(p []int) { spanString(hugeString(p)) }

var _ = reg("C35", "Decls", C35Decls, "p[0] declarations whose kinds are in any regular sequence with names of p[1] characters, values of p[2] operands of p[3] characters whose kinds are in any regular sequence; nothing, a space or a comment between tokens", [][]int{{1, 2, 2, 2}, {2, 1, 2, 1}, {6, 2, 2, 4}}, [][]int{{3, 2, 3, 3}, {20, 2, 2, 3}, {3, 10, 12, 5}}, "file", "concat")

// C35Decls: generated declarations.
func C35Decls(p []int) {
	g := newGen()
	if p[0] > 1 {
		g.large()
	}
	g.layout(sym.Choice(3))
	kinds, vals := cycle(3), cycle(numKinds)
	var ds []*decl
	for i := 0; i < p[0]; i++ {
		ds = append(ds, g.bigDecl(kinds(), i%2 == 1, p[1], p[3], p[2], vals))
	}
	spanned(g.b, ds)
}

var _ = reg("C35", "Entries", C35Entries, "an entry with p[0] keys and p[1] fields with names of p[2] characters and values of p[3] characters whose kinds are in any regular sequence, every delimiter, trailing comma; nothing, a space or a comment between tokens", [][]int{{1, 2, 1, 1}, {3, 2, 2, 2}, {2, 12, 4, 3}}, [][]int{{12, 1, 20, 20}, {1, 60, 3, 3}}, "file")

// C35Entries: entries with several keys and fields.
func C35Entries(p []int) {
	g := newGen()
	if p[0]+p[1] > 3 {
		g.large()
	}
	g.layout(sym.Choice(3))
	d := &decl{kind: token.BibEntry, typ: g.bigType(p[2]), paren: sym.Choice(2) == 1}
	sym.Assume(!declWord(d.typ))
	d.off = g.tok("@" + d.typ)
	g.open(d)
	for i := 0; i < p[0]; i++ {
		g.tok(g.longName(p[2]))
		g.tok(",")
	}
	next := cycle(numKinds)
	for i := 0; i < p[1]; i++ {
		if i > 0 {
			g.tok(",")
		}
		g.field(d, g.longField(p[2]), func() *val { return g.bigValue(valKinds[next()], p[3]) })
	}
	if sym.Choice(2) == 1 {
		g.tok(",")
	}
	g.close(d)
	spanned(g.b, []*decl{d})
}

// C37: what is rendered parses to the same tree.

// normal writes a tree with white space and ties alike and adjacent text
// joined.
type normal struct {
	b    []byte
	text bool
}

func (n *normal) exprs(xs []ast.Expr) {
	space := false
	for _, x := range xs {
		switch x := x.(type) {
		case *ast.TextSpace, *ast.TextNBSP:
			if !space {
				n.b = append(n.b, "\x01sp"...)
			}
			space, n.text = true, false
			continue
		case *ast.Text:
			if !n.text {
				n.b = append(n.b, "\x01t"...)
			}
			n.b = append(n.b, x.Value...)
			space, n.text = false, true
			continue
		case *ast.ParsedText:
			n.text = false
			n.b = append(n.b, "\x01("...)
			n.exprs(x.Values)
			n.b = append(n.b, "\x01)"...)
		default:
			d := &dumper{}
			d.expr(x)
			n.b = append(append(n.b, '\x01'), d.sb.String()...)
		}
		space, n.text = false, false
	}
	n.text = false
}

func hasMacro(xs []ast.Expr) bool {
	for _, x := range xs {
		switch x := x.(type) {
		case *ast.TextMacro:
			return true
		case *ast.ParsedText:
			if hasMacro(x.Values) {
				return true
			}
		}
	}
	return false
}

func parseString(src []byte) *ast.ParsedText {
	f, _, err := parse(src, parser.ParseStrings)
	if err != nil || len(f.Entries) != 1 {
		return nil
	}
	d, ok := f.Entries[0].(*ast.BibDecl)
	if !ok || len(d.Tags) != 1 {
		return nil
	}
	t, _ := d.Tags[0].Value.(*ast.ParsedText)
	return t
}

// roundTrip renders a parsed string and parses it again.
func roundTrip(body []byte) {
	noNUL(body)
	q, r := anyQuote(), byte('}')
	if q == '"' {
		r = '"'
	}
	frame := func(s []byte) []byte { return append(append([]byte("@a{k,t="), s...), '}') }
	src := append(append([]byte{q}, body...), r)
	sym.Observe(string(src))
	t := parseString(frame(src))
	if t == nil || hasMacro(t.Values) {
		sym.Reach("other")
		return
	}
	var w bytes.Buffer
	err := bibtex.New().Render(&w, t)
	sym.Assert(err == nil, "a parsed string renders without error")
	sym.Observe(w.String())
	u := parseString(frame(w.Bytes()))
	sym.Assert(u != nil, "a rendered string parses without error")
	sym.Assert(u.Delim == t.Delim && u.Depth == t.Depth, "a rendered string has its delimiter")
	a, b := &normal{}, &normal{}
	a.exprs(t.Values)
	b.exprs(u.Values)
	sym.Assert(string(a.b) == string(b.b), "a rendered string parses to the same tree")
	sym.Reach("same")
	var w2 bytes.Buffer
	err = bibtex.New().Render(&w2, u)
	sym.Assert(err == nil && w2.String() == collapse(w.String(), t), "rendering again gives the same")
}

// collapse joins the spaces of a rendered string that come from white space
// next to ties.
func collapse(s string, t *ast.ParsedText) string {
	if !spaceRuns(t.Values) {
		return s
	}
	var b []byte
	math := false
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			b = append(b, s[i], s[i+1])
			i++
			continue
		}
		if s[i] == '$' {
			math = !math
		}
		if s[i] == ' ' && !math && len(b) > 0 && s[i-1] == ' ' {
			continue
		}
		b = append(b, s[i])
	}
	return string(b)
}

// spaceRuns tells whether white space and ties are next to each other.
func spaceRuns(xs []ast.Expr) bool {
	prev := false
	for _, x := range xs {
		sp := false
		switch x := x.(type) {
		case *ast.TextSpace, *ast.TextNBSP:
			sp = true
		case *ast.ParsedText:
			if spaceRuns(x.Values) {
				return true
			}
		}
		if sp && prev {
			return true
		}
		prev = sp
	}
	return false
}

var _ = reg("C37", "RoundTrip", C37RoundTrip, "a quoted or braced string of p[0] arbitrary bytes", ps(0, 3), ps(4, 4), "same", "other")

// C37RoundTrip: arbitrary strings.
func C37RoundTrip(p []int) { roundTrip(sym.Bytes(p[0])) }

var _ = reg("C37", "RoundTripText", C37RoundTripText, "a quoted or braced string of p[0] bytes out of \\ c o { } $ \" ' , ~ space 7 newline", ps(4, 4), ps(5, 6), "same", "other")

// C37RoundTripText: longer strings over the character classes.
func C37RoundTripText(p []int) {
	b := make([]byte, p[0])
	for i := range b {
		b[i] = strByte()
	}
	roundTrip(b)
}

var _ = reg("C37", "Pieces", C37Pieces, "a quoted or braced string of p[0] pieces out of text, Latin letters, space, comma, tie, math, escape, bare, braced and spaced accent, macro, url macro, group and nested groups with arbitrary characters", ps(1, 2), ps(3, 4), "same")

// C37Pieces: strings of several pieces.
func C37Pieces(p []int) { roundTrip(pieces(p[0])) }

var _ = reg("C37", "Big", C37Big, "a quoted or braced string of "+bigBound, bigQuick, bigDeep, "same")

// C37Big: long strings.
func C37Big(p []int) { roundTrip(bigPieces(p)) }

var _ = reg("C37", "Deep", C37Deep, "p[0] nested groups, each with the same one of 18 pieces with p[1] characters before the inner group and one of 8 fixed ones after it", [][]int{{3, 2}, {12, 2}}, [][]int{{60, 3}}, "same")

// C37Deep: nested strings.
func C37Deep(p []int) { roundTrip(deepString(p)) }

var _ = reg("C37", "Huge", C37Huge, hugeStrBound, hugeStrQuick, hugeStrDeep, "same")

// C37Huge: huge strings.
func C37Huge(p []int) { roundTrip(hugeString(p)) }
