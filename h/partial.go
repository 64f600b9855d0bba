package h

import (
	"bytes"
	gotoken "go/token"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/token"
	"verif/sym"
)

// C36: partial results are trees.

// whole checks that a tree has no holes and counts its nodes.
type whole struct {
	n    int
	size int // of the source
	mode parser.Mode
	err  bool
}

func (c *whole) node(n ast.Node) {
	c.n++
	c.in(n.Pos())
}

func (c *whole) in(p gotoken.Pos) {
	sym.Assert(1 <= p && int(p) <= c.size+1, "every node is inside the file")
}

func (c *whole) exprs(xs []ast.Expr) {
	for _, x := range xs {
		c.expr(x)
	}
}

func (c *whole) expr(x ast.Expr) {
	sym.Assert(x != nil, "no expression is missing")
	c.node(x)
	switch x := x.(type) {
	case *ast.ParsedText:
		sym.Assert(c.mode&parser.ParseStrings != 0, "strings are parsed when asked for")
		c.in(x.Closer)
		c.exprs(x.Values)
	case *ast.UnparsedText:
		sym.Assert(c.mode&parser.ParseStrings == 0, "strings are not parsed when not asked for")
		sym.Assert(x.Type == token.String || x.Type == token.BraceString, "an unparsed string has its delimiter kind")
	case *ast.TextMacro:
		if x.RBrace != gotoken.NoPos {
			c.in(x.RBrace)
		}
		c.exprs(x.Values)
	case *ast.ConcatExpr:
		c.in(x.OpPos)
		c.expr(x.X)
		c.expr(x.Y)
	case *ast.TextAccent:
		sym.Assert(x.Text != nil, "an accent has a letter")
	case *ast.BadExpr:
		sym.Assert(c.err, "faulty nodes come with an error")
		sym.Assert(x.From <= x.To, "a faulty node ends after it begins")
		c.in(x.To)
	}
}

func (c *whole) tag(t *ast.TagStmt) {
	sym.Assert(t != nil && t.Value != nil, "a field has a value")
	sym.Assert(t.RawName != "" && t.Name == lower(t.RawName), "a field has a name")
	c.node(t)
	c.expr(t.Value)
}

func (c *whole) file(f *ast.File) {
	sym.Assert(f != nil && f.Scope != nil, "a file has a scope")
	for _, g := range f.Comments {
		sym.Assert(g != nil && len(g.List) > 0, "a comment group has comments")
	}
	c.n++
	for _, d := range f.Entries {
		sym.Assert(d != nil, "no declaration is missing")
		c.node(d)
		switch d := d.(type) {
		case *ast.BibDecl:
			sym.Assert(c.err || d.Type != "", "an entry has a type")
			if d.Key != nil {
				sym.Assert(d.Key.Name != "", "a key has a name")
			}
			for _, k := range d.ExtraKeys {
				sym.Assert(k != nil && k.Name != "", "an extra key has a name")
				sym.Assert(d.Key != nil, "there are extra keys only besides a key")
			}
			c.in(d.RBrace)
			for _, t := range d.Tags {
				c.tag(t)
			}
		case *ast.AbbrevDecl:
			c.in(d.RBrace)
			c.tag(d.Tag)
		case *ast.PreambleDecl:
			c.in(d.RBrace)
			c.expr(d.Text)
		case *ast.BadDecl:
			c.in(d.To)
			sym.Assert(c.err, "faulty nodes come with an error")
			sym.Assert(d.From <= d.To, "a faulty node ends after it begins")
		}
	}
}

// usable checks that whatever is returned can be used.
func usable(src []byte, mode parser.Mode) {
	sym.Observe(string(src))
	f, _, err := parse(src, mode)
	sym.Observe(errText(err))
	c := &whole{size: len(src), mode: mode, err: err != nil}
	c.file(f)
	sym.Observe(dumpFile(f, 1))
	if err != nil {
		sym.Reach("error")
		if len(f.Entries) > 0 {
			sym.Reach("partial")
		}
	} else {
		sym.Reach("ok")
	}
	in, out := 0, 0
	werr := ast.Walk(f, func(n ast.Node, entering bool) (ast.WalkStatus, error) {
		sym.Assert(n != nil, "no node is missing")
		if entering {
			in++
		} else {
			out++
		}
		return ast.WalkContinue, nil
	})
	sym.Assert(werr == nil && in == c.n && out == c.n, "a partial tree is walked completely")
	entries := 0
	for _, d := range f.Entries {
		if _, ok := d.(*ast.BibDecl); ok {
			entries++
		}
	}
	es, rerr := bibtex.New().Resolve(f)
	sym.Assert(rerr == nil && len(es) == entries, "the entries of a partial tree resolve")
	// these may fail, but do not crash
	var w bytes.Buffer
	_ = bibtex.New().Render(&w, f)
	b := bibtex.New(bibtex.WithResolvers(bibtex.NewAuthorResolver("author", "t"), bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver), bibtex.NewRenderParsedTextResolver()))
	es, rerr = b.Resolve(f)
	sym.Assert(rerr != nil || len(es) == entries, "resolving gives entries or an error")
}

func allErrors() parser.Mode {
	if sym.Choice(2) == 1 {
		return parser.AllErrors
	}
	return 0
}

var _ = reg("C36", "Partial", C36Partial, "a file of p[0] arbitrary bytes, every combination of the mode flags but trace", ps(0, 2), ps(3, 3), "error", "ok")

// C36Partial: arbitrary files.
func C36Partial(p []int) { usable(sym.Bytes(p[0]), anyMode()&^parser.Trace) }

var _ = reg("C36", "PartialOpen", C36PartialOpen, "one of 24 unfinished declarations and then p[0] arbitrary bytes, every string mode, all errors or not", ps(0, 2), ps(3, 3), "error", "partial")

// C36PartialOpen: unfinished declarations.
func C36PartialOpen(p []int) {
	src := append([]byte(parseStarts[sym.Choice(len(parseStarts))]), sym.Bytes(p[0])...)
	usable(src, strMode()|allErrors())
}

var _ = reg("C36", "PartialString", C36PartialString, "a quoted or braced string of p[0] bytes out of { } \" $ \\ a newline and NUL in a field, a url, an abbreviation or a preamble; then another declaration", ps(3, 4), ps(5, 6), "error", "partial", "ok")

// C36PartialString: faulty strings.
func C36PartialString(p []int) {
	q, r := anyQuote(), byte('}')
	if q == '"' {
		r = '"'
	}
	b := append([]byte([]string{"@a{k,t=", "@a{k,url=", "@string{s=", "@preamble{"}[sym.Choice(4)]), q)
	for i := 0; i < p[0]; i++ {
		c := sym.ASCII()
		sym.Assume(c == '{' || c == '}' || c == '"' || c == '$' || c == '\\' || c == 'a' || c == '\n' || c == 0)
		b = append(b, c)
	}
	usable(append(append(b, r), "}@b{l}"...), parser.ParseStrings|allErrors())
}

var _ = reg("C36", "PartialMutated", C36PartialMutated, "6 well-formed declarations with one token dropped, doubled, replaced by p[0] arbitrary ASCII bytes, or with these bytes before it; then another declaration; every string mode, all errors", ps(1, 1), ps(2, 2), "error", "partial")

// C36PartialMutated: malformed declarations.
func C36PartialMutated(p []int) {
	src := mutatedTail(p[0], true)
	usable(src, strMode()|parser.AllErrors)
}

var _ = reg("C36", "PartialLines", C36PartialLines, "p[0] lines out of 6 faulty ones, the same twice each, with one arbitrary ASCII byte, every string mode, all errors or not", [][]int{{1}, {2}, {14}}, [][]int{{3}, {30}}, "error", "partial")

// C36PartialLines: many faults.
func C36PartialLines(p []int) {
	var b []byte
	k := -1
	for i := 0; i < p[0]; i++ {
		if i < 3 || k < 0 {
			k = sym.Choice(len(faulty))
		}
		l := faulty[k]
		if i == 0 {
			b = append(b, l...)
			b = append(b, sym.ASCII())
		}
		b = append(append(append(append(b, l...), '\n'), l...), '\n')
	}
	usable(b, strMode()|allErrors())
}

// C38: parser flags.

// flags parses a source with flags and checks what they change.
func flags(src []byte) {
	sym.Observe(string(src))
	mode := strMode()
	f, _, err := parse(src, mode)
	sym.Observe(errText(err))
	plain := outcome(f, err)
	switch sym.Choice(4) {
	case 0:
		g, _, err2 := parse(src, mode|parser.DeclarationErrors)
		sym.Assert(outcome(g, err2) == plain, "the declaration errors flag changes nothing")
	case 1:
		g, _, err2 := parse(src, mode|parser.Trace)
		sym.Assert(outcome(g, err2) == plain, "the trace flag changes nothing")
	case 2:
		g, _, err2 := parse(src, mode|parser.AllErrors)
		sym.Assert((err == nil) == (err2 == nil), "the all errors flag does not change whether there is an error")
		if err == nil {
			sym.Assert(outcome(g, err2) == plain, "the all errors flag changes nothing without errors")
		}
	default:
		g, _, err2 := parse(src, mode|parser.ParseComments)
		sym.Assert((err == nil) == (err2 == nil), "the comments flag does not change whether there is an error")
		if err != nil {
			sym.Assert(outcome(nil, err) == outcome(nil, err2), "the comments flag does not change errors")
		}
		d, e := &dumper{pos: true, base: 1}, &dumper{pos: true, base: 1}
		d.file(f)
		e.file(g)
		sym.Assert(d.sb.String() == e.sb.String(), "the comments flag changes nothing but comments")
	}
	if err != nil {
		sym.Reach("error")
	} else {
		sym.Reach("ok")
	}
}

var _ = reg("C38", "Flags", C38Flags, "one of 14 frames around p[0] arbitrary bytes, every flag with and without string parsing", ps(0, 2), ps(3, 3), "error", "ok")

// C38Flags: arbitrary sources.
func C38Flags(p []int) {
	fr := spanFrames[sym.Choice(len(spanFrames))]
	flags(append(append([]byte(fr[0]), sym.Bytes(p[0])...), fr[1]...))
}

var _ = reg("C38", "FlagsLayout", C38FlagsLayout, "6 declarations with p[0] layout items (white space or comment of one arbitrary character) at each of two arbitrary positions between tokens, every flag with and without string parsing", ps(1, 1), ps(2, 2), "ok")

// C38FlagsLayout: comments anywhere.
func C38FlagsLayout(p []int) {
	ts := layoutDecl(sym.Choice(numLayoutDecls))
	i := sym.Choice(len(ts) + 1)
	j := (i + 1 + sym.Choice(3)) % (len(ts) + 1)
	flags(joinToks(ts, func(k int) (b []byte) {
		if k != i && k != j {
			return nil
		}
		for n := 0; n < p[0]; n++ {
			c := sym.ASCII()
			if sym.Choice(2) == 0 {
				sym.Assume(isSpaceByte(c))
				b = append(b, c)
			} else {
				sym.Assume(c != '\n')
				b = append(b, '%', c, '\n')
			}
		}
		return b
	}))
}

var _ = reg("C38", "FlagsMutated", C38FlagsMutated, "6 well-formed declarations with one token dropped, doubled, replaced by p[0] arbitrary ASCII bytes, or with these bytes before it", ps(1, 1), ps(2, 2), "error")

// C38FlagsMutated: malformed declarations.
func C38FlagsMutated(p []int) { flags(mutatedTail(p[0], false)) }

// sameRaw compares a file parsed with and without strings.
func sameRaw(src []byte) {
	sym.Observe(string(src))
	for _, c := range src {
		sym.Assume(c != '\\' && c != '$')
	}
	com := parser.Mode(0)
	if sym.Choice(2) == 1 {
		com = parser.ParseComments
	}
	f, _, err := parse(src, parser.ParseStrings|com)
	g, _, err2 := parse(src, com)
	sym.Observe(errText(err) + "," + errText(err2))
	if err != nil {
		sym.Reach("error")
		return
	}
	sym.Assert(err2 == nil, "a file whose strings parse is well-formed without parsing them")
	d, e := &rawDump{src: src, d: dumper{pos: true, base: 1, doc: true}}, &rawDump{src: src, d: dumper{pos: true, base: 1, doc: true}}
	d.file(f)
	e.file(g)
	sym.Assert(d.d.sb.String() == e.d.sb.String(), "parsing strings changes nothing but strings")
	sym.Reach("ok")
}

// rawDump writes parsed strings as their source.
type rawDump struct {
	d   dumper
	src []byte
}

func (r *rawDump) expr(x ast.Expr) {
	switch x := x.(type) {
	case *ast.ParsedText:
		u := &ast.UnparsedText{ValuePos: x.Opener, Type: token.BraceString}
		if x.Delim == ast.QuoteDelimiter {
			u.Type = token.String
		}
		u.Value = string(r.src[int(x.Opener) : int(x.Closer)-1])
		r.d.expr(u)
	case *ast.ConcatExpr:
		r.d.sb.WriteString("cat")
		r.d.p(int(x.OpPos))
		r.expr(x.X)
		r.expr(x.Y)
	default:
		r.d.expr(x)
	}
}

func (r *rawDump) tag(t *ast.TagStmt) {
	r.expr(t.Value)
	c := *t
	c.Value = nil
	r.d.tag(&c)
}

func (r *rawDump) file(f *ast.File) {
	g := *f
	g.Entries = nil
	r.d.file(&g)
	for _, d := range f.Entries {
		switch d := d.(type) {
		case *ast.BibDecl:
			c := *d
			c.Tags = nil
			for _, t := range d.Tags {
				r.tag(t)
			}
			r.d.decl(&c)
		case *ast.AbbrevDecl:
			c := *d
			r.tag(d.Tag)
			c.Tag = nil
			r.d.decl(&c)
		case *ast.PreambleDecl:
			c := *d
			r.expr(d.Text)
			c.Text = nil
			r.d.decl(&c)
		default:
			r.d.decl(d)
		}
	}
}

var _ = reg("C38", "Raw", C38Raw, "one of 14 frames around p[0] arbitrary ASCII bytes without backslashes and dollars, with and without string parsing, with comments or not", ps(0, 3), ps(4, 4), "error", "ok")

// C38Raw: arbitrary sources.
func C38Raw(p []int) {
	fr := spanFrames[sym.Choice(len(spanFrames))]
	sameRaw(append(append([]byte(fr[0]), sym.ASCIIs(p[0])...), fr[1]...))
}

var _ = reg("C38", "RawText", C38RawText, "a field of p[0] bytes out of { } \" a , % # newline space, with and without string parsing", ps(4, 5), ps(6, 7), "error", "ok")

// C38RawText: longer values.
func C38RawText(p []int) {
	b := []byte("@a{k,t=")
	for i := 0; i < p[0]; i++ {
		c := sym.ASCII()
		sym.Assume(c == '{' || c == '}' || c == '"' || c == 'a' || c == ',' || c == '%' || c == '#' || c == '\n' || c == ' ')
		b = append(b, c)
	}
	sameRaw(append(b, '}'))
}

var _ = reg("C38", "RawDecls", C38RawDecls, "p[0] declarations whose kinds are in any regular sequence with names of p[1] characters, values of p[2] operands of p[3] characters whose kinds are in any regular sequence; nothing, a space or a comment between tokens", [][]int{{1, 2, 2, 2}, {6, 2, 2, 4}}, [][]int{{3, 2, 3, 3}, {20, 2, 2, 3}, {3, 10, 12, 5}}, "ok")

// C38RawDecls: generated declarations.
func C38RawDecls(p []int) {
	g := newGen()
	if p[0] > 1 {
		g.large()
	}
	g.layout(sym.Choice(3))
	kinds, vals := cycle(3), cycle(numKinds)
	for i := 0; i < p[0]; i++ {
		g.bigDecl(kinds(), i%2 == 1, p[1], p[3], p[2], vals)
	}
	sameRaw(g.b)
}

var _ = reg("C38", "RawHuge", C38RawHuge, hugeStrBound+" (without math, macros, escapes and accents)", hugeStrQuick, hugeStrDeep, "ok")

// C38RawHuge: huge strings.
func C38RawHuge(p []int) {
	q, r := anyQuote(), byte('}')
	if q == '"' {
		r = '"'
	}
	body := hugeStr([]int{0, 3, 4, 5, 6, 9}[sym.Choice(6)], p[0])
	b := append([]byte("@a{k,t="), q)
	b = append(append(append(b, body...), plainByte(), r), '}')
	sameRaw(b)
}

var _ = reg("C38", "FlagsDeep", C38FlagsDeep, "a value of p[0] operands whose kinds are in any regular sequence, p[0] nested groups, or p[0] fields and declarations, with one arbitrary ASCII byte, every flag with and without string parsing", [][]int{{3}, {80}}, [][]int{{40}, {400}}, "ok", "error")

// C38FlagsDeep: deep nesting of the traced productions.
func C38FlagsDeep(p []int) {
	g := &gen{ws: func() {}}
	g.large()
	g.tok("@a{k,t=")
	switch sym.Choice(4) {
	case 0:
		g.bigConcat(p[0], 1, lean(numKinds))
		g.b = append(g.b, sym.ASCII(), '}')
	case 1:
		g.tok(strings.Repeat("{", p[0]))
		g.b = append(g.b, sym.ASCII())
		g.tok(strings.Repeat("}", p[0]+1))
	case 2:
		g.tok("1,")
		g.tok(strings.Repeat("b={c}, ", p[0]))
		g.b = append(g.b, sym.ASCII())
		g.tok("=\"d\"}")
	default:
		g.tok("1}")
		g.tok(strings.Repeat("@b{c}\n", p[0]))
		g.tok("@string{d=1")
		g.b = append(g.b, sym.ASCII(), '}')
	}
	flags(g.b)
}
