package h

import (
	gotoken "go/token"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/token"
	"verif/sym"
)

// treeCheck compares a parsed string with reference tokens.
type treeCheck struct {
	toks []tok
	i    int
	base int
	pos  bool
}

func (c *treeCheck) at(p gotoken.Pos, off int, what string) {
	if c.pos {
		sym.Assert(int(p)-c.base == off, what)
	}
}

// group checks the pieces of a group up to its closer and returns the
// closer's offset.
func (c *treeCheck) group(xs []ast.Expr, depth int, q bool) int {
	for _, x := range xs {
		sym.Assert(c.i < len(c.toks), "no piece is made up")
		t := c.toks[c.i]
		c.i++
		c.at(x.Pos(), t.off, "a piece is at its first character")
		switch t.t {
		case token.StringContents:
			n, ok := x.(*ast.Text)
			sym.Assert(ok && n.Value == t.lit, "a text run is a text node")
		case token.StringSpace:
			_, ok := x.(*ast.TextSpace)
			sym.Assert(ok, "white space is a space node")
		case token.StringComma:
			_, ok := x.(*ast.TextComma)
			sym.Assert(ok, "a comma is a comma node")
		case token.StringNBSP:
			_, ok := x.(*ast.TextNBSP)
			sym.Assert(ok, "a tie is a tie node")
		case token.StringMath:
			n, ok := x.(*ast.TextMath)
			sym.Assert(ok && n.Value == t.lit, "math is a math node")
		case token.StringBackslash:
			n, ok := x.(*ast.TextEscaped)
			sym.Assert(ok && n.Value == t.lit[1:], "an escape is an escape node")
		case token.StringAccent:
			n, ok := x.(*ast.TextAccent)
			sym.Assert(ok && byte(n.Accent) == t.lit[1], "an accent is an accent node")
			l := t.lit[2]
			end := c.toks[c.i].off - 1
			if l == '{' {
				l = t.lit[3]
				end--
			}
			sym.Assert(n.Text != nil && n.Text.Value == string([]byte{l}), "an accent has its letter")
			c.at(n.Text.ValuePos, end, "the letter of an accent is at its position")
		case token.StringMacro:
			n, ok := x.(*ast.TextMacro)
			name := t.lit
			if len(name) > 0 && name[0] == '\\' {
				name = name[1:] // a single character
			}
			sym.Assert(ok && n.Name == name, "a macro is a macro node with its name")
			if t.lit == "url" || t.lit == "href" {
				c.url(n)
			} else {
				sym.Assert(len(n.Values) == 0, "a macro has no arguments of its own")
			}
		case token.StringLBrace:
			n, ok := x.(*ast.ParsedText)
			sym.Assert(ok, "a group is a nested node")
			sym.Assert(n.Depth == depth+1, "a group has its depth")
			sym.Assert(n.Delim == ast.BraceDelimiter, "a group has its delimiter")
			cl := c.group(n.Values, depth+1, false)
			c.at(n.Closer, cl, "the closer of a group is its delimiter")
		default:
			sym.Assert(false, "no piece beyond the end of its group")
		}
	}
	sym.Assert(c.i < len(c.toks), "a group ends")
	t := c.toks[c.i]
	c.i++
	want := token.StringRBrace
	if q {
		want = token.DoubleQuote
	}
	sym.Assert(t.t == want, "no piece of a group is dropped")
	return t.off
}

// url checks the argument of a url macro.
func (c *treeCheck) url(n *ast.TextMacro) {
	sym.Assert(c.toks[c.i].t == token.StringLBrace, "a url has an argument")
	c.i++
	start := c.toks[c.i].off
	var b []byte
	for c.toks[c.i].t != token.StringRBrace {
		t := c.toks[c.i]
		c.i++
		switch t.t {
		case token.StringMath:
			b = append(append(append(b, '$'), t.lit...), '$')
		case token.StringContents, token.StringComma, token.StringNBSP, token.StringBackslash:
			b = append(b, t.lit...)
		default:
			sym.Assert(false, "reference: not a url")
		}
	}
	sym.Assert(len(n.Values) == 1, "a url macro has one argument")
	v, ok := n.Values[0].(*ast.Text)
	sym.Assert(ok && v.Value == string(b), "a url macro has its characters as argument")
	c.at(v.ValuePos, start, "the argument of a url is at its first character")
	c.at(n.RBrace, c.toks[c.i].off, "the closing brace of a url is at its position")
	c.i++
}

// okURLs tells whether the arguments of url macros are in braces and hold
// nothing but text.
func okURLs(ts []tok) bool {
	for i := 0; i < len(ts); i++ {
		if ts[i].t != token.StringMacro || ts[i].lit != "url" && ts[i].lit != "href" {
			continue
		}
		if i+1 >= len(ts) || ts[i+1].t != token.StringLBrace {
			return false
		}
		for i += 2; i < len(ts) && ts[i].t != token.StringRBrace; i++ {
			switch ts[i].t {
			case token.StringMath, token.StringContents, token.StringComma, token.StringNBSP, token.StringBackslash:
			default:
				return false
			}
		}
	}
	return true
}

// noNUL excludes the byte that is never legal.
func noNUL(b []byte) {
	for _, c := range b {
		sym.Assume(c != 0)
	}
}

var stringFrames = []string{"@a{k,t=", "@string{t=", "@preamble{"}

// stringTree parses a string with some content in a field, an abbreviation or
// a preamble and compares the tree.
func stringTree(body []byte, q byte, frame int, pos bool) {
	noNUL(body)
	g := newGen()
	g.b = append(g.b, stringFrames[frame]...)
	start := len(g.b)
	g.b = append(append(g.b, q), body...)
	if q == '{' {
		g.b = append(g.b, '}')
	} else {
		g.b = append(g.b, '"')
	}
	ref := refString(g.b, start+1, q)
	sym.Assume(!ref.bad && ref.end == len(g.b) && okURLs(ref.toks))
	g.b = append(g.b, '}')
	src := g.b
	sym.Observe(string(src))
	fset := gotoken.NewFileSet()
	base := 1
	if pos {
		fset.AddFile("other.bib", -1, 10)
		base = fset.Base()
	}
	f, err := parser.ParseFile(fset, fileName, src, parser.ParseStrings)
	sym.Observe(errText(err))
	sym.Assert(err == nil, "a well-formed string parses without error")
	var x ast.Expr
	sym.Assert(len(f.Entries) == 1, "one declaration")
	switch d := f.Entries[0].(type) {
	case *ast.BibDecl:
		sym.Assert(len(d.Tags) == 1, "one field")
		x = d.Tags[0].Value
	case *ast.AbbrevDecl:
		x = d.Tag.Value
	case *ast.PreambleDecl:
		x = d.Text
	}
	n, ok := x.(*ast.ParsedText)
	sym.Assert(ok && n.Depth == 0, "a string is a parsed text of depth 0")
	sym.Assert(n.Delim == ast.QuoteDelimiter == (q == '"'), "a string has its delimiter")
	c := &treeCheck{toks: ref.toks, base: base, pos: pos}
	cl := c.group(n.Values, 0, q == '"')
	sym.Assert(c.i == len(ref.toks), "nothing is dropped")
	c.at(n.Opener, start, "the opener of a string is its delimiter")
	c.at(n.Closer, cl, "the closer of a string is its delimiter")
	sym.Reach("tree")
}

func anyQuote() byte {
	if sym.Choice(2) == 1 {
		return '"'
	}
	return '{'
}

// C10: string trees.

var _ = reg("C10", "Tree", C10Tree, "a quoted or braced string of p[0] arbitrary ASCII bytes that is well-formed, in a field, an abbreviation or a preamble", ps(0, 4), ps(5, 5), "tree")

// C10Tree compares with the reference tokens.
func C10Tree(p []int) { stringTree(sym.ASCIIs(p[0]), anyQuote(), sym.Choice(3), false) }

var _ = reg("C10", "TreeText", C10TreeText, "a quoted or braced field of p[0] bytes out of \\ c o { } $ \" ' , ~ space 7 newline", ps(4, 5), ps(6, 7), "tree")

// C10TreeText: longer strings over the character classes.
func C10TreeText(p []int) {
	b := make([]byte, p[0])
	for i := range b {
		b[i] = strByte()
	}
	stringTree(b, anyQuote(), 0, false)
}

var _ = reg("C10", "TreePieces", C10TreePieces, "a quoted or braced field of p[0] pieces out of text, Latin letters, space, comma, tie, math, escape, bare, braced and spaced accent, macro, url macro, group and nested groups with arbitrary characters", ps(1, 3), ps(4, 4), "tree")

// C10TreePieces: strings of several pieces.
func C10TreePieces(p []int) { stringTree(pieces(p[0]), anyQuote(), 0, false) }

const numPieces = 14

// pieces is n pieces of a string.
func pieces(n int) (b []byte) {
	for i := 0; i < n; i++ {
		b = piece(b, sym.Choice(numPieces))
	}
	return b
}

func piece(b []byte, k int) []byte {
	accent := func() byte {
		c := sym.ASCII()
		sym.Assume(c == '\'' || c == '`' || c == '^' || c == '"' || c == '~' || c == '.')
		return c
	}
	switch k {
	case 0:
		return append(b, plainByte(), plainByte())
	case 1:
		return append(b, ' ', '\n')
	case 2:
		return append(b, ',')
	case 3:
		return append(b, '~')
	case 4:
		return append(b, '$', plainByte(), ' ', '$')
	case 5:
		c := sym.ASCII()
		sym.Assume(c == '\\' || c == '$' || c == '&' || c == '%' || c == '{' || c == '}' || c == '_')
		return append(b, '\\', c)
	case 6:
		return append(b, '\\', accent(), letter())
	case 7:
		return append(b, '\\', accent(), '{', letter(), '}')
	case 8:
		return append(b, '\\', 'c', ' ', letter())
	case 9:
		return append(b, '\\', 'e', letter())
	case 10:
		b = append(b, `\url{`...)
		b = append(b, plainByte(), '~', ',', plainByte())
		return append(b, '}')
	case 11:
		return append(b, '{', plainByte(), '"', '}')
	case 12:
		c := sym.Byte()
		sym.Assume(c >= 0x80 && c < 0xC0)
		return append(b, 0xC3, c, 'x')
	default:
		return append(b, '{', '{', plainByte(), '}', ',', '{', '}', '}')
	}
}

// C14: positions.

var _ = reg("C14", "TreePos", C14TreePos, "a quoted or braced string of p[0] arbitrary ASCII bytes that is well-formed, in a field, abbreviation or preamble of the second file of a set", ps(0, 3), ps(4, 4), "tree")

// C14TreePos: positions of the pieces of arbitrary strings.
func C14TreePos(p []int) { stringTree(sym.ASCIIs(p[0]), anyQuote(), sym.Choice(3), true) }

var _ = reg("C14", "PiecesPos", C14PiecesPos, "a quoted or braced field of p[0] pieces out of text, Latin letters, space, comma, tie, math, escape, bare, braced and spaced accent, macro, url macro, group and nested groups with arbitrary characters", ps(1, 3), ps(4, 4), "tree")

// C14PiecesPos: positions in strings of several pieces.
func C14PiecesPos(p []int) { stringTree(pieces(p[0]), anyQuote(), 0, true) }

var _ = reg("C14", "DeclPos", C14DeclPos, "p[0] declarations of any kind with names of p[1] characters and values that are concatenations of p[2] operands of p[3] characters, of every kind; the second file of a set, or a file that starts with a byte order mark; nothing, a space or a comment between tokens", [][]int{{1, 1, 1, 1}, {1, 2, 2, 1}, {2, 1, 1, 1}}, [][]int{{2, 1, 2, 1}, {1, 1, 3, 2}, {1, 4, 1, 4}}, "parsed")

// C14DeclPos: positions of declarations and values.
func C14DeclPos(p []int) {
	g := newGen()
	bom := sym.Choice(2)
	if bom == 1 {
		g.b = append(g.b, 0xEF, 0xBB, 0xBF)
	}
	g.layout(sym.Choice(3))
	kinds := make([]token.Token, p[2])
	for i := range kinds {
		kinds[i] = valKinds[sym.Choice(numKinds)]
	}
	var ds []*decl
	for i := 0; i < p[0]; i++ {
		d := &decl{paren: i == 1}
		value := func() *val { return g.concat(kinds, p[3]) }
		switch sym.Choice(3) {
		case 0:
			d.kind, d.typ = token.BibEntry, symLetters(1)
			d.off = g.tok("@" + d.typ)
			g.open(d)
			k := symName(p[1])
			d.keys = append(d.keys, key{k, g.tok(k)})
			g.tok(",")
			d.keys = append(d.keys, key{"x", g.tok("x")})
			g.tok(",")
			g.field(d, symField(p[1]), value)
			g.tok(",")
			g.field(d, "y", value)
		case 1:
			d.kind = token.Abbrev
			d.off = g.tok("@string")
			g.open(d)
			g.field(d, symField(p[1]), value)
		case 2:
			d.kind = token.Preamble
			d.off = g.tok("@preamble")
			g.open(d)
			d.pre = value()
		}
		g.close(d)
		ds = append(ds, d)
	}
	mode := strMode()
	sym.Observe(string(g.b))
	fset := gotoken.NewFileSet()
	if bom == 0 {
		fset.AddFile("other.bib", -1, 5)
	}
	base := fset.Base()
	f, err := parser.ParseFile(fset, fileName, g.b, mode)
	checkFileAt(f, err, ds, mode, base)
	sym.Reach("parsed")
}
