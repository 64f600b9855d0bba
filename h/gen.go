package h

import (
	gotoken "go/token"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/token"
	"verif/sym"
)

// Generation of well-formed sources together with what they mean.

// gen writes a source.
type gen struct {
	b  []byte
	ws func() // writes layout between two tokens
	// small makes texts of small letters, for large sources
	small func(n int) string
}

func newGen() *gen { return &gen{ws: func() {}} }

func (g *gen) off() int { return len(g.b) }

// tok writes layout and a token and returns the token's offset.
func (g *gen) tok(s string) int {
	g.ws()
	o := len(g.b)
	g.b = append(g.b, s...)
	return o
}

// nameByte is any character of a name.
func nameByte() byte {
	c := sym.ASCII()
	sym.Assume(isNameByte(c))
	return c
}

func letter() byte {
	c := sym.ASCII()
	sym.Assume(isAlpha(c))
	return c
}

func digit() byte {
	c := sym.ASCII()
	sym.Assume(isDigit(c))
	return c
}

// symName is n arbitrary name characters.
func symName(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = nameByte()
	}
	return string(b)
}

// symField is a name of n characters that begins with a letter.
func symField(n int) string {
	b := make([]byte, n)
	for i := range b {
		if i == 0 {
			b[i] = letter()
		} else {
			b[i] = nameByte()
		}
	}
	return string(b)
}

func symLetters(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = letter()
	}
	return string(b)
}

// plainByte is a character that is plain text in any string.
func plainByte() byte {
	c := sym.ASCII()
	sym.Assume(c != 0 && c != '"' && !stringSpecial(c, '"', 0))
	return c
}

func symPlain(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = plainByte()
	}
	return string(b)
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// val is a written value.
type val struct {
	kind token.Token // Ident, Number, String or BraceString
	text string
	off  int
	end  int // offset of the closing delimiter of a string
	op   int // offset of the following '#'
	next *val
	// tree checks the content of a parsed string, when it is not plain text
	tree func(*ast.ParsedText, int)
}

const numKinds = 4

var valKinds = []token.Token{token.Ident, token.Number, token.String, token.BraceString}

// value writes an operand of a kind with n characters of content.
func (g *gen) value(kind token.Token, n int) *val {
	v := &val{kind: kind}
	switch kind {
	case token.Ident:
		v.text = symName(max(n, 1))
		all := true
		for i := 0; i < len(v.text); i++ {
			if !isDigit(v.text[i]) {
				all = false
			}
		}
		sym.Assume(!all)
	case token.Number:
		b := make([]byte, max(n, 1))
		for i := range b {
			b[i] = digit()
		}
		v.text = string(b)
	default:
		v.text = symPlain(n)
	}
	g.write(v)
	return v
}

func (g *gen) write(v *val) {
	switch v.kind {
	case token.String:
		v.off = g.tok("\"" + v.text + "\"")
	case token.BraceString:
		v.off = g.tok("{" + v.text + "}")
	default:
		v.off = g.tok(v.text)
	}
	v.end = g.off() - 1
}

// concat writes the operands joined by '#'.
func (g *gen) concat(kinds []token.Token, n int) *val {
	v := g.value(kinds[0], n)
	if len(kinds) > 1 {
		v.op = g.tok("#")
		v.next = g.concat(kinds[1:], n)
	}
	return v
}

// check compares a value with its node; base is the file's base.
func (v *val) check(x ast.Expr, mode parser.Mode, base int) {
	if v.next != nil {
		c, ok := x.(*ast.ConcatExpr)
		sym.Assert(ok, "operands joined by # are a concatenation")
		sym.Assert(int(c.OpPos)-base == v.op, "the operator position is that of the #")
		sym.Assert(int(c.Pos())-base == v.off, "a concatenation is at its first operand")
		w := *v
		w.next = nil
		w.check(c.X, mode, base)
		v.next.check(c.Y, mode, base)
		return
	}
	sym.Assert(x != nil && int(x.Pos())-base == v.off, "a value is at its first character")
	switch v.kind {
	case token.Ident:
		id, ok := x.(*ast.Ident)
		sym.Assert(ok, "a name is an identifier")
		sym.Assert(id.Name == v.text, "the name is the written one")
	case token.Number:
		nr, ok := x.(*ast.Number)
		sym.Assert(ok, "digits are a number")
		sym.Assert(nr.Value == v.text, "the number is the written one")
	default:
		if mode&parser.ParseStrings == 0 {
			u, ok := x.(*ast.UnparsedText)
			sym.Assert(ok, "a string is unparsed text")
			sym.Assert(u.Type == v.kind, "the string has its delimiter kind")
			sym.Assert(u.Value == v.text, "the string has its content")
			return
		}
		t, ok := x.(*ast.ParsedText)
		sym.Assert(ok, "a string is parsed text")
		sym.Assert(t.Delim == ast.QuoteDelimiter == (v.kind == token.String), "the string has its delimiter")
		sym.Assert(t.Depth == 0, "the string has depth 0")
		sym.Assert(int(t.Opener)-base == v.off, "the opener is the delimiter")
		sym.Assert(int(t.Closer)-base == v.end, "the closer is the delimiter")
		if v.tree != nil {
			v.tree(t, base)
			return
		}
		if v.text == "" {
			sym.Assert(len(t.Values) == 0, "an empty string has no pieces")
			return
		}
		sym.Assert(len(t.Values) == 1, "plain text is one piece")
		p, ok := t.Values[0].(*ast.Text)
		sym.Assert(ok, "plain text is a text node")
		sym.Assert(p.Value == v.text, "the text is the written one")
		sym.Assert(int(p.ValuePos)-base == v.off+1, "the text follows the delimiter")
	}
}

type field struct {
	name string
	off  int
	v    *val
}

type key struct {
	name string
	off  int
}

// decl is a written declaration.
type decl struct {
	kind   token.Token // BibEntry, Abbrev or Preamble
	typ    string      // as written
	off    int
	paren  bool
	keys   []key
	fields []field
	pre    *val
	close  int
}

func (g *gen) open(d *decl) {
	if d.paren {
		g.tok("(")
	} else {
		g.tok("{")
	}
}

func (g *gen) close(d *decl) {
	if d.paren {
		d.close = g.tok(")")
	} else {
		d.close = g.tok("}")
	}
}

func (g *gen) field(d *decl, name string, value func() *val) {
	f := field{name: name}
	f.off = g.tok(name)
	g.tok("=")
	f.v = value()
	d.fields = append(d.fields, f)
}

// check compares a declaration with its node.
func (d *decl) check(x ast.Decl, mode parser.Mode, base int) {
	sym.Assert(x != nil && int(x.Pos())-base == d.off, "a declaration is at its @")
	switch d.kind {
	case token.Preamble:
		n, ok := x.(*ast.PreambleDecl)
		sym.Assert(ok, "a preamble is parsed as one")
		d.pre.check(n.Text, mode, base)
		sym.Assert(int(n.RBrace)-base == d.close, "the closing position is that of the delimiter")
	case token.Abbrev:
		n, ok := x.(*ast.AbbrevDecl)
		sym.Assert(ok, "an abbreviation is parsed as one")
		d.fields[0].check(n.Tag, mode, base)
		sym.Assert(int(n.RBrace)-base == d.close, "the closing position is that of the delimiter")
	default:
		n, ok := x.(*ast.BibDecl)
		sym.Assert(ok, "an entry is parsed as one")
		sym.Assert(n.Type == lower(d.typ), "the type is the written one in lower case")
		sym.Assert(int(n.RBrace)-base == d.close, "the closing position is that of the delimiter")
		if len(d.keys) == 0 {
			sym.Assert(n.Key == nil, "no key is written")
			sym.Assert(len(n.ExtraKeys) == 0, "no extra key is written")
		} else {
			sym.Assert(n.Key != nil, "the key is found")
			sym.Assert(n.Key.Name == d.keys[0].name, "the key is the first written one")
			sym.Assert(int(n.Key.NamePos)-base == d.keys[0].off, "the key is at its first character")
			sym.Assert(len(n.ExtraKeys) == len(d.keys)-1, "the other keys are extra keys")
			for i, k := range n.ExtraKeys {
				sym.Assert(k.Name == d.keys[i+1].name, "extra keys are the written ones")
				sym.Assert(int(k.NamePos)-base == d.keys[i+1].off, "an extra key is at its first character")
			}
		}
		sym.Assert(len(n.Tags) == len(d.fields), "every field is found once")
		for i, t := range n.Tags {
			d.fields[i].check(t, mode, base)
		}
	}
}

func (f *field) check(t *ast.TagStmt, mode parser.Mode, base int) {
	sym.Assert(t != nil, "the field is there")
	sym.Assert(t.RawName == f.name, "the raw name of a field is the written one")
	sym.Assert(t.Name == lower(f.name), "the name of a field is in lower case")
	sym.Assert(int(t.NamePos)-base == f.off && t.Pos() == t.NamePos, "a field is at its first character")
	f.v.check(t.Value, mode, base)
}

// checkFile compares all declarations.
func checkFile(f *ast.File, fset *gotoken.FileSet, err error, ds []*decl, mode parser.Mode) {
	checkFileAt(f, err, ds, mode, 1)
}

func checkFileAt(f *ast.File, err error, ds []*decl, mode parser.Mode, base int) {
	sym.Observe(errText(err))
	sym.Assert(err == nil, "a well-formed file parses without error")
	sym.Assert(len(f.Entries) == len(ds), "one declaration per written one")
	sym.Assert(f.Name == fileName, "the file has its name")
	for i, d := range ds {
		d.check(f.Entries[i], mode, base)
	}
}
