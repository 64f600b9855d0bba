package h

import (
	"strconv"
	"strings"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/token"
)

// dumper writes a tree as text, so that two trees are equal exactly when
// their texts are. With pos it includes positions relative to base.
type dumper struct {
	sb   strings.Builder
	pos  bool
	base int
	doc  bool
}

func (d *dumper) p(p int) {
	if d.pos {
		d.sb.WriteByte('@')
		if p == 0 { // no position
			return
		}
		d.sb.WriteString(strconv.Itoa(p - d.base))
	}
}

// s writes a string with its length, so that contents cannot be confused.
func (d *dumper) s(s string) {
	d.sb.WriteString(strconv.Itoa(len(s)))
	d.sb.WriteByte(':')
	d.sb.WriteString(s)
}

func (d *dumper) comments(g *ast.TexCommentGroup) {
	if g == nil {
		d.sb.WriteString("-")
		return
	}
	for _, c := range g.List {
		d.p(int(c.Start))
		d.s(c.Text)
	}
}

func (d *dumper) exprs(xs []ast.Expr) {
	d.sb.WriteByte('[')
	for _, x := range xs {
		d.expr(x)
	}
	d.sb.WriteByte(']')
}

func (d *dumper) expr(x ast.Expr) {
	if x == nil {
		d.sb.WriteString("nil")
		return
	}
	d.p(int(x.Pos()))
	switch x := x.(type) {
	case *ast.BadExpr:
		d.sb.WriteString("bad")
		d.p(int(x.To))
	case *ast.Ident:
		d.sb.WriteString("id")
		d.s(x.Name)
	case *ast.Number:
		d.sb.WriteString("nr")
		d.s(x.Value)
	case *ast.UnparsedText:
		if x.Type == token.String {
			d.sb.WriteString("q")
		} else {
			d.sb.WriteString("b")
		}
		d.s(x.Value)
	case *ast.ParsedText:
		d.sb.WriteString("p")
		d.sb.WriteString(strconv.Itoa(x.Depth))
		d.sb.WriteString(x.Delim.String())
		d.p(int(x.Closer))
		d.exprs(x.Values)
	case *ast.Text:
		d.sb.WriteString("t")
		d.s(x.Value)
	case *ast.TextAccent:
		d.sb.WriteString("acc")
		d.s(string(rune(x.Accent)))
		d.expr(x.Text)
	case *ast.TextComma:
		d.sb.WriteString("comma")
	case *ast.TextEscaped:
		d.sb.WriteString("esc")
		d.s(x.Value)
	case *ast.TextHyphen:
		d.sb.WriteString("hy")
	case *ast.TextMath:
		d.sb.WriteString("math")
		d.s(x.Value)
	case *ast.TextNBSP:
		d.sb.WriteString("tie")
	case *ast.TextSpace:
		d.sb.WriteString("sp")
		d.s(x.Value)
	case *ast.TextMacro:
		d.sb.WriteString("mac")
		d.s(x.Name)
		d.p(int(x.RBrace))
		d.exprs(x.Values)
	case *ast.ConcatExpr:
		d.sb.WriteString("cat")
		d.p(int(x.OpPos))
		d.expr(x.X)
		d.expr(x.Y)
	case ast.Authors:
		d.sb.WriteString("authors[")
		for _, a := range x {
			d.expr(a.First)
			d.expr(a.Prefix)
			d.expr(a.Last)
			d.expr(a.Suffix)
			d.sb.WriteByte(';')
		}
		d.sb.WriteByte(']')
	default:
		d.sb.WriteString("?")
	}
}

func (d *dumper) tag(t *ast.TagStmt) {
	if t == nil {
		d.sb.WriteString("notag")
		return
	}
	d.p(int(t.NamePos))
	if d.doc {
		d.comments(t.Doc)
	}
	d.s(t.Name)
	d.s(t.RawName)
	d.expr(t.Value)
}

func (d *dumper) decl(x ast.Decl) {
	d.p(int(x.Pos()))
	switch x := x.(type) {
	case *ast.BadDecl:
		d.sb.WriteString("baddecl")
		d.p(int(x.To))
	case *ast.AbbrevDecl:
		d.sb.WriteString("abbrev")
		if d.doc {
			d.comments(x.Doc)
		}
		d.tag(x.Tag)
		d.p(int(x.RBrace))
	case *ast.PreambleDecl:
		d.sb.WriteString("preamble")
		if d.doc {
			d.comments(x.Doc)
		}
		d.expr(x.Text)
		d.p(int(x.RBrace))
	case *ast.BibDecl:
		d.sb.WriteString("entry")
		if d.doc {
			d.comments(x.Doc)
		}
		d.s(x.Type)
		d.p(int(x.RBrace))
		if x.Key != nil {
			d.expr(x.Key)
		}
		d.sb.WriteByte('+')
		for _, k := range x.ExtraKeys {
			d.expr(k)
		}
		for _, t := range x.Tags {
			d.sb.WriteByte(';')
			d.tag(t)
		}
	}
	d.sb.WriteByte('\n')
}

func (d *dumper) file(f *ast.File) {
	if d.doc {
		d.comments(f.Doc)
		for _, c := range f.Comments {
			d.sb.WriteByte('#')
			d.comments(c)
		}
	}
	for _, x := range f.Entries {
		d.decl(x)
	}
}

// dumpFile is everything in a file, with positions.
func dumpFile(f *ast.File, base int) string {
	d := &dumper{pos: true, base: base, doc: true}
	d.file(f)
	return d.sb.String()
}

// meaning is a file without positions and comments.
func meaning(f *ast.File) string {
	d := &dumper{}
	d.file(f)
	return d.sb.String()
}

func dumpExpr(x ast.Expr) string {
	d := &dumper{}
	d.expr(x)
	return d.sb.String()
}
