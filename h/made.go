package h

import (
	"bytes"
	gotoken "go/token"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"verif/sym"
)

// C35: nodes made by hand.

var _ = reg("C35", "Made", C35Made, "a node of any type made by hand at arbitrary 64-bit positions with values of p[0] arbitrary bytes and up to p[1] children", [][]int{{0, 1}, {2, 2}}, [][]int{{8, 3}, {1, 6}}, "simple", "placed", "children", "nothing")

// C35Made: the extents of nodes made by hand.
func C35Made(p []int) {
	at := func() gotoken.Pos { return gotoken.Pos(sym.Any64()) }
	is := func(n ast.Node, from, to gotoken.Pos) {
		sym.Assert(n.Pos() == from, "a node begins where it was placed")
		sym.Assert(n.End() == to, "a node ends after its last character")
	}
	x, y := at(), at()
	s := string(sym.Bytes(p[0]))
	l := gotoken.Pos(len(s))
	leaf := &ast.Text{ValuePos: y, Value: s}
	kids := []ast.Expr{}
	n := 1 + sym.Choice(p[1])
	for i := 0; i < n; i++ {
		kids = append(kids, &ast.Text{ValuePos: x + gotoken.Pos(i), Value: "a"})
	}
	first, last := x, x+gotoken.Pos(n)
	switch sym.Choice(27) {
	case 0:
		is(&ast.TexComment{Start: x, Text: s}, x, x+l)
	case 1:
		is(&ast.Ident{NamePos: x, Name: s}, x, x+l)
	case 2:
		is(&ast.Number{ValuePos: x, Value: s}, x, x+l)
	case 3:
		is(&ast.UnparsedText{ValuePos: x, Value: s}, x, x+l+2)
	case 4:
		is(&ast.Text{ValuePos: x, Value: s}, x, x+l)
	case 5:
		is(&ast.TextComma{ValuePos: x}, x, x+1)
	case 6:
		is(&ast.TextEscaped{ValuePos: x, Value: s}, x, x+1+l)
	case 7:
		is(&ast.TextHyphen{ValuePos: x}, x, x+1)
	case 8:
		is(&ast.TextMath{ValuePos: x, Value: s}, x, x+l+2)
	case 9:
		is(&ast.TextNBSP{ValuePos: x}, x, x+1)
	case 10:
		is(&ast.TextSpace{ValuePos: x, Value: s}, x, x+l)
	case 11:
		is(&ast.TextAccent{ValuePos: x, Text: leaf}, x, y+l)
	case 12:
		is(&ast.ConcatExpr{X: leaf, OpPos: at(), Y: kids[0]}, y, x+1)
		is(&ast.ConcatExpr{X: kids[0], OpPos: at(), Y: leaf}, x, y+l)
	case 13:
		is(&ast.TagStmt{NamePos: x, Name: s, RawName: s, Value: leaf}, x, y+l)
	case 14:
		is(&ast.BadExpr{From: x, To: y}, x, y)
		sym.Reach("placed")
		return
	case 15:
		is(&ast.BadStmt{From: x, To: y}, x, y)
		sym.Reach("placed")
		return
	case 16:
		is(&ast.BadDecl{From: x, To: y}, x, y)
		sym.Reach("placed")
		return
	case 17:
		is(&ast.Author{From: x, To: y, Last: leaf}, x, y)
		sym.Reach("placed")
		return
	case 18:
		is(&ast.AbbrevDecl{Entry: x, RBrace: y, Tag: &ast.TagStmt{NamePos: at(), Name: s, Value: leaf}}, x, y+1)
		sym.Reach("placed")
		return
	case 19:
		is(&ast.BibDecl{Type: s, Entry: x, RBrace: y}, x, y+1)
		sym.Reach("placed")
		return
	case 20:
		is(&ast.PreambleDecl{Entry: x, RBrace: y, Text: leaf}, x, y+1)
		sym.Reach("placed")
		return
	case 21:
		var as ast.Authors
		for range kids {
			as = append(as, &ast.Author{From: at(), To: at()})
		}
		is(as, as[0].From, as[n-1].To)
		sym.Reach("children")
		return
	case 22:
		var cs []*ast.TexComment
		for range kids {
			cs = append(cs, &ast.TexComment{Start: at(), Text: s})
		}
		is(&ast.TexCommentGroup{List: cs}, cs[0].Start, cs[n-1].Start+l)
		sym.Reach("children")
		return
	case 23:
		// A macro ends with its brace, its last argument or its name.
		b := at()
		m := &ast.TextMacro{Cmd: y, Name: s, Values: kids, RBrace: b}
		if b != gotoken.NoPos {
			is(m, y, b+1)
		} else {
			is(m, y, last)
		}
		if m = (&ast.TextMacro{Cmd: y, Name: s}); true {
			is(m, y, y+1+l)
		}
		sym.Reach("children")
		return
	case 24:
		f := &ast.File{Name: s}
		for range kids {
			f.Entries = append(f.Entries, &ast.BadDecl{From: at(), To: at()})
		}
		is(f, 1, f.Entries[n-1].(*ast.BadDecl).To)
		sym.Reach("children")
		return
	case 25:
		is(ast.Authors{}, gotoken.NoPos, gotoken.NoPos)
		is(ast.Authors(nil), gotoken.NoPos, gotoken.NoPos)
		is(&ast.Package{}, gotoken.NoPos, gotoken.NoPos)
		is(&ast.File{}, 1, 1)
		sym.Reach("nothing")
		return
	case 26:
		sym.Assert(kids[0].Pos() == first && kids[n-1].End() == last, "children keep their places")
		c := &ast.ConcatExpr{X: kids[0], Y: leaf}
		for i := 0; i < n; i++ {
			c = &ast.ConcatExpr{X: kids[0], Y: c}
		}
		is(c, x, y+l)
		sym.Reach("children")
		return
	}
	sym.Reach("simple")
}

// C34: where objects are declared.

var _ = reg("C34", "Declared", C34Declared, "an object with a name of p[0] arbitrary bytes declared by an entry with a key of p[0] arbitrary bytes at an arbitrary position, an entry without key, a scope, an abbreviation or nothing", ps(0, 2), ps(3, 6), "declared", "elsewhere")

// C34Declared: positions and kinds of objects.
func C34Declared(p []int) {
	kinds := []ast.ObjKind{ast.Bad, ast.Entry, ast.Abbrev}
	for i, a := range kinds {
		for j, b := range kinds {
			sym.Assert((a == b) == (i == j) && (a.String() == b.String()) == (i == j), "kinds of objects are distinct")
		}
		sym.Assert(a.String() != "", "kinds of objects have names")
	}
	k := kinds[sym.Choice(len(kinds))]
	name := string(sym.Bytes(p[0]))
	o := ast.NewObj(k, name)
	sym.Assert(o.Kind == k && o.Name == name && o.Decl == nil, "an object has its name and kind")
	sym.Assert(o.Pos() == gotoken.NoPos, "an object without declaration has no position")
	at := gotoken.Pos(sym.Any64())
	switch sym.Choice(4) {
	case 0:
		key := string(sym.Bytes(p[0]))
		o.Decl = &ast.BibDecl{Entry: gotoken.Pos(sym.Any64()), Key: &ast.Ident{NamePos: at, Name: key}}
		if key == name {
			sym.Assert(o.Pos() == at, "an object is where its key is")
			sym.Reach("declared")
			return
		}
	case 1:
		o.Decl = &ast.BibDecl{Entry: at}
	case 2:
		o.Decl = ast.NewScope(nil)
	case 3:
		o.Decl = ast.NewScope(ast.NewScope(nil))
	}
	sym.Assert(o.Pos() == gotoken.NoPos, "an object declared by something else has no position")
	sym.Reach("elsewhere")
}

// C27: rendering of whole files.

var _ = reg("C27", "Files", C27Files, "a package of up to one file, or a file, of p[0] entries, abbreviations, preambles or bad declarations with up to p[1] fields each, a list of p[0] authors, or a bad expression or statement, each leaf of one arbitrary byte", [][]int{{1, 1}, {2, 1}, {1, 2}}, [][]int{{3, 1}, {2, 2}}, "rendered", "bad")

// C27Files: the default rendering of declarations, files and authors.
func C27Files(p []int) {
	var want []byte
	bad := false
	value := func() ast.Expr {
		c := sym.Byte()
		s := string([]byte{c})
		switch sym.Choice(4) {
		case 0:
			want = append(want, c)
			return &ast.Ident{Name: s}
		case 1:
			want = append(want, '{', c, '}')
			return &ast.ParsedText{Delim: ast.BraceDelimiter, Values: []ast.Expr{&ast.Text{Value: s}}}
		case 2:
			want = append(want, c, '$', 'm', '$')
			return &ast.ConcatExpr{X: &ast.Text{Value: s}, Y: &ast.TextMath{Value: "m"}}
		}
		want = append(want, c, ',')
		return &ast.TextMacro{Name: "m", Values: []ast.Expr{&ast.Text{Value: s}, &ast.TextComma{}}}
	}
	file := func() *ast.File {
		f := &ast.File{Name: "f"}
		for i := 0; i < p[0]; i++ {
			switch sym.Choice(3) {
			case 0:
				d := &ast.BibDecl{Type: "t", Key: &ast.Ident{Name: "k"}}
				for j := sym.Choice(p[1] + 1); j > 0; j-- {
					d.Tags = append(d.Tags, &ast.TagStmt{Name: "n", RawName: "N", Value: value()})
				}
				f.Entries = append(f.Entries, d)
			case 1:
				f.Entries = append(f.Entries, &ast.AbbrevDecl{Tag: &ast.TagStmt{Name: "n", RawName: "N", Value: value()}})
			case 2:
				f.Entries = append(f.Entries, &ast.PreambleDecl{Text: value()})
			}
		}
		return f
	}
	var n ast.Node
	switch sym.Choice(6) {
	case 0:
		n = file()
	case 1:
		n = &ast.Package{Files: map[string]*ast.File{"f": file()}}
	case 2:
		n = &ast.Package{}
	case 3:
		var as ast.Authors
		for i := 0; i < p[0]; i++ {
			// The parts of a name are visited in this order.
			a := &ast.Author{}
			if sym.Choice(2) == 1 {
				a.First = value()
			}
			if sym.Choice(2) == 1 {
				a.Prefix = &ast.Text{}
			}
			a.Last = value()
			if sym.Choice(2) == 1 {
				a.Suffix = &ast.TextComma{}
				want = append(want, ',')
			}
			as = append(as, a)
		}
		n = as
		if p[0] == 1 && sym.Choice(2) == 1 {
			n = as[0]
		}
	case 4:
		n, bad = &ast.BadExpr{}, true
	case 5:
		n, bad = &ast.BadStmt{}, true
	}
	var w bytes.Buffer
	err := bibtex.New().Render(&w, n)
	if bad {
		sym.Assert(err != nil, "what is bad cannot be rendered")
		sym.Assert(w.Len() == 0, "nothing is written for it")
		sym.Reach("bad")
		return
	}
	sym.Assert(err == nil, "files and authors render")
	sym.Assert(w.String() == string(want), "the values are rendered in order")
	sym.Reach("rendered")
}
