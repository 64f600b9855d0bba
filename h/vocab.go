package h

import (
	"strconv"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/token"
	"verif/sym"
)

// C32: vocabularies.

const (
	noClass = iota
	literal
	stringLiteral
	operator
	command
)

// definedTokens lists the tokens by their documented groups.
var definedTokens = []struct {
	t     token.Token
	class int
}{
	{token.Illegal, noClass}, {token.EOF, noClass}, {token.TexComment, noClass},
	{token.Abbrev, command}, {token.Comment, command}, {token.Preamble, command}, {token.BibEntry, command},
	{token.Ident, literal}, {token.String, literal}, {token.BraceString, literal}, {token.Number, literal},
	{token.DoubleQuote, stringLiteral}, {token.StringLBrace, stringLiteral}, {token.StringRBrace, stringLiteral},
	{token.StringSpace, stringLiteral}, {token.StringNBSP, stringLiteral}, {token.StringContents, stringLiteral},
	{token.StringHyphen, stringLiteral}, {token.StringMath, stringLiteral}, {token.StringComma, stringLiteral},
	{token.StringBackslash, stringLiteral}, {token.StringAccent, stringLiteral}, {token.StringMacro, stringLiteral},
	{token.Assign, operator}, {token.LParen, operator}, {token.LBrace, operator}, {token.RParen, operator},
	{token.RBrace, operator}, {token.Concat, operator}, {token.Comma, operator},
}

func classCheck(t token.Token, class int) {
	sym.Assert(t.IsLiteral() == (class == literal), "a token is a literal if it is in that group")
	sym.Assert(t.IsStringLiteral() == (class == stringLiteral), "a token is a string literal if it is in that group")
	sym.Assert(t.IsOperator() == (class == operator), "a token is an operator if it is in that group")
	sym.Assert(t.IsCommand() == (class == command), "a token is a command if it is in that group")
}

var _ = reg("C32", "Classes", C32Classes, "every integer of 64 bits", ps(0, 0), nil, "defined", "undefined")

// C32Classes: classes of tokens.
func C32Classes(p []int) {
	t := token.Token(sym.Any64())
	for _, d := range definedTokens {
		if t == d.t {
			classCheck(d.t, d.class)
			sym.Reach("defined")
			return
		}
	}
	classCheck(t, noClass)
	sym.Reach("undefined")
}

var _ = reg("C32", "Names", C32Names, "every defined token; every other integer of p[0] decimal digits, and the smallest and largest of 64 bits", ps(1, 2), nil, "defined", "undefined")

// C32Names: names of tokens.
func C32Names(p []int) {
	var n int
	switch sym.Choice(4) {
	case 0:
		d := definedTokens[sym.Choice(len(definedTokens))]
		s := d.t.String()
		sym.Assert(s != "", "every token has a name")
		sym.Assert(s != "token("+strconv.Itoa(int(d.t))+")", "a defined token has a name of its own")
		for _, e := range definedTokens {
			sym.Assert((e.t.String() == s) == (e.t == d.t), "names of tokens are distinct")
		}
		sym.Reach("defined")
		return
	case 1:
		n = -1 << 63
	case 2:
		n = 1<<63 - 1
	default:
		// p[0] digits
		for i := 0; i < p[0]; i++ {
			n = n*10 + sym.Int(0, 9)
		}
		if sym.Bool() {
			n = -n
		}
	}
	for _, d := range definedTokens {
		sym.Assume(n != int(d.t))
	}
	s := token.Token(n).String()
	sym.Assert(s == "token("+strconv.Itoa(n)+")", "another token prints as a number")
	sym.Reach("undefined")
}

var allKinds = []ast.NodeKind{
	ast.KindTexComment, ast.KindTexCommentGroup, ast.KindBadExpr, ast.KindIdent, ast.KindNumber, ast.KindAuthors,
	ast.KindAuthor, ast.KindUnparsedText, ast.KindParsedText, ast.KindText, ast.KindTextComma, ast.KindTextEscaped,
	ast.KindTextHyphen, ast.KindTextMath, ast.KindTextNBSP, ast.KindTextSpace, ast.KindTextMacro, ast.KindConcatExpr,
	ast.KindBadStmt, ast.KindTagStmt, ast.KindBadDecl, ast.KindAbbrevDecl, ast.KindBibDecl, ast.KindPreambleDecl,
	ast.KindFile, ast.KindPackage,
}

var _ = reg("C32", "Kinds", C32Kinds, "every node type and every pair of kinds; the contents of texts are p[0] arbitrary bytes", ps(0, 1), nil, "kind", "names")

// C32Kinds: kinds of nodes.
func C32Kinds(p []int) {
	if sym.Choice(2) == 1 {
		i, j := sym.Choice(len(allKinds)), sym.Choice(len(allKinds))
		a, b := allKinds[i], allKinds[j]
		sym.Assert((a == b) == (i == j), "kinds are distinct")
		sym.Assert(a.String() != "", "kinds have names")
		sym.Assert((a.String() == b.String()) == (i == j), "names of kinds are distinct")
		sym.Reach("names")
		return
	}
	s := string(sym.Bytes(p[0]))
	nodes := []struct {
		n ast.Node
		k ast.NodeKind
	}{
		{&ast.TexComment{Text: s}, ast.KindTexComment},
		{&ast.TexCommentGroup{List: []*ast.TexComment{{Text: s}}}, ast.KindTexCommentGroup},
		{&ast.BadExpr{}, ast.KindBadExpr},
		{&ast.Ident{Name: s}, ast.KindIdent},
		{&ast.Number{Value: s}, ast.KindNumber},
		{ast.Authors{}, ast.KindAuthors},
		{&ast.Author{}, ast.KindAuthor},
		{&ast.UnparsedText{Value: s}, ast.KindUnparsedText},
		{&ast.ParsedText{}, ast.KindParsedText},
		{&ast.Text{Value: s}, ast.KindText},
		{&ast.TextComma{}, ast.KindTextComma},
		{&ast.TextEscaped{Value: s}, ast.KindTextEscaped},
		{&ast.TextHyphen{}, ast.KindTextHyphen},
		{&ast.TextMath{Value: s}, ast.KindTextMath},
		{&ast.TextNBSP{}, ast.KindTextNBSP},
		{&ast.TextSpace{Value: s}, ast.KindTextSpace},
		{&ast.TextMacro{Name: s}, ast.KindTextMacro},
		{&ast.ConcatExpr{}, ast.KindConcatExpr},
		{&ast.BadStmt{}, ast.KindBadStmt},
		{&ast.TagStmt{Name: s}, ast.KindTagStmt},
		{&ast.BadDecl{}, ast.KindBadDecl},
		{&ast.AbbrevDecl{}, ast.KindAbbrevDecl},
		{&ast.BibDecl{Type: s}, ast.KindBibDecl},
		{&ast.PreambleDecl{}, ast.KindPreambleDecl},
		{&ast.File{Name: s}, ast.KindFile},
		{&ast.Package{}, ast.KindPackage},
	}
	x := nodes[sym.Choice(len(nodes))]
	sym.Assert(x.n.Kind() == x.k, "a node has the kind of its type")
	sym.Reach("kind")
}

// C34: scopes.

var _ = reg("C34", "Scope", C34Scope, "all sequences of p[0] insertions and lookups of names of p[1] arbitrary bytes, in a scope inside another one that holds any of the names", [][]int{{1, 2}, {2, 2}, {3, 1}, {4, 0}, {4, 1}, {3, 2}, {5, 1}}, [][]int{{4, 2}, {6, 1}, {7, 1}}, "inserted", "present", "found", "absent")

type inserted struct {
	name string
	o    *ast.Object
}

// C34Scope: insertions and lookups.
func C34Scope(p []int) {
	outer := ast.NewScope(nil)
	first := string(sym.Bytes(p[1]))
	oo := ast.NewObj(ast.Abbrev, first)
	sym.Assert(outer.Insert(oo) == nil, "a free name can be inserted")
	s := ast.NewScope(outer)
	sym.Assert(s.Outer == outer, "a scope knows its outer scope")
	var in []inserted
	find := func(name string) *ast.Object {
		for _, i := range in {
			if i.name == name {
				return i.o
			}
		}
		return nil
	}
	for i := 0; i < p[0]; i++ {
		name := string(sym.Bytes(p[1]))
		sym.Observe(name)
		have := find(name)
		if sym.Choice(2) == 1 {
			got := s.Lookup(name)
			sym.Assert(got == have, "lookup finds the object first inserted, or nothing")
			if have != nil {
				sym.Reach("found")
			} else {
				sym.Reach("absent")
			}
			continue
		}
		o := ast.NewObj(ast.Entry, name)
		sym.Assert(o.Name == name && o.Kind == ast.Entry, "an object has its name and kind")
		alt := s.Insert(o)
		sym.Assert(alt == have, "inserting returns the object already there, or nothing")
		if have == nil {
			in = append(in, inserted{name, o})
			sym.Reach("inserted")
		} else {
			sym.Reach("present")
		}
		sym.Assert(len(s.Objects) == len(in), "a scope holds one object per name")
	}
	for _, i := range in {
		sym.Assert(s.Lookup(i.name) == i.o, "an object stays in its scope")
		sym.Assert(i.o.Name == i.name, "an object keeps its name")
	}
	sym.Assert(len(outer.Objects) == 1 && outer.Lookup(first) == oo, "the outer scope is not changed")
	sym.Assert(s.Outer == outer && outer.Outer == nil, "a scope keeps its outer scope")
}
