package h

import (
	"strconv"
	"strings"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/asts"
	"github.com/jschaf/bibtex/token"
	"verif/sym"
)

// C33: building trees.

func isBlank(c byte) bool {
	return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'
}

// strategy checks the node made from an ASCII string.
func strategy(x ast.Expr, s string, depth int) {
	blank := true
	for i := 0; i < len(s); i++ {
		blank = blank && isBlank(s[i])
	}
	n := len(s)
	switch {
	case blank:
		_, ok := x.(*ast.TextSpace)
		sym.Assert(ok, "white space is a space")
		sym.Reach("space")
	case n >= 2 && s[0] == '$' && s[n-1] == '$':
		m, ok := x.(*ast.TextMath)
		sym.Assert(ok && m.Value == s[1:n-1], "text between dollars is math")
		sym.Reach("math")
	case s == "~":
		_, ok := x.(*ast.TextNBSP)
		sym.Assert(ok, "a tie is a tie")
	case n >= 2 && s[0] == '{' && s[n-1] == '}':
		t, ok := x.(*ast.ParsedText)
		sym.Assert(ok && t.Delim == ast.BraceDelimiter && t.Depth == depth+1, "text between braces is a group")
		parts := strings.Split(s[1:n-1], " ")
		sym.Assert(len(t.Values) == 2*len(parts)-1, "a group is split on spaces")
		for i, v := range t.Values {
			if i%2 == 1 {
				_, ok := v.(*ast.TextSpace)
				sym.Assert(ok, "a group is split on spaces")
				continue
			}
			strategy(v, parts[i/2], depth+1)
		}
		sym.Reach("group")
	case s == ",":
		_, ok := x.(*ast.TextComma)
		sym.Assert(ok, "a comma is a comma")
	case n >= 2 && s[0] == '\\' && isAlpha(s[1]):
		m, ok := x.(*ast.TextMacro)
		sym.Assert(ok && m.Name == s[1:] && len(m.Values) == 0, "a backslash with a letter is a macro")
		sym.Reach("macro")
	default:
		t, ok := x.(*ast.Text)
		sym.Assert(ok && t.Value == s, "anything else is plain text")
		sym.Reach("text")
	}
}

var _ = reg("C33", "Strategy", C33Strategy, "all strings of p[0] ASCII characters", ps(0, 6), ps(7, 8), "space", "math", "group", "macro", "text")

// C33Strategy: one string.
func C33Strategy(p []int) {
	s := string(sym.ASCIIs(p[0]))
	sym.Observe(s)
	x := asts.ParseStringExpr(0, s)
	sym.Observe(dumpExpr(x))
	strategy(x, s, 0)
}

var _ = reg("C33", "Group", C33Group, "p[0] ASCII characters between braces", ps(0, 5), ps(6, 7), "group")

// C33Group: groups.
func C33Group(p []int) {
	s := "{" + string(sym.ASCIIs(p[0])) + "}"
	strategy(asts.ParseStringExpr(0, s), s, 0)
	y := asts.ParseAny(s)
	strategy(y, s, 0)
	z := asts.ParseAny(&ast.Text{Value: s})
	t, ok := z.(*ast.Text)
	sym.Assert(ok && t.Value == s, "an expression is taken as it is")
}

var _ = reg("C33", "Lists", C33Lists, "the helpers for strings, macros, keys, fields and types with p[0] arguments of p[1] ASCII characters", [][]int{{0, 1}, {1, 1}, {2, 1}, {3, 0}, {3, 1}}, [][]int{{2, 2}, {4, 1}}, "list")

// C33Lists: argument lists.
func C33Lists(p []int) {
	var ss []string
	var as []any
	for i := 0; i < p[0]; i++ {
		s := string(sym.ASCIIs(p[1]))
		ss = append(ss, s)
		if sym.Choice(2) == 1 {
			as = append(as, s)
		} else {
			as = append(as, &ast.Ident{Name: s})
		}
	}
	anyCheck := func(x ast.Expr, a any) {
		if s, ok := a.(string); ok {
			strategy(x, s, 0)
			return
		}
		sym.Assert(x == a.(*ast.Ident), "expressions are stored as they are")
	}
	sym.Reach("list")
	switch sym.Choice(7) {
	case 0:
		t := asts.QuotedText(0, ss...)
		sym.Assert(t.Delim == ast.QuoteDelimiter && t.Depth == 0 && len(t.Values) == len(ss), "a string has its pieces")
		for i, s := range ss {
			strategy(t.Values[i], s, 0)
		}
	case 1:
		t := asts.BraceText(0, as...)
		sym.Assert(t.Delim == ast.BraceDelimiter && t.Depth == 0 && len(t.Values) == len(as), "a string has its pieces")
		for i, a := range as {
			anyCheck(t.Values[i], a)
		}
	case 2:
		m := asts.Macro("m", as...)
		sym.Assert(m.Name == "m" && len(m.Values) == len(as), "a macro has its parameters")
		for i, a := range as {
			anyCheck(m.Values[i], a)
		}
	case 3:
		o := asts.WithBibKeys(ss...)
		for k := 0; k < 2; k++ {
			d := &ast.BibDecl{}
			o(d)
			if len(ss) == 0 {
				sym.Assert(d.Key == nil && len(d.ExtraKeys) == 0, "keys are stored in order")
				continue
			}
			sym.Assert(d.Key != nil && d.Key.Name == ss[0] && len(d.ExtraKeys) == len(ss)-1, "keys are stored in order")
			for i, x := range d.ExtraKeys {
				sym.Assert(x.Name == ss[i+1], "keys are stored in order")
			}
		}
	case 4:
		if len(ss) == 0 {
			return
		}
		var rest []any
		var vs []ast.Expr
		for i := range ss {
			v := &ast.Number{Value: strconv.Itoa(i)}
			vs = append(vs, v)
			if i > 0 {
				rest = append(rest, ss[i], v)
			}
		}
		o := asts.WithBibTags(ss[0], vs[0], rest...)
		for k := 0; k < 2; k++ {
			d := &ast.BibDecl{}
			o(d)
			sym.Assert(len(d.Tags) == len(ss), "fields are stored in order")
			for i, t := range d.Tags {
				sym.Assert(t.Name == ss[i] && t.RawName == ss[i] && t.Value == vs[i], "fields are stored in order")
			}
		}
	case 5:
		if len(ss) == 0 {
			return
		}
		d := &ast.BibDecl{}
		asts.WithBibType(ss[0])(d)
		sym.Assert(d.Type == ss[0] && d.Key == nil && len(d.Tags) == 0, "a type is stored")
	default:
		if len(ss) == 0 {
			return
		}
		s := ss[0]
		switch sym.Choice(8) {
		case 0:
			u := asts.UnparsedBraceText(s)
			sym.Assert(u.Type == token.BraceString && u.Value == s, "a leaf has its content")
		case 1:
			u, ok := asts.UnparsedText(s).(*ast.UnparsedText)
			sym.Assert(ok && u.Type == token.String && u.Value == s, "a leaf has its content")
		case 2:
			u, ok := asts.Ident(s).(*ast.Ident)
			sym.Assert(ok && u.Name == s, "a leaf has its content")
		case 3:
			sym.Assert(asts.Text(s).Value == s, "a leaf has its content")
		case 4:
			sym.Assert(asts.Math(s).Value == s, "a leaf has its content")
		case 5:
			a := asts.AccentedText(token.AccentGrave, s)
			sym.Assert(a.Accent == token.AccentGrave && a.Text.Value == s, "a leaf has its content")
		case 6:
			if len(s) == 0 {
				return
			}
			sym.Assert(asts.Escaped(rune(s[0])).Value == s[:1], "a leaf has its content")
		default:
			x, y := asts.Text(s), asts.Comma()
			c, ok := asts.Concat(x, y).(*ast.ConcatExpr)
			sym.Assert(ok && c.X == ast.Expr(x) && c.Y == ast.Expr(y), "a concatenation has its operands")
			t := asts.QuotedTextExpr(3, x, y)
			sym.Assert(t.Depth == 3 && t.Delim == ast.QuoteDelimiter && len(t.Values) == 2 && t.Values[0] == ast.Expr(x) && t.Values[1] == ast.Expr(y), "a string has its pieces")
			t = asts.BraceTextExpr(2, x, y)
			sym.Assert(t.Depth == 2 && t.Delim == ast.BraceDelimiter && len(t.Values) == 2 && t.Values[0] == ast.Expr(x) && t.Values[1] == ast.Expr(y), "a string has its pieces")
		}
	}
}

// printGen builds trees whose leaves have names of their own.
type printGen struct {
	left, n int
	leaves  []string // in order
}

func (g *printGen) name() string {
	g.n++
	return "n" + strconv.Itoa(g.n)
}

func (g *printGen) leaf(s string) string {
	g.leaves = append(g.leaves, s)
	return s
}

func (g *printGen) expr(depth int) ast.Expr {
	if g.left == 0 {
		return &ast.Ident{Name: g.leaf(g.name())}
	}
	g.left--
	switch sym.Choice(15) {
	case 0:
		return &ast.Ident{Name: g.leaf(g.name())}
	case 1:
		return &ast.Number{Value: g.leaf(g.name())}
	case 2:
		return &ast.UnparsedText{Type: token.String, Value: g.leaf(g.name())}
	case 3:
		return &ast.UnparsedText{Type: token.BraceString, Value: g.leaf(g.name())}
	case 4:
		g.leaf("<space>")
		return &ast.TextSpace{}
	case 5:
		g.leaf("<NBSP>")
		return &ast.TextNBSP{}
	case 6:
		g.leaf("<hyphen>")
		return &ast.TextHyphen{}
	case 7:
		g.leaf("<comma>")
		return &ast.TextComma{}
	case 8:
		return &ast.TextMath{Value: g.leaf(g.name())}
	case 9:
		return &ast.TextEscaped{Value: g.leaf(g.name())}
	case 10:
		return &ast.Text{Value: g.leaf(g.name())}
	case 11:
		return &ast.TextAccent{Accent: token.AccentGrave, Text: &ast.Text{Value: g.leaf(g.name())}}
	case 12:
		x := g.expr(depth)
		return &ast.ConcatExpr{X: x, Y: g.expr(depth)}
	case 13:
		m := &ast.TextMacro{Name: g.leaf(g.name())}
		for g.left > 0 && sym.Choice(2) == 1 {
			m.Values = append(m.Values, g.expr(depth))
		}
		if len(m.Values) == 0 && sym.Choice(2) == 1 {
			m.RBrace = 7
		}
		return m
	default:
		t := &ast.ParsedText{Depth: depth, Delim: ast.BraceDelimiter}
		if sym.Choice(2) == 1 {
			t.Delim = ast.QuoteDelimiter
		}
		for g.left > 0 && sym.Choice(2) == 1 {
			t.Values = append(t.Values, g.expr(depth+1))
		}
		return t
	}
}

var _ = reg("C33", "Print", C33Print, "all trees of up to p[0] nodes of every kind of expression", ps(0, 4), ps(5, 5), "printed")

// C33Print: debug printing.
func C33Print(p []int) {
	g := &printGen{left: p[0]}
	x := g.expr(0)
	s := asts.ExprString(x)
	sym.Observe(s)
	at := 0
	for _, l := range g.leaves {
		i := strings.Index(s[at:], l)
		sym.Assert(i >= 0, "printing mentions every leaf in order")
		at += i + len(l)
	}
	open := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			open++
		case ')':
			open--
		}
		sym.Assert(open >= 0, "printing closes what it opens")
	}
	sym.Assert(open == 0, "printing closes what it opens")
	sym.Reach("printed")
}
