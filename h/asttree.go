package h

import (
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/token"
	"verif/sym"
)

// Generation of syntax trees.

// astGen builds arbitrary trees of a limited number of nodes.
type astGen struct {
	left  int // nodes that may still be built
	chars int // characters of a leaf
	// bad allows leaves that no string contains
	bad bool
	// conc allows concatenations
	conc bool
	// tame letters only under accents
	tame bool
	// flat makes every accent the same
	flat bool
	// alike makes all leaves of a large tree the same
	alike bool
	// letters makes texts of small letters
	letters bool
	// few restricts the kinds of leaves
	few []int
}

func (g *astGen) text() string {
	if g.letters {
		b := make([]byte, g.chars)
		for i := range b {
			b[i] = smallLetter()
		}
		return string(b)
	}
	return string(sym.Bytes(g.chars))
}

const numLeaves = 8

func (g *astGen) leaf(k int) ast.Expr {
	switch k {
	case 0:
		return &ast.Text{Value: g.text()}
	case 1:
		return &ast.TextSpace{Value: g.spaceValue()}
	case 2:
		return &ast.TextComma{}
	case 3:
		return &ast.TextNBSP{}
	case 4:
		return &ast.TextMath{Value: g.text()}
	case 5:
		return &ast.TextEscaped{Value: string([]byte{sym.ASCII()})}
	case 6:
		return &ast.TextHyphen{}
	case 7:
		return g.accent()
	}
	switch k - numLeaves {
	case 0:
		return &ast.Ident{Name: "x"}
	case 1:
		return &ast.Number{Value: "1"}
	case 2:
		return &ast.UnparsedText{Type: token.String, Value: "u"}
	}
	return &ast.BadExpr{}
}

const numBadLeaves = 4

// spaceValue is a value of a space; the parser leaves it empty.
func (g *astGen) spaceValue() string {
	if g.few != nil {
		return ""
	}
	return []string{"", " ", "\n\t"}[sym.Choice(3)]
}

func (g *astGen) accent() ast.Expr {
	a := &ast.TextAccent{Accent: token.AccentAcute}
	if g.few == nil && sym.Choice(2) == 1 {
		a.Accent = token.AccentCedilla
	}
	if g.flat {
		a.Text = &ast.Text{Value: "e"}
		return a
	}
	c := sym.ASCII()
	if g.tame {
		sym.Assume(supported(rune(a.Accent), c))
	} else {
		sym.Assume(c == 'c' || c == 'e' || c == 'b' || c == '1')
	}
	a.Text = &ast.Text{Value: string([]byte{c})}
	return a
}

// values is any list of pieces.
func (g *astGen) values(depth int) (r []ast.Expr) {
	for g.left > 0 {
		l := numLeaves
		if g.few != nil {
			l = len(g.few)
		}
		n := l + 2
		if g.conc {
			n++
		}
		m := n
		if g.bad {
			m += numBadLeaves
		}
		k := sym.Choice(m + 1)
		if k == m {
			break
		}
		g.left--
		switch {
		case k < l && g.few != nil:
			r = append(r, g.leaf(g.few[k]))
		case k < l:
			r = append(r, g.leaf(k))
		case k == l:
			r = append(r, &ast.ParsedText{Depth: depth, Delim: ast.BraceDelimiter, Values: g.values(depth + 1)})
		case k == l+1:
			r = append(r, &ast.TextMacro{Name: g.text(), Values: g.values(depth)})
		case k < n:
			x := g.one(depth)
			r = append(r, &ast.ConcatExpr{X: x, Y: g.one(depth)})
		default:
			r = append(r, g.leaf(k-n+numLeaves))
		}
	}
	return r
}

// one is a single piece.
func (g *astGen) one(depth int) ast.Expr {
	if g.left == 0 {
		return &ast.Text{Value: "z"}
	}
	g.left--
	switch sym.Choice(3) {
	case 0:
		return &ast.Text{Value: g.text()}
	case 1:
		return &ast.ParsedText{Depth: depth, Delim: ast.QuoteDelimiter, Values: g.values(depth + 1)}
	}
	x := g.one(depth)
	return &ast.ConcatExpr{X: x, Y: g.one(depth)}
}

// str is a string with any pieces.
func (g *astGen) str() *ast.ParsedText {
	t := &ast.ParsedText{Delim: ast.BraceDelimiter}
	if sym.Choice(2) == 1 {
		t.Delim = ast.QuoteDelimiter
	}
	t.Values = g.values(1)
	return t
}
