package h

import (
	"bytes"
	"errors"
	"io"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/render"
	"verif/sym"
)

// flatten is the text of a tree, and whether it can be rendered at all. An
// accent that need not be supported may be rendered or not.
type flatten struct {
	b   []byte
	bad bool
	may bool // may be an error
}

func (f *flatten) expr(x ast.Expr) {
	if f.bad {
		return
	}
	switch x := x.(type) {
	case *ast.ParsedText:
		for _, v := range x.Values {
			f.expr(v)
		}
	case *ast.TextMacro:
		for _, v := range x.Values {
			f.expr(v)
		}
	case *ast.Text:
		f.b = append(f.b, x.Value...)
	case *ast.TextSpace, *ast.TextNBSP:
		f.b = append(f.b, ' ')
	case *ast.TextComma:
		f.b = append(f.b, ',')
	case *ast.TextHyphen:
		f.b = append(f.b, '-')
	case *ast.TextEscaped:
		f.b = append(f.b, x.Value...)
	case *ast.TextMath:
		f.b = append(f.b, '$')
		f.b = append(f.b, x.Value...)
		f.b = append(f.b, '$')
	case *ast.TextAccent:
		r := rune(0)
		if len(x.Text.Value) == 1 {
			r = refCompose(rune(x.Accent), x.Text.Value[0])
		}
		if r == 0 {
			f.bad = true
			return
		}
		if !supported(rune(x.Accent), x.Text.Value[0]) {
			f.may = true
		}
		f.b = append(f.b, string(r)...)
	default:
		f.bad = true
	}
}

// C20: text rendering.

var _ = reg("C20", "Text", C20Text, "all string trees of up to p[0] nodes (text, space, comma, tie, math, escape, hyphen, accent, group, macro) with p[1] arbitrary bytes per leaf, in quotes or braces", [][]int{{1, 3}, {2, 2}, {3, 1}}, [][]int{{4, 1}, {5, 0}}, "ok")

// C20Text renders string trees.
func C20Text(p []int) {
	g := &astGen{left: p[0], chars: p[1]}
	textCheck(g.str())
}

var _ = reg("C20", "TextBad", C20TextBad, "all trees of up to p[0] nodes that may hold nodes no string contains (names, numbers, unparsed strings, faulty nodes), p[1] arbitrary bytes per leaf; also these nodes, authors and every leaf as root", [][]int{{1, 1}, {2, 1}, {3, 0}}, [][]int{{4, 0}}, "ok", "error")

// C20TextBad renders trees that cannot be rendered.
func C20TextBad(p []int) {
	g := &astGen{left: p[0], chars: p[1], bad: true}
	var x ast.Expr
	switch sym.Choice(4) {
	case 0:
		x = g.leaf(sym.Choice(numLeaves + numBadLeaves))
	case 1:
		x = ast.Authors{{First: &ast.Text{}, Last: &ast.Text{Value: "x"}, Prefix: &ast.Text{}, Suffix: &ast.Text{}}}
	case 2:
		x = &ast.TextMacro{Name: "m", Values: g.values(1)}
	default:
		x = g.str()
	}
	textCheck(x)
}

func textCheck(x ast.Expr) {
	sym.Observe(dumpExpr(x))
	f := &flatten{}
	f.expr(x)
	var w bytes.Buffer
	err := render.NewTextRenderer().Render(&w, x)
	sym.Observe(errText(err))
	if f.bad {
		sym.Assert(err != nil, "a node that cannot be rendered is an error")
		sym.Reach("error")
		return
	}
	if f.may && err != nil {
		return
	}
	sym.Assert(err == nil, "a string tree renders without error")
	sym.Assert(w.String() == string(f.b), "text rendering is the flattening of the tree")
	sym.Reach("ok")
}

// C22: write failures.

var errWrite = errors.New("write failure")

// sink fails at one of the writes.
type sink struct {
	out    []byte
	fail   int // fails at this write; never if negative
	err    error
	writes int
	failed bool
}

func (s *sink) Write(b []byte) (int, error) {
	sym.Assert(!s.failed, "nothing is written after a failure")
	s.writes++
	if s.writes-1 == s.fail {
		s.failed = true
		n := min(sym.Choice(2), len(b)) // some of it may be written
		s.out = append(s.out, b[:n]...)
		return n, s.err
	}
	s.out = append(s.out, b...)
	return len(b), nil
}

// failure is a failure of its own or one that has a meaning elsewhere.
func failure(own error) error {
	return []error{own, io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF, &customError{}}[sym.Choice(5)]
}

type customError struct{ n int }

func (*customError) Error() string { return "failed" }

// failing renders with a failure at any write.
func failing(render func(io.Writer) error, maxWrites int) {
	ok := &sink{fail: -1}
	sym.Assert(render(ok) == nil, "rendering without failure gives no error")
	s := &sink{fail: sym.Int(0, maxWrites-1), err: errWrite}
	if maxWrites < 5 {
		s.err = failure(errWrite)
	}
	err := render(s)
	if s.failed {
		sym.Reach("failed")
		sym.Assert(err != nil, "a write failure is an error")
		sym.Assert(errors.Is(err, s.err), "the error wraps the write failure")
		sym.Assert(len(s.out) <= len(ok.out) && string(s.out) == string(ok.out[:len(s.out)]), "what is written before a failure is the beginning")
	} else {
		sym.Reach("not failed")
		sym.Assert(err == nil, "without write failure there is no error")
		sym.Assert(string(s.out) == string(ok.out), "rendering again gives the same")
	}
}

var _ = reg("C22", "TextRenderer", C22TextRenderer, "all string trees of up to p[0] nodes, with concatenations, a failure of any of the first p[1] writes (with any of 5 errors if p[1] < 5), with or without a part being written", [][]int{{1, 4}, {2, 6}}, [][]int{{3, 8}}, "failed", "not failed")

// C22TextRenderer: failures of the text renderer.
func C22TextRenderer(p []int) {
	g := &astGen{left: p[0], chars: 1, conc: true, tame: true}
	var x ast.Expr = g.str()
	if sym.Choice(2) == 1 {
		x = &ast.ConcatExpr{X: x, Y: &ast.Text{Value: "w"}}
	}
	failing(func(w io.Writer) error { return render.NewTextRenderer().Render(w, x) }, p[1])
}

var _ = reg("C22", "Nested", C22Nested, "all string trees of up to p[0] nodes out of text, math, group, macro, concatenation, a failure of any of the first p[1] writes, text renderer or default renderers", [][]int{{3, 7}}, [][]int{{4, 9}, {5, 11}}, "failed", "not failed")

// C22Nested: larger trees.
func C22Nested(p []int) {
	g := &astGen{left: p[0], chars: 1, conc: true, tame: true, few: []int{0, 4}}
	var x ast.Expr = g.str()
	if sym.Choice(2) == 1 {
		failing(func(w io.Writer) error { return render.NewTextRenderer().Render(w, x) }, p[1])
		return
	}
	b := bibtex.New()
	failing(func(w io.Writer) error { return b.Render(w, x) }, p[1])
}

var _ = reg("C22", "Biber", C22Biber, "all string trees of up to p[0] nodes, with concatenations, alone or as field with a name, rendered with the default renderers, a failure of any of the first p[1] writes, with or without a part being written", [][]int{{1, 4}, {1, 5}, {2, 7}}, [][]int{{3, 9}}, "failed", "not failed")

// C22Biber: failures of the default renderers.
func C22Biber(p []int) {
	g := &astGen{left: p[0], chars: 1, conc: true, tame: true}
	var n ast.Node = g.str()
	switch sym.Choice(3) {
	case 1:
		n = &ast.ConcatExpr{X: n.(ast.Expr), Y: &ast.Ident{Name: "w"}}
	case 2:
		n = &ast.File{Entries: []ast.Decl{&ast.BibDecl{Key: &ast.Ident{Name: "k"}, Tags: []*ast.TagStmt{{Name: "t", Value: n.(ast.Expr)}}}, &ast.PreambleDecl{Text: &ast.Ident{Name: "w"}}}}
	}
	b := bibtex.New()
	failing(func(w io.Writer) error { return b.Render(w, n) }, p[1])
}

// C27: default rendering.

// own is what the default renderer of a node writes on entering and leaving.
func own(n ast.Node, entering bool) string {
	switch x := n.(type) {
	case *ast.ParsedText:
		switch {
		case x.Delim == ast.QuoteDelimiter:
			return "\""
		case entering:
			return "{"
		}
		return "}"
	case *ast.TextMath:
		if entering {
			return "$" + x.Value
		}
		return "$"
	}
	if !entering {
		return ""
	}
	switch x := n.(type) {
	case *ast.Text:
		return x.Value
	case *ast.TextSpace, *ast.TextNBSP:
		return " "
	case *ast.TextComma:
		return ","
	case *ast.TextHyphen:
		return "-"
	case *ast.TextEscaped:
		return "\\" + x.Value
	case *ast.TextAccent:
		return "\\" + string(rune(x.Accent)) + "{" + x.Text.Value + "}"
	}
	return ""
}

// visits calls f for every node of a string tree, on entering and leaving.
func visits(x ast.Expr, f func(ast.Node, bool)) {
	f(x, true)
	switch x := x.(type) {
	case *ast.ParsedText:
		for _, v := range x.Values {
			visits(v, f)
		}
	case *ast.TextMacro:
		for _, v := range x.Values {
			visits(v, f)
		}
	}
	f(x, false)
}

type visit struct {
	n        ast.Node
	entering bool
}

var _ = reg("C27", "Default", C27Default, "all string trees of up to p[0] nodes with p[1] arbitrary bytes per leaf, in quotes or braces, rendered with the default renderers", [][]int{{1, 3}, {2, 2}, {3, 1}}, [][]int{{4, 1}, {5, 0}}, "ok")

// C27Default: the default renderers reproduce strings.
func C27Default(p []int) {
	g := &astGen{left: p[0], chars: p[1], tame: true}
	defaultCheck(g.str())
}

func defaultCheck(x *ast.ParsedText) {
	sym.Observe(dumpExpr(x))
	want := ""
	visits(x, func(n ast.Node, entering bool) { want += own(n, entering) })
	var w bytes.Buffer
	err := bibtex.New().Render(&w, x)
	sym.Assert(err == nil, "a string renders without error")
	sym.Observe(w.String())
	sym.Assert(w.String() == want, "default rendering reproduces the string")
	sym.Reach("ok")
}

var _ = reg("C27", "Custom", C27Custom, "all string trees of up to p[0] nodes; a custom renderer (that goes on, skips children or stops), a failing one (with any of 5 errors) or none for any kind in the tree or one that is not", ps(1, 2), ps(3, 3), "custom", "no renderer")

// C27Custom: custom renderers.
func C27Custom(p []int) {
	custom(&astGen{left: p[0], tame: true})
}

func custom(g *astGen) {
	x := g.str()
	kinds := []ast.NodeKind{ast.KindIdent} // one that is absent, and all others
	visits(x, func(n ast.Node, entering bool) {
		for _, k := range kinds {
			if k == n.Kind() {
				return
			}
		}
		kinds = append(kinds, n.Kind())
	})
	kind := kinds[sym.Choice(len(kinds))]
	var calls, want []visit
	wantOut := ""
	present := false
	visits(x, func(n ast.Node, entering bool) {
		if n.Kind() == kind {
			present = true
			want = append(want, visit{n, entering})
			if entering {
				wantOut += "<"
			} else {
				wantOut += ">"
			}
			return
		}
		wantOut += own(n, entering)
	})
	custom := func(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
		calls = append(calls, visit{n, entering})
		s := ">"
		if entering {
			s = "<"
		}
		_, err := w.Write([]byte(s))
		return ast.WalkContinue, err
	}
	wrong := func(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
		return ast.WalkStop, errWrite
	}
	var w bytes.Buffer
	switch sym.Choice(4) {
	case 0:
		b := bibtex.New(bibtex.WithRenderer(kind, wrong), bibtex.WithRenderer(kind, custom))
		err := b.Render(&w, x)
		sym.Assert(err == nil, "a custom renderer is used without error")
		sym.Assert(w.String() == wantOut, "a custom renderer replaces the kind it is given for")
		sym.Assert(len(calls) == len(want), "a custom renderer receives the calls of its kind")
		for i := range calls {
			sym.Assert(calls[i] == want[i], "a custom renderer receives the calls of its kind")
		}
		if present {
			sym.Reach("custom")
		}
	case 1:
		b := bibtex.New(bibtex.WithRenderer(kind, nil))
		err := b.Render(&w, x)
		sym.Assert((err != nil) == present, "a kind without renderer is an error")
		if present {
			sym.Reach("no renderer")
		}
	case 2:
		// a renderer that skips the children of a node or ends the rendering
		st := ast.WalkStatus(sym.Choice(3))
		b := bibtex.New(bibtex.WithRenderer(kind, func(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
			calls = append(calls, visit{n, entering})
			return st, nil
		}))
		err := b.Render(&w, x)
		sym.Assert(err == nil, "a renderer without failure is no error")
		wantOut = ""
		left := 0 // depth in children that are skipped
		var made []visit
		visits(x, func(n ast.Node, entering bool) {
			mine := n.Kind() == kind
			switch {
			case left < 0:
			case mine && st == ast.WalkStop:
				left = -1
				made = append(made, visit{n, entering})
			case mine && st == ast.WalkSkipChildren && entering:
				if left == 0 {
					made = append(made, visit{n, entering})
				}
				left++
			case mine && st == ast.WalkSkipChildren:
				left--
				if left == 0 {
					made = append(made, visit{n, entering})
				}
			case left > 0:
			case mine:
				made = append(made, visit{n, entering})
			default:
				wantOut += own(n, entering)
			}
		})
		sym.Assert(w.String() == wantOut, "the answer of a renderer decides what is rendered")
		sym.Assert(len(calls) == len(made), "a custom renderer receives the calls of its kind")
		for i := range calls {
			sym.Assert(calls[i] == made[i], "a custom renderer receives the calls of its kind")
		}
	default:
		// a renderer that fails
		failed := failure(errWrite)
		other := bibtex.New()
		b := bibtex.New(bibtex.WithRenderer(kind, func(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
			return ast.WalkContinue, failed
		}))
		err := b.Render(&w, x)
		sym.Assert((err != nil) == present, "a failing renderer is an error")
		sym.Assert(err == nil || errors.Is(err, failed), "the error wraps the failure of the renderer")
		var w2 bytes.Buffer
		all := ""
		visits(x, func(n ast.Node, entering bool) { all += own(n, entering) })
		sym.Assert(other.Render(&w2, x) == nil && w2.String() == all, "another instance is not affected")
	}
}

var _ = reg("C27", "CustomNested", C27CustomNested, "the same for trees of up to p[0] nodes out of text, space, math, accent, group, macro", ps(1, 2), ps(3, 4), "custom", "no renderer")

// C27CustomNested: custom renderers and larger trees.
func C27CustomNested(p []int) { custom(&astGen{left: p[0], tame: true, few: []int{0, 1, 4, 7}}) }

var _ = reg("C27", "UnknownKind", C27UnknownKind, "a root node of any 64-bit kind", ps(0, 0), nil, "no renderer")

type oddNode struct {
	*ast.Text
	kind ast.NodeKind
}

func (o oddNode) Kind() ast.NodeKind { return o.kind }

// C27UnknownKind: nodes of unknown kinds.
func C27UnknownKind(p []int) {
	k := ast.NodeKind(sym.Any64())
	sym.Assume(k < 0 || k > ast.KindPackage)
	var w bytes.Buffer
	err := bibtex.New().Render(&w, oddNode{&ast.Text{}, k})
	sym.Assert(err != nil, "a node of unknown kind is an error")
	sym.Assert(w.Len() == 0, "nothing is written for it")
	sym.Reach("no renderer")
}
