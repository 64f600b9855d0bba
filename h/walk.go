package h

import (
	"errors"

	"github.com/jschaf/bibtex/ast"
	"verif/sym"
)

// C23: walking.

var errVisit = errors.New("visitor failure")

// walkRef replays a walk: it consumes the calls that were made and checks that
// each of them is the next one.
type walkRef struct {
	calls []walkCall
	at    int
}

type walkCall struct {
	n        ast.Node
	entering bool
	status   ast.WalkStatus
	err      error
}

// stop tells whether the walk ends with this call.
func (c walkCall) stop() bool { return c.err != nil || c.status == ast.WalkStop }

func sameNode(a, b ast.Node) bool {
	x, ok := a.(ast.Authors)
	y, ok2 := b.(ast.Authors)
	if ok || ok2 {
		return ok && ok2 && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	}
	return a == b
}

// call is the next call; it has to be for n.
func (r *walkRef) call(n ast.Node, entering bool) walkCall {
	sym.Assert(r.at < len(r.calls), "the walk visits every node on entering and leaving")
	c := r.calls[r.at]
	r.at++
	sym.Assert(sameNode(c.n, n), "nodes are visited in source order")
	sym.Assert(c.entering == entering, "a node is entered, then its children are walked, then it is left")
	return c
}

// children lists the children of a node in source order; cite keys and
// comments are not walked.
func children(n ast.Node) (r []ast.Node) {
	switch x := n.(type) {
	case *ast.File:
		for _, d := range x.Entries {
			r = append(r, d)
		}
	case *ast.BibDecl:
		for _, t := range x.Tags {
			r = append(r, t)
		}
	case *ast.AbbrevDecl:
		if x.Tag != nil {
			r = append(r, x.Tag)
		}
	case *ast.PreambleDecl:
		r = append(r, x.Text)
	case *ast.TagStmt:
		if x.Value != nil {
			r = append(r, x.Value)
		}
	case *ast.ConcatExpr:
		r = append(r, x.X, x.Y)
	case *ast.ParsedText:
		for _, v := range x.Values {
			r = append(r, v)
		}
	case *ast.TextMacro:
		for _, v := range x.Values {
			r = append(r, v)
		}
	case ast.Authors:
		for _, a := range x {
			r = append(r, a)
		}
	case *ast.Author:
		for _, p := range []ast.Expr{x.First, x.Prefix, x.Last, x.Suffix} {
			if p != nil {
				r = append(r, p)
			}
		}
	}
	return r
}

// walk checks the walk of a subtree; it returns the call that ended it.
func (r *walkRef) walk(n ast.Node) *walkCall {
	c := r.call(n, true)
	if c.stop() {
		return &c
	}
	if c.status != ast.WalkSkipChildren {
		if p, ok := n.(*ast.Package); ok {
			// files are in any order
			seen := map[*ast.File]bool{}
			for range p.Files {
				sym.Assert(r.at < len(r.calls), "the walk visits every node on entering and leaving")
				f, ok := r.calls[r.at].n.(*ast.File)
				sym.Assert(ok && !seen[f], "each file is visited once")
				mine := false
				for _, g := range p.Files {
					mine = mine || g == f
				}
				sym.Assert(mine, "the files of the package are visited")
				seen[f] = true
				if e := r.walk(f); e != nil {
					return e
				}
			}
		}
		for _, k := range children(n) {
			if e := r.walk(k); e != nil {
				return e
			}
		}
	}
	c = r.call(n, false)
	if c.stop() {
		return &c
	}
	return nil
}

// walkCheck walks a tree with a visitor and compares with the reference.
func walkCheck(root ast.Node, visitor func(i int) (ast.WalkStatus, error)) {
	r := &walkRef{}
	err := ast.Walk(root, func(n ast.Node, entering bool) (ast.WalkStatus, error) {
		st, e := visitor(len(r.calls))
		r.calls = append(r.calls, walkCall{n, entering, st, e})
		sym.Assert(len(r.calls) < 10000, "each node is entered once")
		return st, e
	})
	last := r.walk(root)
	sym.Assert(r.at == len(r.calls), "nothing is visited after the walk ends")
	if last != nil {
		sym.Assert(last.err == nil && err == nil || last.err != nil && errors.Is(err, last.err), "the error of the visitor is returned")
		if last.err != nil {
			sym.Reach("error")
		} else {
			sym.Reach("stop")
		}
	} else {
		sym.Assert(err == nil, "a complete walk gives no error")
		sym.Reach("complete")
	}
}

// expr is any expression.
func (g *astGen) expr() ast.Expr {
	switch sym.Choice(6) {
	case 0:
		return &ast.Ident{Name: "x"}
	case 1:
		return &ast.Number{Value: "1"}
	case 2:
		return &ast.UnparsedText{}
	case 3:
		x := g.one(0)
		return &ast.ConcatExpr{X: x, Y: g.one(0)}
	case 4:
		return g.authors()
	}
	return g.str()
}

func (g *astGen) authors() ast.Authors {
	n := sym.Choice(3)
	if n > g.left {
		n = g.left
	}
	g.left -= n
	r := ast.Authors{}
	part := func(missing bool) ast.Expr {
		if missing {
			return nil
		}
		return &ast.Text{Value: "p"}
	}
	for i := 0; i < n; i++ {
		m := -1
		if i == 0 {
			m = sym.Choice(5) - 1
		}
		r = append(r, &ast.Author{First: part(m == 0), Prefix: part(m == 1), Last: part(m == 2), Suffix: part(m == 3)})
	}
	return r
}

func (g *astGen) tag() *ast.TagStmt {
	return &ast.TagStmt{Name: "t", RawName: "T", Value: g.expr()}
}

// decl is any declaration.
func (g *astGen) decl() ast.Decl {
	switch sym.Choice(4) {
	case 0:
		return &ast.AbbrevDecl{Tag: g.tag()}
	case 1:
		return &ast.PreambleDecl{Text: g.expr()}
	case 2:
		return &ast.BadDecl{}
	}
	d := &ast.BibDecl{Type: "a", Key: &ast.Ident{Name: "k"}}
	for g.left > 0 && sym.Choice(2) == 1 {
		g.left--
		d.Tags = append(d.Tags, g.tag())
	}
	return d
}

func (g *astGen) file() *ast.File {
	f := &ast.File{}
	for g.left > 0 && sym.Choice(2) == 1 {
		g.left--
		f.Entries = append(f.Entries, g.decl())
	}
	return f
}

// node is any tree.
func (g *astGen) node() ast.Node {
	switch sym.Choice(6) {
	case 0:
		return g.expr()
	case 1:
		return g.decl()
	case 2:
		return g.file()
	case 3:
		return g.tag()
	case 4:
		return g.leaf(sym.Choice(numLeaves + numBadLeaves))
	}
	p := &ast.Package{Files: map[string]*ast.File{}}
	n := sym.Choice(3)
	for i := 0; i < n; i++ {
		p.Files[pkgNames[i]] = g.file()
	}
	return p
}

func walkGen(n int) *astGen { return &astGen{left: n, few: []int{0, 2}, conc: true} }

// answer is any answer of a visitor.
func answer(anyError bool) (ast.WalkStatus, error) {
	st := ast.WalkStatus(sym.Int(0, 2))
	if sym.Choice(2) == 1 {
		if anyError {
			return st, failure(errVisit)
		}
		return st, errVisit
	}
	return st, nil
}

var _ = reg("C23", "Answers", C23Answers, "all trees of up to p[0] nodes below the root (packages, files, declarations, fields, every kind of value, authors); an arbitrary answer of the visitor (continue, skip, stop, with or without error, of 5 kinds if p[0]+p[1] < 3) at each of p[1] arbitrary calls, continue at the others", [][]int{{2, 0}, {1, 1}, {0, 2}, {2, 1}}, [][]int{{1, 2}, {3, 1}, {2, 2}, {4, 0}}, "complete")

// C23Answers: visitors with a few special answers.
func C23Answers(p []int) {
	root := walkGen(p[0]).node()
	special := make([]int, p[1])
	for i := range special {
		special[i] = sym.Int(0, 40)
		if i > 0 {
			sym.Assume(special[i-1] < special[i])
		}
	}
	walkCheck(root, func(i int) (ast.WalkStatus, error) {
		for _, s := range special {
			if i == s {
				return answer(p[0]+p[1] < 3)
			}
		}
		return ast.WalkContinue, nil
	})
}

var _ = reg("C23", "AllAnswers", C23AllAnswers, "all trees of up to p[0] nodes below the root; arbitrary answers of the visitor (continue or skip, and one stop or error, of 5 kinds if p[0] = 0) at every call", ps(0, 1), ps(2, 2), "complete", "error", "stop")

// C23AllAnswers: arbitrary visitors.
func C23AllAnswers(p []int) {
	root := walkGen(p[0]).node()
	walkCheck(root, func(i int) (ast.WalkStatus, error) {
		return answer(p[0] == 0)
	})
}

var _ = reg("C23", "Absent", C23Absent, "a file of p[0] declarations: abbreviations without or with a field, entries without fields or with two, fields without or with a value, authors with any parts absent; an arbitrary answer of the visitor at any one call", ps(1, 1), ps(2, 2), "complete")

// C23Absent: children that are absent.
func C23Absent(p []int) {
	f := &ast.File{}
	value := func() ast.Expr {
		switch sym.Choice(3) {
		case 0:
			return nil
		case 1:
			a := &ast.Author{}
			for i, x := range []*ast.Expr{&a.First, &a.Prefix, &a.Last, &a.Suffix} {
				if i%2 == 0 || sym.Choice(2) == 1 {
					*x = &ast.Text{}
				}
			}
			return ast.Authors{{}, a}
		}
		return &ast.Text{}
	}
	for i := 0; i < p[0]; i++ {
		switch sym.Choice(4) {
		case 0:
			f.Entries = append(f.Entries, &ast.AbbrevDecl{})
		case 1:
			f.Entries = append(f.Entries, &ast.AbbrevDecl{Tag: &ast.TagStmt{Value: value()}})
		case 2:
			f.Entries = append(f.Entries, &ast.BibDecl{})
		case 3:
			f.Entries = append(f.Entries, &ast.BibDecl{Tags: []*ast.TagStmt{{Value: value()}, {Value: value()}}})
		}
	}
	at := sym.Int(0, 40)
	walkCheck(f, func(i int) (ast.WalkStatus, error) {
		if i == at {
			return answer(false)
		}
		return ast.WalkContinue, nil
	})
}
