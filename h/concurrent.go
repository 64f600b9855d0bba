package h

import (
	goscan "go/scanner"
	gotoken "go/token"
	"strconv"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/asts"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
	"verif/sym"
)

// C41: concurrent use. Memory that other goroutines can see must not be
// written (the executor checks each write), and another goroutine may run
// at any acquisition of a lock.

// outcomeIn is everything that parsing into a set of files returns.
func outcomeIn(fset *gotoken.FileSet, f *ast.File, err error) string {
	base := 1
	if f != nil {
		p := gotoken.NoPos
		if len(f.Comments) > 0 {
			p = f.Comments[0].Pos()
		} else if len(f.Entries) > 0 {
			p = f.Entries[0].Pos()
		}
		if p != gotoken.NoPos {
			tf := fset.File(p)
			if tf == nil || tf.Name() != fileName {
				return "in another file"
			}
			base = tf.Base()
		}
	}
	return historyOutcome(f, err, base)
}

var others = []string{"@a{k,t={x}}", "%c\n@a{k,t=\"\\'e~$m$\",url={u}}\n@string{s={A} # b}", "@a{1=2", "\x00@a{k,t=}"}

var _ = reg("C41", "Parse", C41Parse, "a source of one of 8 openings, p[0] arbitrary bytes and a matching end, parsed in any string mode; another goroutine parses the same or one of 4 sources into the same set of files at any of the first p[1] acquisitions of a lock or uses of a pool", [][]int{{0, 12}, {1, 4}, {2, 2}}, [][]int{{1, 20}, {2, 6}, {3, 2}}, "other", "same")

// C41Parse: parsing into a common set of files.
func C41Parse(p []int) {
	src := histSource(p[0])
	sym.Observe(string(src))
	mode := strMode() | parser.ParseComments
	fset := gotoken.NewFileSet()
	o := append([]string{string(src)}, others...)[sym.Choice(1+len(others))]
	got := sym.Concurrently(sym.Choice(p[1]+1), func() {
		f, err := parser.ParseFile(fset, "o.bib", o, parser.ParseStrings)
		if f != nil {
			fset.Position(f.Pos())
		}
		if l, _ := err.(goscan.ErrorList); len(l) > 0 && l[0].Pos.Filename != "o.bib" {
			panic("an error in another file")
		}
		sym.Reach("other")
	}, func() string {
		f, err := parser.ParseFile(fset, fileName, src, mode)
		return outcomeIn(fset, f, err)
	})
	alone := gotoken.NewFileSet()
	f, err := parser.ParseFile(alone, fileName, src, mode)
	want := outcomeIn(alone, f, err)
	sym.Observe(want)
	sym.Assert(got == want, "parsing gives the same with other goroutines")
	sym.Reach("same")
}

var _ = reg("C41", "Biber", C41Biber, "an entry with one field, of one of 6 openings and p[0] arbitrary bytes, parsed, rendered and resolved with all resolvers by an instance that another goroutine uses for the same or one of 10 other sources at any of the first p[1] acquisitions of a lock or uses of a pool", [][]int{{0, 8}, {1, 2}}, [][]int{{1, 12}, {2, 2}}, "same")

// C41Biber: one instance for several goroutines.
func C41Biber(p []int) {
	src := runSource(p[0])
	sym.Observe(string(src))
	mk := func() *bibtex.Biber {
		return bibtex.New(bibtex.WithResolvers(
			bibtex.NewAuthorResolver("author"),
			bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver),
			bibtex.NewRenderParsedTextResolver()))
	}
	bib := mk()
	o := src
	if k := sym.Choice(1 + len(runStarts) + len(others)); k > 0 {
		o = []byte(append(runStarts, others...)[k-1])
	}
	got := sym.Concurrently(sym.Choice(p[1]+1), func() { run(bib, o) }, func() string { return run(bib, src) + run(bib, src) })
	want := run(mk(), src)
	sym.Observe(want)
	sym.Assert(got == want+want, "an instance gives the same with other goroutines")
	sym.Reach("same")
}

var _ = reg("C41", "Readers", C41Readers, "a string tree of up to p[0] nodes with p[1] arbitrary bytes per leaf, rendered in every way, walked, printed and split into authors by several goroutines", [][]int{{1, 1}, {2, 1}, {3, 0}}, [][]int{{2, 2}, {3, 1}, {4, 0}}, "same")

// C41Readers: a tree that several goroutines read.
func C41Readers(p []int) {
	x := (&astGen{left: p[0], chars: p[1]}).str()
	f := &ast.File{Name: fileName, Entries: []ast.Decl{&ast.BibDecl{Type: "a", Key: &ast.Ident{Name: "k"}, Tags: []*ast.TagStmt{{Name: "t", RawName: "T", Value: x}}}}}
	bib := bibtex.New()
	rend := render.NewTextRenderer()
	read := func() string { return readAll(bib, rend, f, x) }
	before := dumpFile(f, 0)
	got := sym.Concurrently(0, func() { read() }, func() string { return read() + read() })
	want := read()
	sym.Observe(want)
	sym.Assert(got == want+want, "reading a tree gives the same with other goroutines")
	sym.Assert(dumpFile(f, 0) == before, "reading a tree does not change it")
	sym.Reach("same")
}

// readAll applies everything that only reads a tree.
func readAll(bib *bibtex.Biber, rend *render.TextRenderer, f *ast.File, x ast.Expr) string {
	var w strings.Builder
	w.WriteString(errText(bib.Render(&w, x)) + "|")
	w.WriteString(errText(rend.Render(&w, x)) + "|")
	n := 0
	err := ast.Walk(f, func(n0 ast.Node, entering bool) (ast.WalkStatus, error) {
		n++
		if entering {
			n += int(n0.Pos()) + int(n0.Kind())
		}
		return ast.WalkContinue, nil
	})
	w.WriteString(strconv.Itoa(n) + errText(err) + "|")
	if t, ok := x.(*ast.ParsedText); ok {
		as, err := bibtex.ExtractAuthors(t)
		d := &dumper{}
		for _, a := range as {
			d.expr(a)
		}
		w.WriteString(d.sb.String() + errText(err))
	}
	return w.String()
}

var _ = reg("C41", "Parsed", C41Parsed, "the tree of a quoted or braced string of p[0] pieces out of text, Latin letters, space, comma, tie, math, escape, bare, braced and spaced accent, macro, url macro, group and nested groups with arbitrary characters, read by several goroutines", ps(1, 1), ps(2, 2), "same")

// C41Parsed: a parsed tree that several goroutines read.
func C41Parsed(p []int) {
	src := append(append([]byte("@a{k,t="), quoted(pieces(p[0]))...), '}')
	sym.Observe(string(src))
	f, _, err := parse(src, parser.ParseStrings)
	if err != nil {
		return
	}
	x := f.Entries[0].(*ast.BibDecl).Tags[0].Value
	bib := bibtex.New()
	rend := render.NewTextRenderer()
	got := sym.Concurrently(0, func() { readAll(bib, rend, f, x) }, func() string { return readAll(bib, rend, f, x) + readAll(bib, rend, f, x) })
	want := readAll(bib, rend, f, x)
	sym.Observe(want)
	sym.Assert(got == want+want, "reading a tree gives the same with other goroutines")
	sym.Reach("same")
}

var _ = reg("C41", "Others", C41Others, "p[0] arbitrary bytes scanned in any mode, parsed as expression and turned into trees by the helpers; names of tokens and kinds; look-ups in a common scope; a package of two files", ps(0, 1), ps(2, 2), "same")

// C41Others: everything else.
func C41Others(p []int) {
	s := string(sym.Bytes(p[0]))
	sym.Observe(s)
	m := scanner.Mode(sym.Choice(4))
	scope := ast.NewScope(ast.NewScope(nil))
	scope.Insert(&ast.Object{Kind: ast.Abbrev, Name: "s"})
	paths := []string{sym.File("a.bib", []byte("@a{k,t={"+s+"}}")), sym.File("b.bib", []byte(others[1]))}
	k := sym.Choice(6)
	if k == 5 {
		for i := range s {
			sym.Assume(s[i] < 0x80)
		}
	}
	do := func() string {
		switch k {
		case 0:
			var w strings.Builder
			fset := gotoken.NewFileSet()
			src := []byte("={" + s + "}{" + s + "} %")
			var sc scanner.Scanner
			sc.Init(fset.AddFile("x", -1, len(src)), src, func(p gotoken.Position, msg string) { w.WriteString(strconv.Itoa(p.Offset)) }, m)
			for i := 0; i < 12; i++ {
				pos, tok, lit := sc.Scan()
				w.WriteString(strconv.Itoa(int(pos)) + tok.String() + lit + "|")
			}
			return w.String()
		case 1:
			x, err := parser.ParseExpr("{" + s + "} # s")
			return errText(err) + dumpExpr(x)
		case 2:
			return dumpExpr(asts.BraceText(0, s, "a~b", "{c d}"))
		case 3:
			a := scope.Lookup("s")
			b := scope.Lookup(s)
			return strconv.FormatBool(a != nil) + strconv.FormatBool(b != nil) + token.Ident.String() + ast.KindText.String()
		case 5:
			return asts.ExprString(asts.BraceText(0, s, "a~b", "{c d}"))
		}
		pkg, err := parser.ParsePackage(paths, parser.ParseStrings)
		r := errText(err)
		for _, n := range paths {
			if f := pkg.Files[n]; f != nil {
				r += f.Name + strconv.Itoa(len(f.Entries))
			}
		}
		return r
	}
	got := sym.Concurrently(0, func() { do() }, func() string { return do() + do() })
	want := do()
	sym.Observe(want)
	sym.Assert(got == want+want, "results are the same with other goroutines")
	sym.Reach("same")
}
