package h

import (
	"bytes"
	goscan "go/scanner"
	gotoken "go/token"
	"strconv"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/token"
	"verif/sym"
)

// C31: history.

// scanAll is everything a scanner returns for a source.
func scanAll(sc *scan) (r []tok) {
	for {
		t := sc.next()
		r = append(r, t)
		if t.t == token.EOF {
			return r
		}
	}
}

func sameScan(a, b []tok, ea, eb []scanErr) {
	sym.Assert(len(a) == len(b), "a used scanner returns the tokens of a fresh one")
	for i := range a {
		sym.Assert(a[i].off == b[i].off, "a used scanner returns the tokens of a fresh one")
		sym.Assert(a[i].t == b[i].t, "a used scanner returns the tokens of a fresh one")
		sym.Assert(a[i].lit == b[i].lit, "a used scanner returns the tokens of a fresh one")
	}
	sym.Assert(len(ea) == len(eb), "a used scanner reports the errors of a fresh one")
	for i := range ea {
		sym.Assert(ea[i] == eb[i], "a used scanner reports the errors of a fresh one")
	}
}

var dirtyStarts = []string{"", "={", "={{", "=\"{", "=\"", "={\\", "={\\'{", "@", "={$", "=\"\\c ", "a = {b} # ", "@a(", "%"}
var nextStarts = []string{"", "{", "={", "\"", "=\"", "}", "#{", "@a", "a"}

var _ = reg("C31", "Scanner", C31Scanner, "a first source of one of 13 openings and p[0] arbitrary bytes, scanned for up to p[2] tokens or to its end, in either mode; then a second source of one of 9 openings and p[1] arbitrary bytes in either mode", [][]int{{0, 0, 3}, {0, 1, 3}, {1, 0, 4}}, [][]int{{1, 1, 3}, {1, 1, 5}, {2, 1, 4}, {1, 2, 3}}, "scanned")

// C31Scanner: a scanner used again.
func C31Scanner(p []int) {
	a := append([]byte(dirtyStarts[sym.Choice(len(dirtyStarts))]), sym.Bytes(p[0])...)
	b := append([]byte(nextStarts[sym.Choice(len(nextStarts))]), sym.Bytes(p[1])...)
	sym.Observe(string(a))
	sym.Observe(string(b))
	sc := newScan(a, sym.Choice(2) == 1)
	n := sym.Choice(p[2] + 1)
	for i := 0; i < n; i++ {
		if t := sc.next(); t.t == token.EOF {
			sym.Assume(i == n-1)
		}
	}
	strs := sym.Choice(2) == 1
	sc.init(b, strs)
	fresh := newScan(b, strs)
	x, y := scanAll(sc), scanAll(fresh)
	sameScan(x, y, sc.errs, fresh.errs)
	sym.Reach("scanned")
}

var histStarts = []string{"", "@a{", "@a{k,t={", "@a{k,t=\"", "@string{s=", "@a{k,t=x # ", "@a{k,t={\\url{", "@a{k,url={"}

func histSource(n int) []byte {
	k := sym.Choice(len(histStarts))
	b := append([]byte(histStarts[k]), sym.Bytes(n)...)
	e := []string{"", "", "}}", "\"}", "}", "}", "}}}", "}}"}[k]
	return append(b, e...)
}

// historyOutcome is everything parsing returns.
func historyOutcome(f *ast.File, err error, base int) string {
	s := errText(err) + "|"
	if l, ok := err.(goscan.ErrorList); ok {
		for _, e := range l {
			s += strconv.Itoa(e.Pos.Line) + ":" + strconv.Itoa(e.Pos.Column) + " "
		}
	}
	if f != nil {
		s += dumpFile(f, base) + f.Name
	}
	return s
}

var _ = reg("C31", "Parser", C31Parser, "a source of one of 8 openings, p[0] arbitrary bytes and a matching end, parsed in any mode before and after another such source with p[1] bytes parsed in any mode, into the same or another set of files", [][]int{{0, 0}, {1, 0}, {0, 1}}, [][]int{{2, 0}, {0, 2}, {1, 1}}, "same")

// C31Parser: parsing again.
func C31Parser(p []int) {
	a, b := histSource(p[0]), histSource(p[1])
	sym.Observe(string(a))
	sym.Observe(string(b))
	ma, mb := strMode(), strMode()
	fset := gotoken.NewFileSet()
	f1, err := parser.ParseFile(fset, fileName, a, ma)
	one := historyOutcome(f1, err, 1)
	shared := sym.Choice(2) == 1
	if !shared {
		fset = gotoken.NewFileSet()
	}
	parser.ParseFile(fset, fileName, b, mb)
	base := fset.Base()
	f2, err := parser.ParseFile(fset, fileName, a, ma)
	sym.Assert(historyOutcome(f2, err, base) == one, "parsing does not depend on what was parsed before")
	if f1 != nil {
		sym.Assert(f1 != f2, "every parse makes its own tree")
		sym.Assert(historyOutcome(f1, err, 1) == one, "parsing does not change earlier trees")
	}
	sym.Reach("same")
}

// run parses, resolves and renders a source.
func run(bib *bibtex.Biber, src []byte) string {
	f, err := bib.Parse(bytes.NewReader(src))
	if err != nil {
		return "parse " + errText(err)
	}
	var out strings.Builder
	for _, d := range f.Entries {
		d, ok := d.(*ast.BibDecl)
		if !ok {
			continue
		}
		for _, t := range d.Tags {
			err := bib.Render(&out, t.Value)
			out.WriteString("|" + errText(err))
		}
	}
	es, err := bib.Resolve(f)
	out.WriteString(errText(err))
	d := &dumper{}
	for _, e := range es {
		d.s(e.Type)
		d.s(e.Key)
		for _, n := range []string{"author", "t"} {
			if x, ok := e.Tags[n]; ok {
				d.expr(x)
			}
		}
	}
	return out.String() + d.sb.String()
}

var runStarts = []string{"@a{k,t={", "@a{k,author={A ", "@a{k,author={x and ", "@a{k,author=", "@a{k,t={\\'{e}", "@a{k,t=\"\\&"}

func runSource(n int) []byte {
	k := sym.Choice(len(runStarts))
	b := append([]byte(runStarts[k]), sym.Bytes(n)...)
	e := []string{"}}", "}}", "}}", "}", "}}", "\"}"}[k]
	return append(b, e...)
}

var _ = reg("C31", "Biber", C31Biber, "an entry with one field, of one of 6 openings and p[0] arbitrary bytes, parsed, rendered and resolved with all resolvers before and after another one with p[1] bytes, with the same or another instance", [][]int{{0, 0}, {1, 0}, {0, 1}}, [][]int{{1, 1}, {2, 0}}, "same")

// C31Biber: everything again.
func C31Biber(p []int) {
	a, b := runSource(p[0]), runSource(p[1])
	sym.Observe(string(a))
	sym.Observe(string(b))
	mk := func() *bibtex.Biber {
		return bibtex.New(bibtex.WithResolvers(
			bibtex.NewAuthorResolver("author"),
			bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver),
			bibtex.NewRenderParsedTextResolver()))
	}
	bib := mk()
	one := run(bib, a)
	sym.Observe(one)
	other := bib
	if sym.Choice(2) == 1 {
		other = mk()
	}
	run(other, b)
	sym.Assert(run(bib, a) == one, "results do not depend on earlier use")
	sym.Assert(run(mk(), a) == one, "results do not depend on earlier use")
	sym.Reach("same")
}

var _ = reg("C31", "Renderers", C31Renderers, "a string tree of up to p[0] nodes with p[1] arbitrary bytes per leaf rendered as text before and after another tree of up to p[2] nodes, also ones that cannot be rendered or whose writing fails", [][]int{{1, 1, 1}, {2, 0, 1}}, [][]int{{1, 1, 2}, {2, 1, 1}, {2, 0, 2}}, "same")

// C31Renderers: a text renderer used again.
func C31Renderers(p []int) {
	x := (&astGen{left: p[0], chars: p[1]}).str()
	y := (&astGen{left: p[2], bad: true}).str()
	sym.Observe(dumpExpr(x))
	sym.Observe(dumpExpr(y))
	r := render.NewTextRenderer()
	text := func(r *render.TextRenderer, x ast.Expr) string {
		var w strings.Builder
		err := r.Render(&w, x)
		return w.String() + "|" + errText(err)
	}
	one := text(r, x)
	if sym.Choice(2) == 1 {
		r.Render(&sink{fail: 0, err: errWrite}, y)
	} else {
		text(r, y)
	}
	sym.Assert(text(r, x) == one, "rendering does not depend on earlier use")
	sym.Assert(text(render.NewTextRenderer(), x) == one, "rendering does not depend on earlier use")
	sym.Reach("same")
}
