package h

import (
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/token"
	"verif/sym"
)

// C26: the resolvers of the package.

// unescaped is a copy of a tree with plain text for escaped characters.
func unescaped(x ast.Expr) ast.Expr {
	switch x := x.(type) {
	case *ast.ParsedText:
		c := *x
		c.Values = nil
		for _, v := range x.Values {
			if e, ok := v.(*ast.TextEscaped); ok {
				v = &ast.Text{Value: e.Value}
			}
			c.Values = append(c.Values, unescaped(v))
		}
		return &c
	case *ast.TextMacro:
		c := *x
		c.Values = nil
		for _, v := range x.Values {
			c.Values = append(c.Values, unescaped(v))
		}
		return &c
	case *ast.ConcatExpr:
		return &ast.ConcatExpr{X: unescaped(x.X), Y: unescaped(x.Y)}
	case ast.Authors:
		var as ast.Authors
		for _, a := range x {
			as = append(as, &ast.Author{First: unescaped(a.First), Prefix: unescaped(a.Prefix), Last: unescaped(a.Last), Suffix: unescaped(a.Suffix)})
		}
		return as
	}
	return x
}

// holder puts a value into a tree of some kind; get reads it back.
func holder(kind int, x ast.Expr) (root ast.Node, get func() ast.Expr) {
	tag := &ast.TagStmt{Name: "t", RawName: "T", Value: x}
	get = func() ast.Expr { return tag.Value }
	entry := &ast.BibDecl{Type: "a", Key: &ast.Ident{Name: "k"}, Tags: []*ast.TagStmt{{Name: "n", RawName: "n", Value: &ast.Number{Value: "1"}}, tag}}
	switch kind {
	case 0:
		return tag, get
	case 1:
		return entry, get
	case 2:
		return &ast.File{Entries: []ast.Decl{&ast.BibDecl{Type: "a"}, entry}}, get
	case 3:
		return &ast.Package{Files: map[string]*ast.File{"a": {}, "b": {Entries: []ast.Decl{entry}}}}, get
	case 4:
		return x, func() ast.Expr { return x }
	case 5:
		d := &ast.PreambleDecl{Text: x}
		return d, func() ast.Expr { return d.Text }
	default:
		d := &ast.AbbrevDecl{Tag: tag}
		return &ast.File{Entries: []ast.Decl{d}}, get
	}
}

var _ = reg("C26", "Escapes", C26Escapes, "all string trees of up to p[0] nodes (texts, escapes, groups, macros, concatenations), p[1] arbitrary bytes per text, in a field, entry, file, package, preamble or abbreviation, or alone", [][]int{{1, 1}, {2, 1}, {3, 0}}, [][]int{{3, 1}, {4, 0}, {5, 0}}, "nested", "plain")

// C26Escapes: escaped characters.
func C26Escapes(p []int) {
	g := &astGen{left: p[0], chars: p[1], conc: true, few: []int{0, 1, 5, 4}}
	var x ast.Expr = g.str()
	if sym.Choice(2) == 1 {
		x = &ast.ConcatExpr{X: &ast.Ident{Name: "i"}, Y: x}
	}
	escapesCheck(x)
}

func escapesCheck(x ast.Expr) {
	sym.Assume(!macroEscape(x))
	root, get := holder(sym.Choice(7), x)
	want := dumpExpr(unescaped(x))
	sym.Observe(dumpExpr(x))
	if strings.Contains(dumpExpr(x), "esc") {
		sym.Reach("nested")
	} else {
		sym.Reach("plain")
	}
	for i := 0; i < 2; i++ {
		err := bibtex.SimplifyEscapedTextResolver(root)
		sym.Assert(err == nil, "escapes are resolved without error")
		sym.Assert(dumpExpr(get()) == want, "escaped characters of strings are replaced by plain text and nothing else")
	}
}

// macroEscape: an escape that is a parameter of a macro, which no source has.
func macroEscape(x ast.Expr) bool {
	switch x := x.(type) {
	case *ast.ParsedText:
		for _, v := range x.Values {
			if macroEscape(v) {
				return true
			}
		}
	case *ast.TextMacro:
		for _, v := range x.Values {
			if _, ok := v.(*ast.TextEscaped); ok || macroEscape(v) {
				return true
			}
		}
	case *ast.ConcatExpr:
		return macroEscape(x.X) || macroEscape(x.Y)
	}
	return false
}

var fieldNames = []string{"author", "editor", "au", "title"}

// fieldValue is a value of a kind.
func fieldValue(k, chars int) ast.Expr {
	switch k {
	case 0:
		return &ast.ParsedText{Values: []ast.Expr{&ast.Text{Value: "A" + string(sym.Bytes(chars))}, &ast.TextSpace{}, &ast.Text{Value: "and"}, &ast.TextSpace{}, &ast.Text{Value: "B"}}}
	case 1:
		return &ast.ParsedText{Delim: ast.QuoteDelimiter, Values: []ast.Expr{&ast.ParsedText{Depth: 1, Values: []ast.Expr{&ast.TextEscaped{Value: "&"}}}, &ast.TextComma{}, &ast.TextMath{Value: string(sym.Bytes(chars))}}}
	case 2:
		return &ast.ParsedText{}
	case 3:
		return &ast.ParsedText{Values: []ast.Expr{&ast.TextAccent{Accent: '\'', Text: &ast.Text{Value: "e"}}, &ast.TextNBSP{}, &ast.TextMacro{Name: "m", Values: []ast.Expr{&ast.Text{Value: "y"}}}}}
	case 4:
		return &ast.ParsedText{Values: []ast.Expr{&ast.Text{Value: "x"}, &ast.BadExpr{}}}
	case 5:
		return &ast.Ident{Name: "i"}
	case 6:
		return &ast.Number{Value: "1"}
	case 7:
		return &ast.UnparsedText{Type: token.BraceString, Value: "A and B"}
	case 8:
		return &ast.ConcatExpr{X: &ast.ParsedText{Values: []ast.Expr{&ast.Text{Value: "x"}}}, Y: &ast.Ident{Name: "i"}}
	case 9:
		return ast.Authors{{First: &ast.Text{}, Prefix: &ast.Text{}, Last: &ast.Text{Value: "x"}, Suffix: &ast.Text{}}}
	default:
		return &ast.Text{Value: "x"}
	}
}

const numValues = 11

// fieldsFile has fields of any names and values.
func fieldsFile(n, chars int, kinds int) (*ast.File, []*ast.TagStmt) {
	var tags []*ast.TagStmt
	f := &ast.File{}
	d := &ast.BibDecl{Type: "a"}
	f.Entries = append(f.Entries, d)
	for i := 0; i < n; i++ {
		if i > 0 && sym.Choice(2) == 1 {
			d = &ast.BibDecl{Type: "b"}
			f.Entries = append(f.Entries, d)
		}
		name := fieldNames[sym.Choice(len(fieldNames))]
		t := &ast.TagStmt{Name: name, RawName: strings.ToUpper(name), Value: fieldValue(sym.Choice(kinds), chars)}
		tags = append(tags, t)
		d.Tags = append(d.Tags, t)
	}
	return f, tags
}

func dumpTags(ts []*ast.TagStmt) string {
	d := &dumper{}
	for _, t := range ts {
		d.tag(t)
	}
	return d.sb.String()
}

var _ = reg("C26", "Authors", C26Authors, "files of p[0] fields of any of 4 names and 11 kinds of values with p[1] arbitrary bytes, in one or several entries, resolver for any subset of the names", [][]int{{0, 0}, {1, 1}, {2, 0}}, [][]int{{2, 1}}, "authors", "failed")

// C26Authors: author fields.
func C26Authors(p []int) {
	f, tags := fieldsFile(p[0], p[1], numValues)
	var names []string
	on := map[string]bool{}
	for _, n := range fieldNames {
		if sym.Choice(2) == 1 {
			names = append(names, n)
			on[n] = true
		}
	}
	sym.Observe(dumpTags(tags))
	var want []*ast.TagStmt
	fail := false
	for _, t := range tags {
		c := *t
		if on[t.Name] {
			s, ok := t.Value.(*ast.ParsedText)
			if !ok {
				fail = true
				break
			}
			as, err := bibtex.ExtractAuthors(s)
			if err != nil {
				fail = true
				break
			}
			c.Value = as
			sym.Reach("authors")
		}
		want = append(want, &c)
	}
	err := bibtex.NewAuthorResolver(names...).Resolve(f)
	if fail {
		sym.Assert(err != nil, "a named field without authors is an error")
		sym.Reach("failed")
		return
	}
	sym.Assert(err == nil, "authors are resolved without error")
	sym.Assert(dumpTags(tags) == dumpTags(want), "exactly the named fields are replaced by their authors")
}

var _ = reg("C26", "Text", C26Text, "files of p[0] fields of any of 11 kinds of values with p[1] arbitrary bytes, in one or several entries; the resolver applied twice", [][]int{{0, 0}, {1, 2}, {2, 0}}, [][]int{{2, 1}, {3, 0}}, "text", "failed")

// C26Text: plain text of fields.
func C26Text(p []int) {
	f, tags := fieldsFile(p[0], p[1], numValues)
	sym.Observe(dumpTags(tags))
	var want []*ast.TagStmt
	fail := false
	for _, t := range tags {
		c := *t
		if s, ok := t.Value.(*ast.ParsedText); ok {
			var w strings.Builder
			if err := render.NewTextRenderer().Render(&w, s); err != nil {
				fail = true
				break
			}
			fl := &flatten{}
			fl.expr(s)
			sym.Assert(w.String() == string(fl.b), "text rendering is the flattening of the tree")
			c.Value = &ast.Text{Value: w.String()}
			sym.Reach("text")
		}
		want = append(want, &c)
	}
	r := bibtex.NewRenderParsedTextResolver()
	for i := 0; i < 2; i++ {
		err := r.Resolve(f)
		if fail {
			sym.Assert(err != nil, "a string that cannot be rendered is an error")
			sym.Reach("failed")
			return
		}
		sym.Assert(err == nil, "strings are resolved without error")
		sym.Assert(dumpTags(tags) == dumpTags(want), "exactly the string-valued fields are replaced by their text")
	}
}

var _ = reg("C26", "Pipeline", C26Pipeline, "a source with an author, a title and a further field of p[0] arbitrary bytes each in braces or quotes, any subset of the three resolvers in any order", [][]int{{0}, {1}}, [][]int{{2}}, "resolved", "failed")

// C26Pipeline: the resolvers on parsed sources.
func C26Pipeline(p []int) {
	b := []byte("@a{k, author = {")
	b = append(b, []string{"A ", " "}[sym.Choice(2)]...)
	b = append(b, sym.Bytes(p[0])...)
	b = append(b, " and B}, title = \"x{\\&"...)
	b = append(b, sym.Bytes(p[0])...)
	b = append(b, "}\", note = {"...)
	b = append(b, sym.Bytes(p[0])...)
	b = append(b, "y}}"...)
	sym.Observe(string(b))
	bib := bibtex.New(bibtex.WithParserMode(parser.ParseStrings))
	f, err := bib.Parse(strings.NewReader(string(b)))
	if err != nil {
		return
	}
	g, err := bib.Parse(strings.NewReader(string(b)))
	sym.Assert(err == nil, "the same source parses again")
	var rs []bibtex.Resolver
	var steps []int
	all := []bibtex.Resolver{bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver), bibtex.NewAuthorResolver("author"), bibtex.NewRenderParsedTextResolver()}
	order := [][]int{{}, {0}, {1}, {2}, {0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {0, 1, 2}, {1, 0, 2}, {1, 2, 0}}[sym.Choice(12)]
	for _, k := range order {
		rs = append(rs, all[k])
		steps = append(steps, k)
	}
	es, err := bibtex.New(bibtex.WithResolvers(rs...)).Resolve(f)
	// the same, field by field
	var ts []*ast.TagStmt
	for _, d := range g.Entries {
		if d, ok := d.(*ast.BibDecl); ok {
			ts = append(ts, d.Tags...)
		}
	}
	fail := false
	for _, k := range steps {
		for _, t := range ts {
			s, ok := t.Value.(*ast.ParsedText)
			switch k {
			case 0:
				t.Value = unescaped(t.Value)
			case 1:
				if t.Name != "author" || fail {
					continue
				}
				if !ok {
					fail = true
					continue
				}
				as, err := bibtex.ExtractAuthors(s)
				if err != nil {
					fail = true
					continue
				}
				t.Value = as
			default:
				if !ok || fail {
					continue
				}
				var w strings.Builder
				if err := render.NewTextRenderer().Render(&w, s); err != nil {
					fail = true
					continue
				}
				t.Value = &ast.Text{Value: w.String()}
			}
		}
	}
	if fail {
		sym.Assert(err != nil && len(es) == 0, "a field that cannot be resolved is an error")
		sym.Reach("failed")
		return
	}
	sym.Assert(err == nil, "a file resolves without error")
	i := 0
	for _, d := range g.Entries {
		d, ok := d.(*ast.BibDecl)
		if !ok {
			continue
		}
		sym.Assert(i < len(es), "every entry is resolved")
		for k, t := range d.Tags {
			last := true
			for _, u := range d.Tags[k+1:] {
				last = last && u.Name != t.Name
			}
			if last {
				x, ok := es[i].Tags[t.Name]
				sym.Assert(ok, "an entry has every field")
				sym.Assert(dumpExpr(x) == dumpExpr(t.Value), "the resolvers rewrite the fields of entries")
			}
		}
		i++
	}
	sym.Reach("resolved")
}
