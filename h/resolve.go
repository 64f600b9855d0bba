package h

import (
	"errors"
	gotoken "go/token"
	"io"
	"strconv"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"verif/sym"
)

// C24: resolving.

// entryOf is what a declaration resolves to.
func entryCheck(e bibtex.Entry, d *ast.BibDecl, want *decl) {
	sym.Assert(e.Type == lower(want.typ), "an entry has its type")
	key := ""
	if len(want.keys) > 0 {
		key = want.keys[0].name
	}
	sym.Assert(e.Key == key, "an entry has its key")
	n := 0
	names := make([]string, len(want.fields))
	for i, f := range want.fields {
		names[i] = lower(f.name)
	}
	for i := range want.fields {
		last := true
		for _, g := range names[i+1:] {
			if g == names[i] {
				last = false
			}
		}
		if !last {
			sym.Reach("repeated")
			continue
		}
		n++
		x, ok := e.Tags[names[i]]
		sym.Assert(ok, "an entry has every field")
		sym.Assert(x == d.Tags[i].Value, "the last value of a field is its value")
	}
	sym.Assert(len(e.Tags) == n, "an entry has one value per field name")
}

// declOf writes a declaration of a kind: 0 no key, 1 key, 2 keys, 3 preamble, 4 abbreviation.
func resolveDecl(g *gen, kind, fields, chars int) *decl {
	d := &decl{}
	switch kind {
	case 3:
		g.tok("@preamble{{x}}")
		return nil
	case 4:
		g.tok("@string{s={y}}")
		return nil
	}
	d.typ = symLetters(1)
	g.tok("@" + d.typ)
	g.open(d)
	for i := 0; i < kind; i++ {
		k := symName(1)
		g.tok(k)
		d.keys = append(d.keys, key{name: k})
		if i < kind-1 || fields > 0 {
			g.tok(",")
		}
	}
	for i := 0; i < fields; i++ {
		name := symField(chars)
		noURL(name)
		g.field(d, name, func() *val {
			v := &val{kind: valKinds[i%len(valKinds)], text: strconv.Itoa(i)}
			if v.kind == valKinds[0] {
				v.text = "v" + v.text
			}
			g.write(v)
			return v
		})
		if i < fields-1 {
			g.tok(",")
		}
	}
	g.close(d)
	return d
}

func entriesCheck(es []bibtex.Entry, f *ast.File, ds []*decl) {
	i := 0
	for k, d := range ds {
		if d == nil {
			continue
		}
		sym.Assert(i < len(es), "every entry is resolved")
		n, ok := f.Entries[k].(*ast.BibDecl)
		sym.Assert(ok, "an entry is parsed as one")
		entryCheck(es[i], n, d)
		i++
	}
	sym.Assert(i == len(es), "only entries are resolved")
}

var _ = reg("C24", "File", C24File, "a parsed file of p[0] declarations (preambles, abbreviations, entries without key, with one or two keys of an arbitrary character) with p[1] fields with names of p[2] arbitrary name characters, so that names may be equal in any letter case; every string mode", [][]int{{1, 2, 1}, {2, 1, 1}, {1, 3, 1}, {2, 0, 1}, {1, 2, 2}}, [][]int{{1, 4, 1}, {3, 0, 1}, {2, 2, 1}, {3, 1, 1}, {1, 3, 2}}, "file")

// C24File resolves files.
func C24File(p []int) {
	g := newGen()
	var ds []*decl
	for i := 0; i < p[0]; i++ {
		ds = append(ds, resolveDecl(g, sym.Choice(5), p[1], p[2]))
	}
	resolvesTo(g, ds)
}

func resolvesTo(g *gen, ds []*decl) {
	sym.Observe(string(g.b))
	f, _, err := parse(g.b, strMode())
	sym.Assert(err == nil && len(f.Entries) == len(ds), "a well-formed file parses without error")
	es, err := bibtex.New().Resolve(f)
	sym.Assert(err == nil, "a file resolves without error")
	entriesCheck(es, f, ds)
	sym.Reach("file")
	for i, d := range ds {
		if d == nil {
			continue
		}
		es, err := bibtex.New().Resolve(f.Entries[i])
		sym.Assert(err == nil && len(es) == 1, "an entry resolves to itself")
		entryCheck(es[0], f.Entries[i].(*ast.BibDecl), d)
	}
}

var _ = reg("C24", "Package", C24Package, "a package of p[0] files of up to p[1] declarations each with up to one field with a name of one arbitrary name character", [][]int{{1, 2}, {2, 1}}, [][]int{{2, 2}, {3, 1}}, "package")

// C24Package resolves packages.
func C24Package(p []int) {
	pkg := &ast.Package{Files: map[string]*ast.File{}}
	fset := gotoken.NewFileSet()
	files := make([][]*decl, p[0])
	parsed := make([]*ast.File, p[0])
	total := 0
	for k := range files {
		g := newGen()
		n := sym.Choice(p[1] + 1)
		for i := 0; i < n; i++ {
			d := resolveDecl(g, sym.Choice(5), sym.Choice(2), 1)
			files[k] = append(files[k], d)
			if d != nil {
				total++
			}
		}
		f, err := parser.ParseFile(fset, pkgNames[k], g.b, parser.ParseStrings)
		sym.Assert(err == nil, "a well-formed file parses without error")
		parsed[k] = f
		pkg.Files[pkgNames[k]] = f
	}
	es, err := bibtex.New().Resolve(pkg)
	sym.Assert(err == nil, "a package resolves without error")
	sym.Assert(len(es) == total, "a package has the entries of its files")
	// the files may come in any order, one after the other
	used := make([]bool, len(es))
	for k, ds := range files {
		for i, d := range ds {
			if d == nil {
				continue
			}
			n := parsed[k].Entries[i].(*ast.BibDecl)
			want := entryDump(bibtex.Entry{Type: n.Type, Key: keyOf(n), Tags: tagsOf(n)})
			found := false
			for j := range es {
				if !used[j] && !found && entryDump(es[j]) == want {
					used[j], found = true, true
				}
			}
			sym.Assert(found, "a package has the entries of its files")
		}
	}
	sym.Reach("package")
}

func keyOf(d *ast.BibDecl) string {
	if d.Key == nil {
		return ""
	}
	return d.Key.Name
}

func tagsOf(d *ast.BibDecl) map[string]ast.Expr {
	m := map[string]ast.Expr{}
	for _, t := range d.Tags {
		m[t.Name] = t.Value
	}
	return m
}

// entryDump is an entry of at most one field as text.
func entryDump(e bibtex.Entry) string {
	var sb strings.Builder
	sb.WriteString(e.Type + " " + e.Key + " " + strconv.Itoa(len(e.Tags)))
	for k, v := range e.Tags {
		sb.WriteString(" " + k + "=" + dumpExpr(v))
	}
	return sb.String()
}

var _ = reg("C24", "Other", C24Other, "every kind of node that holds no entries", ps(0, 0), nil, "rejected")

// C24Other: nodes without entries.
func C24Other(p []int) {
	var n ast.Node
	switch sym.Choice(7) {
	case 0:
		n = &ast.PreambleDecl{Text: &ast.Ident{}}
	case 1:
		n = &ast.AbbrevDecl{Tag: &ast.TagStmt{Name: "a", Value: &ast.Ident{}}}
	case 2:
		n = &ast.BadDecl{}
	case 3:
		n = &ast.TagStmt{Name: "a", Value: &ast.Ident{}}
	case 4:
		n = (&astGen{left: 2}).str()
	case 5:
		n = (&astGen{left: 2, chars: 1}).leaf(sym.Choice(numLeaves + numBadLeaves))
	default:
		n = ast.Authors{}
	}
	es, err := bibtex.New().Resolve(n)
	sym.Assert(err != nil, "other nodes are an error")
	sym.Assert(len(es) == 0, "other nodes have no entries")
	sym.Reach("rejected")
}

var _ = reg("C24", "Again", C24Again, "a file of p[0] places that each hold one of two entries or a preamble, alone or in a package under up to two names; entries with up to p[1] places that each hold one of two fields", [][]int{{1, 2}, {2, 2}, {3, 1}}, [][]int{{4, 1}, {2, 3}}, "file", "package")

// C24Again: the same entry, field or file in several places.
func C24Again(p []int) {
	tags := []*ast.TagStmt{{Name: "t", RawName: "t", Value: &ast.Ident{Name: "x"}}, {Name: string([]byte{sym.ASCII()}), Value: &ast.Number{Value: "1"}}}
	ds := []*ast.BibDecl{{Type: "a", Key: &ast.Ident{Name: "k"}}, {Type: "b", Key: &ast.Ident{Name: "k"}}}
	for _, d := range ds {
		for j := sym.Choice(p[1] + 1); j > 0; j-- {
			d.Tags = append(d.Tags, tags[sym.Choice(2)])
		}
	}
	f := &ast.File{}
	var want []*ast.BibDecl
	for i := 0; i < p[0]; i++ {
		k := sym.Choice(3)
		if k == 2 {
			f.Entries = append(f.Entries, &ast.PreambleDecl{Text: &ast.Ident{}})
			continue
		}
		f.Entries = append(f.Entries, ds[k])
		want = append(want, ds[k])
	}
	var root ast.Node = f
	if n := sym.Choice(3); n > 0 {
		root = &ast.Package{Files: map[string]*ast.File{"x": f}}
		if n == 2 {
			root.(*ast.Package).Files["y"] = f
			want = append(want, want...)
		}
		sym.Reach("package")
	} else {
		sym.Reach("file")
	}
	es, err := bibtex.New().Resolve(root)
	sym.Assert(err == nil, "a file resolves without error")
	sym.Assert(len(es) == len(want), "there is an entry for every place that holds one")
	for i, e := range es {
		tags := tagsOf(want[i])
		sym.Assert(e.Type == want[i].Type && e.Key == "k" && len(e.Tags) == len(tags), "entries are in order")
		for k, v := range tags {
			x, ok := e.Tags[k]
			sym.Assert(ok && dumpExpr(x) == dumpExpr(v), "an entry has its fields")
		}
	}
}

// C25: order of resolvers and options.

var errResolve = errors.New("resolver failure")

var _ = reg("C25", "Order", C25Order, "p[0] resolvers given in any grouping by options, between other options, any of them failing (with any of 5 errors if there are less than 4) or none, on a file, entry or package", ps(0, 4), ps(5, 6), "failed", "resolved")

// C25Order: resolvers run in order and the first failure aborts.
func C25Order(p []int) {
	n := p[0]
	failed := errResolve
	if n < 4 {
		failed = failure(errResolve)
	}
	fails := make([]bool, n)
	var calls []int
	var nodes []ast.Node
	d := &ast.BibDecl{Type: "a", Key: &ast.Ident{Name: "k"}, Tags: []*ast.TagStmt{{Name: "t", Value: &ast.Ident{Name: "x"}}}}
	f := &ast.File{Entries: []ast.Decl{d}}
	var root ast.Node = f
	switch sym.Choice(3) {
	case 1:
		root = d
	case 2:
		root = &ast.Package{Files: map[string]*ast.File{"a": f}}
	}
	var opts []bibtex.Option
	var group []bibtex.Resolver
	first := -1
	for i := 0; i < n; i++ {
		i := i
		fails[i] = sym.Bool()
		group = append(group, bibtex.ResolverFunc(func(x ast.Node) error {
			calls = append(calls, i)
			nodes = append(nodes, x)
			// what a resolver changes is seen by later ones and in the entries
			sym.Assert(d.Tags[0].Value.(*ast.Ident).Name == "x"+strings.Repeat("i", i), "resolvers work on the same tree")
			d.Tags[0].Value = &ast.Ident{Name: "x" + strings.Repeat("i", i+1)}
			if fails[i] {
				return failed
			}
			return nil
		}))
		if sym.Choice(2) == 1 {
			opts = append(opts, bibtex.WithResolvers(group...))
			group = nil
			if sym.Choice(2) == 1 {
				opts = append(opts, bibtex.WithParserMode(0), bibtex.WithResolvers())
			}
		}
	}
	opts = append(opts, bibtex.WithResolvers(group...))
	es, err := bibtex.New(opts...).Resolve(root)
	for i := 0; i < n; i++ {
		if fails[i] {
			first = i
			break
		}
	}
	ran := n
	if first >= 0 {
		ran = first + 1
		sym.Assert(err != nil && errors.Is(err, failed), "the first failure is returned")
		sym.Assert(len(es) == 0, "no entries are returned after a failure")
		sym.Reach("failed")
	} else {
		sym.Assert(err == nil, "without failure there is no error")
		sym.Assert(len(es) == 1 && es[0].Key == "k", "the entries are built")
		x, ok := es[0].Tags["t"].(*ast.Ident)
		sym.Assert(ok && x.Name == "x"+strings.Repeat("i", n), "entries are built after the resolvers ran")
		sym.Reach("resolved")
	}
	sym.Assert(len(calls) == ran, "every resolver runs once, up to the first failure")
	for i, c := range calls {
		sym.Assert(c == i, "resolvers run in the order given")
		sym.Assert(nodes[i] == root, "resolvers get the tree")
	}
}

var _ = reg("C25", "Mode", C25Mode, "up to p[0] parser mode options with any flags among other options; the instance used twice", ps(0, 2), ps(3, 4), "strings", "verbatim")

// C25Mode: the last parser mode wins.
func C25Mode(p []int) {
	mode := parser.ParseStrings
	var opts []bibtex.Option
	for i := 0; i < p[0]; i++ {
		if sym.Choice(2) == 1 {
			opts = append(opts, bibtex.WithResolvers(bibtex.ResolverFunc(func(ast.Node) error { return nil })))
		}
		mode = anyMode()
		opts = append(opts, bibtex.WithParserMode(mode))
	}
	b := bibtex.New(opts...)
	for i := 0; i < 2; i++ {
		r := strings.NewReader("%c\n@a{k,t={x}}")
		f, err := b.Parse(io.Reader(r))
		sym.Assert(err == nil, "a well-formed file parses without error")
		_, parsed := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.ParsedText)
		sym.Assert(parsed == (mode&parser.ParseStrings != 0), "the last parser mode is used")
		if parsed {
			sym.Reach("strings")
		} else {
			sym.Reach("verbatim")
		}
	}
}

var _ = reg("C25", "Instances", C25Instances, "3 instances made of any of p[0] shared options (resolvers out of a slice with room for more, parser modes, renderers) and a resolver of their own, used in any order", ps(2, 3), ps(4, 4), "used")

// C25Instances: options of one instance do not affect another.
func C25Instances(p []int) {
	var count [4]int
	var own [3]int
	given := make([]bibtex.Resolver, 1, 4) // with room for more
	given[0] = bibtex.ResolverFunc(func(ast.Node) error { count[0]++; return nil })
	shared := []bibtex.Option{
		bibtex.WithResolvers(given...),
		bibtex.WithRenderer(ast.KindText, func(w io.Writer, n ast.Node, e bool) (ast.WalkStatus, error) {
			count[1]++
			return ast.WalkContinue, nil
		}),
		bibtex.WithParserMode(0),
		bibtex.WithResolvers(bibtex.ResolverFunc(func(ast.Node) error { count[3]++; return nil })),
	}
	var bs []*bibtex.Biber
	var has [3][4]bool
	for i := 0; i < 3; i++ {
		var opts []bibtex.Option
		for k := 0; k < p[0]; k++ {
			if sym.Choice(2) == 1 {
				has[i][k] = true
				opts = append(opts, shared[k])
			}
			if k == 0 {
				i := i
				opts = append(opts, bibtex.WithResolvers(bibtex.ResolverFunc(func(ast.Node) error { own[i]++; return nil })))
			}
		}
		bs = append(bs, bibtex.New(opts...))
	}
	start := sym.Choice(3)
	for j := 0; j < 3; j++ {
		i := (start + j) % 3
		b := bs[i]
		count, own = [4]int{}, [3]int{}
		f, err := b.Parse(strings.NewReader("@a{k,t={x}}"))
		sym.Assert(err == nil, "a well-formed file parses without error")
		_, parsed := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.ParsedText)
		sym.Assert(parsed == !has[i][2], "an instance has the parser mode of its options")
		_, err = b.Resolve(f)
		sym.Assert(err == nil, "a file resolves without error")
		sym.Assert((count[0] == 1) == has[i][0] && (count[0] == 0) == !has[i][0], "an instance has the resolvers of its options")
		for k := range own {
			sym.Assert((own[k] == 1) == (k == i) && own[k] <= 1, "an instance has the resolvers of its options")
		}
		sym.Assert((count[3] == 1) == has[i][3] && (count[3] == 0) == !has[i][3], "an instance has the resolvers of its options")
		var w strings.Builder
		err = b.Render(&w, &ast.Text{Value: "y"})
		sym.Assert(err == nil, "text renders without error")
		if has[i][1] {
			sym.Assert(count[1] == 2 && w.String() == "", "an instance has the renderers of its options")
		} else {
			sym.Assert(count[1] == 0 && w.String() == "y", "an instance has the renderers of its options")
		}
	}
	sym.Reach("used")
}
