package h

import (
	gotoken "go/token"
	"strconv"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"verif/sym"
)

// C42: a record comes back from its source.

// record is an entry to write.
type record struct {
	typ, key string
	fields   []recField
}

// recField is a field: persons, a text, or another value.
type recField struct {
	name    string
	persons [][4]string
	value   string // what dumpExpr gives otherwise
}

// style is how a record is written.
type style struct {
	typ, cas      int
	open, close   string
	gap, quote    string
	comma, editor bool
	and           string
}

var styles = []style{
	{0, 0, "{", "}", "", "{", false, false, " and "},
	{1, 1, "(", ")", " ", "\"", true, true, "\n  and\t"},
	{2, 2, "{", "}", "\n  ", "\"", true, false, " and "},
	{0, 1, "(", ")", "", "{", true, false, "  and\n"},
	{1, 2, "{", "}", " ", "{", false, true, " and "},
}

// somePerson writes a name in one of the three forms.
func somePerson(chars int, kinds int) (string, [4]string) {
	w := func() word { return nameWord(sym.Choice(kinds), chars) }
	switch sym.Choice(5) {
	case 0: // Last
		l := w()
		return l.src, [4]string{"", "", l.text, ""}
	case 1: // First von Last
		f, v, l := nameWord(0, chars), nameWord(1, chars), w()
		return f.src + gaps() + v.src + " " + l.src, [4]string{f.text, v.text, l.text, ""}
	case 2: // Last, First
		l, f := w(), w()
		return l.src + commaSpace() + f.src, [4]string{f.text, "", l.text, ""}
	case 3: // von Last, Jr, First
		v, l, j, f := nameWord(1, 0), w(), nameWord(0, 1), nameWord(0, chars)
		return v.src + " " + l.src + ", " + j.src + "," + f.src, [4]string{f.text, v.text, l.text, j.text}
	default:
		return "others", [4]string{"", "", "others", ""}
	}
}

// someText writes a piece of text.
func someText() (src, text string) {
	switch sym.Choice(10) {
	case 0:
		s := string([]byte{plainByte()})
		return s, s
	case 1:
		return []string{" ", "\n\t", "~"}[sym.Choice(3)], " "
	case 2:
		return ",", ","
	case 3:
		c := sym.ASCII()
		sym.Assume(c == '\\' || c == '$' || c == '&' || c == '%' || c == '{' || c == '}' || c == '_')
		return "\\" + string([]byte{c}), string([]byte{c})
	case 4:
		return []string{"\\'e", "\\'{e}", "{\\'e}", "{\\'{e}}"}[sym.Choice(4)], "é"
	case 5:
		return "\\\"{O}{\\c c}", "Öç"
	case 6:
		s := string([]byte{plainByte()})
		return "$" + s + " \\alpha$", "$" + s + " \\alpha$"
	case 7:
		s := string([]byte{plainByte()})
		return "{" + s + "{B, c}}", s + "B, c"
	case 8:
		return "\\url{a.b/~c}", "a.b/~c"
	default:
		return "ü—1--2", "ü—1--2"
	}
}

func textDump(s string) string { return dumpExpr(&ast.Text{Value: s}) }

// field writes the value of the field.
func (st style) field(kind, n, chars, kinds int) (src string, f recField) {
	q, r := st.quote, st.quote
	if q == "{" {
		r = "}"
	}
	switch kind {
	case 0:
		var ss []string
		for i := 0; i < n; i++ {
			s, p := somePerson(chars, kinds)
			ss = append(ss, s)
			f.persons = append(f.persons, p)
		}
		f.name = "author"
		if st.editor {
			f.name = "editor"
		}
		return q + strings.Join(ss, st.and) + r, f
	case 1:
		s, t := "", ""
		for i := 0; i < n; i++ {
			a, b := someText()
			s, t = s+a, t+b
			if b == " " { // a run of white space is one space
				s, t = s+"x", t+"x"
			}
		}
		f.name = "title"
		f.value = textDump(t)
		return q + s + r, f
	case 2:
		c := string([]byte{plainByte()})
		s := "http://a.b/~c?d," + c
		f.name = "url"
		f.value = textDump(s)
		return q + s + r, f
	case 3:
		s := string([]byte{digit(), digit()})
		f.name = "year"
		f.value = dumpExpr(&ast.Number{Value: s})
		return s, f
	default:
		s := string([]byte{letter(), letter()})
		f.name = "month"
		f.value = dumpExpr(&ast.Ident{Name: s})
		return s, f
	}
}

// recase writes a name in lower, upper or mixed case.
func (st style) recase(s string) string {
	switch st.cas {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

// someRecord writes a record with the given fields.
func someRecord(kinds []int, n, chars, words int) (string, record) {
	st := styles[sym.Choice(len(styles))]
	r := record{typ: []string{"article", "inproceedings", "b"}[st.typ], key: symName(2)}
	gap := st.gap
	s := "@" + st.recase(r.typ) + gap + st.open + r.key
	for _, k := range kinds {
		v, f := st.field(k, n, chars, words)
		s += "," + gap + st.recase(f.name) + gap + "=" + gap + v
		r.fields = append(r.fields, f)
	}
	if st.comma {
		s += ","
	}
	return s + gap + st.close + "\n", r
}

func (r record) check(e bibtex.Entry) {
	sym.Assert(e.Type == r.typ, "a record has its type")
	sym.Assert(e.Key == r.key, "a record has its key")
	last := map[string]recField{}
	for _, f := range r.fields {
		last[f.name] = f
	}
	sym.Assert(len(e.Tags) == len(last), "a record has its fields")
	for name, f := range last {
		x, ok := e.Tags[name]
		sym.Assert(ok, "a record has its fields")
		if f.persons == nil {
			sym.Assert(dumpExpr(x) == f.value, "a field has its value")
			continue
		}
		as, ok := x.(ast.Authors)
		sym.Assert(ok && len(as) == len(f.persons), "a list of names has its names")
		for i, a := range as {
			w := f.persons[i]
			sym.Assert(part(a.First) == w[0] && part(a.Prefix) == w[1] && part(a.Last) == w[2] && part(a.Suffix) == w[3], "a name has its parts")
			sym.Assert(a.IsOthers() == (w == [4]string{"", "", "others", ""}), "a name stands for others exactly if it is others")
		}
		sym.Reach("names")
	}
	sym.Reach("record")
}

func readRecords(src string, rs []record) {
	sym.Observe(src)
	bib := bibtex.New(bibtex.WithParserMode(parser.ParseStrings|parser.ParseComments), bibtex.WithResolvers(
		bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver),
		bibtex.NewAuthorResolver("author", "editor"),
		bibtex.NewRenderParsedTextResolver()))
	f, err := bib.Parse(strings.NewReader(src))
	sym.Observe(errText(err))
	sym.Assert(err == nil, "records parse without error")
	es, err := bib.Resolve(f)
	sym.Observe(errText(err))
	sym.Assert(err == nil, "records resolve without error")
	sym.Assert(len(es) == len(rs), "every record is an entry")
	for i, r := range rs {
		r.check(es[i])
	}
}

var recordKinds = [][]int{{0}, {1}, {2, 0}, {3, 1}, {1, 4, 0}}

var _ = reg("C42", "Record", C42Record, "a record of any type out of 3, a key of two arbitrary characters, one of the first p[3] combinations of names, text, url, number and abbreviation fields with p[0] names or pieces of text each, words of any of p[2] kinds with p[1] more arbitrary characters; names of types and fields in any case, both delimiters, quotes or braces and three layouts in 5 combinations; with the three resolvers", [][]int{{1, 0, 12, 2}, {2, 0, 1, 2}, {1, 1, 2, 5}}, [][]int{{1, 2, 12, 5}, {2, 0, 3, 2}, {3, 0, 1, 2}, {2, 1, 2, 5}}, "record", "names")

// C42Record: one record.
func C42Record(p []int) {
	s, r := someRecord(recordKinds[sym.Choice(p[3])], p[0], p[1], p[2])
	readRecords(s, []record{r})
}

var _ = reg("C42", "Records", C42Records, "p[0] records of which the first, middle or last has p[1] names or pieces of text, with a comment, an abbreviation, a preamble or nothing before each", [][]int{{2, 1}, {5, 1}}, [][]int{{3, 2}, {40, 1}}, "record", "names")

// C42Records: several records.
func C42Records(p []int) {
	at := []int{0, p[0] / 2, p[0] - 1}[sym.Choice(3)]
	k := sym.Choice(2)
	pre := []string{"", "% x @a{\n", "@string{s = {a, b} # c}\n", "@preamble{\"x\"}\n"}[sym.Choice(4)]
	src := ""
	var rs []record
	for i := 0; i < p[0]; i++ {
		src += pre
		if i == at {
			s, r := someRecord([]int{k}, p[1], 0, 2)
			src += s
			rs = append(rs, r)
			continue
		}
		n := strconv.Itoa(i)
		src += "@Book{k" + n + ", author = {A B and C, D}, title = {{X} " + n + "\\&}, year = " + n + "}\n"
		rs = append(rs, record{"book", "k" + n, []recField{
			{name: "author", persons: [][4]string{{"A", "", "B", ""}, {"D", "", "C", ""}}},
			{name: "title", value: textDump("X " + n + "&")},
			{name: "year", value: dumpExpr(&ast.Number{Value: n})},
		}})
	}
	readRecords(src, rs)
}

// C43: results are independent of each other.

// spoil overwrites everything of a tree.
func spoil(x ast.Expr) {
	bad := func(xs []ast.Expr) {
		for i := range xs {
			spoil(xs[i])
			xs[i] = nil
		}
	}
	text := func(t *ast.Text) {
		if t != nil {
			t.Value, t.ValuePos = "!", 0
		}
	}
	switch x := x.(type) {
	case *ast.Ident:
		x.Name, x.NamePos, x.Obj = "!", 0, nil
	case *ast.Number:
		x.Value, x.ValuePos = "!", 0
	case ast.Authors:
		for i, a := range x {
			spoil(a)
			x[i] = nil
		}
	case *ast.Author:
		spoil(x.First)
		spoil(x.Prefix)
		spoil(x.Last)
		spoil(x.Suffix)
		*x = ast.Author{}
	case *ast.UnparsedText:
		x.Value, x.ValuePos, x.Type = "!", 0, 0
	case *ast.ParsedText:
		bad(x.Values)
		x.Values, x.Opener, x.Closer, x.Depth = append(x.Values, nil, nil), 0, 0, -1
	case *ast.Text:
		text(x)
	case *ast.TextComma:
		x.ValuePos = 0
	case *ast.TextEscaped:
		x.ValuePos, x.Value = 0, "!"
	case *ast.TextHyphen:
		x.ValuePos = 0
	case *ast.TextMath:
		x.ValuePos, x.Value = 0, "!"
	case *ast.TextNBSP:
		x.ValuePos = 0
	case *ast.TextSpace:
		x.ValuePos, x.Value = 0, "!"
	case *ast.TextAccent:
		text(x.Text)
		x.ValuePos, x.Accent = 0, 0
	case *ast.TextMacro:
		bad(x.Values)
		x.Cmd, x.Name, x.RBrace, x.Values = 0, "!", 0, append(x.Values, nil)
	case *ast.ConcatExpr:
		spoil(x.X)
		spoil(x.Y)
		x.X, x.Y, x.OpPos = nil, nil, 0
	case *ast.BadExpr:
		x.From, x.To = 0, 0
	}
}

func spoilComments(g *ast.TexCommentGroup) {
	if g == nil {
		return
	}
	for i, c := range g.List {
		if c != nil {
			c.Text, c.Start = "!", 0
		}
		g.List[i] = nil
	}
	g.List = append(g.List, nil)
}

func spoilTag(t *ast.TagStmt) {
	spoilComments(t.Doc)
	spoil(t.Value)
	*t = ast.TagStmt{Name: "!"}
}

func spoilFile(f *ast.File) {
	for i, d := range f.Entries {
		switch d := d.(type) {
		case *ast.BibDecl:
			spoilComments(d.Doc)
			if d.Key != nil {
				spoil(d.Key)
			}
			for _, k := range d.ExtraKeys {
				spoil(k)
			}
			for j, t := range d.Tags {
				spoilTag(t)
				d.Tags[j] = nil
			}
			d.Tags, d.ExtraKeys = append(d.Tags, nil), append(d.ExtraKeys, nil)
			d.Type, d.Entry, d.RBrace = "!", 0, 0
		case *ast.AbbrevDecl:
			spoilComments(d.Doc)
			spoilTag(d.Tag)
			*d = ast.AbbrevDecl{}
		case *ast.PreambleDecl:
			spoilComments(d.Doc)
			spoil(d.Text)
			*d = ast.PreambleDecl{}
		case *ast.BadDecl:
			*d = ast.BadDecl{}
		}
		f.Entries[i] = nil
	}
	spoilComments(f.Doc)
	for i, g := range f.Comments {
		spoilComments(g)
		f.Comments[i] = nil
	}
	f.Entries, f.Comments, f.Unresolved = append(f.Entries, nil), append(f.Comments, nil), append(f.Unresolved, nil)
	if f.Scope != nil {
		f.Scope.Insert(&ast.Object{Kind: ast.Abbrev, Name: "s"})
		f.Scope.Insert(&ast.Object{Kind: ast.Abbrev, Name: "k"})
	}
	f.Name = "!"
}

func scopeDump(f *ast.File) string {
	if f == nil || f.Scope == nil {
		return ""
	}
	return strconv.Itoa(len(f.Scope.Objects)) + " " + strconv.Itoa(len(f.Unresolved))
}

// apart parses a source twice and spoils one of the trees.
func apart(src, src2 []byte) {
	mode := strMode() | parser.ParseComments
	fset := gotoken.NewFileSet()
	keep := append([]byte(nil), src...)
	f1, err1 := parser.ParseFile(fset, fileName, src, mode)
	one := historyOutcome(f1, err1, 1) + scopeDump(f1)
	sym.Observe(one)
	for i := range src { // the source is the caller's
		src[i] = '!'
	}
	sym.Assert(historyOutcome(f1, err1, 1)+scopeDump(f1) == one, "a tree does not depend on the source any more")
	base := fset.Base()
	f2, err2 := parser.ParseFile(fset, fileName, src2, mode)
	two := historyOutcome(f2, err2, base) + scopeDump(f2)
	spoilFile(f1)
	sym.Assert(historyOutcome(f2, err2, base)+scopeDump(f2) == two, "trees share nothing that can be changed")
	base = fset.Base()
	f3, err3 := parser.ParseFile(fset, fileName, keep, mode)
	sym.Assert(historyOutcome(f3, err3, base)+scopeDump(f3) == one, "changing a tree does not change how sources are parsed")
	spoilFile(f2)
	sym.Assert(historyOutcome(f3, err3, base)+scopeDump(f3) == one, "trees share nothing that can be changed")
	sym.Reach("trees")
}

var _ = reg("C43", "Trees", C43Trees, "a source of one of 8 openings, p[0] arbitrary bytes and a matching end, parsed in any string mode, then overwritten; then one of 6 other sources; then the first one again; all fields of the first and second tree overwritten", ps(0, 2), ps(3, 3), "trees")

// C43Trees: trees of short sources.
func C43Trees(p []int) {
	a := histSource(p[0])
	sym.Observe(string(a))
	b := append([]string{string(a), "@a(1,2,t = 1 # b # \"c\")"}, others...)[sym.Choice(2+len(others))]
	apart(a, []byte(b))
}

var _ = reg("C43", "Pieces", C43Pieces, "a quoted or braced string of p[0] pieces out of text, Latin letters, space, comma, tie, math, escape, bare, braced and spaced accent, macro, url macro, group and nested groups with arbitrary characters, parsed twice", ps(1, 1), ps(2, 2), "trees")

// C43Pieces: trees of all kinds of strings.
func C43Pieces(p []int) {
	a := append(append([]byte("%c\n@a{k,t="), quoted(pieces(p[0]))...), '}')
	sym.Observe(string(a))
	apart(a, append([]byte(nil), a...))
}

// distinct collects the nodes of an expression.
func nodesOf(x ast.Expr) (ns []ast.Expr) {
	ns = append(ns, x)
	switch x := x.(type) {
	case *ast.ParsedText:
		for _, v := range x.Values {
			ns = append(ns, nodesOf(v)...)
		}
	case *ast.TextMacro:
		for _, v := range x.Values {
			ns = append(ns, nodesOf(v)...)
		}
	case *ast.ConcatExpr:
		ns = append(append(ns, nodesOf(x.X)...), nodesOf(x.Y)...)
	case *ast.TextAccent:
		ns = append(ns, x.Text)
	}
	return ns
}

var _ = reg("C43", "Nodes", C43Nodes, "a value of p[0] pieces and of p[1] operands with p[0] pieces each", [][]int{{1, 1}, {2, 1}, {1, 2}}, [][]int{{3, 1}, {2, 2}}, "nodes")

// C43Nodes: nodes of a tree are different objects.
func C43Nodes(p []int) {
	var b []byte
	for i := 0; i < p[1]; i++ {
		if i > 0 {
			b = append(b, '#')
		}
		b = append(b, quoted(pieces(p[0]))...)
	}
	sym.Observe(string(b))
	x, err := parser.ParseExpr(string(b))
	if err != nil {
		return
	}
	ns := nodesOf(x)
	for i, n := range ns {
		for _, m := range ns[:i] {
			sym.Assert(n != m, "nodes of a tree are different objects")
		}
	}
	sym.Reach("nodes")
}

var _ = reg("C43", "Entries", C43Entries, "two entries of one field of one of 6 openings with p[0] arbitrary bytes, or of none or two fields, resolved twice with or without resolvers; the fields of the first result overwritten; with the same or another instance", ps(0, 1), ps(2, 2), "entries")

// C43Entries: entries do not share their fields.
func C43Entries(p []int) {
	var a []byte
	if k := sym.Choice(4); k == 0 {
		a = runSource(p[0])
	} else {
		a = []byte([]string{"@a{k}", "@a{}", "@a{k,l, t=1, T=2}"}[k-1])
	}
	sym.Observe(string(a))
	src := string(a) + "\n" + string(a)
	f, _, err := parse([]byte(src), parser.ParseStrings)
	if err != nil {
		return
	}
	mk := func() *bibtex.Biber { return bibtex.New() }
	if sym.Choice(2) == 1 {
		mk = func() *bibtex.Biber {
			return bibtex.New(bibtex.WithResolvers(bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver), bibtex.NewRenderParsedTextResolver()))
		}
	}
	b1 := mk()
	b2 := b1
	if sym.Choice(2) == 1 {
		b2 = mk()
	}
	es1, err := b1.Resolve(f)
	if err != nil {
		return
	}
	es2, err := b2.Resolve(f)
	sym.Assert(err == nil && len(es1) == len(es2), "resolving again gives as many entries")
	var want []string
	for i := range es1 {
		sym.Assert(entryDump(es1[i]) == entryDump(es2[i]), "resolving again gives the same entries")
		want = append(want, entryDump(es2[i]))
	}
	tree := dumpFile(f, 1)
	for i := range es1 {
		e := &es1[i]
		for n := range e.Tags {
			e.Tags[n] = nil
		}
		e.Tags["new"] = &ast.Number{Value: "1"}
		e.Key, e.Type = "!", "!"
		for j := range es2 {
			sym.Assert(entryDump(es2[j]) == want[j], "entries share no fields")
		}
		for j := i + 1; j < len(es1); j++ {
			sym.Assert(entryDump(es1[j]) == want[j], "entries share no fields")
		}
	}
	sym.Assert(dumpFile(f, 1) == tree, "changing an entry does not change the tree")
	sym.Reach("entries")
}

var _ = reg("C43", "Authors", C43Authors, "the authors of a braced list of p[0] pieces", ps(1, 1), ps(2, 2), "authors")

// C43Authors: authors share nothing with their source.
func C43Authors(p []int) {
	src := "{A " + string(pieces(p[0])) + "b and C, D}"
	sym.Observe(src)
	x, err := parser.ParseExpr(src)
	if err != nil {
		return
	}
	txt := x.(*ast.ParsedText)
	as, err := bibtex.ExtractAuthors(txt)
	if err != nil {
		return
	}
	bs, err := bibtex.ExtractAuthors(txt)
	sym.Assert(err == nil, "authors are extracted again")
	want := dumpExpr(bs)
	sym.Assert(dumpExpr(as) == want, "the same authors are extracted again")
	tree := dumpExpr(x)
	spoil(as)
	sym.Assert(dumpExpr(x) == tree, "changing authors does not change the tree")
	sym.Assert(dumpExpr(bs) == want, "lists of authors share nothing that can be changed")
	spoil(x)
	sym.Assert(dumpExpr(bs) == want, "changing the tree does not change authors")
	sym.Reach("authors")
}
