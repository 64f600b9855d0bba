package h

import (
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"verif/sym"
)

// C16: comments and documentation.

// item is a token or a comment of a generated file.
type item struct {
	text    string
	off     int
	line    int
	comment bool
}

// commentFile writes tokens with layout in the gaps and keeps its items.
type commentFile struct {
	b     []byte
	line  int
	items []item
}

func (f *commentFile) space(c byte) {
	f.b = append(f.b, c)
	if c == '\n' {
		f.line++
	}
}

func (f *commentFile) item(s string, comment bool) {
	f.items = append(f.items, item{s, len(f.b), f.line, comment})
	f.b = append(f.b, s...)
}

// layout is n pieces of layout, any of which may be a comment.
func (f *commentFile) layout(n, chars int) {
	for i := 0; i < n; i++ {
		switch sym.Choice(3) {
		case 0:
			c := sym.ASCII()
			sym.Assume(c == ' ' || c == '\t' || c == '\r')
			f.space(c)
		case 1:
			f.space('\n')
		default:
			b := []byte{'%'}
			for k := 0; k < chars; k++ {
				c := sym.ASCII()
				sym.Assume(c != '\n' && c != 0)
				b = append(b, c)
			}
			f.item(string(b), true)
			f.space('\n')
		}
	}
}

// commentDecls are the tokens of a file; a token that begins a declaration is
// marked D, one that begins a field F.
var commentDecls = [][]string{
	{"D@a", "{", "k", ",", "Ft", "=", "1", ",", "Fu", "=", "{x}", "}"},
	{"D@string", "{", "Fs", "=", "\"x%y\"", "}", "D@b", "(", "k", ")"},
	{"D@preamble", "{", "{x}", "#", "\"y\"", "}", "D@c", "{", "Ft", "=", "x", ",", "}"},
	{"D@a", "{", "k", ",", "j", ",", "Ft", "=", "\"a\"", "#", "b", "}"},
}

// check decides the comments of a parsed file.
func (f *commentFile) check(marks []byte, mode parser.Mode) {
	sym.Observe(string(f.b))
	file, _, err := parse(f.b, mode|parser.ParseComments)
	sym.Observe(errText(err))
	sym.Assert(err == nil, "a well-formed file parses without error")

	// the expected groups, and the documentation of every token
	type group struct{ items []item }
	var groups []group
	lead := make([]int, 0, len(f.items)) // per token: group index or -1
	last := -1                           // lead candidate
	prevLine := 0
	fresh := true // the next comment begins a group
	for _, x := range f.items {
		if !x.comment {
			l := -1
			if last >= 0 {
				g := groups[last].items
				if g[len(g)-1].line+1 == x.line {
					l = last
				}
			}
			lead = append(lead, l)
			last, fresh, prevLine = -1, true, x.line
			continue
		}
		if x.line == prevLine {
			// shares its line with a token: a group of its own
			groups = append(groups, group{[]item{x}})
			last, fresh = -1, true
			continue
		}
		if n := len(groups); !fresh {
			g := &groups[n-1]
			if x.line == g.items[len(g.items)-1].line+1 {
				g.items = append(g.items, x)
				continue
			}
		}
		groups = append(groups, group{[]item{x}})
		last, fresh = len(groups)-1, false
	}

	same := func(a *ast.TexCommentGroup, g group) {
		sym.Assert(a != nil && len(a.List) == len(g.items), "a group holds the adjacent comments")
		for i, c := range a.List {
			sym.Assert(int(c.Start)-1 == g.items[i].off, "a comment is at its first character")
			sym.Assert(c.Text == g.items[i].text, "a comment is verbatim")
		}
	}
	sym.Assert(len(file.Comments) == len(groups), "every comment group is kept once")
	for i, g := range groups {
		same(file.Comments[i], g)
	}
	doc := func(a *ast.TexCommentGroup, l int) {
		if l < 0 {
			sym.Assert(a == nil, "no documentation without a group directly above")
			return
		}
		sym.Reach("doc")
		same(a, groups[l])
	}
	d, t := -1, 0
	doc(file.Doc, lead[0])
	var fields []*ast.TagStmt
	for i, m := range marks {
		switch m {
		case 'D':
			d++
			sym.Assert(d < len(file.Entries), "all declarations are found")
			fields, t = nil, 0
			switch x := file.Entries[d].(type) {
			case *ast.BibDecl:
				doc(x.Doc, lead[i])
				fields = x.Tags
			case *ast.AbbrevDecl:
				doc(x.Doc, lead[i])
				fields = []*ast.TagStmt{x.Tag}
			case *ast.PreambleDecl:
				doc(x.Doc, lead[i])
			default:
				sym.Assert(false, "a declaration is parsed")
			}
		case 'F':
			sym.Assert(t < len(fields), "all fields are found")
			doc(fields[t].Doc, lead[i])
			t++
		}
	}
	sym.Reach("checked")
}

// commentRun writes one of the files with layout from gap.
func commentRun(ts []string, gap func(*commentFile, int), mode parser.Mode) {
	f := &commentFile{line: 1}
	var marks []byte
	for i, s := range ts {
		gap(f, i)
		m := byte(0)
		if s[0] == 'D' || s[0] == 'F' {
			m, s = s[0], s[1:]
		}
		marks = append(marks, m)
		f.item(s, false)
	}
	gap(f, len(ts))
	f.check(marks, mode)
}

var _ = reg("C16", "OneGap", C16OneGap, "4 files; p[0] pieces of layout (space, tab or return; newline; comment of p[1] arbitrary ASCII characters) at any one position between tokens, every string mode", [][]int{{1, 1}, {2, 2}, {3, 1}, {4, 0}}, [][]int{{4, 2}, {5, 1}, {6, 0}}, "checked", "doc")

// C16OneGap: comments in one place.
func C16OneGap(p []int) {
	ts := commentDecls[sym.Choice(len(commentDecls))]
	at := sym.Choice(len(ts) + 1)
	commentRun(ts, func(f *commentFile, i int) {
		if i == at {
			f.layout(p[0], p[1])
		}
	}, strMode())
}

var _ = reg("C16", "TwoGaps", C16TwoGaps, "4 files; p[0] pieces of layout (space, tab or return; newline; comment of one arbitrary ASCII character) at one position and p[1] pieces at a later one", [][]int{{1, 1}, {1, 2}, {2, 2}}, [][]int{{3, 1}, {3, 2}, {4, 1}}, "checked", "doc")

// C16TwoGaps: comments in two places.
func C16TwoGaps(p []int) {
	ts := commentDecls[sym.Choice(len(commentDecls))]
	i := sym.Choice(len(ts))
	j := i + 1 + sym.Choice(len(ts)-i)
	commentRun(ts, func(f *commentFile, k int) {
		if k == i {
			f.layout(p[0], 1)
		}
		if k == j {
			f.layout(p[1], 1)
		}
	}, 0)
}
