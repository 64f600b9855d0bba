package h

import (
	"bytes"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"verif/sym"
)

// C30: url fields.

// urlByte is any character of a URL.
func urlByte() byte {
	c := sym.ASCII()
	sym.Assume(c > ' ' && c < 0x7f && c != '"' && c != '{' && c != '}' && c != '\\' && c != '<' && c != '>' && c != '^' && c != '`' && c != '|')
	return c
}

// urlText is n characters of a URL with an even number of dollar signs.
func urlText(n int) string {
	b := make([]byte, n)
	d := 0
	for i := range b {
		b[i] = urlByte()
		if b[i] == '$' {
			d++
		}
	}
	sym.Assume(d%2 == 0)
	return string(b)
}

// urlField checks the resolved value of url = u.
func urlField(u string, form int) {
	w := u
	if form&1 != 0 {
		w = "\\url{" + w + "}"
	}
	if form&2 != 0 {
		w = "\"" + w + "\""
	} else {
		w = "{" + w + "}"
	}
	src := "@a{k,t=1," + anyCaseWord("url") + " = " + w
	switch form >> 2 {
	case 1:
		src += ","
	case 2:
		src += ", n = {x}"
	}
	src += "}\n"
	sym.Observe(src)
	b := bibtex.New(bibtex.WithResolvers(bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver), bibtex.NewRenderParsedTextResolver()))
	f, err := b.Parse(bytes.NewBufferString(src))
	sym.Observe(errText(err))
	sym.Assert(err == nil, "a url field parses without error")
	es, err := b.Resolve(f)
	sym.Assert(err == nil && len(es) == 1, "a url field resolves without error")
	t, ok := es[0].Tags["url"].(*ast.Text)
	sym.Assert(ok, "a url field resolves to text")
	sym.Observe(t.Value)
	sym.Assert(t.Value == u, "a url field keeps its characters")
	sym.Reach("url")
}

var _ = reg("C30", "URL", C30URL, "a url of p[0] arbitrary URL characters (dollar signs in pairs), in quotes or braces, bare or in a url macro, last with or without comma or before another field, any letter case of the field name", ps(0, 5), ps(6, 8), "url")

// C30URL: short urls.
func C30URL(p []int) { urlField(urlText(p[0]), sym.Choice(12)) }

var _ = reg("C30", "URLFrames", C30URLFrames, "one of 5 urls with p[0] arbitrary URL characters in the middle and p[1] at the end, in quotes or braces, bare or in a url macro", [][]int{{1, 1}, {2, 2}}, [][]int{{3, 3}, {4, 2}, {2, 4}}, "url")

var urlFrames = [][2]string{{"http://a.b/", "c"}, {"~", ","}, {"a%20", "?q=1&r#"}, {"$", "$"}, {"x_", "/~u/,"}}

// C30URLFrames: longer urls.
func C30URLFrames(p []int) {
	fr := urlFrames[sym.Choice(len(urlFrames))]
	u := fr[0] + urlText(p[0]) + fr[1] + urlText(p[1])
	urlField(u, sym.Choice(4))
}
