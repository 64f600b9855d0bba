package h

import (
	goscan "go/scanner"
	"strings"

	"github.com/jschaf/bibtex/parser"
	"verif/sym"
)

// C44: the first error is at the first token that does not fit.

// located checks where the first error of a malformed file is.
func located(src []byte) {
	sym.Observe(string(src))
	v := judge(src)
	if v.any || v.ok || v.lex {
		return
	}
	mode := allErrors()
	_, _, err := parse(src, mode)
	first(err, src, v.at)
	// with strings parsed, too, where strings are plain
	if !strings.ContainsAny(string(src), "\\$\"") {
		_, _, err = parse(src, mode|parser.ParseStrings)
		first(err, src, v.at)
	}
}

func first(err error, src []byte, at int) {
	sym.Observe(errText(err))
	sym.Assert(err != nil, "a malformed file is an error")
	es := errs(err, src)
	sym.Assert(len(es) > 0 && es[0].off == at, "the first error is at the first token that does not fit")
	sym.Reach("error")
	msg := err.(goscan.ErrorList)[0].Msg
	if !strings.HasPrefix(msg, "expected ") || len(es) > 1 && es[1].off == at {
		return
	}
	msg = strings.Split(msg, ", found")[0]
	for _, w := range wording {
		if !strings.Contains(msg, "'"+w[0]+"'") && !strings.Contains(msg, w[0]+":") {
			continue
		}
		b := append([]byte(nil), src[:at]...)
		b = append(append(append(b, ' '), w[1]...), ' ')
		n := len(b)
		v := judge(append(b, src[at:]...))
		sym.Assert(v.ok || v.any || v.lex || v.at >= n, "what is said to be expected would fit")
		sym.Reach("expected")
	}
}

// wording is how messages name what is expected, and an example.
var wording = [][2]string{{"Assign", "="}, {"LBrace", "{"}, {"LParen", "("}, {"RBrace", "}"}, {"RParen", ")"}, {"Ident", "x"}, {"literal", "1"}}

var _ = reg("C44", "First", C44First, "one of 10 unfinished declarations, p[0] arbitrary ASCII bytes and one of 4 endings", ps(0, 2), ps(3, 3), "error", "expected")

// C44First: short arbitrary text in declarations.
func C44First(p []int) {
	b := append([]byte(judgedStarts[sym.Choice(len(judgedStarts))]), sym.ASCIIs(p[0])...)
	located(append(b, judgedEnds[sym.Choice(len(judgedEnds))]...))
}

var _ = reg("C44", "FirstText", C44FirstText, "one of 4 unfinished declarations, p[0] bytes out of a 7 { } , = newline % @ # ( ) and one of 3 endings", ps(3, 3), ps(4, 5), "error", "expected")

// C44FirstText: longer text over the character classes.
func C44FirstText(p []int) {
	b := []byte(judgedStarts[sym.Choice(4)])
	for i := 0; i < p[0]; i++ {
		c := sym.ASCII()
		sym.Assume(c == 'a' || c == '7' || c == '{' || c == '}' || c == ',' ||
			c == '=' || c == '\n' || c == '%' || c == '@' || c == '#' || c == '(' || c == ')')
		b = append(b, c)
	}
	located(append(b, judgedEnds[sym.Choice(3)]...))
}

var _ = reg("C44", "FirstMutated", C44FirstMutated, "6 well-formed declarations with one token dropped, doubled, replaced by p[0] arbitrary ASCII bytes, or with these bytes before it; then nothing or another declaration", ps(1, 1), ps(2, 3), "error", "expected")

// C44FirstMutated: one fault in a well-formed declaration.
func C44FirstMutated(p []int) { located(mutatedTail(p[0], sym.Choice(2) == 1)) }

var _ = reg("C44", "FirstTruncated", C44FirstTruncated, "6 well-formed declarations cut off after any token, p[0] arbitrary ASCII bytes", ps(0, 1), ps(2, 3), "error", "expected")

// C44FirstTruncated: input that ends early.
func C44FirstTruncated(p []int) {
	ts := layoutDecl(sym.Choice(numLayoutDecls))
	located(append(joinToks(ts[:sym.Choice(len(ts))+1], noGaps), sym.ASCIIs(p[0])...))
}

var _ = reg("C44", "FirstFar", C44FirstFar, "p[0] well-formed declarations of all kinds before 6 well-formed declarations with one token dropped, doubled, replaced by an arbitrary ASCII byte, or with this byte before it; then another declaration", [][]int{{6}}, [][]int{{60}}, "error", "expected")

// C44FirstFar: a fault after well-formed declarations.
func C44FirstFar(p []int) {
	pre := ""
	for i := 0; i < p[0]; i++ {
		pre += []string{"@a{k,t={x{y}}, u = 1}\n", "@string(s = {a} # b)%c\n", "@preamble{{x}}\n\n"}[i%3]
	}
	located(append([]byte(pre), mutatedTail(1, true)...))
}
