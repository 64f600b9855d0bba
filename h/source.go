package h

import (
	"bytes"
	"errors"
	goscan "go/scanner"
	gotoken "go/token"
	"io"
	"strconv"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"verif/sym"
)

// C28: forms of sources.

// outcome is everything a parse returns, as text.
func outcome(f *ast.File, err error) string {
	var sb strings.Builder
	if f == nil {
		sb.WriteString("no file")
	} else {
		sb.WriteString(f.Name)
		sb.WriteByte('\n')
		sb.WriteString(dumpFile(f, 1))
	}
	switch e := err.(type) {
	case nil:
	case goscan.ErrorList:
		for _, x := range e {
			sb.WriteString("!" + strconv.Itoa(x.Pos.Offset) + ":" + strconv.Itoa(x.Pos.Line) + ":" + strconv.Itoa(x.Pos.Column))
		}
	default:
		sb.WriteString("!other")
	}
	return sb.String()
}

var errRead = errors.New("read failure")

// chunks is a reader that delivers its data in pieces of arbitrary sizes and
// then ends with an error.
type chunks struct {
	data    []byte
	end     error
	reads   int // arbitrary sizes for so many reads
	empty   int // so many reads may deliver nothing
	withEnd bool
	done    bool
}

func (c *chunks) Read(b []byte) (int, error) {
	sym.Assert(!c.done, "a reader is not used after its end")
	n := min(len(c.data), len(b))
	if c.reads > 0 && n > 0 {
		c.reads--
		k := sym.Choice(n + 1)
		if k == 0 && c.empty == 0 {
			k = n
		}
		if k == 0 {
			c.empty--
		}
		n = k
	}
	copy(b, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && (n == 0 || c.withEnd) {
		c.done = true
		return n, c.end
	}
	return n, nil
}

var sourceFrames = [][2]string{{"", ""}, {"@a{k,t={", "}}"}, {"@a{k,t=\"", "\"}\n"}, {"@string{s=", ""}, {"%x\n@a{k", ",}"}}

func sourceText(n int) []byte {
	fr := sourceFrames[sym.Choice(len(sourceFrames))]
	return append(append([]byte(fr[0]), sym.Bytes(n)...), fr[1]...)
}

var _ = reg("C28", "Forms", C28Forms, "one of 5 frames around p[0] arbitrary bytes, as byte slice, string, buffer (also one that is read in part) and file; every string mode with comments", ps(0, 2), ps(3, 4), "error", "ok")

// C28Forms: a source in memory or in a file.
func C28Forms(p []int) {
	src := sourceText(p[0])
	sym.Observe(string(src))
	mode := strMode() | parser.ParseComments
	orig := string(src)
	f, _, err := parse(src, mode)
	want := outcome(f, err)
	sym.Assert(string(src) == orig, "the bytes of a source are not modified")
	if err != nil {
		sym.Reach("error")
	} else {
		sym.Reach("ok")
	}
	kind := sym.Choice(4)
	var s interface{}
	switch kind {
	case 0:
		s = orig
	case 1:
		s = bytes.NewBuffer(src)
	case 2:
		b := bytes.NewBuffer(append([]byte("xy"), src...))
		var skip [2]byte
		b.Read(skip[:])
		s = b
	default:
		sym.File(fileName, src)
	}
	g, err2 := parser.ParseFile(gotoken.NewFileSet(), fileName, s, mode)
	sym.Assert(outcome(g, err2) == want, "the form of a source does not matter")
	sym.Assert(string(src) == orig, "the bytes of a source are not modified")
}

var _ = reg("C28", "Reader", C28Reader, "one of 5 frames around p[0] arbitrary bytes, from a reader that delivers p[1] pieces of arbitrary sizes (one may be empty) and then the rest, its end together with the last piece or after it; every string mode with comments", [][]int{{0, 1}, {1, 1}, {1, 2}}, [][]int{{2, 2}, {1, 3}, {3, 1}}, "error", "ok")

// C28Reader: a source from a reader.
func C28Reader(p []int) {
	src := sourceText(p[0])
	sym.Observe(string(src))
	mode := strMode() | parser.ParseComments
	f, _, err := parse(src, mode)
	want := outcome(f, err)
	if err != nil {
		sym.Reach("error")
	} else {
		sym.Reach("ok")
	}
	r := &chunks{data: src, end: io.EOF, reads: p[1], empty: 1, withEnd: sym.Choice(2) == 1}
	orig := string(src)
	g, err2 := parser.ParseFile(gotoken.NewFileSet(), fileName, r, mode)
	sym.Assert(outcome(g, err2) == want, "the way a reader delivers a source does not matter")
	sym.Assert(string(src) == orig, "the bytes of a source are not modified")
}

var _ = reg("C28", "ReadFailure", C28ReadFailure, "p[0] arbitrary bytes of a file or an entry from a reader that fails after p[1] pieces of arbitrary sizes and the rest, or before anything, with any of 5 errors with or after the last bytes", [][]int{{0, 1}, {1, 1}, {2, 2}}, [][]int{{3, 3}}, "failed")

// C28ReadFailure: the reader fails.
func C28ReadFailure(p []int) {
	src := sourceText(p[0])
	if sym.Choice(4) == 0 {
		src = nil
	}
	end := failure(errRead)
	if end == io.EOF {
		end = io.ErrClosedPipe
	}
	r := &chunks{data: src, end: end, reads: p[1], empty: 1, withEnd: sym.Choice(2) == 1}
	f, err := parser.ParseFile(gotoken.NewFileSet(), fileName, r, strMode())
	sym.Assert(err != nil && errors.Is(err, end), "a reader failure is returned")
	sym.Assert(f == nil, "a reader failure gives no file")
	r = &chunks{data: src, end: end, withEnd: r.withEnd}
	f, err = bibtex.New().Parse(r)
	sym.Assert(err != nil && errors.Is(err, end), "a reader failure is returned by Parse")
	sym.Assert(f == nil, "a reader failure gives no file from Parse")
	sym.Reach("failed")
}

var _ = reg("C28", "Unsupported", C28Unsupported, "14 sources of other kinds, and a missing file; every combination of the mode flags", ps(0, 0), nil, "rejected")

type wrapped struct{ s string }

// C28Unsupported: other sources are errors.
func C28Unsupported(p []int) {
	var nilBuffer *bytes.Buffer
	s := "@a{k}"
	k := sym.Choice(15)
	name := fileName
	var src interface{}
	switch k {
	case 0:
		src = 7
	case 1:
		src = nilBuffer
	case 2:
		src = true
	case 3:
		src = wrapped{s}
	case 4:
		src = &wrapped{s}
	case 5:
		src = []string{s}
	case 6:
		src = []rune(s)
	case 7:
		src = &s
	case 8:
		src = errRead
	case 9:
		src = map[string]string{"a": s}
	case 10:
		src = 'x'
	case 11:
		src = func() string { return s }
	case 12:
		src = 1.5
	case 13:
		src = [5]byte{'@', 'a', '{', 'k', '}'}
	default:
		name = "missing.bib"
	}
	f, err := parser.ParseFile(gotoken.NewFileSet(), name, src, anyMode())
	sym.Assert(err != nil, "an unsupported source is an error")
	sym.Assert(f == nil, "an unsupported source gives no file")
	sym.Reach("rejected")
}

var _ = reg("C28", "Biber", C28Biber, "one of 5 frames around p[0] arbitrary bytes through Biber.Parse from a reader with one arbitrary piece", ps(0, 1), ps(2, 3), "error", "ok")

// C28Biber: Biber.Parse parses the same.
func C28Biber(p []int) {
	src := sourceText(p[0])
	sym.Observe(string(src))
	mode := strMode()
	f, _, err := parse(src, mode)
	r := &chunks{data: src, end: io.EOF, reads: 1, empty: 1}
	g, err2 := bibtex.New(bibtex.WithParserMode(mode)).Parse(r)
	if err != nil {
		sym.Reach("error")
		sym.Assert(g == nil, "Parse gives a file or an error")
		sym.Assert(err2 != nil, "Parse gives the same errors")
		sym.Assert(outcome(nil, err2) == outcome(nil, err), "Parse gives the same errors")
		return
	}
	sym.Reach("ok")
	sym.Assert(err2 == nil && g != nil, "Parse gives the same file")
	sym.Assert(dumpFile(g, 1) == dumpFile(f, 1), "Parse gives the same file")
}
