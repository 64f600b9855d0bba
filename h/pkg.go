package h

import (
	"errors"
	goscan "go/scanner"
	gotoken "go/token"
	"io/fs"
	"strconv"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"verif/sym"
)

// C29: sets of files.

// errPlaces is the positions of an error, with file names.
func errPlaces(err error) string {
	switch e := err.(type) {
	case nil:
		return "none"
	case goscan.ErrorList:
		s := ""
		for _, x := range e {
			s += x.Pos.Filename + ":" + strconv.Itoa(x.Pos.Line) + ":" + strconv.Itoa(x.Pos.Column) + ";"
		}
		return s
	}
	return "other"
}

var pkgNames = []string{"a.bib", "b.bib", "c.bib", "d.bib"}

// pkgCheck parses the files and compares with parsing each of them.
func pkgCheck(paths []string, missing []bool, mode parser.Mode) {
	pkg, err := parser.ParsePackage(paths, mode)
	sym.Assert(pkg != nil, "there is always a package")
	good := map[string]*ast.File{}
	var first error
	anyBad := false
	for i, p := range paths {
		f, e := parser.ParseFile(gotoken.NewFileSet(), p, nil, mode)
		sym.Assert(!missing[i] || e != nil, "a missing file is an error")
		if e == nil {
			good[p] = f
			continue
		}
		if !anyBad {
			anyBad, first = true, e
		}
	}
	sym.Assert((err != nil) == anyBad, "there is an error exactly when a file has one")
	if anyBad {
		sym.Reach("error")
		sym.Assert(errPlaces(err) == errPlaces(first), "the error is that of the first faulty file")
		sym.Assert(errors.Is(err, fs.ErrNotExist) == errors.Is(first, fs.ErrNotExist), "the error is that of the first faulty file")
	}
	n := 0
	for _, p := range paths {
		g, ok := pkg.Files[p]
		f, want := good[p]
		sym.Assert(ok == want, "a file is in the package exactly when it has no error")
		if ok {
			n++
			sym.Assert(g != nil && g.Name == p, "a file is under its name")
			sym.Assert(meaning(g) == meaning(f), "a file is the same as when parsed alone")
			sym.Reach("good")
		}
	}
	for p := range pkg.Files {
		_, want := good[p]
		sym.Assert(want, "the package has no other files")
	}
}

// pkgText is one of some contents around n arbitrary bytes.
func pkgText(n int) []byte {
	fr := [][2]string{{"@a{k,t={", "}}"}, {"@string{s=\"x\"", ""}, {"", ""}}[sym.Choice(3)]
	return append(append([]byte(fr[0]), sym.Bytes(n)...), fr[1]...)
}

var _ = reg("C29", "Package", C29Package, "p[0] files, each missing or one of 3 texts around p[1] arbitrary bytes; every string mode", [][]int{{0, 1}, {1, 1}, {2, 0}, {1, 2}, {3, 0}}, [][]int{{2, 1}, {4, 0}, {1, 3}}, "checked")

// C29Package: files and errors of a set of files.
func C29Package(p []int) {
	var paths []string
	var missing []bool
	for i := 0; i < p[0]; i++ {
		name := pkgNames[i]
		miss := sym.Choice(4) == 0
		if !miss {
			b := pkgText(p[1])
			sym.Observe(string(b))
			sym.File(name, b)
		}
		paths = append(paths, name)
		missing = append(missing, miss)
	}
	pkgCheck(paths, missing, strMode())
	sym.Reach("checked")
}

var _ = reg("C29", "Order", C29Order, "p[0] arguments, each any of 4 names of which two are good files with an arbitrary letter, one is malformed and one is missing", ps(1, 3), ps(4, 5), "good", "error")

// C29Order: names in any order, also repeated.
func C29Order(p []int) {
	c := letter()
	sym.File("a.bib", []byte{'@', c, '{', 'k', '}'})
	sym.File("b.bib", []byte{'@', 'x', '{', c, ',', 't', '=', '1', '}'})
	sym.File("c.bib", []byte{'@', 'x', '{', c})
	var paths []string
	var missing []bool
	for i := 0; i < p[0]; i++ {
		k := sym.Choice(4)
		paths = append(paths, pkgNames[k])
		missing = append(missing, k == 3)
	}
	pkgCheck(paths, missing, anyMode())
}
