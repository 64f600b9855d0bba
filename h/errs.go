package h

import (
	goscan "go/scanner"
	"verif/sym"
)

// errs checks an error list and returns its positions.
func errs(err error, src []byte) []errAt {
	l, ok := err.(goscan.ErrorList)
	sym.Assert(ok && len(l) > 0, "syntax errors are an error list")
	var r []errAt
	for i, e := range l {
		p := e.Pos
		sym.Assert(p.Offset >= 0 && p.Offset <= len(src), "errors are inside the file")
		sym.Assert(p.Filename == fileName, "errors carry the file name")
		line, col := 1, 1
		for k := 0; k < p.Offset; k++ {
			if src[k] == '\n' {
				line, col = line+1, 1
			} else {
				col++
			}
		}
		sym.Assert(p.Line == line && p.Column == col || p.Offset == len(src), "errors have the line and column of their offset")
		if i > 0 {
			q := l[i-1].Pos
			sym.Assert(q.Line < p.Line || q.Line == p.Line && q.Column <= p.Column, "errors are sorted by position")
		}
		sym.Assert(e.Msg != "", "errors have a message")
		r = append(r, errAt{p.Offset, p.Line, p.Column})
	}
	return r
}
