package h

import "github.com/jschaf/bibtex/token"

// Reference lexer, written from the documented rules.

type refResult struct {
	toks []tok
	bad  bool // a lexical error
	unb  bool // an unbalanced brace in quotes, which is no lexical error
	end  int  // offset after the last token compared
}

func isNameByte(c byte) bool {
	switch {
	case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9':
		return true
	}
	switch c {
	case '_', '-', '/', '!', '$', '&', '*', '+', '.', ':', ';', '<', '>', '?', '[', ']', '^', '`', '|':
		return true
	}
	return false
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

func isAlpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

// valueNext tells whether a value is expected after a token.
func valueNext(prev token.Token) bool {
	return prev == token.Assign || prev == token.Concat || prev == token.LBrace || prev == token.LParen
}

// refKind is the kind of the token starting at i.
func refKind(src []byte, i int, prev token.Token) token.Token {
	c := src[i]
	if isNameByte(c) {
		for ; i < len(src) && isNameByte(src[i]); i++ {
			if !isDigit(src[i]) {
				return token.Ident
			}
		}
		return token.Number
	}
	switch c {
	case '"':
		return token.String
	case '{':
		if valueNext(prev) {
			return token.BraceString
		}
		return token.LBrace
	case '}':
		return token.RBrace
	case '(':
		return token.LParen
	case ')':
		return token.RParen
	case '=':
		return token.Assign
	case ',':
		return token.Comma
	case '#':
		return token.Concat
	case '%':
		return token.TexComment
	case '@':
		return token.BibEntry
	}
	return token.Illegal
}

// balanced returns the offset after the brace group whose inside starts at i,
// or -1 if it is not closed.
func balanced(src []byte, i int) int {
	d := 1
	for ; i < len(src); i++ {
		if src[i] == '{' {
			d++
		}
		if src[i] == '}' {
			d--
			if d == 0 {
				return i + 1
			}
		}
	}
	return -1
}

// refLex tokenizes a source without scanning strings.
func refLex(src []byte) (r refResult) {
	prev := token.Illegal
	i := 0
	if len(src) >= 3 && src[0] == 0xEF && src[1] == 0xBB && src[2] == 0xBF {
		i = 3
	}
	for {
		for i < len(src) && (src[i] == ' ' || src[i] == '\t' || src[i] == '\r' || src[i] == '\n') {
			i++
		}
		if i >= len(src) {
			r.toks = append(r.toks, tok{i, token.EOF, ""})
			r.end = i
			return
		}
		t := refKind(src, i, prev)
		j := i + 1
		lit := ""
		switch t {
		case token.Ident, token.Number:
			for j < len(src) && isNameByte(src[j]) {
				j++
			}
			lit = string(src[i:j])
		case token.String:
			for j < len(src) && src[j] != '"' {
				if src[j] == '{' {
					j = balanced(src, j+1)
					if j < 0 {
						j = len(src)
						break
					}
				} else {
					j++
				}
			}
			if j >= len(src) {
				r.bad = true
			} else {
				j++
			}
		case token.BraceString:
			j = balanced(src, j)
			if j < 0 {
				r.bad = true
				j = len(src)
			}
		case token.TexComment:
			for j < len(src) && src[j] != '\n' {
				j++
			}
			lit = string(src[i:j])
		case token.BibEntry:
			for j < len(src) {
				w := commandLetter(src, j)
				if w == 0 {
					break
				}
				j += w
			}
			if j == i+1 {
				r.bad = true
			}
			lit = string(src[i:j])
			t = commandKind(src[i+1 : j])
		case token.Illegal:
			j = i + runeLen(src, i)
			lit = string(src[i:j])
			r.bad = true
		}
		r.toks = append(r.toks, tok{i, t, lit})
		if t != token.TexComment {
			prev = t
		}
		i = j
	}
}

// commandLetter is the width of the letter at j, 0 if there is none.
func commandLetter(src []byte, j int) int {
	c := src[j]
	if c < 0x80 {
		if isAlpha(c) || c == '_' {
			return 1
		}
		return 0
	}
	w := runeLen(src, j)
	if w > 1 && isLetterRune(src[j:j+w]) {
		return w
	}
	return 0
}

func commandKind(w []byte) token.Token {
	switch {
	case foldEq(w, "string"):
		return token.Abbrev
	case foldEq(w, "preamble"):
		return token.Preamble
	case foldEq(w, "comment"):
		return token.Comment
	}
	return token.BibEntry
}

func foldEq(w []byte, s string) bool {
	if len(w) != len(s) {
		return false
	}
	for i := range w {
		c := w[i]
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		if c != s[i] {
			return false
		}
	}
	return true
}

// refString tokenizes the inside of a string that starts at i and is
// delimited by q, up to its end or the first malformed piece.
func refString(src []byte, i int, q byte) (r refResult) {
	depth := 0
	add := func(j int, t token.Token, lit string) {
		r.toks = append(r.toks, tok{i, t, lit})
		i = j
	}
	n := len(src)
	for {
		if i >= n {
			r.bad, r.end = true, n
			return
		}
		c := src[i]
		switch {
		case c == '"' && q == '"' && depth == 0:
			add(i+1, token.DoubleQuote, "")
			r.end = i
			return
		case c == '}' && depth == 0:
			if q == '"' {
				r.bad, r.unb, r.end = true, true, i
				return
			}
			add(i+1, token.StringRBrace, "")
			r.end = i
			return
		case c == '}':
			depth--
			add(i+1, token.StringRBrace, "")
		case c == '{':
			depth++
			add(i+1, token.StringLBrace, "")
		case c == ',':
			add(i+1, token.StringComma, ",")
		case c == '~':
			add(i+1, token.StringNBSP, "~")
		case isSpaceByte(c):
			j := i + 1
			for j < n && isSpaceByte(src[j]) {
				j++
			}
			add(j, token.StringSpace, "")
		case c == '$':
			j := i + 1
			for j < n && src[j] != '$' && src[j] != '\n' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			if j >= n || src[j] == '\n' {
				r.bad, r.end = true, n
				return
			}
			add(j+1, token.StringMath, string(src[i+1:j]))
		case c == '\\':
			j, t, lit := refEscape(src, i)
			if j < 0 {
				r.bad, r.end = true, n
				return
			}
			add(j, t, lit)
		default:
			j := i
			for j < n && !stringSpecial(src[j], q, depth) {
				j++
			}
			add(j, token.StringContents, string(src[i:j]))
		}
	}
}

func isSpaceByte(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func stringSpecial(c, q byte, depth int) bool {
	switch c {
	case ' ', '\t', '\n', '\r', '{', '}', '$', '~', ',', '\\':
		return true
	case '"':
		return q == '"' && depth == 0
	}
	return false
}

// refEscape reads what starts with the backslash at i; the first result is
// negative when it is malformed.
func refEscape(src []byte, i int) (int, token.Token, string) {
	n := len(src)
	if i+1 >= n {
		return -1, 0, ""
	}
	c := src[i+1]
	switch c {
	case '\\', '$', '&', '%', '{', '}', '_':
		return i + 2, token.StringBackslash, string(src[i : i+2])
	case ',', ';', '[', ']', '(', ')':
		return i + 2, token.StringMacro, string(src[i : i+2])
	case '\'', '`', '^', '"', '~', '.':
		return refAccent(src, i)
	}
	j := i + 1
	for j < n && isAlpha(src[j]) {
		j++
	}
	if c == 'c' && j <= i+3 {
		// \c is an accent on its own or before a single letter
		return refAccent(src, i)
	}
	if j == i+1 {
		return -1, 0, ""
	}
	return j, token.StringMacro, string(src[i+1 : j])
}

func refAccent(src []byte, i int) (int, token.Token, string) {
	n := len(src)
	j := i + 2
	at := func(k int) byte {
		if k < n {
			return src[k]
		}
		return 0
	}
	switch {
	case at(j) == '{':
		if isAlpha(at(j+1)) && at(j+2) == '}' {
			return j + 3, token.StringAccent, string(src[i : j+3])
		}
	case at(j) == ' ':
		k := j
		for at(k) == ' ' {
			k++
		}
		if isAlpha(at(k)) {
			return k + 1, token.StringAccent, string(src[i:j]) + string(src[k:k+1])
		}
	case isAlpha(at(j)):
		return j + 1, token.StringAccent, string(src[i : j+1])
	}
	return -1, 0, ""
}
