package h

import (
	"unicode"
	"unicode/utf8"
)

// isLetterRune tells whether a well-formed sequence is a letter.
func isLetterRune(b []byte) bool {
	r, _ := utf8.DecodeRune(b)
	return unicode.IsLetter(r)
}
