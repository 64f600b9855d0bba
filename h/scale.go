package h

import "verif/sym"

// Sources made of whole lexical pieces: they reach lengths and characters
// that arbitrary bytes do not reach within the bounds.

// symRune is an arbitrary well-formed character of n bytes other than the byte
// order mark.
func symRune(n int) []byte {
	b := sym.Bytes(n)
	switch n {
	case 2:
		sym.Assume(b[0] >= 0xC2 && b[0] <= 0xDF)
	case 3:
		sym.Assume(b[0] >= 0xE0 && b[0] <= 0xEF)
	case 4:
		sym.Assume(b[0] >= 0xF0 && b[0] <= 0xF4)
	}
	sym.Assume(runeLen(b, 0) == n)
	if n == 3 {
		sym.Assume(!(b[0] == 0xEF && b[1] == 0xBB && b[2] == 0xBF))
	}
	return b
}

// symDigits is n arbitrary digits.
func symDigits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = digit()
	}
	return string(b)
}

// longName is a name of n characters: lower-case letters between an arbitrary
// letter and an arbitrary name character.
func longName(n int) string {
	b := make([]byte, n)
	for i := range b {
		switch i {
		case 0:
			b[i] = letter()
		case n - 1:
			b[i] = nameByte()
		default:
			b[i] = smallLetter()
		}
	}
	return string(b)
}

// longText is n lower-case letters with an arbitrary plain character at the end.
func longText(n int) string {
	b := make([]byte, n)
	for i := range b {
		if i == n-1 {
			b[i] = plainByte()
		} else {
			b[i] = smallLetter()
		}
	}
	return string(b)
}

// longLetters is n letters of which only the first and last may be upper-case.
func longLetters(n int) string {
	b := make([]byte, n)
	for i := range b {
		if i == 0 || i == n-1 {
			b[i] = letter()
		} else {
			b[i] = smallLetter()
		}
	}
	return string(b)
}

func smallLetter() byte {
	c := sym.ASCII()
	sym.Assume(c >= 'a' && c <= 'z')
	return c
}

const (
	numLexPieces  = 12 // ASCII
	numBytePieces = 5  // other bytes
)

var bom = []byte{0xEF, 0xBB, 0xBF}

// lexPiece is a piece of a source outside strings with runs of n characters.
func lexPiece(k, n int) []byte {
	switch k {
	case 0:
		return []byte(longName(n))
	case 1:
		return []byte(symDigits(n))
	case 2:
		return []byte("@" + longLetters(n) + "{")
	case 3:
		return []byte("@" + anyCaseWord([]string{"string", "comment", "preamble"}[sym.Choice(3)]) + "(")
	case 4:
		return []byte("\"" + longText(n) + "{\"" + longText(2) + "{\"}}" + longText(2) + "\"")
	case 5:
		return []byte("{" + longText(n) + "{{" + longText(2) + "}\"}" + longText(2) + "}")
	case 6:
		return []byte("={" + longText(n) + "{{" + longText(2) + "}\"}" + longText(2) + "}")
	case 7:
		return []byte("%" + string(sym.ASCIIs(1)) + longText(n) + "\n")
	case 8:
		return []byte(" \t\r\n\r\n\n \t")
	case 9:
		b := sym.ASCII()
		sym.Assume(b == ',' || b == '#' || b == '(' || b == ')' || b == '}' || b == '=')
		return []byte{b}
	case 10:
		return []byte{'"'}
	case 11:
		return []byte{'{'}
	case 12:
		return bom
	case 13, 14, 15:
		return symRune(k - 11)
	default:
		b := sym.Byte()
		sym.Assume(b == 0 || b >= 0x80 && b < 0xC2 || b >= 0xF5)
		return []byte{b}
	}
}

func lexPieces(p []int, kinds int) []byte {
	var src []byte
	for i := 0; i < p[0]; i++ {
		src = append(src, lexPiece(sym.Choice(kinds), p[1])...)
	}
	return src
}

const pieceBound = "p[0] of 17 pieces: a name, a number, an @ and letters, a command, a quoted string, a brace group, a value in braces or a comment with p[1] characters (quotes and groups nested 2 deep), white space, an operator, an open quote or brace, a byte order mark, any character of 2, 3 or 4 bytes, an illegal byte"

var (
	piecesQuick = [][]int{{1, 12}, {2, 4}}
	piecesDeep  = [][]int{{1, 20}, {2, 10}, {3, 2}}
)

var _ = reg("C02", "Pieces", C02Pieces, pieceBound, piecesQuick, piecesDeep, "eof")

// C02Pieces: progress over longer inputs.
func C02Pieces(p []int) { progress(lexPieces(p, numLexPieces+numBytePieces), false) }

var _ = reg("C03", "Pieces", C03Pieces, pieceBound, piecesQuick, piecesDeep, "tok", "eof", "illegal")

// C03Pieces: tiling of longer inputs.
func C03Pieces(p []int) { tiles(lexPieces(p, numLexPieces+numBytePieces)) }

var _ = reg("C04", "Pieces", C04Pieces, pieceBound+" (without illegal bytes)", piecesQuick, piecesDeep, "eof", "brace")

// C04Pieces: kinds in longer inputs.
func C04Pieces(p []int) { kinds(lexPieces(p, numLexPieces+4)) }

var _ = reg("C06", "Pieces", C06Pieces, pieceBound, piecesQuick, piecesDeep, "error", "clean")

// C06Pieces: errors in longer inputs.
func C06Pieces(p []int) { reported(lexPieces(p, numLexPieces+numBytePieces)) }

// Strings made of whole pieces.

const numBigPieces = 18

// bigPiece appends a piece of a string with runs of n characters.
func bigPiece(b []byte, k, n int) []byte {
	str := func(s string) []byte { return append(b, s...) }
	switch k {
	case 0:
		return str(longText(n))
	case 1, 2, 3:
		return append(append(b, symRune(k+1)...), smallLetter())
	case 4:
		c := sym.ASCII()
		sym.Assume(isSpaceByte(c))
		return append(b, ' ', '\t', '\n', c)
	case 5, 6:
		return append(b, ",~"[k-5])
	case 7:
		return str("$" + longText(n) + "\\$" + longText(2) + "$")
	case 8:
		return piece(b, 5)
	case 9, 10:
		return piece(b, k-3)
	case 11:
		return append(str("\\c   "), letter())
	case 12:
		return str("\\" + longLetters(max(n, 4)))
	case 13:
		return str("\\url{" + longText(n) + "~a,b%20}")
	case 14:
		return str("{\"" + longText(2) + "\"}")
	case 15:
		return str("{" + longText(2) + "{\"{{\"" + longText(n) + "} ,}~}}")
	case 16:
		c := plainByte()
		sym.Assume(!isAlpha(c) && !isDigit(c))
		return str("{" + string([]byte{c}) + longText(n) + "}")
	}
	c := plainByte()
	sym.Assume(!isAlpha(c) && !isDigit(c))
	return str(string([]byte{c}) + longText(n))
}

func bigPieces(p []int) (b []byte) {
	for i := 0; i < p[0]; i++ {
		b = bigPiece(b, sym.Choice(numBigPieces), p[1])
	}
	return b
}

const bigBound = "p[0] of 18 pieces: text of p[1] characters, any character of 2, 3 or 4 bytes, spaces, comma, tie, math and macros of p[1] characters, escapes, accents, url, a group with quotes, groups 4 deep with quotes, text of p[1] characters after any punctuation in a group or not"

var (
	bigQuick = [][]int{{1, 10}, {2, 5}}
	bigDeep  = [][]int{{1, 30}, {2, 12}, {3, 2}}
)

var _ = reg("C05", "Big", C05Big, "a quoted or braced string of "+bigBound, bigQuick, bigDeep, "end")

// C05Big: tokens of longer strings.
func C05Big(p []int) { stringTokens(bigPieces(p)) }

var _ = reg("C06", "Big", C06Big, "a quoted or braced string of "+bigBound+"; p[2] arbitrary bytes at the end", [][]int{{1, 10, 0}, {1, 4, 1}, {2, 4, 0}}, [][]int{{1, 30, 1}, {2, 12, 1}, {3, 2, 0}}, "clean")

// C06Big: errors in longer strings.
func C06Big(p []int) { reportedString(append(bigPieces(p), sym.Bytes(p[2])...)) }

var _ = reg("C10", "Big", C10Big, "a quoted or braced field of "+bigBound, bigQuick, bigDeep, "tree")

// C10Big: trees of longer strings.
func C10Big(p []int) { stringTree(bigPieces(p), anyQuote(), 0, false) }

var _ = reg("C14", "Big", C14Big, "a quoted or braced field of "+bigBound, bigQuick, bigDeep, "tree")

// C14Big: positions in longer strings.
func C14Big(p []int) { stringTree(bigPieces(p), anyQuote(), 0, true) }

var _ = reg("C11", "Big", C11Big, "a quoted or braced string of "+bigBound+", in a field, an abbreviation, a preamble or after a #", bigQuick, bigDeep, "verbatim")

// C11Big: longer strings are kept.
func C11Big(p []int) { verbatim(bigPieces(p)) }

var _ = reg("C09", "Big", C09Big, "a string in quotes and in braces of "+bigBound, bigQuick, bigDeep, "same")

// C09Big: quotes and braces delimit the same content.
func C09Big(p []int) { sameQuotes(bigPieces(p)) }
