From 8f19152e9a5151b36650d02938085a20c919d867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 01/34] fix: scanner: keep the text of unterminated strings

An unterminated string at the end of the input lost its last character, or
panicked with a slice out of range when it was empty.
---
 scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index f321e28..b41df15 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -225,7 +225,7 @@ func (s *Scanner) scanString() string {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in double quotes not terminated")
-			break
+			return string(s.src[offs:s.offset])
 		}
 		s.next()
 		if ch == '"' {
@@ -254,7 +254,7 @@ func (s *Scanner) scanBraceString() string {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in braces not terminated")
-			break
+			return string(s.src[offs:s.offset])
 		}
 		s.next()
 		if ch == '}' {
-- 
2.43.0


From fc777461762c62c6e5c19aa51bdbb6bb82ac18af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 02/34] fix: scanner: do not skip the first character of a
 nested brace group

The opening brace was consumed already, so "{a {} b}" missed the closing
brace of the empty group and "{{{a}}}" was cut short.
---
 scanner/scanner.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index b41df15..f49117c 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -261,7 +261,6 @@ func (s *Scanner) scanBraceString() string {
 			break
 		}
 		if ch == '{' {
-			s.next()
 			s.scanBraceString()
 		}
 	}
-- 
2.43.0


From 12e5e919128da685d6ce051f0bda07a9597a88a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:35 +0000
Subject: [PATCH 03/34] fix: scanner: report a spaced accent that has no letter

An accent followed by spaces took any byte as the accented letter and
panicked with an index out of range at the end of the input.
---
 scanner/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index f49117c..d1dc2c2 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -364,8 +364,12 @@ func (s *Scanner) scanSpecialCharStringAccent() (token.Token, string) {
 		for s.ch == ' ' {
 			s.next()
 		}
+		if !IsAsciiLetter(s.ch) {
+			s.errorf(offs, "expected ascii letter after accent sequence %q , got %q", tokStr, s.ch)
+			return token.Illegal, ""
+		}
 		// append accented char, e.g. 'c'
-		tokStr += string(s.src[s.offset])
+		tokStr += string(s.ch)
 		s.next() // consume the letter that's accented
 		return token.StringAccent, tokStr
 	} else {
-- 
2.43.0


From d1f3f114ceba3171de0c7ca0ac93fb12468d1233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 04/34] fix: scanner: return EOF for an unterminated string

Inside a string the scanner returned illegal tokens forever at the end of
the input and never EOF.
---
 scanner/scanner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index d1dc2c2..9453800 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -452,6 +452,11 @@ func (s *Scanner) scanInString() (pos gotok.Pos, tok token.Token, lit string) {
 	case '~':
 		tok = token.StringNBSP
 		lit = "~"
+	case eof:
+		s.error(s.offset, "string literal not terminated")
+		s.endQuoteCh = 0
+		s.braceDepth = 0
+		tok = token.EOF
 	default:
 		// next reports unexpected BOMs - don't repeat
 		if ch != bom {
-- 
2.43.0


From a148c45b38e24a87f69f63a2ad5f599717cfb918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:37 +0000
Subject: [PATCH 05/34] fix: scanner: reset all state in Init

A scanner that stopped inside a string, or after a token that makes a brace
start a string, carried that state over to the next source.
---
 scanner/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 9453800..88fb2bd 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -138,6 +138,9 @@ func (s *Scanner) Init(file *gotok.File, src []byte, err ErrorHandler, mode Mode
 	s.offset = 0
 	s.rdOffset = 0
 	s.lineOffset = 0
+	s.prev = token.Illegal
+	s.endQuoteCh = 0
+	s.braceDepth = 0
 	s.ErrorCount = 0
 
 	s.next()
-- 
2.43.0


From 0cce192603e341242e64a1efed7a91c76e9be998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:38 +0000
Subject: [PATCH 06/34] fix: scanner: check the first character of a command

The first character after @ was skipped: "@1a" was accepted, "@a" at the end
of the input or before a non-letter was reported as an error.
---
 scanner/scanner.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 88fb2bd..db67c34 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -201,7 +201,6 @@ func IsName(ch rune) bool {
 
 func (s *Scanner) scanCommand() string {
 	offs := s.offset - 1 // Already consumed @
-	s.next()
 	if !isLetter(s.ch) {
 		s.error(s.offset, "expected letter after @ for a command")
 	}
-- 
2.43.0


From 7f09fa04f051c51b1b894aa041a9e53a7738b0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:17 +0000
Subject: [PATCH 07/34] fix: scanner: scan braced strings after # and (

A braced string as a right operand of a concatenation, or as the value of a
preamble in parentheses, was scanned as a declaration brace and failed to
parse.
---
 scanner/scanner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index db67c34..00958a8 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -538,9 +538,11 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 		case '{':
 			// Use a heuristic to determine whether this brace is for declaration or
 			// a brace string. If preceded by '=', it's a string for a tag. If
-			// preceded by an LBrace, it's a value in a block like:
+			// preceded by '#', it's an operand of a concatenation. If preceded by an
+			// LBrace or LParen, it's a value in a block like:
 			//   @preamble { {foo} }
-			if s.prev == token.Assign || s.prev == token.LBrace {
+			if s.prev == token.Assign || s.prev == token.Concat ||
+				s.prev == token.LBrace || s.prev == token.LParen {
 				if s.mode&ScanStrings != 0 {
 					s.endQuoteCh = '}'
 					tok = token.StringLBrace
-- 
2.43.0


From a5a56cd9ef404723feb53feffac375266cf61a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:17 +0000
Subject: [PATCH 08/34] fix: scanner: ignore comments when classifying a brace

In "foo = % comment" followed by a braced string on the next line the brace
was taken for a declaration brace, because the comment hid the "=".
---
 scanner/scanner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 00958a8..b8c8c44 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -575,6 +575,8 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 		}
 	}
 
-	s.prev = tok
+	if tok != token.TexComment {
+		s.prev = tok
+	}
 	return
 }
-- 
2.43.0


From 203dffba3e2859caf958ac638d7a2367cfdf5c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:18 +0000
Subject: [PATCH 09/34] fix: scanner: scan names that begin with digits as one
 identifier

A cite key like 2020abc was split into a number and an identifier.
---
 scanner/scanner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index b8c8c44..35feecf 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -501,6 +501,10 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 	case isDecimal(ch):
 		tok = token.Number
 		lit = s.scanNumber()
+		if IsName(s.ch) { // a name that begins with digits, like 2020abc
+			tok = token.Ident
+			lit += s.scanIdent()
+		}
 
 	case IsName(ch):
 		tok = token.Ident
-- 
2.43.0


From f1318a742fcd844edb48db70c7c41b1067389cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:19 +0000
Subject: [PATCH 10/34] fix: scanner: scan macros like \cite as macros

Any macro whose name begins with c was scanned as a cedilla accent.
---
 scanner/scanner.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 35feecf..b9540e9 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -303,6 +303,9 @@ func (s *Scanner) scanStringMath() (token.Token, string) {
 // See https://tex.stackexchange.com/a/66671/59048.
 func (s *Scanner) scanStringEscape() (token.Token, string) {
 	offs := s.offset - 1 // initial backslash already consumed
+	if s.ch == rune(token.AccentCedilla) && s.isMacroName() {
+		return s.scanStringMacro()
+	}
 	switch s.ch {
 	case '\\', '$', '&', '%', '{', '}', '_':
 		// a single non-alphabetical character
@@ -322,7 +325,19 @@ func (s *Scanner) scanStringEscape() (token.Token, string) {
 		return token.StringMacro, string(s.src[offs:s.offset])
 	}
 
-	// It must be a macro made up of ascii letters.
+	return s.scanStringMacro()
+}
+
+// isMacroName returns true if the current char and the two following chars are
+// ascii letters, as in \cite but not in an accent like \cc.
+func (s *Scanner) isMacroName() bool {
+	return s.rdOffset+1 < len(s.src) && IsAsciiLetter(s.ch) &&
+		IsAsciiLetter(rune(s.src[s.rdOffset])) && IsAsciiLetter(rune(s.src[s.rdOffset+1]))
+}
+
+// scanStringMacro scans the name of a macro made up of ascii letters.
+func (s *Scanner) scanStringMacro() (token.Token, string) {
+	offs := s.offset - 1 // initial backslash already consumed
 	lo := s.offset
 	for !s.isSpecialStringChar(s.ch) && s.ch != 0 {
 		s.next()
-- 
2.43.0


From 7e9354dc5336e7bcca86e4a63c9ea47b9a45ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 11/34] fix: scanner: end a macro name at the first non-letter

A macro directly followed by punctuation or a digit, like \LaTeX. or \TeX3,
was reported as an error.
---
 scanner/scanner.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index b9540e9..813923c 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -339,7 +339,7 @@ func (s *Scanner) isMacroName() bool {
 func (s *Scanner) scanStringMacro() (token.Token, string) {
 	offs := s.offset - 1 // initial backslash already consumed
 	lo := s.offset
-	for !s.isSpecialStringChar(s.ch) && s.ch != 0 {
+	for IsAsciiLetter(s.ch) {
 		s.next()
 	}
 	name := string(s.src[lo:s.offset])
@@ -347,13 +347,6 @@ func (s *Scanner) scanStringMacro() (token.Token, string) {
 		s.error(offs, "expected macro name after backslash, got nothing")
 		return token.Illegal, string(s.src[offs : s.offset-1])
 	}
-	// Check that it's only ascii letters.
-	for _, c := range name {
-		if !IsAsciiLetter(c) {
-			s.errorf(offs, "expected command name to only contain ascii letters, got %q", name)
-			return token.Illegal, string(s.src[offs : s.offset-1])
-		}
-	}
 	return token.StringMacro, name
 }
 
-- 
2.43.0


From 6a6bf8c10b9525003d33d29712ffdf11de164f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:23 +0000
Subject: [PATCH 12/34] fix: parser: stop at end of input inside a braced
 string

An unterminated braced string or url macro never reached its closing
brace and the parser looped forever.
---
 parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 28a5804..c594919 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -401,7 +401,7 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	p.expect(token.StringLBrace)
 	sb := strings.Builder{}
 	sb.Grow(32)
-	for p.tok != token.StringRBrace && p.tok != token.StringSpace {
+	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
 		sb.WriteString(p.lit)
 		p.next()
 	}
@@ -452,6 +452,10 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 
 		values := make([]ast.Expr, 0, 2)
 		for p.tok != token.StringRBrace {
+			if p.tok == token.EOF {
+				p.errorExpected(p.pos, "'"+token.StringRBrace.String()+"'")
+				return &ast.BadExpr{From: opener, To: p.pos}
+			}
 			text := p.parseText(depth + 1)
 			if _, ok := text.(*ast.BadExpr); ok {
 				p.next()
-- 
2.43.0


From 71e56aa23391bf9d850a770a07ce1a65806ccc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 13/34] fix: parser: recover from a bailout in ParseExpr

More than ten errors on different lines made ParseExpr panic.
---
 parser/interface.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/parser/interface.go b/parser/interface.go
index 02ef814..23f4e10 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -107,19 +107,26 @@ func ParseFile(fset *gotok.FileSet, filename string, src interface{}, mode Mode)
 	return
 }
 
-func ParseExpr(str string) (ast.Expr, error) {
+func ParseExpr(str string) (expr ast.Expr, err error) {
 	fset := gotok.NewFileSet()
 	// use '=' to trick parser into treating '{' as a string
 	src := []byte("=" + str)
 	var p parser
+	defer func() {
+		if e := recover(); e != nil {
+			// resume same panic if it's not a bailout
+			if _, ok := e.(bailout); !ok {
+				panic(e)
+			}
+		}
+		p.errors.Sort()
+		if err = p.errors.Err(); err != nil {
+			expr = nil
+		}
+	}()
 	p.init(fset, "", src, ParseStrings)
 	p.next() // consume the '='
-	expr := p.parseExpr()
-	p.errors.Sort()
-	err := p.errors.Err()
-	if err != nil {
-		return nil, err
-	}
+	expr = p.parseExpr()
 	return expr, nil
 }
 
-- 
2.43.0


From 8ad7a075ea5171154e74834529331f86039f05e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:25 +0000
Subject: [PATCH 14/34] fix: parser: allocate the files of a package

ParsePackage panicked on the first file that parsed.
---
 parser/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/interface.go b/parser/interface.go
index 23f4e10..5332eba 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -138,7 +138,7 @@ func ParseExpr(str string) (expr ast.Expr, err error) {
 // encountered are returned.
 func ParsePackage(paths []string, mode Mode) (pkg *ast.Package, first error) {
 	fset := gotok.NewFileSet()
-	pkg = &ast.Package{}
+	pkg = &ast.Package{Files: make(map[string]*ast.File, len(paths))}
 	for _, filename := range paths {
 		if src, err := ParseFile(fset, filename, nil, mode); err == nil {
 			pkg.Files[filename] = src
-- 
2.43.0


From 6de0d41acdb3eadfd6f92186f0e104bdb3c840d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:26 +0000
Subject: [PATCH 15/34] fix: parser: set the name of a parsed file

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index c594919..05a36cc 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -870,6 +870,7 @@ func (p *parser) parseFile() *ast.File {
 	}
 
 	return &ast.File{
+		Name:       p.file.Name(),
 		Doc:        doc,
 		Entries:    decls,
 		Scope:      p.pkgScope,
-- 
2.43.0


From f1b5800bdb2f4c9c29c4db4c8dd44552ff80deca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 16/34] fix: parser: keep cite keys and field names apart

A field followed by a comma was also recorded as a cite key, and a key
that no comma follows was dropped.
---
 parser/parser.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 05a36cc..1327447 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -778,22 +778,20 @@ func (p *parser) parseBibDecl() *ast.BibDecl {
 				Value:   fixVal,
 			}
 			tags = append(tags, tag)
+			p.expectOptional(token.Comma)
+			continue
 		default:
-			// Keep going.
-		}
-		switch p.tok {
-		case token.Comma:
 			// It's a cite key.
-			p.next()
 			if bibKey == nil {
 				bibKey = key
 			} else {
 				extraKeys = append(extraKeys, key)
 			}
-			continue
-		default:
-			// Keep going.
 		}
+		if p.tok != token.Comma {
+			break // only the last key may omit the comma
+		}
+		p.next()
 	}
 	closer := p.expectCloser(opener)
 	p.expectOptional(token.Comma) // trailing commas allowed
-- 
2.43.0


From 67cc264a4f8513023a73aff54728ad7a6a310d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 17/34] fix: parser: allow concatenation after a parsed string

With ParseStrings a '#' after a quoted or braced string was a syntax
error. The operator position was the one of the right operand.
---
 parser/parser.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1327447..b904233 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -575,16 +575,6 @@ func (p *parser) parseExpr() (x ast.Expr) {
 	switch {
 	case p.tok.IsLiteral():
 		x = p.parseBasicLit()
-		if p.tok == token.Concat {
-			p.next()
-			opPos := p.pos
-			y := p.parseExpr()
-			x = &ast.ConcatExpr{
-				X:     x,
-				OpPos: opPos,
-				Y:     y,
-			}
-		}
 
 	case p.tok.IsStringLiteral():
 		x = p.parseStringLiteral()
@@ -596,6 +586,17 @@ func (p *parser) parseExpr() (x ast.Expr) {
 			To:   p.pos,
 		}
 		p.next() // make progress
+		return
+	}
+	if p.tok == token.Concat {
+		opPos := p.pos
+		p.next()
+		y := p.parseExpr()
+		x = &ast.ConcatExpr{
+			X:     x,
+			OpPos: opPos,
+			Y:     y,
+		}
 	}
 	return
 }
-- 
2.43.0


From 3ed6f740b28be6ce98625959f4f802cbc826e661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 18/34] fix: parser: keep all characters of url fields

A braced url lost its ties, a quoted one its spaces, groups and dollar
signs, and a field named URL was not recognised. Parse the value like any
other string and join its pieces as written.
---
 parser/parser.go | 84 +++++++++++-------------------------------------
 1 file changed, 18 insertions(+), 66 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b904233..e2a6520 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -402,7 +402,11 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	sb := strings.Builder{}
 	sb.Grow(32)
 	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
-		sb.WriteString(p.lit)
+		if p.tok == token.StringMath {
+			sb.WriteString("$" + p.lit + "$")
+		} else {
+			sb.WriteString(p.lit)
+		}
 		p.next()
 	}
 	urlCmd.Values = []ast.Expr{
@@ -517,56 +521,6 @@ func (p *parser) parseStringLiteral() ast.Expr {
 	}
 }
 
-func (p *parser) parseURLStringLiteral() ast.Expr {
-	sb := strings.Builder{}
-	sb.Grow(32)
-	pos := p.pos
-	switch tok := p.tok; tok {
-	case token.DoubleQuote:
-		p.next()
-
-		if p.tok == token.StringMacro {
-			url := p.parseMacroURL(p.lit)
-			p.expect(token.StringRBrace)
-			p.expect(token.DoubleQuote)
-			return &ast.ParsedText{
-				Opener: pos,
-				Depth:  0,
-				Delim:  ast.QuoteDelimiter,
-				Values: []ast.Expr{url},
-				Closer: p.pos,
-			}
-		}
-
-		for p.tok != token.DoubleQuote {
-			if p.tok == token.EOF {
-				p.errorExpected(p.pos, "double quote")
-				return &ast.BadExpr{From: pos, To: p.pos}
-			}
-
-			sb.WriteString(p.lit)
-			p.next()
-		}
-		txt := &ast.Text{
-			ValuePos: pos,
-			Value:    sb.String(),
-		}
-		p.expect(token.DoubleQuote)
-		return txt
-
-	case token.StringLBrace:
-		return p.parseText(0)
-
-	default:
-		p.errorExpected(p.pos, "string literal")
-		p.advance(stmtStart)
-		return &ast.BadExpr{
-			From: pos,
-			To:   p.pos,
-		}
-	}
-}
-
 func (p *parser) parseExpr() (x ast.Expr) {
 	if p.trace {
 		defer un(trace(p, "Expr"))
@@ -715,18 +669,21 @@ func fixUpFields(tag string, val ast.Expr) ast.Expr {
 		if !ok || len(txt.Values) == 0 {
 			return val
 		}
-		child1, ok := txt.Values[0].(*ast.Text)
-		if !ok || !strings.HasPrefix(child1.Value, "http") {
-			return val
-		}
-		pos := child1.ValuePos
+		pos := txt.Values[0].Pos()
 		sb := strings.Builder{}
 		sb.Grow(32)
 		for _, child := range txt.Values {
-			if cTxt, ok := child.(*ast.Text); !ok {
+			switch c := child.(type) {
+			case *ast.Text:
+				sb.WriteString(c.Value)
+			case *ast.TextComma:
+				sb.WriteString(",")
+			case *ast.TextNBSP:
+				sb.WriteString("~")
+			case *ast.TextMath:
+				sb.WriteString("$" + c.Value + "$")
+			default:
 				return val
-			} else {
-				sb.WriteString(cTxt.Value)
 			}
 		}
 		return &ast.ParsedText{
@@ -764,13 +721,8 @@ func (p *parser) parseBibDecl() *ast.BibDecl {
 				p.error(key.Pos(), "tag keys must not start with a number")
 			}
 			p.next()
-			var val ast.Expr
-			if key.Name == "url" && p.tok.IsStringLiteral() {
-				val = p.parseURLStringLiteral()
-			} else {
-				val = p.parseExpr()
-			}
-			fixVal := fixUpFields(key.Name, val)
+			val := p.parseExpr()
+			fixVal := fixUpFields(strings.ToLower(key.Name), val)
 			tag := &ast.TagStmt{
 				Doc:     doc,
 				NamePos: key.Pos(),
-- 
2.43.0


From 18bec91f7d0df2749f4dd068a643dcab6043ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:01 +0000
Subject: [PATCH 19/34] fix: parser: record the positions of closing delimiters
 and accents

The closing delimiter of a parsed string, an accent and the text of a
url macro got the position of the token that follows.
---
 parser/parser.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e2a6520..13d1f9d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -399,6 +399,7 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	urlCmd := &ast.TextMacro{Cmd: p.pos, Name: name}
 	p.next()
 	p.expect(token.StringLBrace)
+	textPos := p.pos
 	sb := strings.Builder{}
 	sb.Grow(32)
 	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
@@ -410,7 +411,7 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 		p.next()
 	}
 	urlCmd.Values = []ast.Expr{
-		&ast.Text{ValuePos: p.pos, Value: sb.String()},
+		&ast.Text{ValuePos: textPos, Value: sb.String()},
 	}
 	if p.tok == token.StringSpace {
 		p.next()
@@ -467,13 +468,14 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 			}
 			values = append(values, text)
 		}
+		closer := p.pos
 		p.next() // consume closing '}'
 		return &ast.ParsedText{
 			Depth:  depth,
 			Opener: opener,
 			Delim:  ast.BraceDelimiter,
 			Values: values,
-			Closer: p.pos,
+			Closer: closer,
 		}
 	case token.StringAccent:
 		return p.parseStringAccent()
@@ -498,13 +500,14 @@ func (p *parser) parseStringLiteral() ast.Expr {
 			}
 			values = append(values, p.parseText(1))
 		}
+		closer := p.pos
 		p.next() // consume closing '"'
 		txt := &ast.ParsedText{
 			Opener: pos,
 			Depth:  0,
 			Delim:  ast.QuoteDelimiter,
 			Values: values,
-			Closer: p.pos,
+			Closer: closer,
 		}
 		return txt
 
@@ -589,25 +592,27 @@ func (p *parser) parseTagStmt() *ast.TagStmt {
 }
 
 func (p *parser) parseStringAccent() ast.Expr {
-	lit := p.lit
+	pos, lit := p.pos, p.lit
 	p.next()
 	if len(lit) <= 2 {
-		p.error(p.pos, "invalid accent string")
-		return &ast.BadExpr{From: p.pos, To: p.pos}
+		p.error(pos, "invalid accent string")
+		return &ast.BadExpr{From: pos, To: p.pos}
 	}
 	if lit[0] != '\\' {
-		p.error(p.pos, "invalid accent string (missing leading '\\')")
-		return &ast.BadExpr{From: p.pos, To: p.pos}
+		p.error(pos, "invalid accent string (missing leading '\\')")
+		return &ast.BadExpr{From: pos, To: p.pos}
 	}
 	value := lit[2:]
+	end := p.pos // the accent ends at the next token
 	if value[0] == '{' && value[len(value)-1] == '}' {
 		value = value[1 : len(value)-1]
+		end--
 	}
 	return &ast.TextAccent{
-		ValuePos: p.pos,
+		ValuePos: pos,
 		Accent:   token.Accent(lit[1]),
 		Text: &ast.Text{
-			ValuePos: p.pos + 2,
+			ValuePos: end - gotok.Pos(len(value)),
 			Value:    value,
 		},
 	}
-- 
2.43.0


From d5b55aa7453a461d2667542d4acc56edbfc97eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:39 +0000
Subject: [PATCH 20/34] fix: ast: walk into field values and abbreviations

Walk visited fields but not their values, so resolvers never reached the
strings of an entry unless they looked at fields themselves.
---
 ast/walk.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ast/walk.go b/ast/walk.go
index 46756a2..e574419 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -80,6 +80,18 @@ func walkHelper(n Node, walker Walker) (WalkStatus, error) {
 					return st, err
 				}
 			}
+		case *AbbrevDecl:
+			if t.Tag != nil {
+				if st, err := walkHelper(t.Tag, walker); st == WalkStop || err != nil {
+					return st, err
+				}
+			}
+		case *TagStmt:
+			if t.Value != nil {
+				if st, err := walkHelper(t.Value, walker); st == WalkStop || err != nil {
+					return st, err
+				}
+			}
 		case *PreambleDecl:
 			if st, err := walkHelper(t.Text, walker); st == WalkStop || err != nil {
 				return st, err
-- 
2.43.0


From 2d4ee7b079a87c7f18256d6886f1466d0d0f9f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:40 +0000
Subject: [PATCH 21/34] fix: resolve entries without a cite key

An entry such as @misc{title = {x}} parses without error to an entry whose
key is nil, which made Resolve panic.
---
 bibtex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bibtex.go b/bibtex.go
index b765e6a..3fe4700 100644
--- a/bibtex.go
+++ b/bibtex.go
@@ -174,10 +174,12 @@ func (b *Biber) Resolve(node ast.Node) ([]Entry, error) {
 
 func (b *Biber) resolveEntry(decl *ast.BibDecl) Entry {
 	entry := Entry{
-		Key:  decl.Key.Name,
 		Type: decl.Type,
 		Tags: make(map[Field]ast.Expr, 4),
 	}
+	if decl.Key != nil {
+		entry.Key = decl.Key.Name
+	}
 	for _, tag := range decl.Tags {
 		entry.Tags[tag.Name] = tag.Value
 	}
-- 
2.43.0


From 87acabee90174d788b1e5ca40ba03bd653edab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:08 +0000
Subject: [PATCH 22/34] fix: render: report a failed write of a concatenation
 operator

TextRenderer ignored the error of writing '#', and went on writing.
---
 render/render.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/render/render.go b/render/render.go
index 3774dca..1004f20 100644
--- a/render/render.go
+++ b/render/render.go
@@ -219,7 +219,9 @@ func (p TextRenderer) Render(w io.Writer, x ast.Expr) error {
 		if err := p.Render(w, t.X); err != nil {
 			return err
 		}
-		_, _ = w.Write([]byte{'#'})
+		if _, err := w.Write([]byte{'#'}); err != nil {
+			return err
+		}
 		if err := p.Render(w, t.Y); err != nil {
 			return err
 		}
-- 
2.43.0


From 33a795660e2fa65874e1522fc6ab9f4036476505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:09 +0000
Subject: [PATCH 23/34] fix: render: make the default renderers reproduce
 strings

The renderer of ast.Text panicked on every ast.Text because it asserted an
ast.TextSpace, and on accents, which have the same kind. The renderers of
leaves wrote on entering and again on leaving, math lost its contents,
parsed white space, which has no value, was dropped, and a failed write of an
identifier was ignored.
---
 render/render.go | 57 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/render/render.go b/render/render.go
index 1004f20..0173bee 100644
--- a/render/render.go
+++ b/render/render.go
@@ -60,9 +60,14 @@ func renderBadExpr(io.Writer, ast.Node, bool) (ast.WalkStatus, error) {
 	return ast.WalkStop, fmt.Errorf("render bad expr")
 }
 
-func renderIdent(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderIdent(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	ident := n.(*ast.Ident)
-	_, _ = w.Write([]byte(ident.Name))
+	if _, err := w.Write([]byte(ident.Name)); err != nil {
+		return ast.WalkStop, fmt.Errorf("default renderIdent: %w", err)
+	}
 	return ast.WalkContinue, nil
 }
 
@@ -100,22 +105,37 @@ func renderParsedText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, e
 	return ast.WalkContinue, nil
 }
 
-func renderText(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
-	txt := n.(*ast.TextSpace)
-	if _, err := w.Write([]byte(txt.Value)); err != nil {
+func renderText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
+	var val string
+	switch t := n.(type) {
+	case *ast.Text:
+		val = t.Value
+	case *ast.TextAccent: // has the kind of ast.Text
+		val = `\` + string(t.Accent) + "{" + t.Text.Value + "}"
+	}
+	if _, err := w.Write([]byte(val)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderText: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextComma(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextComma(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte(",")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextComma: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextEscaped(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextEscaped(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	esc := n.(*ast.TextEscaped)
 	if _, err := w.Write([]byte(`\` + esc.Value)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextEscaped: %w", err)
@@ -123,16 +143,20 @@ func renderTextEscaped(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error)
 	return ast.WalkContinue, nil
 }
 
-func renderTextHyphen(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextHyphen(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte("-")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextHyphen: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextMath(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+func renderTextMath(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
 	if entering {
-		if _, err := w.Write([]byte("$")); err != nil {
+		math := n.(*ast.TextMath)
+		if _, err := w.Write([]byte("$" + math.Value)); err != nil {
 			return ast.WalkStop, fmt.Errorf("default renderTextMath left: %w", err)
 		}
 	} else {
@@ -143,16 +167,21 @@ func renderTextMath(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, err
 	return ast.WalkContinue, nil
 }
 
-func renderTextNBSP(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextNBSP(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte(" ")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextNBSP: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextSpace(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
-	sp := n.(*ast.TextSpace)
-	if _, err := w.Write([]byte(sp.Value)); err != nil {
+func renderTextSpace(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
+	if _, err := w.Write([]byte(" ")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextSpace: %w", err)
 	}
 	return ast.WalkContinue, nil
-- 
2.43.0


From 9b9cec1d811f14e7ebcb7ddbb87fa9bf08a81394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:53 +0000
Subject: [PATCH 24/34] fix: report nodes without a renderer

A renderer removed with WithRenderer(kind, nil) was stored as a non-nil
interface that panicked when called, and so did a node of an unknown kind.
---
 bibtex.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bibtex.go b/bibtex.go
index 3fe4700..8431c9d 100644
--- a/bibtex.go
+++ b/bibtex.go
@@ -106,6 +106,10 @@ func WithResolvers(rs ...Resolver) Option {
 // renderer.
 func WithRenderer(kind ast.NodeKind, r render.NodeRendererFunc) Option {
 	return func(b *Biber) {
+		if r == nil {
+			b.renderers[kind] = nil // not a non-nil interface holding a nil func
+			return
+		}
 		b.renderers[kind] = r
 	}
 }
@@ -197,7 +201,10 @@ type Entry struct {
 
 func (b *Biber) Render(w io.Writer, root ast.Node) error {
 	err := ast.Walk(root, func(n ast.Node, isEntering bool) (ast.WalkStatus, error) {
-		rend := b.renderers[n.Kind()]
+		var rend render.NodeRenderer
+		if kind := n.Kind(); 0 <= kind && int(kind) < len(b.renderers) {
+			rend = b.renderers[kind]
+		}
 		if rend == nil {
 			return ast.WalkStop, fmt.Errorf("biber render - no renderer for node kind %s", n.Kind())
 		}
-- 
2.43.0


From 4cc44a6da4ccb2a35282cb11fa7d7516441f91fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:19 +0000
Subject: [PATCH 25/34] fix: split authors only at a standalone "and"

The text "and" next to a group, an accent or a comma is a part of a name.
---
 author.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/author.go b/author.go
index 8582785..e0e9107 100644
--- a/author.go
+++ b/author.go
@@ -19,10 +19,10 @@ func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
 	// to extractAuthor to get the Author.
 	authors := make([]*ast.Author, 0, 4)
 	aExprs := make([]ast.Expr, 0, 8)
-	for _, v := range txt.Values {
+	for i, v := range txt.Values {
 		switch t := v.(type) {
 		case *ast.Text:
-			if t.Value == authorSep {
+			if t.Value == authorSep && isSpaced(i, txt.Values) {
 				a := extractAuthor(aExprs)
 				if a.IsEmpty() {
 					return nil, fmt.Errorf("found an empty author")
@@ -42,6 +42,19 @@ func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
 	return authors, nil
 }
 
+// isSpaced tells whether the expression at idx is a word of its own.
+func isSpaced(idx int, xs []ast.Expr) bool {
+	for _, i := range []int{idx - 1, idx + 1} {
+		if i < 0 || i >= len(xs) {
+			continue
+		}
+		if _, ok := xs[i].(*ast.TextSpace); !ok {
+			return false
+		}
+	}
+	return true
+}
+
 func trimSpaces(xs []ast.Expr) []ast.Expr {
 	lo, hi := 0, len(xs)
 
-- 
2.43.0


From 27180d970087943f1e630a738f2a0879ec5d5dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:20 +0000
Subject: [PATCH 26/34] fix: do not panic on macros and unknown accents in
 authors

---
 author.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/author.go b/author.go
index e0e9107..00d9274 100644
--- a/author.go
+++ b/author.go
@@ -17,6 +17,9 @@ const authorSep = "and"
 func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
 	// Pop tokens until we get the author separator then hand off the tokens
 	// to extractAuthor to get the Author.
+	if err := checkAuthorExpr(txt); err != nil {
+		return nil, fmt.Errorf("extract authors: %w", err)
+	}
 	authors := make([]*ast.Author, 0, 4)
 	aExprs := make([]ast.Expr, 0, 8)
 	for i, v := range txt.Values {
@@ -42,6 +45,30 @@ func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
 	return authors, nil
 }
 
+// checkAuthorExpr returns an error if parseDefault cannot handle x.
+func checkAuthorExpr(x ast.Expr) error {
+	var values []ast.Expr
+	switch t := x.(type) {
+	case *ast.Text, *ast.TextComma, *ast.TextEscaped, *ast.TextHyphen, *ast.TextNBSP, *ast.TextSpace, *ast.TextMath:
+		return nil
+	case *ast.TextAccent:
+		_, err := render.RenderAccent(t.Accent, t.Text.Value)
+		return err
+	case *ast.ParsedText:
+		values = t.Values
+	case *ast.TextMacro:
+		values = t.Values
+	default:
+		return fmt.Errorf("unhandled expression %T", x)
+	}
+	for _, v := range values {
+		if err := checkAuthorExpr(v); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // isSpaced tells whether the expression at idx is a word of its own.
 func isSpaced(idx int, xs []ast.Expr) bool {
 	for _, i := range []int{idx - 1, idx + 1} {
@@ -146,6 +173,12 @@ func parseDefault(idx int, xs []ast.Expr) string {
 			sb.WriteString(d)
 		}
 		return sb.String()
+	case *ast.TextMacro:
+		sb := strings.Builder{}
+		for i := range t.Values {
+			sb.WriteString(parseDefault(i, t.Values))
+		}
+		return sb.String()
 	case *ast.TextComma:
 		return ","
 	case *ast.TextEscaped:
-- 
2.43.0


From 8afb8cddedbdce5032b0f581f02b2d9f576608d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:21 +0000
Subject: [PATCH 27/34] fix: keep the whole suffix and first name of "Last, Jr,
 First"

The suffix was only the first expression after the comma, usually a space, and
the first name ended at the first word in lowercase.
---
 author.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/author.go b/author.go
index 00d9274..f89f5ff 100644
--- a/author.go
+++ b/author.go
@@ -288,8 +288,10 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 	suffix := strings.Builder{}
 	suffix.Grow(16)
 	if len(commas) > 1 {
-		val := parseDefault(0, xs[commas[0]+1:])
-		suffix.WriteString(val)
+		part3 := xs[commas[0]+1 : commas[1]]
+		for i := range part3 {
+			suffix.WriteString(parseDefault(i, part3))
+		}
 		part2 = xs[commas[1]+1:]
 	}
 
@@ -297,11 +299,8 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 	first := strings.Builder{}
 	first.Grow(16)
 	for ; idx2 < len(part2); idx2++ {
-		val, action := parseFirstName(idx2, part2)
-		if action == resolveNextPart {
-			break
-		}
-		first.WriteString(val)
+		// Everything is the first name, even words in lowercase.
+		first.WriteString(parseDefault(idx2, part2))
 	}
 
 	return &ast.Author{
-- 
2.43.0


From 7bd87774b3825487366f318f60134f1fec96fa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:51 +0000
Subject: [PATCH 28/34] fix: split names into parts at words

The last expression before the end or the first comma was taken as the last
name, although a word may consist of several (Meg\`eve) or be followed by a
space. Groups and later parts of words counted as words in lowercase, a leading
word in lowercase as a first name, and ties did not separate words.
---
 author.go | 75 +++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 54 insertions(+), 21 deletions(-)

diff --git a/author.go b/author.go
index f89f5ff..2226f68 100644
--- a/author.go
+++ b/author.go
@@ -82,18 +82,58 @@ func isSpaced(idx int, xs []ast.Expr) bool {
 	return true
 }
 
+// isSpace tells whether x separates the words of a name.
+func isSpace(x ast.Expr) bool {
+	switch x.(type) {
+	case *ast.TextSpace, *ast.TextNBSP:
+		return true
+	}
+	return false
+}
+
+// startsWord tells whether a word begins at idx.
+func startsWord(idx int, xs []ast.Expr) bool {
+	return !isSpace(xs[idx]) && (idx == 0 || isSpace(xs[idx-1]))
+}
+
+// isLowerWord tells whether a word that begins with x is in lowercase.
+func isLowerWord(x ast.Expr) bool {
+	if txt, ok := x.(*ast.ParsedText); ok && len(txt.Values) > 0 {
+		// A group is only in lowercase if it's an accented character.
+		if acc, ok := txt.Values[0].(*ast.TextAccent); ok {
+			x = acc
+		}
+	}
+	switch t := x.(type) {
+	case *ast.Text:
+		return !hasUpperPrefix(t.Value)
+	case *ast.TextAccent:
+		return !hasUpperPrefix(t.Text.Value)
+	}
+	return false
+}
+
+// lastWord returns the offset of the last word of xs.
+func lastWord(xs []ast.Expr) int {
+	idx := len(xs) - 1
+	for idx > 0 && !startsWord(idx, xs) {
+		idx--
+	}
+	return idx
+}
+
 func trimSpaces(xs []ast.Expr) []ast.Expr {
 	lo, hi := 0, len(xs)
 
 	for i := 0; i < len(xs); i++ {
-		if _, ok := xs[i].(*ast.TextSpace); !ok {
+		if !isSpace(xs[i]) {
 			break
 		}
 		lo++
 	}
 
 	for i := len(xs) - 1; i >= 0; i-- {
-		if _, ok := xs[i].(*ast.TextSpace); !ok {
+		if !isSpace(xs[i]) {
 			break
 		}
 		hi--
@@ -123,11 +163,9 @@ const (
 
 func parseFirstName(idx int, xs []ast.Expr) (string, resolveAction) {
 	x := xs[idx]
-	if _, ok := x.(*ast.TextSpace); ok && idx < len(xs)-1 {
-		if t, ok := xs[idx+1].(*ast.Text); ok && !hasUpperPrefix(t.Value) {
-			// lowercase after space means we're out of the first name
-			return "", resolveNextPart
-		}
+	if startsWord(idx, xs) && isLowerWord(x) {
+		// a lowercase word means we're out of the first name
+		return "", resolveNextPart
 	}
 
 	if _, ok := x.(*ast.Text); !ok {
@@ -146,15 +184,10 @@ func hasUpperPrefix(s string) bool {
 
 func parsePrefixName(idx int, xs []ast.Expr) (string, resolveAction) {
 	x := xs[idx]
-	if _, ok := x.(*ast.Text); !ok {
-		return parseDefault(idx, xs), resolveContinue
-	}
-
-	t := x.(*ast.Text)
-	if hasUpperPrefix(t.Value) {
+	if startsWord(idx, xs) && !isLowerWord(x) {
 		return "", resolveNextPart // Only lowercase goes in prefix
 	}
-	return t.Value, resolveContinue
+	return parseDefault(idx, xs), resolveContinue
 }
 
 func parseLastName(idx int, xs []ast.Expr) (string, resolveAction) {
@@ -209,8 +242,8 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 	first.Grow(16)
 	idx := 0
 	for ; idx < len(xs); idx++ {
-		if idx == len(xs)-1 {
-			// If we're on the last part, it belongs to the last name.
+		if idx >= lastWord(xs) {
+			// If we're on the last word, it belongs to the last name.
 			break
 		}
 		val, action := parseFirstName(idx, xs)
@@ -222,8 +255,8 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 
 	prefix := strings.Builder{}
 	for ; idx < len(xs); idx++ {
-		if idx == len(xs)-1 {
-			// If we're on the last part, it belongs to the last name.
+		if idx >= lastWord(xs) {
+			// If we're on the last word, it belongs to the last name.
 			break
 		}
 		val, action := parsePrefixName(idx, xs)
@@ -258,12 +291,12 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 //	2 commas: last, suffix, first     => Author{first, "",  last, suffix}
 //	2 commas: von last, suffix, first => Author{first, von, last, suffix}
 func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
-	part1 := xs[:commas[0]]
+	part1 := trimSpaces(xs[:commas[0]])
 	idx1 := 0
 	prefix := strings.Builder{}
 	for ; idx1 < len(part1); idx1++ {
-		if idx1 == len(part1)-1 {
-			// If we're on the last part, it belongs to the last name.
+		if idx1 >= lastWord(part1) {
+			// If we're on the last word, it belongs to the last name.
 			break
 		}
 		val, action := parsePrefixName(idx1, part1)
-- 
2.43.0


From eaf46e2b61761fbe28507a924a18ee6006a27f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:09 +0000
Subject: [PATCH 29/34] fix: asts: do not panic on a single dollar sign

---
 asts/asts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asts/asts.go b/asts/asts.go
index 6787a2c..8ac97e9 100644
--- a/asts/asts.go
+++ b/asts/asts.go
@@ -66,7 +66,7 @@ func ParseStringExpr(depth int, s string) ast.Expr {
 	switch {
 	case strings.TrimSpace(s) == "":
 		return Space()
-	case strings.HasPrefix(s, "$") && strings.HasSuffix(s, "$"):
+	case len(s) >= 2 && strings.HasPrefix(s, "$") && strings.HasSuffix(s, "$"):
 		bs := []byte(s)
 		return Math(string(bs[1 : len(bs)-1]))
 	case s == "~":
-- 
2.43.0


From 2969e4d1ee16ebc4091f3e8c399860c9be91e723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 30/34] fix: asts: close the parenthesis of a macro without
 parameters

---
 asts/asts.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asts/asts.go b/asts/asts.go
index 8ac97e9..bb4a66a 100644
--- a/asts/asts.go
+++ b/asts/asts.go
@@ -235,6 +235,7 @@ func ExprString(x ast.Expr) string {
 			if v.RBrace != gotok.NoPos {
 				sb.WriteString("{}")
 			}
+			sb.WriteString(")")
 			return sb.String()
 		}
 		sb.WriteString("{")
-- 
2.43.0


From 5ae835c17bc7174d2203f7208c5275865a0f38a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 31/34] fix: asts: let the option for keys be used more than
 once

The option dropped its first key, so that a second declaration made with it got
other keys.
---
 asts/asts.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/asts/asts.go b/asts/asts.go
index bb4a66a..ea72a26 100644
--- a/asts/asts.go
+++ b/asts/asts.go
@@ -261,11 +261,11 @@ func WithBibType(s string) func(decl *ast.BibDecl) {
 
 func WithBibKeys(ts ...string) func(decl *ast.BibDecl) {
 	return func(b *ast.BibDecl) {
-		if len(ts) > 0 {
-			b.Key = &ast.Ident{Name: ts[0]}
-			ts = ts[1:]
-		}
-		for _, k := range ts {
+		for i, k := range ts {
+			if i == 0 {
+				b.Key = &ast.Ident{Name: k}
+				continue
+			}
 			b.ExtraKeys = append(b.ExtraKeys, &ast.Ident{Name: k})
 		}
 	}
-- 
2.43.0


From e297524c9b84df9875141352dcda8da04d280909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:12 +0000
Subject: [PATCH 32/34] fix: ast: end nodes after their last character

---
 ast/ast.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index ec8a0e7..e62d22f 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -339,14 +339,19 @@ func (x *Author) IsOthers() bool {
 func (x *Author) exprNode() {}
 
 func (x *UnparsedText) Pos() gotok.Pos { return x.ValuePos }
-func (x *UnparsedText) End() gotok.Pos { return gotok.Pos(int(x.ValuePos) + len(x.Value)) }
+func (x *UnparsedText) End() gotok.Pos {
+	return gotok.Pos(int(x.ValuePos) + len(x.Value) + 2*len(`"`))
+}
 func (x *UnparsedText) Kind() NodeKind { return KindUnparsedText }
 func (*UnparsedText) exprNode()        {}
 
 func (x *ParsedText) Pos() gotok.Pos { return x.Opener }
 func (x *ParsedText) End() gotok.Pos {
+	if x.Closer != gotok.NoPos {
+		return x.Closer + 1
+	}
 	if len(x.Values) > 0 {
-		return x.Values[len(x.Values)-1].Pos()
+		return x.Values[len(x.Values)-1].End()
 	}
 	return x.Opener
 }
@@ -396,18 +401,18 @@ func (*TextSpace) exprNode()        {}
 func (x *TextMacro) Pos() gotok.Pos { return x.Cmd }
 func (x *TextMacro) End() gotok.Pos {
 	if x.RBrace != gotok.NoPos {
-		return x.RBrace
+		return x.RBrace + 1
 	}
 	if len(x.Values) == 0 {
-		return x.Cmd
+		return gotok.Pos(int(x.Cmd) + len(`\`) + len(x.Name))
 	}
-	return x.Values[len(x.Values)-1].Pos()
+	return x.Values[len(x.Values)-1].End()
 }
 func (x *TextMacro) Kind() NodeKind { return KindTextMacro }
 func (*TextMacro) exprNode()        {}
 
 func (x *ConcatExpr) Pos() gotok.Pos { return x.X.Pos() }
-func (x *ConcatExpr) End() gotok.Pos { return x.Y.Pos() }
+func (x *ConcatExpr) End() gotok.Pos { return x.Y.End() }
 func (x *ConcatExpr) Kind() NodeKind { return KindConcatExpr }
 func (*ConcatExpr) exprNode()        {}
 
@@ -440,7 +445,7 @@ func (x *BadStmt) Kind() NodeKind { return KindBadStmt }
 func (*BadStmt) stmtNode()        {}
 
 func (x *TagStmt) Pos() gotok.Pos { return x.NamePos }
-func (x *TagStmt) End() gotok.Pos { return x.Value.Pos() }
+func (x *TagStmt) End() gotok.Pos { return x.Value.End() }
 func (x *TagStmt) Kind() NodeKind { return KindTagStmt }
 func (*TagStmt) stmtNode()        {}
 
@@ -492,17 +497,17 @@ func (e *BadDecl) Kind() NodeKind { return KindBadDecl }
 func (*BadDecl) declNode()        {}
 
 func (e *AbbrevDecl) Pos() gotok.Pos { return e.Entry }
-func (e *AbbrevDecl) End() gotok.Pos { return e.RBrace }
+func (e *AbbrevDecl) End() gotok.Pos { return e.RBrace + 1 }
 func (e *AbbrevDecl) Kind() NodeKind { return KindAbbrevDecl }
 func (*AbbrevDecl) declNode()        {}
 
 func (e *BibDecl) Pos() gotok.Pos { return e.Entry }
-func (e *BibDecl) End() gotok.Pos { return e.RBrace }
+func (e *BibDecl) End() gotok.Pos { return e.RBrace + 1 }
 func (e *BibDecl) Kind() NodeKind { return KindBibDecl }
 func (*BibDecl) declNode()        {}
 
 func (e *PreambleDecl) Pos() gotok.Pos { return e.Entry }
-func (e *PreambleDecl) End() gotok.Pos { return e.RBrace }
+func (e *PreambleDecl) End() gotok.Pos { return e.RBrace + 1 }
 func (e *PreambleDecl) Kind() NodeKind { return KindPreambleDecl }
 func (*PreambleDecl) declNode()        {}
 
-- 
2.43.0


From 9ee0e105ed4d654705ed96519f9dfb1b3057fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:39 +0000
Subject: [PATCH 33/34] fix: parser: name macros without their backslash

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 13d1f9d..b4df8b8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -445,7 +445,7 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 			// Special case common macros.
 			txt = p.parseMacroURL(p.lit)
 		default:
-			txt = &ast.TextMacro{Cmd: p.pos, Name: p.lit}
+			txt = &ast.TextMacro{Cmd: p.pos, Name: strings.TrimPrefix(p.lit, `\`)}
 		}
 	case token.StringBackslash:
 		txt = &ast.TextEscaped{ValuePos: p.pos, Value: p.lit[1:]}
-- 
2.43.0


From 6eb31c3a999e0acb5796825173e9d825e666db97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:24 +0000
Subject: [PATCH 34/34] fix: parser: return a node for every unexpected token
 in a string

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index b4df8b8..d75c115 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -481,6 +481,7 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 		return p.parseStringAccent()
 	default:
 		p.error(p.pos, "unknown text type: "+p.tok.String())
+		txt = &ast.BadExpr{From: p.pos, To: p.pos}
 	}
 
 	p.next()
-- 
2.43.0

