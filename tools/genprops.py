#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the properties are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

SC, PA, PI = "scanner/scanner.go", "parser/parser.go", "parser/interface.go"
AST, WALK, SCOPE = "ast/ast.go", "ast/walk.go", "ast/scope.go"
AU, BI, RS = "author.go", "bibtex.go", "resolver.go"
RE, AC, AS, TK = "render/render.go", "render/accent.go", "asts/asts.go", "token/token.go"

p("C01", "Parsing any input always terminates without crashing",
  "For every byte sequence and every combination of parser modes, parsing a file or an expression returns in finite time and never panics. Parsing a file from memory always yields a non-nil file, even when an error is returned; parsing an expression yields either an expression or an error, never neither.",
  ["inputs", "configurations"], "all byte strings x all parser mode flag combinations x {file, expression} entry points",
  "The tests parse some fifty well-formed snippets and one valid file; no test ends an input inside a string, group, accent, macro or comment, so panics and endless loops on truncated input are invisible.",
  [PA, PI, SC], [("recursive descent with one-token look-ahead", "parser.parseFile/parseExpr/parseText"), ("bailout panic recovered at the entry point", "parser.ParseFile"), ("scanner end-of-input handling", "scanner.next/scanString/scanInString")],
  ["parser.ParseFile", "parser.ParseExpr", "bibtex.Biber.Parse"])

p("C02", "Tokenizing makes progress and always reaches end of input",
  "For every byte sequence and both string-scanning modes, repeatedly asking for the next token never panics, returns tokens at non-decreasing positions inside the file, consumes at least one byte per token, and reaches the end-of-input token after at most one token per input byte. Once the end of input has been reported, every further request reports it again at the same position and without further errors.",
  ["inputs", "configurations"], "all byte strings x scanner modes",
  "Tests scan a fixed list of valid lexemes and stop at the first end-of-input token.",
  [SC], [("always make progress", "scanner.Scan"), ("end-of-input inside strings", "scanner.scanInString")], ["scanner.Scanner.Scan"],
  [dict(name="offset/rdOffset/endQuoteCh/braceDepth", meaning="scanner position and string state", where=SC)])

p("C03", "Tokens outside strings tile the source text",
  "With string scanning off, every token's position is the position of its first character in the source, its reported literal is exactly the source text it covers (without the delimiters, for strings), and the only bytes not covered by a token are spaces, tabs, carriage returns, newlines and a leading byte order mark. Positions translate to the line and column obtained by counting newlines in the source.",
  ["inputs"], "all byte strings",
  "The tests check a list of thirty lexemes separated by one fixed whitespace string; unusual adjacency, unterminated tokens and line counting at arbitrary offsets are not covered.",
  [SC], [("literal slicing", "scanner.scanIdent/scanNumber/scanString/scanBraceString/scanTexComment/scanCommand"), ("line table", "scanner.next")], ["scanner.Scanner.Scan", "go/token.FileSet.Position"])

p("C04", "Outside strings the token kind follows the documented lexical rules",
  "Outside strings the kind of each token is a function of the documented lexical rules only: digits alone are a number, other runs of name characters are an identifier, '@' plus letters is a case-insensitive string/preamble/comment command or else an entry, '%' to end of line is a comment, each of = , # ( ) { } is its own operator, and an opening brace begins a string exactly when it stands where a value is expected (after '=', '#', or as the first thing in a block), comments notwithstanding. Any other character is reported as illegal with its text as literal.",
  ["inputs"], "all byte strings",
  "Tests sample each token kind once or twice; the product of adjacent kinds and look-behind state is not explored.",
  [SC, TK], [("character dispatch", "scanner.Scan"), ("look-behind heuristic for braces", "scanner.Scan case '{'"), ("name characters", "scanner.IsName")], ["scanner.Scanner.Scan"])

p("C05", "String contents are tokenized by the documented rules",
  "Inside a string with string scanning on, the token sequence equals the documented one for every content: whitespace runs, commas, '~', math between dollar signs, groups, single-character escapes, accents with a braced, spaced or bare letter, macros named by a maximal run of letters, and plain text between them. A brace-delimited string ends at its matching unescaped brace, and a quote-delimited string ends at the first unescaped quote outside every group.",
  ["inputs"], "all string contents, both delimiters",
  "About forty fixed strings are tested; the interaction of escapes, groups, quotes and math at arbitrary offsets is an unbounded input space.",
  [SC], [("string token dispatch", "scanner.scanInString"), ("escape and accent recognition", "scanner.scanStringEscape/scanSpecialCharStringAccent"), ("brace depth counting", "scanner.braceDepth")], ["scanner.Scanner.Scan"])

p("C06", "Lexical errors are never silent",
  "Whenever the scanner meets a NUL byte, invalid UTF-8, a byte order mark that is not the first character, a character that cannot start a token, an unterminated string or math group, or a malformed accent or macro, it reports an error at a position inside the file. The error count always equals the number of reports made and does not depend on whether anyone listens, illegal tokens never occur without a report, and input made only of valid lexemes produces none.",
  ["inputs"], "all byte strings",
  "Only one illegal character and one unterminated math string are tested.",
  [SC], [("error reporting", "scanner.error/errorf"), ("byte validation", "scanner.next")], ["scanner.ErrorHandler", "scanner.Scanner.ErrorCount"])

p("C07", "A well-formed entry parses to exactly what was written",
  "For every well-formed entry, the parsed entry has the written type in lower case, the first cite key as key, any further keys as extra keys, and exactly the written fields in source order with the raw name, its lower-case form and the written value. The key is found with or without fields or trailing commas, keys may start with or consist of digits, and field names never appear among the keys.",
  ["inputs", "configurations"], "entries with arbitrary names, keys, values, field counts and parser modes",
  "Tests compare about ten fixed entries and never compare extra keys; keys starting with digits and key-only entries are untested.",
  [PA, SC], [("entry parsing", "parser.parseBibDecl"), ("identifier parsing", "parser.parseIdent")], ["parser.ParseFile", "ast.BibDecl"])

p("C08", "Declarations keep their order and do not influence each other",
  "A file made of well-formed declarations parses, without error, to one declaration per written abbreviation, preamble or entry, in source order and of the written kind with the written content. Parsing two well-formed files concatenated gives the declarations of the first followed by those of the second.",
  ["inputs", "histories"], "sequences of well-formed declarations of any kinds",
  "Every parser test has a single declaration, so cross-declaration state in scanner and parser is only exercised by one large valid file whose result is not inspected.",
  [PA, SC], [("declaration loop", "parser.parseFile/parseDecl"), ("scanner state carried across declarations", "scanner.prev/endQuoteCh/braceDepth")], ["ast.File.Entries"])

p("C09", "Layout, comments and delimiters do not change the meaning",
  "Inserting any whitespace or %-comments between tokens outside strings, using parentheses instead of braces around a declaration, changing the letter case of an entry type or command, or adding a trailing comma does not change the parsed types, keys, field names or values. A field value written in quotes has the same content as the same value written in braces.",
  ["inputs", "configurations"], "all layouts of a declaration",
  "Tests use one layout per construct.",
  [PA, SC], [("whitespace skipping", "scanner.skipWhitespace"), ("comment skipping", "parser.next"), ("closer matching", "parser.expectCloser")], ["parser.ParseFile"])

p("C10", "Parsed string values mirror the source string",
  "With string parsing on, a well-formed string value parses without error to the tree the source spells: one node per text run, whitespace run, comma, tie, math, escape, accent or macro, in order, and one nested node per group with its nesting depth and delimiter. Nothing in the string is dropped, duplicated or reordered.",
  ["inputs"], "all well-formed string contents, both delimiters, any group nesting",
  "About fifteen fixed strings are tested.",
  [PA, SC, AST], [("string tree construction", "parser.parseText/parseStringLiteral/parseStringAccent")], ["ast.ParsedText"])

p("C11", "Unparsed string values are verbatim",
  "With string parsing off, a string value is the source text between its delimiters, byte for byte, with its delimiter kind. A brace string ends at the balancing brace and a quoted string at the first quote outside balanced braces, including empty and directly nested groups.",
  ["inputs"], "all string contents with balanced braces",
  "Four fixed strings are tested; empty groups and deeper nesting are not.",
  [SC, PA], [("brace matching", "scanner.scanBraceString/scanString"), ("literal node", "parser.parseBasicLit")], ["ast.UnparsedText"])

p("C12", "Concatenations keep all operands in order",
  "A value written as several operands joined by '#' parses without error, in every parser mode and wherever a value is allowed, to a right-nested concatenation of exactly those operands in order. Operands may be names, numbers, quoted strings and braced strings in any mixture.",
  ["inputs", "configurations"], "operand counts and kinds, parser modes, positions in a declaration",
  "Two fixed quoted-string concatenations in preambles, in one mode, are tested.",
  [PA, SC], [("concatenation", "parser.parseExpr")], ["ast.ConcatExpr"])

p("C13", "Structurally malformed declarations are reported",
  "A declaration with a missing or mismatched opening or closing delimiter, a missing '=' or value, an unterminated string, group or math, a field name that does not begin with a letter, or stray text where a declaration must start makes parsing return a non-nil error, never a silently truncated result. The error points to a position inside the file.",
  ["inputs", "fault_sequences"], "all single structural defects injected in well-formed declarations",
  "Four fixed malformed entries are tested.",
  [PA, SC], [("expect family", "parser.expect/expectOne/expectCloser/errorExpected")], ["error result of parser.ParseFile"])

p("C14", "Syntax tree positions point at the source text they describe",
  "Every node of a parsed well-formed file reports the position of its first source character, every opening, closing and concatenation position is that of the delimiter or operator itself, and positions of siblings increase in source order.",
  ["inputs"], "all well-formed declarations and layouts",
  "No test checks any position recorded in the syntax tree.",
  [PA, AST], [("position capture", "parser.parse*"), ("Pos methods", "ast.Node.Pos")], ["ast.Node.Pos", "Opener/Closer/OpPos/RBrace/Entry fields"])

p("C15", "Reported errors are sorted, located and complete",
  "Errors from a parse are sorted by position and each lies inside the file and carries its name; a parse without the all-errors flag reports a subset of the errors reported with it, the two agree on whether there is any error and, up to the limit of ten errors, on the lines that have one. Parsing the same input twice reports the same errors.",
  ["inputs", "configurations"], "all byte strings x error reporting mode",
  "No test looks at positions, order or number of parse errors.",
  [PA, PI], [("error filtering", "parser.error"), ("error sorting", "parser.ParseFile")], ["error result of parser.ParseFile"])

p("C16", "Comments are kept in order and attached to what they precede",
  "Every %-comment outside strings appears exactly once, verbatim and in source order, in the file's comments, grouped by adjacency. A declaration or field carries a comment group as documentation exactly when that group ends on the line directly above it and no other token shares the group's first line; a file carries its first declaration's leading group.",
  ["inputs"], "all placements of comments and line breaks around declarations and fields",
  "No test looks at comments in the tree.",
  [PA, SC], [("comment grouping", "parser.consumeCommentGroup"), ("lead comment", "parser.next")], ["ast.File.Comments", "Doc fields"])

p("C17", "Author lists split at the word 'and' only",
  "Extracting authors yields one author per name separated by the standalone word 'and', in order; 'and' inside a group, inside a longer word or glued to another piece does not split. Each name is extracted as if it stood alone, and an empty name anywhere is an error rather than an empty author.",
  ["inputs"], "all author lists of any names and separators",
  "Five fixed lists are tested.",
  [AU], [("separator search", "ExtractAuthors")], ["bibtex.ExtractAuthors"])

p("C18", "Name parts follow the first/von/last/jr forms",
  "A name 'First von Last' puts the leading words before the first lower-case word in the first name, the following lower-case words in the prefix and the rest in the last name; 'von Last, First' and 'von Last, Jr, First' assign the comma-separated parts as documented, whatever their spacing and letter case of the first name. Words are separated by whitespace or ties; a group counts as capitalised unless it is an accented lower-case letter. The final word before the first comma always belongs to the last name.",
  ["inputs"], "all names built from capitalised, lower-case, grouped, accented and joined words in the three forms",
  "Fifteen fixed names are tested, none with a suffix part.",
  [AU], [("no-comma form", "resolveAuthor0"), ("comma forms", "resolveAuthorN")], ["ast.Author"])

p("C19", "Author extraction never crashes and never loses text",
  "For every parsed string, extracting authors returns authors or an error and never panics. When it succeeds on names with at most two commas, the four name parts together contain every non-space character of the rendered name exactly once. With more commas they contain every character but spaces and commas.",
  ["inputs"], "all parsed strings, including macros, unknown accents, math, groups",
  "Only tame names are tested.",
  [AU, RE], [("part rendering", "parseDefault")], ["bibtex.ExtractAuthors"])

p("C20", "Plain text rendering is the exact flattening of the tree",
  "Rendering a string tree as text writes, in order, each text run verbatim, one space per whitespace or tie, a comma per comma, escaped characters without backslash, accented letters as one character, math with its dollar signs, and groups and macro arguments without delimiters. An unsupported node or invalid accent yields an error.",
  ["inputs"], "all string trees up to a size bound",
  "Around eight fixed trees are rendered in tests.",
  [RE], [("text rendering", "render.TextRenderer.Render")], ["render.TextRenderer.Render"])

p("C21", "Accents render to the right precomposed character or fail",
  "For every accent mark and every letter, rendering returns the Unicode precomposed character for that combination (dotless i for a dotted i) or an error, never another character. All combinations of the grave, acute, circumflex and umlaut accents with vowels, tilde on a, n, o, cedilla on c, acute on y, and the dot on c, e, g, z, in both letter cases, are supported.",
  ["inputs"], "all accent marks x all texts",
  "Four combinations are tested.",
  [AC], [("accent table", "render.accentMap/RenderAccent")], ["render.RenderAccent"])

p("C22", "Write failures are always reported",
  "If any write to the destination fails while rendering, the renderer returns an error wrapping that failure and writes nothing afterwards; if no write fails it returns no error for a supported tree.",
  ["fault_sequences", "inputs"], "every write index at which the destination can fail x trees",
  "Tests render into buffers that never fail.",
  [RE, BI], [("error propagation", "render.TextRenderer.Render, default renderers, Biber.Render")], ["render.TextRenderer.Render", "bibtex.Biber.Render"])

p("C23", "Tree walking visits everything once, in order, and obeys the visitor",
  "Walking a tree calls the visitor on entering a node, then walks its children in source order, then calls it on leaving; each node reachable from the root is entered exactly once. Skipping children omits exactly that subtree but not the leaving call, and a stop or an error ends the walk immediately, returning that error.",
  ["inputs", "histories"], "all trees up to a size bound x all sequences of visitor answers",
  "Three fixed trees with two visitors are tested.",
  [WALK], [("depth-first traversal", "ast.walkHelper")], ["ast.Walk"])

p("C24", "Resolving maps each entry once, in order, last field wins",
  "Resolving a file returns exactly one entry per bibliography entry in source order, ignoring other declarations, with its type, key and one value per distinct lower-case field name, the last one written winning. A package gives the entries of all its files, a single entry gives itself, an entry without a key resolves to an empty key, and anything else is an error.",
  ["inputs"], "all files, packages and entries",
  "Tests resolve files of one or two entries with distinct fields.",
  [BI], [("entry mapping", "Biber.Resolve/resolveEntry")], ["bibtex.Biber.Resolve"])

p("C25", "Resolvers run in order and the first failure aborts",
  "Resolving applies every configured resolver once, in the order given across all options, to the same tree before entries are built; the first resolver that fails stops the process, no later resolver runs, no entries are returned and the returned error wraps the failure. The last parser mode given wins, and options given to one instance never affect another.",
  ["configurations", "fault_sequences", "histories"], "all resolver lists and failing positions, option orders and instance interleavings",
  "Tests use one fixed list of succeeding resolvers.",
  [BI, RS], [("resolver loop", "Biber.Resolve"), ("functional options", "WithResolvers/WithParserMode/WithRenderer/New")], ["bibtex.Biber"])

p("C26", "The bundled resolvers rewrite exactly what they promise",
  "The escape resolver replaces every escaped character in any string of the tree, however deeply nested, by plain text of that character and changes nothing else. The author resolver replaces exactly the named string-valued fields by their authors and fails on other value kinds, and the text resolver replaces every remaining string-valued field by its plain text; applying either of the escape and text resolvers again changes nothing.",
  ["inputs", "configurations"], "all files of string-valued fields x resolver selections",
  "Tests cover three fixed trees and one resolver order.",
  [RS, WALK], [("escape simplification", "SimplifyEscapedTextResolver"), ("text rendering", "RenderParsedTextResolver.Resolve"), ("author extraction", "AuthorResolver.Resolve")], ["bibtex.Resolver implementations"])

p("C27", "Default rendering reproduces strings and honours custom renderers",
  "Rendering a string tree with the default renderers writes each delimiter once on each side and each leaf exactly once, giving back the string with whitespace runs and ties as one space. A custom renderer given for a node kind receives exactly the enter and leave calls of that kind and replaces only that kind; what it answers (go on, skip the children, stop, fail) is obeyed. A file, package or author list renders as its values in order, bad expressions and statements and nodes whose kind has no renderer are errors.",
  ["inputs", "configurations"], "all string trees up to a size bound x overridden node kinds",
  "No test calls the configurable renderer.",
  [BI, RE], [("renderer dispatch", "Biber.Render"), ("default renderers", "render.Defaults")], ["bibtex.Biber.Render"])

p("C28", "All source forms are equivalent and never modified",
  "The same bytes given as string, byte slice, buffer, or reader delivering any chunks parse to the same result and errors, and the caller's bytes are never modified. A reader failure is returned as the error with no file, and an unsupported source is an error.",
  ["inputs", "fault_sequences"], "all contents x source kinds x read chunkings x read failures",
  "Tests use only strings and one file.",
  [PI, BI], [("source loading", "parser.readSource")], ["parser.ParseFile", "bibtex.Biber.Parse"])

p("C29", "Parsing a set of files returns all good files and the first error",
  "Parsing several files returns a package holding exactly the files that parsed without error, under their names, and the first error in argument order, if any. A file that fails never prevents the others from being returned.",
  ["inputs", "fault_sequences"], "all lists of file contents, including unreadable and malformed ones",
  "There is no test for parsing a set of files.",
  [PI], [("package assembly", "parser.ParsePackage")], ["parser.ParsePackage"])

p("C30", "URL fields keep their characters",
  "A url field whose value consists of URL characters (letters, digits and the punctuation allowed in URLs: no spaces, quotes, braces or backslashes, and dollar signs only in pairs), including ties, commas and other characters special to TeX text, resolves to exactly the written characters, whether quoted or braced, bare or in a url macro, and whatever the letter case of the field name.",
  ["inputs", "configurations"], "all url values of URL characters x delimiters x bare or macro",
  "Three fixed urls are tested.",
  [PA], [("url special cases", "parser.parseURLStringLiteral/fixUpFields/parseMacroURL")], ["parser.ParseFile", "bibtex.Biber.Resolve"])

p("C31", "Results depend only on the input, never on earlier use",
  "Re-initialising a scanner gives the same tokens and errors as a fresh scanner, whatever it scanned before and wherever it stopped. Parsing, resolving and rendering the same source twice, or after any other source, in the same process gives equal results.",
  ["histories", "inputs"], "all pairs of inputs and stopping points",
  "Tests use a fresh scanner and a fresh instance for every case.",
  [SC, PA, BI], [("state reset", "scanner.Init"), ("per-call state", "parser.init, bibtex.New, render.Defaults")], ["scanner.Scanner.Init", "parser.ParseFile", "bibtex.New"])

p("C32", "Token and node vocabularies are well-formed",
  "Every integer has a non-empty token name, each defined token has its own name and belongs to at most one of the literal, string, operator and command classes, matching its documented group; undefined values belong to none and print as a number. Every node reports the kind declared for its type, and kind names are distinct.",
  ["inputs"], "all integers; all node types",
  "Tests exercise classes only for tokens that occur in one list.",
  [TK, AST], [("token tables", "token.Token.String/Is*"), ("kinds", "ast.NodeKind")], ["token.Token", "ast.NodeKind"])

p("C33", "Tree-building helpers follow their documented strategy",
  "Each helper that turns a string into a tree node applies its documented rules to every string: whitespace, math, tie, group, comma, macro, otherwise plain text, with groups split on spaces recursively. Helpers for keys, fields and types store exactly their arguments in order, and the debug printing of a tree mentions every leaf in order and closes every parenthesis it opens.",
  ["inputs"], "all strings up to a length bound; all argument lists",
  "The helpers are only used to build expectations in other tests.",
  [AS], [("string to node", "asts.ParseStringExpr"), ("printing", "asts.ExprString")], ["asts package API"])

p("C34", "A scope never loses or overwrites a declaration",
  "Inserting a named object in a scope succeeds when the name is free and otherwise leaves the scope unchanged and returns the object already there; looking a name up returns the object first inserted under it, or nothing. Outer scopes are never consulted or changed. An object declared by an entry is at the key of its name, any other object has no position, and kinds of objects have distinct names.",
  ["histories"], "all sequences of insertions and lookups of any names",
  "Scopes have no tests.",
  [SCOPE], [("scope table", "ast.Scope.Insert/Lookup")], ["ast.Scope"])

p("C35", "Every node spans exactly its source text",
  "In a file that parses without errors every node, declaration, field and cite key ends directly after its last character in the source, so that its span holds exactly the text it was made from (an accent ends with its letter). Nodes lie inside their parents, siblings are in order without overlap, and the pieces of a string with its delimiters cover it without gaps except for white space. The same holds for nodes made by hand at any position.",
  ["inputs", "configurations"], "all well-formed files x string modes",
  "Tests never look at the end of a node.",
  [AST, PA], [("node ends", "ast.Node.End methods"), ("recorded positions", "parser.parseStringLiteral/parseMacro/parseAccent")], ["ast.Node.Pos", "ast.Node.End"])

p("C36", "Partial results are trees that can be used",
  "Whatever the source and flags, the tree returned holds no missing nodes, all of its positions are inside the file, and placeholders for faulty parts occur only together with an error. Walking such a tree terminates and visits its declarations in order, resolving it gives one entry per entry declaration or an error, and rendering its strings never crashes.",
  ["inputs", "configurations"], "all malformed files x parser modes",
  "Tests check only the error of malformed inputs, never the tree.",
  [PA, WALK, BI], [("recovery", "parser.parseText/fixUpFields/parseDecl")], ["parser.ParseFile", "ast.Walk", "bibtex.Biber.Resolve"])

p("C37", "Rendered strings parse back to the same tree",
  "Rendering the tree of a parsed string without macros by the default renderers gives a text that parses again, to the same tree up to positions, where runs of white space and ties count alike. Rendering that tree again gives the same text.",
  ["inputs"], "all strings that parse x delimiters",
  "No test parses rendered output.",
  [RE, BI, PA], [("default renderers", "render.Defaults"), ("string parsing", "parser.parseStringLiteral")], ["bibtex.Biber.Render", "parser.ParseFile"])

p("C38", "Parser flags change only what they name",
  "Tracing and reporting of declaration errors change no result; reporting all errors changes no result of an error-free file and never whether there is an error; parsing comments changes only comments. A file without backslashes and dollar signs whose strings can be parsed has the same declarations, keys and fields when strings are kept raw, each raw string being the source between its delimiters.",
  ["inputs", "configurations"], "all files x all pairs of modes that differ in one flag",
  "Tests use a fixed mode per test.",
  [PI, PA, SC], [("mode flags", "parser.Mode"), ("string modes", "parser.parseBasicLit/parseStringLiteral")], ["parser.ParseFile", "parser.Mode"])

p("C39", "Others and empty authors are recognised",
  "An author is empty exactly when all its parts are empty texts, and stands for further authors exactly when its last name is the text others and its other parts are empty. Of the authors extracted from a list of names exactly those written as the single word others stand for further authors, and none is empty.",
  ["inputs"], "all authors; all lists of names with or without the word others",
  "Tests check one list that ends in others.",
  [AST, AU], [("predicates", "ast.Author.IsEmpty/IsOthers"), ("extraction", "authors.ExtractAuthors")], ["ast.Author", "bibtex.ExtractAuthors"])

p("C40", "A value means the same wherever it is written",
  "A value (name, number, quoted or braced string, or concatenation) gives the same expression as value of any field with either delimiter and any other text around it, of an abbreviation, of a preamble, and when parsed alone as an expression.",
  ["inputs", "configurations"], "all values x places x string modes",
  "Tests check each value in one place.",
  [PA, SC], [("expression parsing", "parser.parseExpr"), ("brace classification", "scanner.Scan")], ["parser.ParseFile", "parser.ParseExpr"])

p("C41", "Concurrent uses do not interfere",
  "Parsing, resolving and rendering in several goroutines at the same time give each the result it gives alone, even with the same Biber instance and the same set of files; so do scanning, parsing packages and expressions, building trees, and looking up in a common scope. Walking, rendering, printing and extracting authors never change the tree, so that several goroutines may read one tree. Nothing that another goroutine can reach is written without synchronisation.",
  ["schedules", "inputs"], "all inputs x memory reachable from package variables, shared instances and trees x one other goroutine at any lock or pool operation",
  "No test uses goroutines, and data races show only under particular schedules.",
  [PI, BI, RE, AU, AST], [("package-level state", "all package variables"), ("shared instances", "bibtex.Biber, render.TextRenderer"), ("file sets", "parser.init: fset.AddFile")], ["parser.ParseFile", "bibtex.Biber", "render.TextRenderer", "ast.Walk", "bibtex.ExtractAuthors"])

p("C42", "A record comes back from its source through the whole pipeline",
  "A record (type, key, and fields of names, text, urls, numbers and abbreviations) written as an entry in any of the allowed ways, with names in any of the three forms and text with the usual LaTeX notation for accents, escapes, ties, groups and math, comes back after parsing and resolving with the three bundled resolvers: the type in lower case, the key, exactly its fields, every name with its parts, every text as plain Unicode text. Comments, abbreviations, preambles and other records around it do not matter.",
  ["inputs", "configurations"], "all records x ways of writing them x neighbours",
  "Tests check parsing and resolving separately on single fields; only a few examples go through both.",
  [BI, PA, SC, RS, AU, RE], [("pipeline", "bibtex.Biber.Parse, bibtex.Biber.Resolve"), ("resolvers", "SimplifyEscapedTextResolver, AuthorResolver, RenderParsedTextResolver")], ["bibtex.Biber.Parse", "bibtex.Biber.Resolve"])

p("C43", "Results share nothing that can be changed",
  "Every parse, resolve and author extraction returns objects of its own: overwriting a source after it is parsed, any field of a returned tree, entry or author list, or its slices changes no other result, neither earlier nor later ones, nor the tree it was made from (the values of an entry are those of its tree). The nodes of a parsed string are different objects.",
  ["inputs", "histories"], "all sources x results overwritten x results obtained before or after",
  "Tests compare each result once and never change one.",
  [PI, PA, BI, AU, RS], [("copies of source text", "scanner: string(s.src[lo:hi])"), ("own maps", "bibtex.resolveEntry"), ("in-place resolvers", "bibtex.Resolver")], ["parser.ParseFile", "parser.ParseExpr", "bibtex.Biber.Resolve", "bibtex.ExtractAuthors"])

p("C44", "The first error is at the first token that does not fit",
  "The first error of a malformed file without lexical errors is located exactly at the first token with which no well-formed file continues (the end of the file if it is cut off, the name of a field that may not begin with a digit), whatever the flags. Where its message says that a delimiter, a name, a value or an equals sign was expected there, inserting that makes the tokens up to there fit.",
  ["inputs", "configurations"], "all malformed token sequences x flags",
  "Tests check that a few files give an error, not where.",
  [PA, SC], [("expectations", "parser.expect, parser.expectOne, parser.errorExpected"), ("look-ahead position", "parser.next")], ["parser.ParseFile"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
