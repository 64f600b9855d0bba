#!/usr/bin/env python3
"""Writes known_findings.jsonl: the defects of the original tree and their repairs."""
import json, os
FIXED = [
 ("C03","8f19152","an unterminated string at the end of the input lost its last character, or panicked when it was empty"),
 ("C11","fc77746","\"{a {} b}\" missed the closing brace of the empty group and \"{{{a}}}\" was cut short"),
 ("C06","12e5e91","an accent followed by spaces took any byte as its letter and panicked at the end of the input"),
 ("C02","d1f3f11","inside an unterminated string the scanner returned illegal tokens forever and never EOF"),
 ("C31","a148c45","a scanner that stopped inside a string carried that state over to the next source"),
 ("C06","0cce192","\"@1a\" was accepted, \"@a\" at the end of the input or before a non-letter was reported as an error"),
 ("C04","7f09fa0","a braced string after # or after the ( of a preamble was scanned as a declaration brace"),
 ("C04","a5a56cd","a comment between = and a braced string made its brace a declaration brace"),
 ("C04","203dffb","a name like 2020abc was split into a number and an identifier"),
 ("C05","f1318a7","any macro whose name begins with c (\\cite) was scanned as a cedilla accent"),
 ("C05","7e9354d","a macro directly followed by punctuation or a digit was reported as an error"),
 ("C01","6a6bf8c","the parser looped forever on an unterminated braced string or url macro"),
 ("C01","71e56aa","more than ten errors on different lines made ParseExpr panic"),
 ("C29","8ad7a07","ParsePackage panicked on the first file that parsed"),
 ("C28","6de0d41","the name of a parsed file was not set"),
 ("C07","f1b5800","a field followed by a comma was also recorded as a cite key, and a key that no comma follows was dropped"),
 ("C12","67cc264","with ParseStrings a # after a string was a syntax error; the operator position was wrong"),
 ("C30","3ed6f74","a braced url lost its ties, a quoted one its spaces, groups and dollar signs; URL was not recognised"),
 ("C14","18bec91","closing delimiters, accents and the text of url macros had the position of the following token"),
 ("C23","d5b55aa","Walk did not visit the values of fields and abbreviations"),
 ("C24","2d4ee7b","Resolve panicked on an entry without a cite key"),
 ("C22","87acabe","a failed write of a concatenation operator was ignored by TextRenderer"),
 ("C27","33a7956","the default renderers panicked on texts and accents, wrote leaves twice and dropped spaces and math"),
 ("C27","9b9cec1","a removed renderer, or a node of an unknown kind, made Render panic"),
 ("C17","4cc44a6","the text and next to a group, accent or comma separated authors"),
 ("C19","27180d9","macros and unknown accents in authors panicked"),
 ("C18","8afb8cd","the suffix and first name of \"Last, Jr, First\" were cut short"),
 ("C18","7bd8777","names were split within words; groups counted as lower-case; ties did not separate words"),
 ("C33","eaf46e2","a single dollar sign made ParseStringExpr panic"),
 ("C33","2969e4d","the printed form of a macro without parameters did not close its parenthesis"),
 ("C33","5ae835c","the option for keys lost its first key when it was used again"),
 ("C35","e297524","texts, macros, concatenations, fields and declarations ended before or after their last character"),
 ("C10","9ee0e10","the name of a macro of one character, like \\,, kept its backslash"),
 ("C01","6eb31c3","\"}\" and other unexpected tokens in a string left a missing node in the tree: a panic in url fields and when walking or rendering"),
]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "known_findings.jsonl"), "w") as f:
    for p, c, w in FIXED:
        f.write(json.dumps({"status": "fixed", "property": p, "commit": c, "what": w,
                            "entry": "fixed: property=%s %s %s" % (p, c, w)}) + "\n")
