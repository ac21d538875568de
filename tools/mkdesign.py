#!/usr/bin/env python3
"""Writes the generated part of DESIGN.md: for every property its oracle, bounds and last cost."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from table import PROPS
O = {
"P01": "no panic, no arithmetic overflow, no access out of bounds and no endless loop on any path of `SourceFile::parse`; every path ends with a tree",
"P02": "the leaves put together are the text, byte for byte; ranges of children tile those of their parents; no leaf is empty",
"P03": "ranges of errors lie in the text at character boundaries; a tree with an ERROR element or with a required part missing has an error; valid programs have none",
"P04": "a lexer written from the lexical grammar in the harness, independently (classes by `match`, longest operator by search, words by boundaries), compared token by token",
"P05": "operators and operands are taken from the tree and compared with the parse of a precedence table written from the language's description, by the shunting-yard method",
"P06": "the significant tokens alone, each separated by one space, are parsed too; both trees without trivia are equal, and both report the same errors at the same tokens",
"P07": "programs are built production by production together with the tree they have to have; every production choice, separator, trailing comma is symbolic",
"P08": "sets of token kinds against sets of integers; every kind's text lexes to that kind; `T![..]`, `from_keyword`, punctuation, keyword tables agree",
"P09": "lines and columns counted byte by byte from the text",
"P10": "UTF-16 units counted with `encode_utf16`",
"P11": "pieces are consecutive, not empty, end at line ends, together the range",
"P12": "the text with each `\\r\\n` replaced by `\\n`, built byte by byte",
"P13": "the edits applied to a plain string, positions located by counting units in the negotiated encoding",
"P14": "pairwise comparison of all ranges, and insert/replace compatibility by the protocol's text",
"P15": "a model with plain vectors: what is shown, what changed since the last question",
"P16": "a model with plain vectors of open documents and versions",
"P17": "a model: a list of paths with contents; the log is replayed over the state at the last question",
"P18": "for each file, the longest of the roots that contain it, compared component by component; relative paths resolved by components",
"P19": "components resolved with a stack written in the harness",
"P20": "components as lists of strings",
"P21": "a table: for each request what answer it must have, by method, parameters, handler outcome, cancellation, document changes, shutdown",
"P22": "the client's own copy of each document, parsed from scratch in the harness, positions counted in the client's encoding; every published message is compared with the version it claims",
"P23": "the parser and a fresh line index, on the present text only",
"P24": "a description of the made-up directories (which directories, files and manifests exist) answers what is to be found; the file-system calls are answered from it by the harness, natively it is really made in a scratch directory",
"P25": "definitions written out: case conversion character by character, indentation by lines, equal ranges by linear search",
"P26": "units counted in the negotiated encoding; the whole server's published positions for a client with any offer of encodings",
"P27": "the children of each node of the tree, taken by kind and place: a typed view exists for exactly the kinds it is for, its parts are the children of these kinds in order; operands by their side of the operator; `clone_subtree`, `clone_for_update` keep text and kinds",
"P28": "the address parsed again gives the same path; characters of the address are graphic ASCII",
"P29": "contents and versions of all documents before and after each senseless message, the diagnostics in the end, an answer to a later request",
"P30": "the messages the program writes, parsed as JSON: the answer to `initialize`, its capabilities and encoding, the registration it asks for, the diagnostics of a document in that encoding, the answer to `shutdown`, the way it ends",
"P31": "membership written out over lists of components: some included directory contains it, no exclusion lies between it and the innermost of those; extensions compared as strings",
}
O["P32"] = "the bytes the child wrote to each output, put together; their lines by splitting at line feeds; the order of lines by the pauses between them; a wait that nothing can end is a violation"
titles = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    titles[p["id"]] = p["title"]
out = []
for p in sorted(PROPS):
    s = PROPS[p]
    out.append("### %s %s\n" % (p, titles[p]))
    out.append("*Oracle*: %s.\n" % O[p])
    for th in (False, True):
        js = [j for j in s["jobs"] if bool(j.get("thorough")) == th]
        if js:
            out.append("*%s*:" % ("Thorough, in addition" if th else "Quick"))
            out += ["- `%s %s`: %s" % (j["entry"], j["params"], j["bounds"]) for j in js]
            out.append("")
text = open(V + "/DESIGN.md").read()
a, b = "<!-- generated: tools/mkdesign.py -->\n", "<!-- end of generated part -->\n"
i, j = text.index(a) + len(a), text.index(b)
open(V + "/DESIGN.md", "w").write(text[:i] + "\n".join(out) + text[j:])
