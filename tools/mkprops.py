#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept here so that they stay in step with lib/table.py)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from table import PROPS
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, hook=None, state=None, note=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [x.strip() for x in observe.split(",")], "hook_needed": hook or None}
    if state:
        a["state"] = state
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why, anchors=a), note))

LEX, PAR, GR = "crates/parser/src/lexer.rs", "crates/parser/src/parser.rs", "crates/parser/src/grammar"
prop("P01", "Parsing is total",
     "For every text, parsing ends and returns a syntax tree whose root is a source file. It never panics, overflows, loops or runs away, however malformed or unusual the text is.",
     ["inputs"], "all texts (any Unicode characters, any order of tokens, any truncation)",
     "A fixture shows one text each; panics and endless recovery loops sit in combinations of an unexpected token and the place it appears in.",
     [LEX, PAR, GR], [("tokenizer", LEX + " find_token"), ("error recovery", PAR + " err_recover, err_and_bump"), ("tree building", "crates/parser/src/event.rs process, crates/syntax/src/parsing/text_tree_sink.rs")],
     "SourceFile::parse")
prop("P02", "The syntax tree is lossless",
     "For every text, the leaves of the syntax tree, read in order, spell exactly that text: every character is in exactly one leaf at its own position, no leaf is empty, and every node covers exactly its children. White space, comments, unknown characters and anything skipped by error recovery are included.",
     ["inputs"], "all texts",
     "Losing or misplacing a piece needs a certain mix of trivia, errors and lookahead; tests compare the tree of a few tidy files.",
     [LEX, "crates/syntax/src/parsing/text_tree_sink.rs", "crates/parser/src/event.rs"],
     [("token lengths", LEX), ("attaching trivia", "crates/syntax/src/parsing/text_tree_sink.rs"), ("events to tree", "crates/parser/src/event.rs")], "Parse::syntax_node")
prop("P03", "Syntax errors are well-formed and not swallowed",
     "For every text, each reported syntax error lies inside the text, on character boundaries. If the tree contains an error element then at least one error is reported, and a parse counts as successful exactly if no error is reported.",
     ["inputs"], "all texts", "Error positions are computed from token offsets; tests look at the messages of a few broken files only.",
     ["crates/syntax/src/parsing/text_tree_sink.rs", "crates/syntax/src/syntax_error.rs", PAR],
     [("error position", "crates/syntax/src/parsing/text_tree_sink.rs error"), ("error marking", PAR + " err_and_bump, err_recover")], "Parse::errors, Parse::ok")
prop("P04", "Tokens follow the lexical grammar of Move",
     "For every text, the sequence of tokens (kind and length) is the one the lexical grammar gives: the longest operator, keywords only as whole words, `&mut` only if a word ends there, numbers with optional hexadecimal prefix and type suffix, byte strings with escapes ending on their line, line comments, white space. What is no token becomes an error token of one character (or the rest of the line for an unclosed byte string); nothing is dropped.",
     ["inputs"], "all texts", "The rules interact (prefixes of operators, suffixes, escapes, ends of the text); a table of sample tokens does not cover neighbours.",
     [LEX, "crates/parser/src/syntax_kind/generated.rs"], [("tokenizer", LEX + " find_token"), ("keyword table", "crates/parser/src/syntax_kind/generated.rs from_keyword")], "Lexer::bump, Lexer::all_tokens")
prop("P05", "Operators nest by precedence and associate to the left",
     "An expression of binary operators has the tree that the precedences give, loosest to tightest `=`, `< >`, `|`, `^`, `&`, `+ -`, `* / %`, and operators of one level group to the left. Prefix operators bind tighter than binary ones, calls and field accesses tighter still, and neither spacing nor the place of the expression changes it.",
     ["programs"], "all expressions over the supported operators", "Precedence is a relation between all pairs of operators and their neighbours; tests fix two or three expressions.",
     [GR + "/expressions.rs"], [("binding powers", GR + "/expressions.rs current_op, expr_bp"), ("prefix operators", GR + "/expressions.rs lhs")], "Parse::syntax_node")
prop("P06", "White space and comments do not change the meaning",
     "Two texts with the same significant tokens have the same tree apart from white space and comments, and report the same errors at the same significant tokens. This holds for any amount and kind of white space, line endings and comments between the tokens, in valid and in broken code.",
     ["inputs"], "all token sequences and all trivia between them", "Lookahead that sees trivia only misbehaves at the few tokens where the parser looks ahead, with a comment or line break exactly there.",
     [LEX, PAR, GR], [("lookahead", LEX + " lookahead, lookahead_2; " + PAR + " nth"), ("skipping trivia", LEX + " bump")], "Parse::syntax_node, Parse::errors")
prop("P07", "Valid code parses without errors into its structure",
     "Every program of the supported part of Move (modules, scripts and address blocks with functions and structs; statements, expressions, patterns, types, generics, paths) parses without errors, and its tree has exactly the structure of its derivation. Names may be any identifiers, also ones that begin like keywords.",
     ["programs"], "all programs derivable from the supported grammar", "The grammar generates unboundedly many combinations; tests parse a handful of files.",
     [GR, GR + "/items.rs", GR + "/expressions/atom.rs"], [("items", GR + "/items.rs"), ("expressions", GR + "/expressions.rs"), ("patterns", GR + "/patterns.rs"), ("types, paths, generics", GR + "/types.rs, paths.rs, generic_params.rs")], "Parse::syntax_node, Parse::errors")
prop("P08", "Token kinds and token sets are consistent",
     "A token set contains exactly the kinds it was made of, and a union exactly those of either set. Kinds survive conversion to and from numbers, belong to at most one class (keyword, punctuation, literal, trivia), and a word is a keyword exactly if it is one of the listed words.",
     ["inputs"], "all kinds, sets and words", "Sets are bit masks and kinds are transmuted numbers; an error shows for particular kinds only.",
     ["crates/parser/src/token_set.rs", "crates/parser/src/syntax_kind.rs", "crates/parser/src/syntax_kind/generated.rs"],
     [("bit mask", "crates/parser/src/token_set.rs"), ("kind conversion", "crates/parser/src/syntax_kind.rs"), ("classes", "crates/parser/src/syntax_kind/generated.rs")], "TokenSet::contains, SyntaxKind")

exec(open(os.path.join(V, "tools", "props2.py")).read()) if os.path.exists(os.path.join(V, "tools", "props2.py")) else None

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", {})
with open(V + "/properties.jsonl", "w") as f:
    for p, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p, note in P:
    i = p["id"]
    if i in NOT_APPLICABLE:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
        continue
    quick = [j for j in PROPS[i]["jobs"] if not j.get("thorough")]
    checks.append({
        "property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the crates' LLVM IR with Z3 deciding branches and assertions (bounded), counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Within the bounds: " + "; ".join(dict.fromkeys(j["bounds"] for j in quick)) + ". Larger inputs are outside the claim."
        + (" " + note if note else ""),
    })
hooks = {"guard": "cfg(verif)", "enable": "RUSTFLAGS=--cfg=verif", "source_commits": globals().get("HOOKS", [])}
m = {"version": 1, "setup_cmd": "python3 lib/build.py setup", "hooks": hooks, "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Known findings and fixed defects: known_findings.txt."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
