//! Harnesses over the lexer, the parser and the syntax tree (crates/parser, crates/syntax).
use parser::{Lexer, SyntaxKind, TokenSet};
use sxrt::*;
use syntax::syntax_node::{SyntaxElement, SyntaxNode};
use syntax::{AstNode, Parse, SourceFile};
use SyntaxKind::*;

mod gen;
mod reflex;
mod prec;
mod typed;

sxrt::harnesses! {
    h_bytes, h_tokens, h_chars, h_long, h_deep, h_lex, h_words, h_prec, h_trivia, h_gaps, h_valid, h_kinds
}

/// Places in a file where the grammar is in different states: text before and after the symbolic
/// part.
pub const CTX: &[(&str, &str)] = &[
    ("", ""),                                                    // 0
    ("module M { ", " } script { }"),                            // 1
    ("script { fun f() { ", " } fun g() {} }"),                  // 2
    ("script { fun f() { let x = ", "; } }"),                    // 3
    ("script { fun f() { let ", " = 1; } }"),                    // 4
    ("module M { struct S { ", " } }"),                          // 5
    ("module M { struct S<", "> { } }"),                         // 6
    ("module M { fun f(", ") { } }"),                            // 7
    ("module M { fun f() : ", " { } }"),                         // 8
    ("address 0x1 { ", " }"),                                    // 9
    ("address ", " { module M { } }"),                           // 10
    ("script { fun f() { g(", "); } }"),                         // 11
    ("script { fun f() { (", "); } }"),                          // 12
    ("script { fun f() { S { ", " }; } }"),                      // 13
    ("script { fun f() { let S { ", " } = 1; } }"),              // 14
    ("script { fun f() { let (", ") = 1; } }"),                  // 15
    ("script { fun f() { a::", "; } }"),                         // 16
    ("module ", " { fun f() { } }"),                             // 17
    ("script { fun f() { b\"", "\"; } }"),                       // 18
    ("script { // ", " \n fun f() { } }"),                       // 19
    ("module M { fun ", "() { } struct S; }"),                   // 20
    ("module M { struct ", " { } fun f() { } }"),                // 21
    ("script { fun f() { x", "; } }"),                           // 22
    ("script { fun f() { 0", "; } }"),                           // 23
    ("{ ", " } module M { }"),                                   // 24
    ("script { fun f() { { ", " } } }"),                         // 25
    ("module M { { ", " } fun f() { } }"),                       // 26
    ("script { fun f() { @", "; } }"),                           // 27
    ("script { fun f() { x.", "; } }"),                          // 28
    ("module M { struct S { f: ", ", g: u8 } }"),                // 29
    ("module M { fun f(x: u8", " y: u8) { } }"),                 // 30
    ("script", " { }"),                                          // 31
];

/// Contexts `lo..hi` (params 0 and 1); one path each.
fn ctx() -> (&'static str, &'static str) {
    let (lo, hi) = (param(0), param(1));
    CTX[lo + pick(hi - lo)]
}

/// Tokens of the language and a few characters outside it, padded with spaces: reading one at a
/// symbolic index does not fork, the lexer then distinguishes exactly what it looks at.
pub static TOK: [[u8; 8]; 68] = [
    *b"{       ", *b"}       ", *b"(       ", *b")       ", *b";       ", *b",       ", *b":       ", *b"::      ",
    *b"=       ", *b"let     ", *b"fun     ", *b"module  ", *b"a       ", *b"1       ", *b"&       ", *b"mut     ",
    *b".       ", *b"..      ", *b"@       ", *b"<       ", *b">       ", *b"#       ", *b"struct  ", *b"+       ",
    // from here on only with the full alphabet
    *b"*       ", *b"-       ", *b"!       ", *b"script  ", *b"address ", *b"b\"x\"    ", *b"0x1f    ", *b"true    ",
    *b"[       ", *b"]       ", *b"&mut    ", *b"&&      ", *b"||      ", *b"|       ", *b"==      ", *b"==>     ",
    *b"<=      ", *b"<==>    ", *b"<<      ", *b">=      ", *b">>      ", *b"!=      ", *b"%       ", *b"^       ",
    *b"/       ", *b"_       ", *b"const   ", *b"use     ", *b"as      ", *b"return  ", *b"false   ", *b"move    ",
    *b"while   ", *b"if      ", *b"else    ", *b"break   ", *b"continue", *b"$       ", *b"b\"      ", *b"0x      ",
    *b"'       ", *b"//      ", *b"//\n     ", *b"1u8     ",
];
pub fn push_token(b: &mut Vec<u8>, alphabet: usize) {
    let i = choose(alphabet.min(TOK.len()));
    b.extend_from_slice(&u64::from_le_bytes(TOK[i]).to_le_bytes());
}

const TOTAL: usize = 1;
const LOSSLESS: usize = 2;
const ERRORS: usize = 4;
const TYPED: usize = 16;

fn parse_checked(text: &str, what: usize) {
    let p = SourceFile::parse(text);
    let root = p.syntax_node();
    if what & TOTAL != 0 {
        check(root.kind() == SOURCE_FILE, 1);
        check(SourceFile::can_cast(root.kind()), 2);
        observe(p.errors().len() as u64);
        reach(1);
    }
    if what & LOSSLESS != 0 {
        lossless(text, &root);
    }
    if what & ERRORS != 0 {
        errors(text, &p);
    }
    if what & TYPED != 0 {
        typed::parse(text, &p);
    }
}

/// The leaves, in order, spell the text; every range is where the text is; nodes are not overlapping.
fn lossless(text: &str, root: &SyntaxNode) {
    check(root.kind() == SOURCE_FILE, 10);
    check(root.parent().is_none(), 11);
    check(u32::from(root.text_range().start()) == 0, 12);
    check(u32::from(root.text_range().end()) as usize == text.len(), 13);
    let mut pos = 0usize;
    let mut leaves = 0u64;
    walk(text, root, &mut pos, &mut leaves);
    check(pos == text.len(), 14);
    observe(leaves);
    reach(10);
}
fn walk(text: &str, n: &SyntaxNode, pos: &mut usize, leaves: &mut u64) {
    let start = *pos;
    for c in n.children_with_tokens() {
        match c {
            SyntaxElement::Node(c) => walk(text, &c, pos, leaves),
            SyntaxElement::Token(t) => {
                let r = t.text_range();
                let (s, e) = (u32::from(r.start()) as usize, u32::from(r.end()) as usize);
                check(s == *pos && e >= s && e <= text.len(), 15);
                check(t.text().as_bytes() == &text.as_bytes()[s..e], 16);
                check(e > s, 18);
                *pos = e;
                *leaves += 1;
            }
        }
    }
    let r = n.text_range();
    check(u32::from(r.start()) as usize == start && u32::from(r.end()) as usize == *pos, 17);
}

/// Reported errors lie in the text and there is one whenever the tree has an ERROR element.
fn errors(text: &str, p: &Parse<SourceFile>) {
    let mut has_error = false;
    for e in p.syntax_node().descendants_with_tokens() {
        has_error |= e.kind() == ERROR;
    }
    let errs = p.errors();
    check(!has_error || !errs.is_empty(), 20);
    for e in errs {
        let r = e.range();
        let (s, en) = (u32::from(r.start()) as usize, u32::from(r.end()) as usize);
        check(s <= en && en <= text.len(), 21);
        if en <= text.len() {
            check(text.is_char_boundary(s) && text.is_char_boundary(en), 22);
        }
        observe(s as u64);
    }
    check(p.clone().ok().is_ok() == errs.is_empty(), 23);
    reach(20);
}

fn text_of(b: Vec<u8>) -> String {
    // every caller builds valid UTF-8
    unsafe { String::from_utf8_unchecked(b) }
}

/// params: context lo, context hi, number of ASCII bytes, what
#[no_mangle]
pub extern "C" fn h_bytes() {
    let (a, z) = ctx();
    let n = param(2);
    let mut b = a.as_bytes().to_vec();
    let k = b.len();
    b.resize(k + n, 0);
    fill(&mut b[k..]);
    for x in &b[k..] {
        assume(*x < 128);
    }
    b.extend_from_slice(z.as_bytes());
    parse_checked(&text_of(b), param(3));
}

/// params: context lo, context hi, number of tokens, what, alphabet size, 1: also without what
/// follows the tokens in the context
#[no_mangle]
pub extern "C" fn h_tokens() {
    let (a, z) = ctx();
    let n = param(2);
    let mut b = a.as_bytes().to_vec();
    for _ in 0..n {
        push_token(&mut b, param(4));
    }
    if param(5) == 0 || flag() {
        b.extend_from_slice(z.as_bytes());
    }
    parse_checked(&text_of(b), param(3));
}

/// params: context lo, context hi, number of arbitrary characters, what
#[no_mangle]
pub extern "C" fn h_chars() {
    let (a, z) = ctx();
    let mut s = a.to_string();
    for _ in 0..param(2) {
        push_char(&mut s);
    }
    s.push_str(z);
    parse_checked(&s, param(3));
}

/// Long inputs: `param(2)` copies of a fragment around symbolic tokens.
/// params: context lo, context hi, copies, what, alphabet size
#[no_mangle]
pub extern "C" fn h_long() {
    const FRAG: &[(&str, &str, &str)] = &[
        ("script { fun f() { ", "let x = a + 1; ", " } }"),
        ("module M { ", "fun f(x: u8) { g(x); } ", " }"),
        ("", "module M { struct S { f: u8 } } ", ""),
        ("script { fun f() { x = ", "1 + ", "2; } }"),
        ("script { fun f() { g(", "a, ", "b); } }"),
        ("", "} ", ""),
        ("script { fun f() { ", ") ", " } }"),
        ("address 0x1 { ", "; ", " }"),
        ("script { fun f() { (", "; ", " ) } }"),
    ];
    let (lo, hi) = (param(0), param(1).min(FRAG.len()));
    let (a, f, z) = FRAG[lo + pick(hi - lo)];
    let mut b = a.as_bytes().to_vec();
    for _ in 0..param(2) {
        b.extend_from_slice(f.as_bytes());
    }
    push_token(&mut b, param(4));
    b.extend_from_slice(z.as_bytes());
    parse_checked(&text_of(b), param(3));
}

// ------------------------------------------------------------------------------------- lexer
/// One symbolic token inside of something nested.
/// params: first and last kind of nesting, how deep, what to check, alphabet
#[no_mangle]
pub extern "C" fn h_deep() {
    const NEST: &[(&str, &str, &str, &str)] = &[
        ("script { fun f() { x = ", "(", ")", "; } }"),
        ("script { fun f() { ", "{ ", "} ", " } }"),
        ("module M { fun f(x: ", "&", "", ") { } }"),
        ("script { fun f() { let ", "(", ")", " = 1; } }"),
        ("script { fun f() { x = ", "-", "", "; } }"),
        ("script { fun f() { ", "g(", ")", "; } }"),
        ("script { fun f() { x = ", "S { f: ", " }", "; } }"),
        ("script { fun f() { let ", "S { f: ", " }", " = 1; } }"),
        ("script { fun f() { ", "x + (", ")", "; } }"),
        ("script { fun f() { a", ".b(1)", "", "; } }"),
        ("", "{ ", "} ", ""),
        ("module M { ", "{ ", "} ", "}"),
    ];
    let (lo, hi) = (param(0), param(1).min(NEST.len()));
    let (a, open, close, z) = NEST[lo + pick(hi - lo)];
    let mut b = a.as_bytes().to_vec();
    b.extend_from_slice(open.repeat(param(2)).as_bytes());
    push_token(&mut b, param(4));
    if pick(2) == 0 {
        b.extend_from_slice(close.repeat(param(2)).as_bytes());
        b.extend_from_slice(z.as_bytes());
    }
    parse_checked(&text_of(b), param(3));
}

fn lex_all(text: &str) -> Vec<(SyntaxKind, usize)> {
    let mut l = Lexer::new(text);
    let mut guard = 0;
    while l.current().kind != EOF {
        l.bump();
        guard += 1;
        check(guard <= text.len() + 1, 40);
    }
    l.all_tokens.iter().map(|t| (t.kind, u32::from(t.len) as usize)).collect()
}
fn lex_compare(text: &str) {
    let got = lex_all(text);
    let want = reflex::lex(text);
    let n = got.iter().take_while(|t| t.0 != EOF).count();
    check(n == want.len(), 41);
    let mut pos = 0;
    for (g, w) in got.iter().zip(&want) {
        check(g.0 == w.0, 42);
        check(g.1 == w.1, 43);
        observe(g.0 as u64);
        pos += g.1;
    }
    check(pos == text.len(), 44);
    reach(40);
}

const ALPHA: &[&str] = &[
    "",                      // 0: any ASCII byte
    "<=>!&|:.mut a",         // 1 operators
    "019afxuU8642_ 1",       // 2 numbers
    "bx\"\\\na \u{e9}\r",    // 3 byte strings
    "/\n\r\t *a\u{e9}{",     // 4 trivia
    "aZ_09&mut \u{e9}$@",    // 5 names
];
/// Beginnings of long tokens, and what is repeated in them.
const LONG: &[(&str, &str)] = &[("", "a"), ("", " "), ("", "\n"), ("//", "x"), ("//", "\u{e9}"), ("", "1"), ("0x", "f"), ("x\"", "0"), ("b\"", "a"), ("b\"", "\\\\")];
/// params: alphabet, length (characters), how many repetitions of what long tokens consist of
#[no_mangle]
pub extern "C" fn h_lex() {
    let (al, n) = (ALPHA[param(0)], param(1));
    if al.is_empty() {
        let mut b = vec![];
        if param(2) > 0 {
            let (f, r) = LONG[pick(LONG.len())];
            b.extend_from_slice(f.as_bytes());
            b.extend_from_slice(r.repeat(param(2)).as_bytes());
        }
        let k = b.len();
        b.resize(k + n, 0);
        fill(&mut b[k..]);
        for x in &b[k..] {
            assume(*x < 128);
        }
        lex_compare(&text_of(b));
    } else {
        let cs: Vec<char> = al.chars().collect();
        let mut s = String::new();
        // Non-ASCII characters change the length of the text, so they are picked first.
        let ascii: Vec<u8> = al.bytes().filter(|b| *b < 128).collect();
        let other: Vec<char> = cs.into_iter().filter(|c| !c.is_ascii()).collect();
        for _ in 0..n {
            if !other.is_empty() && flag() {
                s.push(other[0]);
            } else {
                let b = ascii[choose(ascii.len())];
                unsafe { s.as_mut_vec().push(b) };
            }
        }
        lex_compare(&s);
    }
}

const WORDS: &[&str] = &[
    "struct", "script", "module", "const", "use", "as", "let", "mut", "return", "fun", "true", "false", "move",
    "while", "if", "else", "break", "continue", "address", "&mut", "1u128", "0xAfu64", "x\"0a\"", "b\"ab\"", "// ab\n",
    "&&", "||", "==>", "<==>", "<<", ">>", "!=", "::", "..", "0u8",
];
/// A token of the language with one byte changed, inserted or appended (symbolic), between two
/// symbolic neighbours. params: neighbours 0/1
#[no_mangle]
pub extern "C" fn h_words() {
    let w = WORDS[pick(WORDS.len())].as_bytes();
    let mut b = Vec::new();
    if param(0) & 1 != 0 {
        b.push(b' ');
    }
    match pick(3) {
        0 => {
            let i = pick(w.len());
            b.extend_from_slice(w);
            let k = b.len() - w.len() + i;
            b[k] = u8();
            assume(b[k] < 128);
        }
        1 => {
            let i = pick(w.len() + 1);
            b.extend_from_slice(&w[..i]);
            let x = u8();
            assume(x < 128);
            b.push(x);
            b.extend_from_slice(&w[i..]);
        }
        _ => b.extend_from_slice(w),
    }
    if param(0) & 2 != 0 {
        let x = u8();
        assume(x < 128);
        b.push(x);
    }
    lex_compare(&text_of(b));
}

// --------------------------------------------------------------------------- structure dumps
/// `KIND(child child ...)`, tokens as their text, trivia left out.
pub fn shape(n: &SyntaxNode, o: &mut String) {
    o.push_str(name_of(n.kind()));
    o.push('(');
    for c in n.children_with_tokens() {
        match c {
            SyntaxElement::Node(c) => shape(&c, o),
            SyntaxElement::Token(t) if t.kind().is_trivia() => continue,
            SyntaxElement::Token(t) => o.push_str(t.text()),
        }
        o.push(' ');
    }
    o.push(')');
}
pub fn name_of(k: SyntaxKind) -> &'static str {
    const T: &[(SyntaxKind, &str)] = &[
        (SOURCE_FILE, "File"), (ADDRESS_DEF, "Address"), (ADDRESS_ITEM_LIST, "AddressItems"), (MODULE_DEF, "Module"),
        (ADDRESS_IDENT, "AddressIdent"), (SCRIPT_DEF, "Script"), (FUNCTION_DEF, "Fun"), (ITEM_LIST, "Items"),
        (NAME_REF, "NameRef"), (STRUCT, "Struct"), (RECORD_FIELD_LIST, "Fields"), (RECORD_FIELD, "Field"),
        (GENERIC_PARAM_LIST, "Generics"), (TYPE_PARAM, "TypeParam"), (TYPE_BOUND_LIST, "Bounds"), (TYPE_BOUND, "Bound"),
        (PARAM_LIST, "Params"), (PARAM, "Param"), (RET_TYPE, "Ret"), (BLOCK_EXPR, "Block"), (DOT_EXPR, "Dot"),
        (CALL_EXPR, "Call"), (ARG_LIST, "Args"), (RECORD_EXPR, "Record"), (RECORD_EXPR_FIELD_LIST, "RecordFields"),
        (RECORD_EXPR_FIELD, "RecordField"), (LITERAL, "Lit"), (PATH, "Path"), (PATH_SEGMENT, "Seg"), (NAME, "Name"),
        (BIN_EXPR, "Bin"), (PREFIX_EXPR, "Prefix"), (PATH_EXPR, "PathExpr"), (PAREN_EXPR, "Paren"), (EXPR_STMT, "Stmt"),
        (LET_STMT, "Let"), (REF_TYPE, "RefType"), (PATH_TYPE, "PathType"), (PAREN_PAT, "ParenPat"), (TUPLE_PAT, "TuplePat"),
        (RECORD_PAT, "RecordPat"), (RECORD_PAT_FIELD_LIST, "RecordPatFields"), (RECORD_PAT_FIELD, "RecordPatField"),
        (PATH_PAT, "PathPat"), (WILDCARD_PAT, "WildPat"), (REST_PAT, "RestPat"), (IDENT_PAT, "IdentPat"),
        (ADDRESS_LIT, "AddressLit"), (ERROR, "ERROR"),
    ];
    T.iter().find(|x| x.0 == k).map_or("?", |x| x.1)
}

#[no_mangle]
pub extern "C" fn h_prec() {
    prec::run()
}
#[no_mangle]
pub extern "C" fn h_valid() {
    gen::run()
}

// -------------------------------------------------------------------------------- trivia
/// Structure without trivia, and the errors with positions counted in significant tokens.
fn skeleton(text: &str) -> (String, Vec<(String, usize)>) {
    let p = SourceFile::parse(text);
    let root = p.syntax_node();
    let mut o = String::new();
    shape(&root, &mut o);
    let mut ends = vec![];
    for e in root.descendants_with_tokens() {
        if let SyntaxElement::Token(t) = e {
            if !t.kind().is_trivia() {
                ends.push(u32::from(t.text_range().end()));
            }
        }
    }
    let errs = p
        .errors()
        .iter()
        .map(|e| {
            let at = u32::from(e.range().start());
            (e.to_string(), ends.iter().filter(|x| **x <= at).count())
        })
        .collect();
    (o, errs)
}
/// Tokens by length: `choose` among those of one length keeps the text's length concrete.
const BY_LEN: &[&[&[u8]]] = &[
    &[
        b"{", b"}", b"(", b")", b";", b",", b":", b"=", b"a", b"1", b"&", b".", b"@", b"<", b">", b"#", b"+", b"*", b"-",
        b"!", b"[", b"]", b"|", b"%", b"^", b"/", b"_",
    ],
    &[b"::", b"..", b"&&", b"||", b"==", b"<=", b"<<", b">=", b">>", b"!=", b"as", b"if", b"ab"],
    &[b"let", b"fun", b"mut", b"==>", b"use", b"1u8", b"0x1"],
    &[b"b\"x\"", b"0x1f", b"true", b"&mut", b"<==>", b"move", b"else"],
    &[b"const", b"false", b"while", b"break"],
    &[b"module", b"struct", b"script", b"return"],
    &[b"address"],
    &[b"continue"],
];
fn sym_token() -> Vec<u8> {
    let l = 1 + pick(param(3).min(BY_LEN.len()));
    let set = BY_LEN[l - 1];
    let i = choose(set.len());
    let mut t: [[u8; 8]; 32] = [[b' '; 8]; 32];
    for (a, b) in t.iter_mut().zip(set) {
        a[..l].copy_from_slice(b);
    }
    t[i][..l].to_vec()
}
fn ws(o: &mut Vec<u8>) {
    let b = u8();
    assume(b == b' ' || b == b'\n' || b == b'\t' || b == b'\r');
    o.push(b);
}
fn comment(o: &mut Vec<u8>, n: usize) {
    o.extend_from_slice(b"//");
    for _ in 0..n {
        let b = u8();
        assume(b != b'\n' && b < 128);
        o.push(b);
    }
    o.push(b'\n');
}
/// White space and comments with symbolic characters.
fn gap(o: &mut Vec<u8>, shape: usize) {
    match shape {
        0 => ws(o),
        1 => {
            ws(o);
            comment(o, 1)
        }
        2 => {
            // directly behind the token; behind `/` it would make a longer comment
            if matches!(o.last(), Some(c) if *c == b'/') {
                ws(o);
            }
            comment(o, 0);
            ws(o);
            ws(o)
        }
        _ => {
            ws(o);
            comment(o, 2);
            comment(o, 0);
            ws(o)
        }
    }
}
const TPRE: &[&[&str]] = &[
    &[],
    &["module", "M", "{"],
    &["script", "{", "fun", "f", "(", ")", "{"],
    &["script", "{", "fun", "f", "(", ")", "{", "let"],
    &["module", "M", "{", "struct", "S"],
    &["module", "M", "{", "fun", "f", "("],
    &["script", "{", "fun", "f", "(", ")", "{", "a"],
    &["script", "{", "fun", "f", "(", ")", "{", "S", "{"],
    &["script", "{", "fun", "f", "(", ")", "{", "let", "S", "{"],
    &["address", "0x1"],
    &["address", "0x1", "{", "module"],
    &["module", "M", "{", "fun", "f", "(", ")", ":"],
];
const TPOST: &[&[&str]] = &[&["}"], &["}", "}"], &[";", "}", "}"], &["=", "1", ";", "}", "}"], &[]];
/// The same significant tokens with different whitespace and comments in between.
/// params: context lo, hi, number of symbolic tokens, longest symbolic token
#[no_mangle]
pub extern "C" fn h_trivia() {
    let (lo, hi) = (param(0), param(1));
    let c = lo + pick(hi - lo);
    let mut toks: Vec<Vec<u8>> = TPRE[c].iter().map(|s| s.as_bytes().to_vec()).collect();
    let fixed = toks.len();
    for _ in 0..param(2) {
        toks.push(sym_token());
    }
    toks.extend(TPOST[c % TPOST.len()].iter().map(|s| s.as_bytes().to_vec()));
    let mut plain = Vec::new();
    let mut other = Vec::new();
    // fillers around the symbolic tokens are symbolic
    let outer = [&b" "[..], b"\n", b" //x {\n"][c % 3];
    let inner = pick(4);
    if flag() {
        gap(&mut other, 1);
    }
    for (i, t) in toks.iter().enumerate() {
        plain.extend_from_slice(t);
        plain.push(b' ');
        other.extend_from_slice(t);
        if i + 1 >= fixed && i < fixed + param(2) {
            gap(&mut other, inner);
        } else {
            other.extend_from_slice(outer);
        }
    }
    let (a, ea) = skeleton(&text_of(plain));
    let (b, eb) = skeleton(&text_of(other));
    check(a == b, 60);
    check(ea == eb, 61);
    observe_str(&b);
    reach(60);
}

/// A program (derived from the grammar, optionally with one token dropped or doubled), parsed with
/// white space and comments of symbolic characters in one of its gaps (or in all of them).
/// params: what to derive, derivation budget, what to check (8: same as without the gap), 0, 0,
/// operators, 0, 1: also broken programs, 1: only the gap with everything, how much more white
/// space or how many more comments
#[no_mangle]
pub extern "C" fn h_gaps() {
    let mut toks = gen::tokens(param(0), param(1) as u32);
    if param(7) != 0 {
        let i = pick(toks.len());
        if flag() {
            toks.remove(i);
        } else {
            let t = toks[i].clone();
            toks.insert(i, t);
        }
    }
    let at = pick(toks.len() + 1);
    let filler = if param(9) > 0 { [" ", "\n", "// c\n"][pick(3)].repeat(param(9)) } else { String::new() };
    let kind = if param(8) != 0 { 3 } else { pick(4) };
    let mut plain = Vec::new();
    let mut other = Vec::new();
    for (i, t) in toks.iter().enumerate() {
        if i == at {
            gap(&mut other, kind);
            other.extend_from_slice(filler.as_bytes());
        }
        plain.extend_from_slice(t.as_bytes());
        other.extend_from_slice(t.as_bytes());
        plain.push(b' ');
        if i + 1 != at || kind == 2 {
            other.push(b' ');
        }
    }
    if at == toks.len() {
        gap(&mut other, kind);
        other.extend_from_slice(filler.as_bytes());
    }
    let other = text_of(other);
    if param(2) != 8 {
        return parse_checked(&other, param(2));
    }
    let (a, ea) = skeleton(&text_of(plain));
    let (b, eb) = skeleton(&other);
    check(a == b, 62);
    check(ea == eb, 63);
    observe_str(&b);
    reach(61);
}

// ------------------------------------------------------------------------------- token sets
fn kind() -> SyntaxKind {
    let k = u16();
    assume(k < __LAST as u16);
    SyntaxKind::from(k)
}
#[no_mangle]
pub extern "C" fn h_kinds() {
    match param(0) {
        0 => {
            let (a, b, c, d) = (kind(), kind(), kind(), kind());
            let s = TokenSet::new(&[a, b]);
            check(s.contains(d) == (d == a || d == b), 70);
            let t = TokenSet::new(&[c]);
            let u = s.union(t);
            check(u.contains(d) == (d == a || d == b || d == c), 71);
            check(!TokenSet::EMPTY.contains(d), 72);
            check(s.contains(d) == (d == a || d == b), 73);
            let v = t.union(s);
            check(v.contains(d) == u.contains(d), 74);
            reach(70);
        }
        1 => {
            let x = u16();
            assume(x <= __LAST as u16);
            let k = SyntaxKind::from(x);
            check(u16::from(k) == x, 75);
            check(k.is_trivia() == (k == WHITESPACE || k == COMMENT), 76);
            let n = k.is_keyword() as u8 + k.is_punct() as u8 + k.is_literal() as u8 + k.is_trivia() as u8;
            check(n <= 1, 77);
            reach(71);
        }
        _ => {
            // keywords are exactly the words that lex as keywords
            let w = WORDS[pick(19)];
            let mut b = w.as_bytes().to_vec();
            if flag() {
                let i = pick(b.len());
                b[i] = u8();
                assume(b[i] < 128);
            }
            let s = text_of(b);
            let k = SyntaxKind::from_keyword(&s);
            let want = WORDS[..19].iter().any(|x| *x == s);
            check(k.is_some() == want, 78);
            if let Some(k) = k {
                check(k.is_keyword(), 79);
            }
            reach(72);
        }
    }
}
