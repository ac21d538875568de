//! Reference lexer, written from the lexical grammar of Move: longest match, one rule per class.
use parser::SyntaxKind::{self, *};

fn name_start(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_'
}
fn name_char(c: u8) -> bool {
    name_start(c) || c.is_ascii_digit()
}
fn run(b: &[u8], i: usize, f: impl Fn(u8) -> bool) -> usize {
    let mut n = 0;
    while i + n < b.len() && f(b[i + n]) {
        n += 1;
    }
    n
}
const KW: &[(&str, SyntaxKind)] = &[
    ("struct", STRUCT_KW), ("script", SCRIPT_KW), ("module", MODULE_KW), ("const", CONST_KW), ("use", USE_KW),
    ("as", AS_KW), ("let", LET_KW), ("mut", MUT_KW), ("return", RETURN_KW), ("fun", FUN_KW), ("true", TRUE_KW),
    ("false", FALSE_KW), ("move", MOVE_KW), ("while", WHILE_KW), ("if", IF_KW), ("else", ELSE_KW),
    ("break", BREAK_KW), ("continue", CONTINUE_KW), ("address", ADDRESS_KW),
];
/// Longest first.
const PUNCT: &[(&str, SyntaxKind)] = &[
    ("<==>", LT_EQ_EQ_GT), ("==>", EQ_EQ_GT), ("&&", AMP_AMP), ("||", PIPE_PIPE), ("==", EQ_EQ), ("!=", BANG_EQ),
    ("<=", LT_EQ), ("<<", LT_LT), (">=", GT_EQ), (">>", GT_GT), ("::", COLON_COLON), ("..", DOTDOT),
];
const PUNCT1: &[(u8, SyntaxKind)] = &[
    (b'&', AMP), (b'|', PIPE), (b'=', EQ), (b'!', BANG), (b'<', LT), (b'>', GT), (b':', COLON), (b'.', DOT), (b'%', MOD),
    (b'(', L_PAREN), (b')', R_PAREN), (b'[', L_BRACK), (b']', R_BRACK), (b'*', STAR), (b'+', PLUS), (b',', COMMA),
    (b'-', MINUS), (b'/', SLASH), (b';', SEMICOLON), (b'^', CARET), (b'{', L_BRACE), (b'}', R_BRACE), (b'#', NUMSIGN),
    (b'@', ATSIGN),
];
static ONE: [SyntaxKind; 256] = {
    let mut t = [ERROR; 256];
    let mut i = 0;
    while i < PUNCT1.len() {
        t[PUNCT1[i].0 as usize] = PUNCT1[i].1;
        i += 1;
    }
    t
};
fn suffix(b: &[u8], i: usize) -> usize {
    for s in ["u8", "u64", "u128"] {
        if b[i..].starts_with(s.as_bytes()) {
            return s.len();
        }
    }
    0
}
fn one(b: &[u8], i: usize) -> (SyntaxKind, usize) {
    let c = b[i];
    let ws = run(b, i, |c| c == b' ' || c == b'\n' || c == b'\t' || c == b'\r');
    if ws > 0 {
        return (WHITESPACE, ws);
    }
    if b[i..].starts_with(b"//") {
        let n = run(b, i, |c| c != b'\n');
        return (COMMENT, if i + n < b.len() { n + 1 } else { n });
    }
    if c.is_ascii_digit() {
        let (mut n, mut digits) = (0, run(b, i, |c| c.is_ascii_digit()));
        if c == b'0' && b.get(i + 1) == Some(&b'x') {
            let h = run(b, i + 2, |c| c.is_ascii_hexdigit());
            // `0xu8` is one (digitless) number, as it is for the Move compiler
            if h == 0 && suffix(b, i + 2) == 0 {
                // not a hexadecimal number: `0` followed by a name
                return (INTEGER_NUMBER, 1);
            }
            n = 2;
            digits = h;
        }
        n += digits;
        return (INTEGER_NUMBER, n + suffix(b, i + n));
    }
    if (c == b'x' || c == b'b') && b.get(i + 1) == Some(&b'"') {
        // the string ends on its line
        let mut j = i + 2;
        loop {
            if j >= b.len() || b[j] == b'\n' {
                // no closing quote: the rest of the line (without its line break) is one bad token
                let cr = j < b.len() && j > i + 2 && b[j - 1] == b'\r';
                return (ERROR, j - i - cr as usize);
            }
            match b[j] {
                b'"' => return (BYTE_STRING, j - i + 1),
                b'\\' => {
                    // skips one character
                    j += 1;
                    if j < b.len() && b[j] != b'\n' && !(b[j] == b'\r' && b.get(j + 1) == Some(&b'\n')) {
                        j += utf8_len(b[j]);
                    }
                }
                c => j += utf8_len(c),
            }
        }
    }
    if name_start(c) {
        let n = run(b, i, name_char);
        let w = &b[i..i + n];
        for (k, kind) in KW {
            if k.as_bytes() == w {
                return (*kind, n);
            }
        }
        return (IDENT, n);
    }
    if c == b'&' && b[i + 1..].starts_with(b"mut") && !b.get(i + 4).map_or(false, |c| name_char(*c)) {
        return (AMP_MUT, 4);
    }
    for (p, kind) in PUNCT {
        if b[i..].starts_with(p.as_bytes()) {
            return (*kind, p.len());
        }
    }
    (ONE[c as usize], utf8_len(c))
}
fn utf8_len(c: u8) -> usize {
    match c {
        0..=0x7f => 1,
        0xc0..=0xdf => 2,
        0xe0..=0xef => 3,
        _ => 4,
    }
}
pub fn lex(text: &str) -> Vec<(SyntaxKind, usize)> {
    let b = text.as_bytes();
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        let t = one(b, i);
        i += t.1;
        out.push(t);
    }
    out
}
