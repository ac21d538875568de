//! The typed view of a tree against the tree itself.
use parser::{SyntaxKind, SyntaxKind::*};
use sxrt::*;
use syntax::ast::*;
use syntax::syntax_node::{SyntaxNode, SyntaxToken};
use syntax::{AstNode, Parse};

fn tok(n: &SyntaxNode, k: SyntaxKind) -> Option<SyntaxToken> {
    for c in n.children_with_tokens() {
        if let Some(t) = c.into_token() {
            if t.kind() == k {
                return Some(t);
            }
        }
    }
    None
}
fn kids<N: AstNode>(got: AstChildren<N>, n: &SyntaxNode, is: fn(SyntaxKind) -> bool, code: u32) {
    let got: Vec<SyntaxNode> = got.map(|x| x.syntax().clone()).collect();
    let want: Vec<SyntaxNode> = n.children().filter(|c| is(c.kind())).collect();
    check(got == want, code);
}
fn expr(e: Option<Expr>) -> Option<SyntaxNode> {
    e.map(|e| e.syntax().clone())
}
fn is_expr(k: SyntaxKind) -> bool {
    (k == BIN_EXPR) | (k == LITERAL)
}
fn cast<N: AstNode>(n: &SyntaxNode, is: bool) -> Option<N> {
    check(N::can_cast(n.kind()) == is, 320);
    let c = N::cast(n.clone());
    check(c.is_some() == is, 321);
    if let Some(c) = &c {
        check(c.syntax() == n, 322);
    }
    c
}
fn token<T: AstToken>(t: &SyntaxToken, k: SyntaxKind) {
    let is = t.kind() == k;
    check(T::can_cast(t.kind()) == is, 323);
    let c = T::cast(t.clone());
    check(c.is_some() == is, 324);
    if let Some(c) = c {
        check((c.syntax() == t) & (c.text() == t.text()), 325);
    }
}

fn node(n: &SyntaxNode) {
    let k = n.kind();
    if let Some(f) = cast::<SourceFile>(n, k == SOURCE_FILE) {
        kids(f.script_defs(), n, |k| k == SCRIPT_DEF, 326);
        check(f.to_string() == n.text().to_string(), 327);
    }
    if let Some(s) = cast::<ScriptDef>(n, k == SCRIPT_DEF) {
        kids(s.function_defs(), n, |k| k == FUNCTION_DEF, 328);
        check(s.l_brace_token() == tok(n, L_BRACE), 329);
        check(s.r_brace_token() == tok(n, R_BRACE), 330);
        check(s.to_string() == n.text().to_string(), 331);
        reach(331);
    }
    if let Some(f) = cast::<FunctionDef>(n, k == FUNCTION_DEF) {
        kids(f.expr_stmts(), n, |k| k == EXPR_STMT, 332);
        check(f.fun_token() == tok(n, FUN_KW), 333);
        check(f.ident_token() == tok(n, IDENT), 334);
        check(f.l_paren_token() == tok(n, L_PAREN), 335);
        check(f.r_paren_token() == tok(n, R_PAREN), 336);
        check(f.l_brace_token() == tok(n, L_BRACE), 337);
        check(f.r_brace_token() == tok(n, R_BRACE), 338);
        check(f.to_string() == n.text().to_string(), 331);
    }
    if let Some(s) = cast::<ExprStmt>(n, k == EXPR_STMT) {
        check(expr(s.expr()) == n.children().find(|c| is_expr(c.kind())), 339);
        check(s.semicolon_token() == tok(n, SEMICOLON), 340);
        check(s.to_string() == n.text().to_string(), 331);
    }
    if let Some(b) = cast::<BinExpr>(n, k == BIN_EXPR) {
        check(b.plus_token() == tok(n, PLUS), 341);
        check(b.minus_token() == tok(n, MINUS), 342);
        check(b.star_token() == tok(n, STAR), 343);
        check(b.slash_token() == tok(n, SLASH), 344);
        check(b.mod_token() == tok(n, MOD), 345);
        check(b.to_string() == n.text().to_string(), 331);
        // the operands: what is before and what is behind the operator
        let mut sides = [None, None];
        let mut right = 0;
        for c in n.children_with_tokens() {
            match c.as_node() {
                Some(c) => sides[right] = Some(c.clone()),
                None => {
                    let t = c.kind();
                    if (t != WHITESPACE) & (t != COMMENT) {
                        right = 1
                    }
                }
            }
        }
        let [l, r] = sides.map(|s| s.filter(|c| is_expr(c.kind())));
        if l.is_some() {
            check(expr(b.lhs()) == l, 346);
            reach(346);
        }
        // one code for each kind of operand
        match (l, r) {
            (None, r) => {
                check(expr(b.lhs()).is_none(), 347);
                check(expr(b.rhs()) == r, 348);
            }
            (Some(_), r) => check(expr(b.rhs()) == r, 349),
        }
    }
    if let Some(l) = cast::<Literal>(n, k == LITERAL) {
        check(l.true_token() == tok(n, TRUE_KW), 350);
        check(l.false_token() == tok(n, FALSE_KW), 351);
        check(l.to_string() == n.text().to_string(), 331);
        reach(350);
    }
    match cast::<Expr>(n, is_expr(k)) {
        Some(Expr::BinExpr(_)) => check(k == BIN_EXPR, 352),
        Some(Expr::Literal(_)) => check(k == LITERAL, 353),
        None => {}
    }
    for c in n.children_with_tokens() {
        match c.into_token() {
            None => {}
            Some(t) => {
                token::<Whitespace>(&t, WHITESPACE);
                token::<Comment>(&t, COMMENT);
                token::<HexString>(&t, HEX_STRING);
                token::<ByteString>(&t, BYTE_STRING);
                token::<IntegerNumber>(&t, INTEGER_NUMBER);
            }
        }
    }
}

pub fn parse(text: &str, p: &Parse<SourceFile>) {
    let root = p.syntax_node();
    let mut n = 0;
    for d in root.descendants() {
        node(&d);
        n += 1;
    }
    observe(n);
    check(p.tree().syntax().text().to_string() == text, 354);
    let u = p.clone().to_syntax();
    check(u.clone().cast::<ScriptDef>().is_none(), 355);
    match u.cast::<SourceFile>() {
        Some(q) => check((q.errors() == p.errors()) & (q == *p), 356),
        None => check(false, 356),
    }
    let copy = p.tree().clone_for_update();
    check(copy.syntax().text().to_string() == text, 357);
    reach(320);
}
