//! Operator precedence and associativity against a reference.
use super::shape;
use sxrt::*;
use syntax::SourceFile;

/// Operators and their levels, higher binds tighter; all group to the left.
const OPS: &[u8; 11] = b"=<>|^&+-*/%";
const LEVEL: &[u8; 11] = &[1, 5, 5, 6, 7, 8, 10, 10, 11, 11, 11];
const PRE: &[&str] = &["", "-", "!", "*", "- -", "!*"];
const ATOMS: &[(&str, &str)] = &[
    ("a", "PathExpr(Path(Seg(NameRef(a ) ) ) )"),
    ("1", "Lit(1 )"),
    ("f(b)", "Call(PathExpr(Path(Seg(NameRef(f ) ) ) ) Args(( PathExpr(Path(Seg(NameRef(b ) ) ) ) ) ) )"),
    ("c.d", "Dot(PathExpr(Path(Seg(NameRef(c ) ) ) ) . NameRef(d ) )"),
    ("(e)", "Paren(( PathExpr(Path(Seg(NameRef(e ) ) ) ) ) )"),
    ("true", "Lit(true )"),
    ("@0x1", "Lit(AddressLit(@ 0x1 ) )"),
    ("g().h(1)", "Call(Dot(Call(PathExpr(Path(Seg(NameRef(g ) ) ) ) Args(( ) ) ) . NameRef(h ) ) Args(( Lit(1 ) ) ) )"),
    ("(e + 1)", "Paren(( Bin(PathExpr(Path(Seg(NameRef(e ) ) ) ) + Lit(1 ) ) ) )"),
    ("m::n", "PathExpr(Path(Path(Seg(NameRef(m ) ) ) :: Seg(NameRef(n ) ) ) )"),
];
fn operand(pre: usize, atom: usize) -> (String, String) {
    let (t, s) = ATOMS[atom];
    let mut text = String::new();
    let mut sh = s.to_string();
    let ops: Vec<&str> = PRE[pre].split(' ').flat_map(|x| x.split("")).filter(|x| !x.is_empty()).collect();
    text.push_str(PRE[pre]);
    text.push_str(t);
    for o in ops.iter().rev() {
        sh = ["Prefix(", o, " ", &sh, " )"].concat();
    }
    (text, sh)
}
fn op(i: usize) -> String {
    unsafe { String::from_utf8_unchecked(vec![OPS[i]]) }
}
/// The loosest operator, and the rightmost of those, is the root.
fn build(opnd: &[String], ops: &[usize]) -> String {
    if ops.is_empty() {
        return opnd[0].clone();
    }
    let mut at = 0;
    for i in 1..ops.len() {
        if LEVEL[ops[i]] <= LEVEL[ops[at]] {
            at = i;
        }
    }
    ["Bin(", &build(&opnd[..at + 1], &ops[..at]), " ", &op(ops[at]), " ", &build(&opnd[at + 1..], &ops[at + 1..]), " )"].concat()
}
const FRAME: &[(&str, &str, &str, &str)] = &[
    ("script { fun f() { ", "; } }", "Stmt(", " ; )"),
    ("script { fun f() { let v = ", "; } }", "Let(let IdentPat(Name(v ) ) = ", " ; )"),
    ("script { fun f() { (", ") } }", "Stmt(Paren(( ", " ) ) )"),
    ("script { fun f() { k(", ", 1) } }", "Stmt(Call(PathExpr(Path(Seg(NameRef(k ) ) ) ) Args(( ", " , Lit(1 ) ) ) ) )"),
];
/// params: number of operators, 0: plain operands / 1: one operand with a symbolic prefix and
/// form / 2: every operand, spaces 0/1, frames, further operators in front
pub fn run() {
    let k = param(0);
    let more = param(4);
    let mut ops: Vec<usize> = (0..more).map(|i| i * 7 % OPS.len()).collect();
    let k = k + more;
    for _ in more..k {
        ops.push(choose(OPS.len()));
    }
    let special = if param(1) == 1 { pick(k + 1) } else { usize::MAX };
    let mut text = String::new();
    let mut opnd = vec![];
    for i in 0..=k {
        let (p, a) = if i == special || (param(1) == 2 && i >= more) { (pick(PRE.len()), pick(ATOMS.len())) } else { (0, i % 2) };
        let (mut t, mut s) = operand(p, a);
        if a == 0 && i >= more {
            // any one-letter name
            let c = u8();
            assume(c.is_ascii_alphabetic());
            let c = unsafe { String::from_utf8_unchecked(vec![c]) };
            t = t.replace('a', &c);
            s = s.replace("a ) ) ) )", &[&c[..], " ) ) ) )"].concat());
        }
        text.push_str(&t);
        opnd.push(s);
        if i < k {
            if param(2) == 0 {
                text.push(' ');
            }
            text.push_str(&op(ops[i]));
            if param(2) == 0 {
                text.push(' ');
            }
        }
    }
    let fr = FRAME[pick(param(3))];
    let full = [fr.0, &text, fr.1].concat();
    let p = SourceFile::parse(&full);
    let mut got = String::new();
    shape(&p.syntax_node(), &mut got);
    let want = [
        "File(Script(script Items({ Fun(fun Name(f ) Params(( ) ) Block({ ",
        fr.2,
        &build(&opnd, &ops),
        fr.3,
        " } ) ) } ) ) )",
    ]
    .concat();
    check(got == want, 50);
    check(p.errors().is_empty(), 51);
    observe_str(&got);
    reach(50);
}
