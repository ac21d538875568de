//! Programs of the supported subset of Move, derived from its grammar together with the structure
//! the parser has to give them.
use super::shape;
use sxrt::*;
use syntax::SourceFile;

pub struct G {
    text: String,
    want: String,
    ids: u32,
    seps: u32,
    fuel: u32,
    /// where the tokens start
    starts: Vec<usize>,
}
impl G {
    /// A significant token.
    fn t(&mut self, s: &str) {
        self.starts.push(self.text.len());
        self.text.push_str(s);
        self.sep();
        self.want.push_str(s);
        self.want.push(' ');
    }
    fn open(&mut self, k: &str) {
        self.want.push_str(k);
        self.want.push('(');
    }
    fn close(&mut self) {
        self.want.push_str(") ");
    }
    /// One of `n` productions; the first is terminal.
    fn alt(&mut self, n: usize) -> usize {
        if self.fuel == 0 {
            return 0;
        }
        let r = pick(n);
        if r != 0 {
            self.fuel -= 1;
        }
        r
    }
    /// Any two-character identifier that is not a keyword, for the first names of the program;
    /// then any that does not begin like a byte string or a keyword of two characters (all the
    /// same to the lexer).
    fn ident(&mut self) -> String {
        self.ids += 1;
        if self.ids > param(6) as u32 {
            return ["a", "foo", "_x", "S1", "mutable", "let_", "u8", "b", "x"][(self.ids as usize) % 9].to_string();
        }
        let (a, b) = (u8(), u8());
        let alpha = |c: u8| c.is_ascii_alphabetic() | (c == b'_');
        assume(alpha(a) & (alpha(b) | b.is_ascii_digit()));
        if self.ids > param(3) as u32 {
            assume((a != b'a') & (a != b'i') & (a != b'x') & (a != b'b'));
        }
        assume(!((a == b'a') & (b == b's')) & !((a == b'i') & (b == b'f')));
        unsafe { String::from_utf8_unchecked(vec![a, b]) }
    }
    /// A separator between tokens: any white space character.
    fn sep(&mut self) {
        self.seps += 1;
        if self.seps > param(4) as u32 {
            return self.text.push(' ');
        }
        let b = u8();
        assume((b == b' ') | (b == b'\n') | (b == b'\t') | (b == b'\r'));
        unsafe { self.text.as_mut_vec().push(b) };
    }
    fn name(&mut self) {
        let i = self.ident();
        self.open("Name");
        self.t(&i);
        self.close();
    }
    fn name_ref(&mut self) {
        let i = self.ident();
        self.open("NameRef");
        self.t(&i);
        self.close();
    }
    fn path(&mut self) {
        let n = self.alt(3);
        for _ in 0..=n {
            self.open("Path");
        }
        self.open("Seg");
        self.name_ref();
        self.close();
        self.close();
        for _ in 0..n {
            self.t("::");
            self.open("Seg");
            self.name_ref();
            self.close();
            self.close();
        }
    }
    fn ty(&mut self) {
        match self.alt(3) {
            0 => {
                self.open("PathType");
                self.path();
                self.close();
            }
            1 => {
                self.open("RefType");
                self.t("&");
                self.ty();
                self.close();
            }
            _ => {
                self.open("RefType");
                self.text.push('&');
                self.want.push_str("& ");
                self.text.push(' ');
                self.t("mut");
                self.ty();
                self.close();
            }
        }
    }
    fn pat(&mut self) {
        match self.alt(6) {
            0 => {
                self.open("IdentPat");
                self.name();
                self.close();
            }
            1 => {
                self.open("IdentPat");
                self.t("mut");
                self.name();
                self.close();
            }
            2 => {
                self.open("ParenPat");
                self.t("(");
                self.pat();
                self.t(")");
                self.close();
            }
            3 => {
                self.open("TuplePat");
                self.t("(");
                self.pat();
                self.t(",");
                self.pat();
                if self.alt(2) == 1 {
                    self.t(",");
                }
                self.t(")");
                self.close();
            }
            4 => {
                self.open("TuplePat");
                self.t("(");
                self.t(")");
                self.close();
            }
            _ => {
                self.open("RecordPat");
                // single-segment path
                self.open("Path");
                self.open("Seg");
                self.name_ref();
                self.close();
                self.close();
                self.open("RecordPatFields");
                self.t("{");
                for i in 0..self.alt(3) {
                    if i > 0 {
                        self.t(",");
                    }
                    self.open("RecordPatField");
                    if self.alt(2) == 0 {
                        self.open("IdentPat");
                        self.name();
                        self.close();
                    } else {
                        self.name_ref();
                        self.t(":");
                        self.pat();
                    }
                    self.close();
                }
                self.t("}");
                self.close();
                self.close();
            }
        }
    }
    fn lit(&mut self, i: usize) {
        self.open("Lit");
        match i {
            0 => self.t("1"),
            1 => self.t("0xFFu128"),
            2 => self.t("true"),
            3 => self.t("false"),
            4 => self.t("b\"a\\\"b\""),
            5 => self.t("x\"00\""),
            6 => {
                self.open("AddressLit");
                self.t("@");
                self.t("0x1");
                self.close();
            }
            _ => {
                self.open("AddressLit");
                self.t("@");
                self.name_addr();
                self.close();
            }
        }
        self.close();
    }
    fn name_addr(&mut self) {
        let i = self.ident();
        self.t(&i);
    }
    fn path_expr(&mut self) {
        self.open("PathExpr");
        self.path();
        self.close();
    }
    fn block(&mut self) {
        self.open("Block");
        self.t("{");
        for _ in 0..self.alt(3) {
            self.stmt();
        }
        self.t("}");
        self.close();
    }
    fn args(&mut self) {
        self.open("Args");
        self.t("(");
        for i in 0..self.alt(3) {
            if i > 0 {
                self.t(",");
            }
            self.expr();
        }
        self.t(")");
        self.close();
    }
    /// Wraps what is generated by `f` in the node `k` that starts where `f` starts.
    fn expr(&mut self) {
        match self.alt(10) {
            0 => self.path_expr(),
            1 => {
                let i = pick(8);
                self.lit(i)
            }
            2 => {
                self.open("Call");
                self.path_expr();
                self.args();
                self.close();
            }
            3 => {
                self.open("Dot");
                self.path_expr();
                self.t(".");
                self.name_ref();
                self.close();
            }
            4 => {
                self.open("Paren");
                self.t("(");
                self.expr();
                self.t(")");
                self.close();
            }
            5 => self.block(),
            6 => {
                self.open("Record");
                self.path();
                self.open("RecordFields");
                self.t("{");
                let n = self.alt(3);
                for i in 0..n {
                    if i > 0 {
                        self.t(",");
                    }
                    self.open("RecordField");
                    if self.alt(2) == 0 {
                        self.open("PathExpr");
                        self.open("Path");
                        self.open("Seg");
                        self.name_ref();
                        self.close();
                        self.close();
                        self.close();
                    } else {
                        self.name_ref();
                        self.t(":");
                        self.expr();
                    }
                    self.close();
                }
                if n > 0 && self.alt(2) == 1 {
                    self.t(",");
                }
                self.t("}");
                self.close();
                self.close();
            }
            7 => {
                self.open("Prefix");
                let o = [b'-', b'!', b'*'][choose(3)];
                self.t(std::str::from_utf8(&[o]).unwrap());
                self.path_expr();
                self.close();
            }
            8 => {
                self.open("Bin");
                self.path_expr();
                let o = b"+-*/%|&^<>"[choose(param(5))];
                self.t(std::str::from_utf8(&[o]).unwrap());
                self.path_expr();
                self.close();
            }
            _ => {
                self.open("Call");
                self.open("Dot");
                self.open("Call");
                self.path_expr();
                self.args();
                self.close();
                self.t(".");
                self.name_ref();
                self.close();
                self.args();
                self.close();
            }
        }
    }
    fn stmt(&mut self) {
        match self.alt(4) {
            0 => {
                self.open("Stmt");
                self.expr();
                self.t(";");
                self.close();
            }
            1 => {
                self.open("Let");
                self.t("let");
                self.pat();
                if self.alt(2) == 1 {
                    self.t(":");
                    self.ty();
                }
                self.t("=");
                self.expr();
                self.t(";");
                self.close();
            }
            2 => {
                self.open("Let");
                self.t("let");
                self.pat();
                if self.alt(2) == 1 {
                    self.t(":");
                    self.ty();
                }
                self.t(";");
                self.close();
            }
            _ => {
                self.open("Stmt");
                self.open("Bin");
                self.path_expr();
                self.t("=");
                self.expr();
                self.close();
                self.t(";");
                self.close();
            }
        }
    }
    fn fun(&mut self) {
        self.open("Fun");
        self.t("fun");
        self.name();
        self.open("Params");
        self.t("(");
        let n = self.alt(3);
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            self.open("Param");
            self.name();
            self.t(":");
            self.ty();
            self.close();
        }
        if n > 0 && self.alt(2) == 1 {
            self.t(",");
        }
        self.t(")");
        self.close();
        if self.alt(2) == 1 {
            self.open("Ret");
            self.t(":");
            self.ty();
            self.close();
        }
        self.block();
        self.close();
    }
    fn struct_(&mut self) {
        self.open("Struct");
        self.t("struct");
        self.name();
        let n = self.alt(3);
        if n > 0 {
            self.open("Generics");
            self.t("<");
            for i in 0..n {
                if i > 0 {
                    self.t(",");
                }
                self.open("TypeParam");
                self.name();
                let b = self.alt(3);
                if b > 0 {
                    self.t(":");
                    self.open("Bounds");
                    for j in 0..b {
                        if j > 0 {
                            self.t("+");
                        }
                        self.open("Bound");
                        self.name();
                        self.close();
                    }
                    self.close();
                }
                self.close();
            }
            self.t(">");
            self.close();
        }
        match self.alt(4) {
            0 => self.t(";"),
            n => {
                self.open("Fields");
                self.t("{");
                for i in 1..n {
                    if i > 1 {
                        self.t(",");
                    }
                    self.open("Field");
                    self.name();
                    self.t(":");
                    self.ty();
                    self.close();
                }
                if n > 1 && self.alt(2) == 1 {
                    self.t(",");
                }
                self.t("}");
                self.close();
            }
        }
        self.close();
    }
    fn items(&mut self, min: usize) {
        self.open("Items");
        self.t("{");
        for _ in 0..min + self.alt(3) {
            if self.alt(2) == 0 {
                self.fun()
            } else {
                self.struct_()
            }
        }
        self.t("}");
        self.close();
    }
    fn module(&mut self) {
        self.open("Module");
        self.t("module");
        let a = self.alt(3);
        if a > 0 {
            self.open("AddressIdent");
            self.t(["0x1", "addr"][a - 1]);
            self.close();
            self.t("::");
        }
        self.name();
        self.items(0);
        self.close();
    }
    fn top(&mut self) {
        match self.alt(3) {
            0 => {
                self.open("Script");
                self.t("script");
                self.items(1);
                self.close();
            }
            1 => self.module(),
            _ => {
                self.open("Address");
                self.t("address");
                self.open("AddressIdent");
                self.t(["0x1", "std", "0xA"][pick(3)]);
                self.close();
                self.open("AddressItems");
                self.t("{");
                for _ in 0..self.alt(3) {
                    self.module();
                }
                self.t("}");
                self.close();
                self.close();
            }
        }
    }
}
pub fn derive(what: usize, fuel: u32) -> G {
    let mut g = G { text: String::new(), want: String::new(), ids: 0, seps: 0, fuel, starts: vec![] };
    g.open("File");
    match what {
        0 => {
            for _ in 0..1 + g.alt(2) {
                g.top()
            }
        }
        w => {
            g.open("Module");
            g.t("module");
            g.name();
            g.open("Items");
            g.t("{");
            if w == 1 {
                if pick(2) == 0 {
                    g.fun()
                } else {
                    g.struct_()
                }
            } else {
                g.open("Fun");
                g.t("fun");
                g.name();
                g.open("Params");
                g.t("(");
                g.t(")");
                g.close();
                g.open("Block");
                g.t("{");
                match w {
                    2 => g.stmt(),
                    3 => {
                        g.open("Stmt");
                        g.expr();
                        g.close();
                    }
                    4 => {
                        g.open("Let");
                        g.t("let");
                        g.pat();
                        g.t(";");
                        g.close();
                    }
                    _ => {
                        g.open("Let");
                        g.t("let");
                        g.open("IdentPat");
                        g.name();
                        g.close();
                        g.t(":");
                        g.ty();
                        g.t(";");
                        g.close();
                    }
                }
                g.t("}");
                g.close();
                g.close();
            }
            g.t("}");
            g.close();
            g.close();
        }
    }
    g.close();
    g
}
/// params: what to derive (0 file, 1 item, 2 statement, 3 expression, 4 pattern, 5 type),
/// derivation budget (non-terminal choices), 1: print, names of any form, symbolic separators,
/// operators, symbolic names, modules in front of a file
pub fn run() {
    let mut g = derive(param(0), param(1) as u32);
    if param(7) > 0 {
        let (t, s) = (
            "module M{fun f(x:u8){g(x);}} ",
            "Module(module Name(M ) Items({ Fun(fun Name(f ) Params(( Param(Name(x ) : PathType(Path(Seg(NameRef(u8 ) ) ) ) ) ) ) Block({ Stmt(Call(PathExpr(Path(Seg(NameRef(g ) ) ) ) Args(( PathExpr(Path(Seg(NameRef(x ) ) ) ) ) ) ) ; ) } ) ) } ) ) ",
        );
        g.text.insert_str(0, &t.repeat(param(7)));
        g.want.insert_str(5, &s.repeat(param(7)));
    }
    let p = SourceFile::parse(&g.text);
    let mut got = String::new();
    shape(&p.syntax_node(), &mut got);
    got.push(' ');
    if param(2) != 0 && !is_sym() {
        print(&g.text);
        print(&got);
        print(&g.want);
        for e in p.errors() {
            print(&e.to_string());
        }
    }
    check(p.errors().is_empty(), 31);
    check(got == g.want, 30);
    observe_str(&got);
    reach(30);
}

/// The tokens of a derived program.
pub fn tokens(what: usize, fuel: u32) -> Vec<String> {
    let g = derive(what, fuel);
    g.starts.iter().enumerate().map(|(i, &s)| g.text[s..g.starts.get(i + 1).map_or(g.text.len(), |e| *e)].trim_end().to_string()).collect()
}
