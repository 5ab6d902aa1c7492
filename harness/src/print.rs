//! Prints the harness's tree as program text, in any legal layout.
use crate::ast::{prec::*, *};
use crate::lex::{lex, KEYWORDS, RESERVED};
use crate::rng::Rng;

#[derive(Clone, Copy)]
pub struct Style {
    /// Percentage of redundant parentheses.
    pub parens: usize,
    pub trailing_commas: usize,
    /// Percentage of eligible calls printed with a backslash argument.
    pub backslash: usize,
    /// Percentage of eligible object keys printed as strings.
    pub string_keys: usize,
    /// 0: one space between tokens; 1: as little as possible; 2: random spacing and comments; 3: one line per token.
    pub layout: u8,
}
pub const PLAIN: Style = Style { parens: 0, trailing_commas: 0, backslash: 0, string_keys: 0, layout: 0 };

pub struct Pr<'r> {
    pub out: Vec<String>,
    st: Style,
    rng: &'r mut Rng,
    no_lead: bool,
}

pub fn random_style(rng: &mut Rng) -> Style {
    Style {
        parens: *rng.pick(&[0, 0, 5, 30]),
        trailing_commas: *rng.pick(&[0, 30, 100]),
        backslash: *rng.pick(&[0, 50]),
        string_keys: *rng.pick(&[0, 50, 100]),
        layout: *rng.pick(&[0, 1, 2, 2, 3]),
    }
}

pub fn tokens(items: &[E], st: Style, rng: &mut Rng) -> Vec<String> {
    let mut p = Pr { out: vec![], st, rng, no_lead: false };
    p.seq(items);
    p.out
}
pub fn program(items: &[E], st: Style, rng: &mut Rng) -> String {
    let t = tokens(items, st, rng);
    layout(&t, st.layout, rng)
}
pub fn plain(items: &[E]) -> String {
    let mut r = Rng::new(1);
    program(items, PLAIN, &mut r)
}

/// Joins tokens with the given layout, keeping every token separate from its neighbours.
pub fn layout(toks: &[String], style: u8, rng: &mut Rng) -> String {
    let mut out = String::new();
    let mut run = 0; // Start of the text since the last separator.
    let mut run_ends: Vec<usize> = vec![];
    for (i, t) in toks.iter().enumerate() {
        let mut sep = String::new();
        if i > 0 {
            match style {
                0 => sep.push(' '),
                3 => sep.push('\n'),
                1 => {}
                _ => {
                    if !rng.pct(35) {
                        for _ in 0..rng.range(1, 3) {
                            sep.push_str(rng.pick(&[
                                " ", "\n", "\t", "\r\n", "\u{c}", "//\n", "// x \"y\" é𝕏 {\n", "  ", "//\r", "///\n", " //a\n\n",
                            ]));
                        }
                    }
                }
            }
            if sep.is_empty() {
                // Glue only where the tokens stay apart.
                let mut glued = out[run..].to_string();
                glued.push_str(t);
                let l = lex(&glued);
                let mut want: Vec<usize> = run_ends.clone();
                want.push(glued.len());
                let got: Vec<usize> = l.iter().take(l.len() - 1).map(|x| x.e).collect();
                if want != got || glued.len() > 60 {
                    sep.push(' ');
                }
            } else if sep.starts_with("//") && toks[i - 1].ends_with('/') {
                sep.insert(0, ' ');
            }
        }
        if !sep.is_empty() {
            out.push_str(&sep);
            run = out.len();
            run_ends.clear();
        }
        out.push_str(t);
        run_ends.push(out.len() - run);
    }
    if style == 2 {
        if rng.pct(30) {
            out.push_str(rng.pick(&["\n", "// end", "//", " ", "\r\n\r\n"]));
        }
        if rng.pct(30) {
            out.insert_str(0, rng.pick(&["\n", "// start\n", " ", "//\n"]));
        }
    }
    out
}

fn is_ident(s: &str) -> bool {
    let mut b = s.bytes();
    matches!(b.next(), Some(c) if c == b'_' || c.is_ascii_alphabetic())
        && b.all(|c| c == b'_' || c.is_ascii_alphanumeric())
        && !KEYWORDS.contains(&s)
        && !RESERVED.contains(&s)
}

/// Whether an item of a block ends in an expression that the next token could continue.
pub fn open_end(e: &E) -> bool {
    match e {
        E::Fn(_) | E::Op(_) | E::Class(_) | E::Loop(_) | E::While(..) | E::For(..) => false,
        E::Break | E::Continue | E::Import(..) | E::Ret(None) => false,
        E::Export(x) => matches!(**x, E::Let(..)),
        _ => true,
    }
}
pub fn hazard(tok: &str) -> bool {
    matches!(tok, "(" | "[" | "-" | "|") || tok.starts_with('\\')
}

/// Rewrites items so that printed one after another they are read back one after another.
pub fn normalize(items: &mut Vec<E>, top: bool) {
    if top {
        for e in items.iter_mut().filter(|e| matches!(e, E::Ret(None))) {
            *e = E::Ret(Some(Box::new(E::Unit)));
        }
    } else if let Some(p) = items.iter().position(|e| matches!(e, E::Ret(None))) {
        items.truncate(p + 1);
    }
    let mut rng = Rng::new(0);
    for i in 0..items.len() {
        norm(&mut items[i]);
        if i > 0 && open_end(&items[i - 1]) {
            let first = {
                let mut p = Pr { out: vec![], st: PLAIN, rng: &mut rng, no_lead: false };
                p.item(&items[i]);
                p.out[0].clone()
            };
            if hazard(&first) {
                let e = std::mem::replace(&mut items[i], E::Null);
                items[i] = E::Block(vec![e]);
            }
        }
    }
}
fn norm(e: &mut E) {
    match e {
        E::List(v) | E::SuperCall(v) => v.iter_mut().for_each(norm),
        E::Block(v) | E::Loop(v) => normalize(v, false),
        E::Obj(v) => v.iter_mut().for_each(|x| norm(&mut x.1)),
        E::Lam(_, b) | E::Field(b, _) | E::Neg(b) | E::Not(b) | E::Is(b, _) | E::NullProp(b) | E::ErrProp(b) => norm(b),
        E::Let(_, _, b) | E::Export(b) => norm(b),
        E::Index(a, b) | E::Bin(_, a, b) | E::Asg(_, a, b) => {
            norm(a);
            norm(b)
        }
        E::If(c, t, e) => {
            norm(c);
            normalize(t, false);
            if let Some(e) = e {
                norm(e)
            }
        }
        E::OrErr(a, _, b) | E::While(a, b) | E::For(_, a, b) => {
            norm(a);
            normalize(b, false)
        }
        E::Call(a, v) => {
            norm(a);
            v.iter_mut().for_each(norm)
        }
        E::Fn(d) => normalize(&mut d.body, false),
        E::Op(d) => normalize(&mut d.body, false),
        E::Class(c) => {
            if let Some(b) = &mut c.base {
                norm(b)
            }
            for i in &mut c.items {
                match i {
                    Item::Fn(d) => normalize(&mut d.body, false),
                    Item::Op(d) => normalize(&mut d.body, false),
                }
            }
        }
        E::Ret(Some(r)) => norm(r),
        _ => {}
    }
}

impl<'r> Pr<'r> {
    fn t(&mut self, s: &str) {
        self.no_lead = false;
        self.out.push(s.to_string());
    }
    fn seq(&mut self, items: &[E]) {
        for (i, e) in items.iter().enumerate() {
            self.no_lead = i > 0 && open_end(&items[i - 1]);
            self.item(e);
            self.no_lead = false;
        }
    }
    fn block(&mut self, items: &[E]) {
        self.t("{");
        self.seq(items);
        self.t("}");
    }
    fn ty(&mut self, t: &Ty) {
        self.t(&t.name);
        if t.null {
            self.t("?");
        }
    }
    fn comma(&mut self, i: usize, n: usize) {
        if i + 1 < n || (self.st.trailing_commas > 0 && self.rng.pct(self.st.trailing_commas)) {
            self.t(",");
        }
    }
    fn params(&mut self, ps: &[Param], open: &str, close: &str) {
        self.t(open);
        for (i, p) in ps.iter().enumerate() {
            self.t(&p.name);
            if let Some(ty) = &p.ty {
                self.t(":");
                self.ty(ty);
            }
            self.comma(i, ps.len());
        }
        self.t(close);
    }
    fn names(&mut self, v: &[String]) {
        self.t("{");
        for (i, n) in v.iter().enumerate() {
            self.t(n);
            self.comma(i, v.len());
        }
        self.t("}");
    }
    fn fnd(&mut self, d: &FnD) {
        self.t("fn");
        self.t(&d.name);
        self.params(&d.params, "(", ")");
        if let Some(r) = &d.ret {
            self.t("->");
            self.ty(r);
        }
        self.block(&d.body);
    }
    fn opd(&mut self, d: &OpD) {
        self.t("op");
        self.t(d.op);
        self.params(&d.params, "(", ")");
        if let Some(r) = &d.ret {
            self.t("->");
            self.ty(r);
        }
        self.block(&d.body);
    }
    fn item(&mut self, e: &E) {
        match e {
            E::Let(p, m, x) => {
                self.t("let");
                if *m {
                    self.t("mut");
                }
                match p {
                    Pat::One(n) => self.t(n),
                    Pat::Many(v) => self.names(v),
                }
                self.t("=");
                self.full(x);
            }
            E::Fn(d) => self.fnd(d),
            E::Op(d) => self.opd(d),
            E::Class(c) => {
                self.t("class");
                self.t(&c.name);
                if let Some(b) = &c.base {
                    self.t(":");
                    self.full(b);
                }
                self.t("{");
                for i in &c.items {
                    match i {
                        Item::Fn(d) => self.fnd(d),
                        Item::Op(d) => self.opd(d),
                    }
                }
                self.t("}");
            }
            E::Import(m, names, path) => {
                self.t("import");
                if let Some(m) = m {
                    self.t("*");
                    self.t("as");
                    self.t(m);
                    if !names.is_empty() || self.rng.pct(self.st.trailing_commas) {
                        self.t(",");
                    }
                }
                if !names.is_empty() {
                    self.names(names);
                }
                self.t("from");
                self.t(&format!("\"{}\"", path));
            }
            E::Export(x) => {
                self.t("export");
                match &**x {
                    E::Id(n) => self.t(n),
                    x => self.item(x),
                }
            }
            E::Loop(b) => {
                self.t("loop");
                self.block(b);
            }
            E::While(c, b) => {
                self.t("while");
                self.full(c);
                self.block(b);
            }
            E::For(n, s, b) => {
                self.t("for");
                self.t(n);
                self.t("in");
                self.full(s);
                self.block(b);
            }
            E::Break => self.t("break"),
            E::Continue => self.t("continue"),
            E::Ret(r) => {
                self.t("return");
                if let Some(r) = r {
                    self.full(r);
                }
            }
            e => self.full(e),
        }
    }
    fn full(&mut self, e: &E) {
        self.e(e, ASSIGN, true);
    }
    fn args(&mut self, v: &[E], close: &str) {
        for (i, x) in v.iter().enumerate() {
            self.full(x);
            self.comma(i, v.len());
        }
        self.t(close);
    }
    /// Prints an expression where operators looser than `min` end it; `tail` says nothing else of the full expression follows.
    fn e(&mut self, e: &E, min: u8, tail: bool) {
        let need = match e {
            E::Bin(op, ..) => bin_prec(op) < min,
            E::Is(..) => CMP < min,
            E::OrErr(..) => COALESCE < min,
            E::Asg(..) => ASSIGN < min,
            E::Neg(_) | E::Not(_) => UNARY < min,
            E::Lam(..) => !tail,
            _ => false,
        };
        let extra = self.st.parens > 0 && !self.no_lead && self.rng.pct(self.st.parens);
        if need || extra {
            self.t("(");
            self.bare(e, true);
            self.t(")");
        } else {
            self.bare(e, tail);
        }
    }
    fn bare(&mut self, e: &E, tail: bool) {
        match e {
            E::Null => self.t("null"),
            E::Unit => {
                self.t("(");
                self.t(")");
            }
            E::Bool(b) => self.t(if *b { "true" } else { "false" }),
            E::Int(i) => self.t(&i.to_string()),
            E::Float(f) => {
                let mut s = format!("{}", f);
                if !s.contains('.') {
                    s.push_str(".0");
                }
                self.t(&s);
            }
            E::Str(s) => self.t(&format!("\"{}\"", s)),
            E::Id(n) => self.t(n),
            E::List(v) => {
                self.t("[");
                self.args(v, "]");
            }
            E::Obj(v) => {
                self.t("#");
                self.t("{");
                for (i, (k, x)) in v.iter().enumerate() {
                    let plain = is_ident(k) || (!k.is_empty() && k.bytes().all(|b| b.is_ascii_digit()));
                    if plain && !self.rng.pct(self.st.string_keys) {
                        self.t(k);
                    } else {
                        self.t(&format!("\"{}\"", k));
                    }
                    self.t(":");
                    self.full(x);
                    self.comma(i, v.len());
                }
                self.t("}");
            }
            E::Lam(ps, b) => {
                self.params(ps, "|", "|");
                self.full(b);
            }
            E::Field(b, f) => {
                self.e(b, PROP, false);
                self.t(".");
                self.t(f);
            }
            E::SuperAcc(c, f) => {
                self.t("super");
                if let Some(c) = c {
                    self.t("[");
                    self.t(c);
                    self.t("]");
                }
                self.t(".");
                self.t(f);
            }
            E::SuperCall(v) => {
                self.t("super");
                self.t("(");
                self.args(v, ")");
            }
            E::Index(b, x) => {
                self.e(b, PROP, false);
                self.t("[");
                self.full(x);
                self.t("]");
            }
            E::Neg(x) => {
                self.t("-");
                self.e(x, UNARY, tail);
            }
            E::Not(x) => {
                self.t("!");
                self.e(x, UNARY, tail);
            }
            E::Bin(op, a, b) => {
                let p = bin_prec(op);
                self.e(a, p, false);
                if *op == "||" {
                    self.t("|");
                    self.t("|");
                } else {
                    self.t(op);
                }
                self.e(b, p + 1, tail);
            }
            E::Is(v, t) => {
                self.e(v, CMP, false);
                self.t("is");
                self.ty(t);
            }
            E::NullProp(x) => {
                self.e(x, PROP, false);
                self.t("?");
            }
            E::ErrProp(x) => {
                self.e(x, PROP, false);
                self.t("!!");
            }
            E::Asg(op, t, r) => {
                self.bare(t, false);
                self.t(op);
                self.e(r, ASSIGN, tail);
            }
            E::If(c, a, b) => {
                self.t("if");
                self.full(c);
                self.block(a);
                if let Some(b) = b {
                    self.t("else");
                    self.bare(b, false);
                }
            }
            E::Block(v) => self.block(v),
            E::OrErr(l, n, b) => {
                self.e(l, COALESCE, false);
                self.t("or");
                self.t(n);
                self.block(b);
            }
            E::Call(f, v) => {
                self.e(f, PROP, false);
                match &v[..] {
                    [E::Str(s)] if !s.contains('\\') && self.rng.pct(self.st.backslash) => {
                        self.t(&format!("\\{}\\", s));
                    }
                    _ => {
                        self.t("(");
                        self.args(v, ")");
                    }
                }
            }
            _ => self.item(e),
        }
    }
}
