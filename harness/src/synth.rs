//! Random syntactically valid programs (no regard for meaning), and token mutations of them.
use crate::ast::*;
use crate::lex;
use crate::rng::Rng;

pub struct Syn<'r> {
    pub r: &'r mut Rng,
    pub budget: i64,
    /// Weights of expression and statement forms, drawn once per program.
    ew: Vec<usize>,
    sw: Vec<usize>,
    pub max_depth: usize,
    pub unicode: bool,
}

const NAMES: &[&str] = &[
    "a", "b", "c", "x", "y", "_", "_z", "x1", "self", "new", "super_", "iff", "lets", "nulls", "T", "Foo", "Int", "or_", "ors",
    "isx", "inn", "fn_", "trues", "awaits", "does", "value", "next", "is_done", "a_long_identifier_name_0123456789", "X9",
    "result", "e", "Any", "Module", "dos", "typed", "do_", "classy", "import_", "froms", "as_", "opp", "mutt", "breaks",
];
const STRS: &[&str] = &[
    "", "a", "hello world", "\\n", "\\\\", "\\\"", "\\r\\t", "é", "日本語", "𝕏𝕐", "// not a comment", "a\nb", "{", "}", "'", "#{}",
    "\\\\\\\"x", "0", "if", "tab\there", "|", " ", "\u{0}", "\u{feff}",
];

fn weights(r: &mut Rng, n: usize) -> Vec<usize> {
    let mode = r.below(3);
    (0..n)
        .map(|_| match mode {
            0 => 10,
            1 => *r.pick(&[0, 2, 10, 40]),
            _ => *r.pick(&[1, 1, 1, 5, 60]),
        })
        .collect()
}

impl<'r> Syn<'r> {
    pub fn new(r: &'r mut Rng, budget: i64, max_depth: usize) -> Self {
        let ew = weights(r, 26);
        let sw = weights(r, 13);
        let unicode = r.pct(50);
        Syn { r, budget, ew, sw, max_depth, unicode }
    }
    pub fn program(&mut self) -> Vec<E> {
        let n = self.r.below(8) + 1;
        let mut v: Vec<E> = vec![];
        for _ in 0..n {
            v.push(self.stmt(0));
            if self.budget <= 0 {
                break;
            }
        }
        if self.r.pct(3) {
            v.clear();
        }
        crate::print::normalize(&mut v, true);
        v
    }
    fn name(&mut self) -> String {
        if self.r.pct(5) {
            let n = self.r.range(1, 6);
            let cs = b"abcxyzABCXYZ_019";
            let mut s = String::from("q");
            for _ in 0..n {
                s.push(*self.r.pick(cs) as char);
            }
            return s;
        }
        if self.r.pct(3) {
            if let Some(n) = near_word(self.r) {
                return n;
            }
        }
        self.r.pick(NAMES).to_string()
    }
    fn str(&mut self) -> String {
        if self.unicode {
            let mut s = String::new();
            for _ in 0..self.r.below(3) {
                s.push_str(self.r.pick(STRS));
            }
            s
        } else {
            self.r.pick(&STRS[..7]).to_string()
        }
    }
    fn ty(&mut self) -> Ty {
        Ty { name: self.name(), null: self.r.pct(40) }
    }
    fn count(&mut self) -> usize {
        let m = *self.r.pick(&[1, 2, 3, 5]);
        self.r.below(m + 1)
    }
    fn params(&mut self) -> Vec<Param> {
        (0..self.count()).map(|_| Param { name: self.name(), ty: if self.r.pct(30) { Some(self.ty()) } else { None } }).collect()
    }
    fn seq(&mut self, d: usize) -> Vec<E> {
        if self.budget <= 0 || d > self.max_depth {
            return vec![];
        }
        (0..self.count()).map(|_| self.stmt(d + 1)).collect()
    }
    fn fnd(&mut self, d: usize) -> FnD {
        FnD {
            name: self.name(),
            params: self.params(),
            ret: if self.r.pct(30) { Some(self.ty()) } else { None },
            body: self.seq(d),
        }
    }
    fn opd(&mut self, d: usize) -> OpD {
        OpD {
            op: self.r.pick(OVERLOADS),
            params: self.params(),
            ret: if self.r.pct(30) { Some(self.ty()) } else { None },
            body: self.seq(d),
        }
    }
    fn let_(&mut self, d: usize) -> E {
        let pat = if self.r.pct(25) {
            Pat::Many((0..self.count()).map(|_| self.name()).collect())
        } else {
            Pat::One(self.name())
        };
        E::Let(pat, self.r.pct(40), bx(self.expr(d + 1)))
    }
    fn class(&mut self, d: usize) -> E {
        let base = if self.r.pct(40) { Some(bx(self.expr(d + 2))) } else { None };
        let n = self.count();
        let items = (0..n).map(|_| if self.r.pct(70) { Item::Fn(self.fnd(d + 1)) } else { Item::Op(self.opd(d + 1)) }).collect();
        E::Class(ClassD { name: self.name(), base, items })
    }
    pub fn stmt(&mut self, d: usize) -> E {
        self.budget -= 1;
        if self.r.pct(45) || self.budget <= 0 || d > self.max_depth {
            return self.expr(d);
        }
        match self.r.weighted(&self.sw.clone()) {
            0 => self.let_(d),
            1 => E::Fn(self.fnd(d)),
            2 => E::Op(self.opd(d)),
            3 => self.class(d),
            4 => {
                let m = if self.r.pct(50) { Some(self.name()) } else { None };
                let mut names: Vec<String> = (0..self.count()).map(|_| self.name()).collect();
                if m.is_none() && names.is_empty() {
                    names.push(self.name());
                }
                E::Import(m, names, self.str())
            }
            5 => E::Export(bx(match self.r.below(4) {
                0 => self.let_(d),
                1 => E::Fn(self.fnd(d)),
                2 => self.class(d),
                _ => E::Id(self.name()),
            })),
            6 => E::Loop(self.seq(d)),
            7 => E::While(bx(self.expr(d + 1)), self.seq(d)),
            8 => E::For(self.name(), bx(self.expr(d + 1)), self.seq(d)),
            9 => E::Break,
            10 => E::Continue,
            11 => E::Ret(Some(bx(self.expr(d + 1)))),
            _ => E::Ret(None),
        }
    }
    fn leaf(&mut self) -> E {
        match self.r.below(12) {
            0 => E::Null,
            1 => E::Unit,
            2 => E::Bool(self.r.pct(50)),
            3 => E::Int(*self.r.pick(&[0, 1, 2, 7, 10, 255, 256, 65536, i64::MAX, i64::MAX - 1, 1 << 53])),
            4 => E::Int(self.r.next() as i64 & i64::MAX >> self.r.below(63)),
            5 => E::Float(*self.r.pick(&[0.0, 1.0, 0.5, 3.14, 1e15, 1e-7, 123456.789, 0.1, 1e300])),
            6 | 7 => E::Str(self.str()),
            _ => E::Id(self.name()),
        }
    }
    pub fn expr(&mut self, d: usize) -> E {
        self.budget -= 1;
        if self.budget <= 0 || d > self.max_depth {
            return self.leaf();
        }
        let n = d + 1;
        match self.r.weighted(&self.ew.clone()) {
            0..=5 => self.leaf(),
            6 => E::List((0..self.count()).map(|_| self.expr(n)).collect()),
            7 => {
                let c = self.count();
                E::Obj(
                    (0..c)
                        .map(|_| {
                            let k = match self.r.below(5) {
                                0 => self.str(),
                                1 => self.r.pick(&["0", "1", "42", "007", "99999999999999999999"]).to_string(),
                                2 => self.r.pick(&["if", "await", "null", "a b", "1x"]).to_string(),
                                _ => self.name(),
                            };
                            (k, self.expr(n))
                        })
                        .collect(),
                )
            }
            8 => E::Lam(self.params(), bx(self.expr(n))),
            9 => E::Field(bx(self.expr(n)), self.name()),
            10 => {
                if self.r.pct(50) {
                    E::SuperAcc(if self.r.pct(50) { Some(self.name()) } else { None }, self.name())
                } else {
                    E::SuperCall((0..self.count()).map(|_| self.expr(n)).collect())
                }
            }
            11 => E::Index(bx(self.expr(n)), bx(self.expr(n))),
            12 => E::Neg(bx(self.expr(n))),
            13 => E::Not(bx(self.expr(n))),
            14..=17 => E::Bin(self.r.pick(BINOPS), bx(self.expr(n)), bx(self.expr(n))),
            18 => E::Is(bx(self.expr(n)), self.ty()),
            19 => E::NullProp(bx(self.expr(n))),
            20 => E::ErrProp(bx(self.expr(n))),
            21 => {
                let t = match self.r.below(3) {
                    0 => E::Id(self.name()),
                    1 => E::Field(bx(self.expr(n)), self.name()),
                    _ => E::Index(bx(self.expr(n)), bx(self.expr(n))),
                };
                E::Asg(self.r.pick(ASSIGNOPS), bx(t), bx(self.expr(n)))
            }
            22 => self.if_(n),
            23 => E::Block(self.seq(n)),
            24 => E::OrErr(bx(self.expr(n)), self.name(), self.seq(n)),
            _ => E::Call(bx(self.expr(n)), (0..self.count()).map(|_| self.expr(n)).collect()),
        }
    }
    fn if_(&mut self, d: usize) -> E {
        let c = bx(self.expr(d));
        let a = self.seq(d);
        let b = match self.r.below(3) {
            0 => None,
            1 => Some(bx(E::Block(self.seq(d)))),
            _ if d < self.max_depth && self.budget > 0 => Some(bx(self.if_(d + 1))),
            _ => None,
        };
        E::If(c, a, b)
    }
}

pub const SOUP: &[&str] = &[
    "false", "true", "null", "if", "else", "while", "loop", "for", "break", "continue", "return", "fn", "let", "mut", "in", "op",
    "class", "is", "import", "as", "from", "export", "super", "or", "await", "switch", "do", "type", "(", ")", "{", "}", "[",
    "]", ":", ",", "|", ".", "..", "..=", "->", "=>", "?", "!!", "??", "-", "+", "%", "*", "/", "!", "!=", "==", ">", ">=",
    "<", "<=", "=", "*=", "/=", "+=", "-=", "&&", "|>", "#", "x", "y", "f", "T", "0", "1", "3.5", "\"s\"", "\"\"", "\\arg\\",
    "99999999999999999999", "@", "&", "\"unterminated", "\\open", "\"\\q\"", "~", "é", "$", "9223372036854775807",
    "9223372036854775808", "0.0", "007", "1.", "1e5", "1_0", "0x1F", "1.5.2", "switching", "_", "__a", "fnx", "If", "'c'", "`", ";",
    "^", "<<", "%=", "???", "...", "..==", "===", "||", "<-", "::", "\\\\", "1.5e3", "00.10", "ifx", "nullable", "do_", "in1",
];

/// A name that is almost a keyword.
pub fn near_word(r: &mut Rng) -> Option<String> {
    let w = if r.pct(70) { r.pick(lex::KEYWORDS).to_string() } else { r.pick(lex::RESERVED).to_string() };
    let n = match r.below(6) {
        0 | 1 => format!("{}{}", w, r.pick(&["x", "_", "1", "s", "ing", "_1", "X", "in", "else"])),
        2 => format!("{}{}", r.pick(&["_", "x", "i", "A", "__"]), w),
        3 => w[..w.len() - 1].to_string(),
        4 => w[..1].to_uppercase() + &w[1..],
        _ => w.to_uppercase(),
    };
    let l = lex::lex(&n);
    if l.len() == 2 && matches!(l[0].k, lex::K::Ident) {
        Some(n)
    } else {
        None
    }
}

/// One random edit of a token list.
pub fn mutate(toks: &mut Vec<String>, r: &mut Rng) {
    let n = toks.len();
    if n == 0 {
        toks.push(r.pick(SOUP).to_string());
        return;
    }
    let i = r.below(n);
    match r.below(10) {
        8 => {
            // A character less, or one of another token more.
            let t: Vec<char> = toks[i].chars().collect();
            let k = r.below(t.len());
            let mut t = t;
            if r.pct(50) || t.len() > 300 {
                t.remove(k);
            } else {
                let o: Vec<char> = r.pick(SOUP).chars().collect();
                t.insert(k, *r.pick(&o));
            }
            if t.is_empty() {
                toks.remove(i);
            } else {
                toks[i] = t.into_iter().collect();
            }
        }
        9 => {
            if let Some(n) = near_word(r) {
                toks[i] = n;
            } else if i + 1 < n {
                // Two tokens without a gap.
                let t = toks.remove(i + 1);
                toks[i].push_str(&t);
            }
        }
        0 => {
            toks.remove(i);
        }
        1 | 2 => toks.insert(i, r.pick(SOUP).to_string()),
        3 => toks[i] = r.pick(SOUP).to_string(),
        4 => {
            let t = toks[i].clone();
            toks.insert(i, t);
        }
        5 => {
            let j = r.below(n);
            toks.swap(i, j);
        }
        6 => toks.truncate(i),
        _ => {
            // Duplicate or drop a stretch.
            let j = (i + r.range(1, 6)).min(n);
            if r.pct(50) {
                let s: Vec<String> = toks[i..j].to_vec();
                let at = r.below(n);
                for (k, t) in s.into_iter().enumerate() {
                    toks.insert(at + k, t);
                }
            } else {
                toks.drain(i..j);
            }
        }
    }
}
