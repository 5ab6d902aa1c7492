//! Reference parser: the language's grammar, with the first token that cannot continue a program.
use crate::ast::{prec::*, *};
use crate::lex::{lex, Tok, K};

#[derive(Clone, Debug, PartialEq)]
pub struct PErr {
    /// Acceptable codes.
    pub codes: &'static [&'static str],
    pub s: usize,
    pub e: usize,
    /// The kind of the token there.
    pub k: K,
}
type R<T> = Result<T, PErr>;

pub struct Parsed {
    pub items: Vec<E>,
    /// Byte ranges of every name and literal the tree keeps a range for, in source order.
    pub leaves: Vec<(usize, usize)>,
    pub tokens: usize,
    /// Every node with the range of its text, children first.
    pub nodes: Vec<Node>,
}
/// A node of the tree: where its text starts and ends. A block may be taken to start at its
/// brace or inside, an operation to end with its operator or with its operand.
#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub kind: &'static str,
    pub s: usize,
    pub e: usize,
    pub s2: usize,
    pub e2: usize,
}

pub struct P<'a> {
    src: &'a str,
    t: Vec<Tok>,
    i: usize,
    leaves: Vec<(usize, usize)>,
    nodes: Vec<Node>,
}

const RULELESS: &[&str] = &["->", "=>", "else", "mut", "in", "as", "from"];

pub fn parse(src: &str) -> R<Parsed> {
    let t = lex(src);
    let tokens = t.len() - 1;
    let mut p = P { src, t, i: 0, leaves: vec![], nodes: vec![] };
    let items = p.sequence()?;
    p.expect("\0eoi")?;
    Ok(Parsed { items, leaves: p.leaves, tokens, nodes: p.nodes })
}

impl<'a> P<'a> {
    fn raw(&self) -> Tok {
        self.t[self.i.min(self.t.len() - 1)]
    }
    /// The next token; a malformed one is an error as soon as it is looked at.
    fn peek(&self) -> R<Tok> {
        let t = self.raw();
        match t.k {
            K::Err(c) => Err(PErr {
                codes: match c {
                    "E1001" => &["E1001"],
                    "E1002" => &["E1002"],
                    _ => &["E1009"],
                },
                s: t.s,
                e: t.e,
                k: t.k,
            }),
            _ => Ok(t),
        }
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.peek()?;
        self.i += 1;
        Ok(t)
    }
    fn text(&self, t: Tok) -> String {
        self.src[t.s..t.e].to_string()
    }
    fn is(&self, s: &str) -> R<bool> {
        Ok(matches!(self.peek()?.k, K::P(x) if x == s))
    }
    fn bad<T>(&self, t: Tok) -> R<T> {
        let codes: &[&str] = match t.k {
            K::Reserved => &["E1000", "E1004"],
            K::Bad => &["E1003", "E1000"],
            K::P(x) if RULELESS.contains(&x) => &["E1000", "E1003"],
            _ => &["E1000"],
        };
        Err(PErr { codes, s: t.s, e: t.e, k: t.k })
    }
    fn expect(&mut self, s: &str) -> R<Tok> {
        let t = self.peek()?;
        let ok = match t.k {
            K::P(x) => x == s,
            K::Eoi => s == "\0eoi",
            _ => false,
        };
        if ok {
            self.next()
        } else {
            self.bad(t)
        }
    }
    fn ident(&mut self) -> R<(String, Tok)> {
        let t = self.peek()?;
        if t.k == K::Ident {
            self.i += 1;
            Ok((self.text(t), t))
        } else {
            self.bad(t)
        }
    }
    fn string(&mut self) -> R<String> {
        let t = self.peek()?;
        if t.k == K::Str {
            self.i += 1;
            Ok(self.src[t.s + 1..t.e - 1].to_string())
        } else {
            self.bad(t)
        }
    }
    fn leaf(&mut self, t: Tok) {
        self.leaves.push((t.s, t.e));
    }

    /// A node is complete; its text starts at a token.
    fn done(&mut self, e: &E, at: usize) {
        self.put(e.kind(), self.t[at].s, self.t[self.i - 1].e);
        let (end, inner) = (self.t[at].e, self.t[at + 1].s);
        let n = self.nodes.last_mut().unwrap();
        match e {
            E::Neg(_) | E::Not(_) => n.e2 = end,
            E::Block(_) => n.s2 = inner,
            _ => {}
        }
    }
    fn put(&mut self, kind: &'static str, s: usize, e: usize) {
        self.nodes.push(Node { kind, s, e, s2: s, e2: e });
    }
    fn sequence(&mut self) -> R<Vec<E>> {
        let mut v = Vec::new();
        let first = self.i;
        loop {
            let t = self.peek()?;
            let at = self.i;
            let e = match t.k {
                K::Eoi | K::P("}") => {
                    let (s, mut e, mut s2) = (self.t[first].s, t.e, self.t[first].s);
                    if let K::Eoi = t.k {
                        e = self.t[self.i.max(1) - 1].e;
                    }
                    if first > 0 && matches!(self.t[first - 1].k, K::P("{")) {
                        s2 = self.t[first - 1].s;
                    }
                    self.nodes.push(Node { kind: "body", s, e, s2, e2: e });
                    return Ok(v);
                }
                K::P("loop") => {
                    self.i += 1;
                    E::Loop(self.block()?)
                }
                K::P("while") => {
                    self.i += 1;
                    let c = self.expr()?;
                    E::While(bx(c), self.block()?)
                }
                K::P("for") => {
                    self.i += 1;
                    let (n, _) = self.ident()?;
                    self.expect("in")?;
                    let s = self.expr()?;
                    E::For(n, bx(s), self.block()?)
                }
                K::P("let") => self.let_()?,
                K::P("fn") => E::Fn(self.fn_()?),
                K::P("op") => E::Op(self.op_()?),
                K::P("class") => self.class()?,
                K::P("import") => self.import()?,
                K::P("export") => {
                    self.i += 1;
                    let t = self.peek()?;
                    let at = self.i;
                    let e = match t.k {
                        K::P("let") => self.let_()?,
                        K::P("fn") => E::Fn(self.fn_()?),
                        K::P("class") => self.class()?,
                        K::Ident => {
                            self.i += 1;
                            self.leaf(t);
                            E::Id(self.text(t))
                        }
                        _ => return self.bad(t),
                    };
                    self.done(&e, at);
                    E::Export(bx(e))
                }
                K::P("break") => {
                    self.i += 1;
                    E::Break
                }
                K::P("continue") => {
                    self.i += 1;
                    E::Continue
                }
                K::P("return") => {
                    self.i += 1;
                    if self.is("}")? {
                        E::Ret(None)
                    } else {
                        E::Ret(Some(bx(self.expr()?)))
                    }
                }
                _ => {
                    v.push(self.expr()?);
                    continue;
                }
            };
            self.done(&e, at);
            v.push(e);
        }
    }
    fn block(&mut self) -> R<Vec<E>> {
        self.expect("{")?;
        let v = self.sequence()?;
        self.expect("}")?;
        Ok(v)
    }
    fn let_(&mut self) -> R<E> {
        self.expect("let")?;
        let m = self.is("mut")?;
        if m {
            self.i += 1;
        }
        let t = self.peek()?;
        let pat = match t.k {
            K::Ident => {
                self.i += 1;
                Pat::One(self.text(t))
            }
            K::P("{") => Pat::Many(self.names()?),
            _ => return self.bad(t),
        };
        self.expect("=")?;
        Ok(E::Let(pat, m, bx(self.expr()?)))
    }
    fn names(&mut self) -> R<Vec<String>> {
        self.expect("{")?;
        let mut v = vec![];
        while !self.is("}")? {
            v.push(self.ident()?.0);
            if self.is(",")? {
                self.i += 1;
            } else if !self.is("}")? {
                return self.bad(self.raw());
            }
        }
        self.i += 1;
        Ok(v)
    }
    fn ty(&mut self, delim: &str) -> R<Ty> {
        let at = self.i;
        self.expect(delim)?;
        let (name, t) = self.ident()?;
        self.leaf(t);
        let null = self.is("?")?;
        if null {
            self.i += 1;
        }
        self.leaves.push((self.t[at].s, self.t[self.i - 1].e));
        Ok(Ty { name, null })
    }
    fn params(&mut self, open: &str, close: &str) -> R<Vec<Param>> {
        self.expect(open)?;
        let mut v = vec![];
        while !self.is(close)? {
            let (name, t) = self.ident()?;
            let at = self.leaves.len();
            self.leaf(t);
            let ty = if self.is(":")? { Some(self.ty(":")?) } else { None };
            self.leaves[at].1 = self.t[self.i - 1].e;
            v.push(Param { name, ty });
            if self.is(",")? {
                self.i += 1;
            } else if !self.is(close)? {
                return self.bad(self.raw());
            }
        }
        self.i += 1;
        Ok(v)
    }
    fn ret(&mut self) -> R<Option<Ty>> {
        if self.is("->")? {
            Ok(Some(self.ty("->")?))
        } else {
            Ok(None)
        }
    }
    fn too_many<T>(&self, at: usize, n: usize) -> R<()> {
        let _ = std::marker::PhantomData::<T>;
        if n > 255 {
            let t = self.t[at];
            return Err(PErr { codes: &["E1005"], s: t.s, e: t.e, k: t.k });
        }
        Ok(())
    }
    fn fn_(&mut self) -> R<FnD> {
        let at = self.i;
        self.expect("fn")?;
        let (name, t) = self.ident()?;
        self.leaf(t);
        let params = self.params("(", ")")?;
        self.too_many::<()>(at, params.len())?;
        let ret = self.ret()?;
        let body = self.block()?;
        Ok(FnD { name, params, ret, body })
    }
    fn op_(&mut self) -> R<OpD> {
        self.expect("op")?;
        let t = self.peek()?;
        let op = match t.k {
            K::P(x) => match OVERLOADS.iter().find(|o| **o == x) {
                Some(o) => *o,
                None => return self.bad(t),
            },
            _ => return self.bad(t),
        };
        self.i += 1;
        let params = self.params("(", ")")?;
        let ret = self.ret()?;
        let body = self.block()?;
        Ok(OpD { op, params, ret, body })
    }
    fn class(&mut self) -> R<E> {
        self.expect("class")?;
        let (name, t) = self.ident()?;
        self.leaf(t);
        let base = if self.is(":")? {
            self.i += 1;
            Some(bx(self.expr()?))
        } else {
            None
        };
        self.expect("{")?;
        let mut items = vec![];
        loop {
            let t = self.peek()?;
            match t.k {
                K::P("}") => break,
                K::P("fn") => {
                    let at = self.i;
                    items.push(Item::Fn(self.fn_()?));
                    self.put("fn", self.t[at].s, self.t[self.i - 1].e);
                }
                K::P("op") => {
                    let at = self.i;
                    items.push(Item::Op(self.op_()?));
                    self.put("op", self.t[at].s, self.t[self.i - 1].e);
                }
                _ => return self.bad(t),
            }
        }
        self.i += 1;
        Ok(E::Class(ClassD { name, base, items }))
    }
    fn import(&mut self) -> R<E> {
        let at = self.expect("import")?;
        let module = if self.is("*")? {
            self.i += 1;
            self.expect("as")?;
            let n = self.ident()?.0;
            if self.is(",")? {
                self.i += 1;
            }
            Some(n)
        } else {
            None
        };
        let names = if self.is("{")? { self.names()? } else { vec![] };
        if module.is_none() && names.is_empty() {
            return Err(PErr { codes: &["E2505"], s: at.s, e: at.e, k: at.k });
        }
        self.expect("from")?;
        let path = self.string()?;
        Ok(E::Import(module, names, path))
    }

    fn expr(&mut self) -> R<E> {
        self.climb(ASSIGN)
    }
    fn climb(&mut self, min: u8) -> R<E> {
        let assign = min <= ASSIGN;
        let at = self.i;
        let t = self.peek()?;
        let mut lhs = match t.k {
            K::Int => {
                self.i += 1;
                match self.text(t).parse::<i64>() {
                    Ok(v) => {
                        self.leaf(t);
                        E::Int(v)
                    }
                    Err(_) => return Err(PErr { codes: &["E1007"], s: t.s, e: t.e, k: t.k }),
                }
            }
            K::Float => {
                self.i += 1;
                self.leaf(t);
                E::Float(self.text(t).parse().unwrap())
            }
            K::Str => {
                self.leaf(t);
                E::Str(self.string()?)
            }
            K::P(x @ ("true" | "false")) => {
                self.i += 1;
                self.leaf(t);
                E::Bool(x == "true")
            }
            K::P("null") => {
                self.i += 1;
                self.leaf(t);
                E::Null
            }
            K::Ident => {
                self.i += 1;
                self.leaf(t);
                self.assignment(E::Id(self.text(t)), assign, at)?
            }
            K::P("if") => self.if_()?,
            K::P("#") => self.object()?,
            K::P("[") => {
                self.i += 1;
                E::List(self.exprs("]")?)
            }
            K::P("(") => {
                self.i += 1;
                if self.is(")")? {
                    self.i += 1;
                    E::Unit
                } else {
                    let e = self.expr()?;
                    self.expect(")")?;
                    e
                }
            }
            K::P("{") => E::Block(self.block()?),
            K::P("|") => {
                let at = self.i;
                let ps = self.params("|", "|")?;
                self.too_many::<()>(at, ps.len())?;
                E::Lam(ps, bx(self.expr()?))
            }
            K::P("super") => {
                self.i += 1;
                let t = self.peek()?;
                match t.k {
                    K::P("(") => {
                        self.i += 1;
                        E::SuperCall(self.exprs(")")?)
                    }
                    K::P("." | "[") => {
                        let class = if self.is("[")? {
                            self.i += 1;
                            let n = self.ident()?.0;
                            self.expect("]")?;
                            Some(n)
                        } else {
                            None
                        };
                        self.expect(".")?;
                        E::SuperAcc(class, self.ident()?.0)
                    }
                    _ => return self.bad(t),
                }
            }
            K::P("-") => {
                self.i += 1;
                E::Neg(bx(self.climb(UNARY)?))
            }
            K::P("!") => {
                self.i += 1;
                E::Not(bx(self.climb(UNARY)?))
            }
            _ => return self.bad(t),
        };
        if !matches!(t.k, K::P("(")) || matches!(lhs, E::Unit) && self.i == at + 2 {
            self.done(&lhs, at);
        }
        loop {
            let t = self.peek()?;
            lhs = match t.k {
                K::P("?") if min <= PROP => {
                    self.i += 1;
                    E::NullProp(bx(lhs))
                }
                K::P("!!") if min <= PROP => {
                    self.i += 1;
                    E::ErrProp(bx(lhs))
                }
                K::P(".") if min <= CALL => {
                    self.i += 1;
                    let n = self.ident()?.0;
                    self.assignment(E::Field(bx(lhs), n), assign, at)?
                }
                K::P("[") if min <= CALL => {
                    self.i += 1;
                    let x = self.expr()?;
                    self.expect("]")?;
                    self.assignment(E::Index(bx(lhs), bx(x)), assign, at)?
                }
                K::P("(") if min <= CALL => {
                    self.i += 1;
                    E::Call(bx(lhs), self.exprs(")")?)
                }
                K::Bs if min <= CALL => {
                    self.i += 1;
                    self.leaf(t);
                    self.put("string", t.s, t.e);
                    E::Call(bx(lhs), vec![E::Str(self.src[t.s + 1..t.e - 1].to_string())])
                }
                K::P("is") if min <= CMP => E::Is(bx(lhs), self.ty("is")?),
                K::P("or") if min <= COALESCE => {
                    self.i += 1;
                    let n = self.ident()?.0;
                    E::OrErr(bx(lhs), n, self.block()?)
                }
                K::P("|") if min <= OR => {
                    self.i += 1;
                    self.expect("|")?;
                    E::Bin("||", bx(lhs), bx(self.climb(OR + 1)?))
                }
                K::P(x) => match BINOPS.iter().find(|o| **o == x) {
                    Some(op) if min <= bin_prec(op) => {
                        self.i += 1;
                        E::Bin(op, bx(lhs), bx(self.climb(bin_prec(op) + 1)?))
                    }
                    Some(_) => return Ok(lhs),
                    None if RULELESS.contains(&x) => return self.bad(t),
                    None => return Ok(lhs),
                },
                K::Reserved | K::Bad => return self.bad(t),
                _ => return Ok(lhs),
            };
            self.done(&lhs, at);
            if let E::Bin(..) = lhs {
                self.nodes.last_mut().unwrap().e2 = t.e;
            }
        }
    }
    fn assignment(&mut self, lhs: E, ok: bool, at: usize) -> R<E> {
        let t = self.peek()?;
        if let (true, K::P(x)) = (ok, t.k) {
            if let Some(op) = ASSIGNOPS.iter().find(|o| **o == x) {
                self.done(&lhs, at);
                self.i += 1;
                return Ok(E::Asg(op, bx(lhs), bx(self.expr()?)));
            }
        }
        Ok(lhs)
    }
    fn exprs(&mut self, close: &str) -> R<Vec<E>> {
        let mut v = vec![];
        while !self.is(close)? {
            v.push(self.expr()?);
            if self.is(",")? {
                self.i += 1;
            } else if !self.is(close)? {
                return self.bad(self.raw());
            }
        }
        self.i += 1;
        Ok(v)
    }
    fn if_(&mut self) -> R<E> {
        self.expect("if")?;
        let c = self.expr()?;
        let a = self.block()?;
        let b = if self.is("else")? {
            self.i += 1;
            let t = self.peek()?;
            let at = self.i;
            let e = match t.k {
                K::P("if") => self.if_()?,
                K::P("{") => E::Block(self.block()?),
                _ => return self.bad(t),
            };
            self.done(&e, at);
            Some(bx(e))
        } else {
            None
        };
        Ok(E::If(bx(c), a, b))
    }
    fn object(&mut self) -> R<E> {
        self.expect("#")?;
        self.expect("{")?;
        let mut v = vec![];
        while !self.is("}")? {
            let t = self.peek()?;
            let k = match t.k {
                K::Str => self.string()?,
                K::Int | K::Ident => {
                    self.i += 1;
                    self.text(t)
                }
                _ => return self.bad(t),
            };
            self.expect(":")?;
            v.push((k, self.expr()?));
            if self.is(",")? {
                self.i += 1;
            } else if !self.is("}")? {
                return self.bad(self.raw());
            }
        }
        self.i += 1;
        Ok(E::Obj(v))
    }
}
