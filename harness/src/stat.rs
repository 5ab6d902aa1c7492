//! The static rules of the language: every rule a program breaks.
use crate::ast::*;
use crate::lex::{lex, Tok, K};
use crate::parse::{Node, Parsed};
use std::collections::{BTreeSet, HashMap};

/// A broken rule: its code, the first and last byte its report may begin at, and what the
/// report has to mention.
#[derive(Debug, Clone)]
pub struct Found {
    pub code: &'static str,
    pub lo: usize,
    pub hi: usize,
    pub says: String,
}
type At = (usize, usize);

/// Where everything in a program stands.
pub struct Places {
    node: HashMap<*const u8, At>,
    toks: Vec<Tok>,
}
/// What stands before the body of a function.
#[derive(Default, Clone)]
struct Header {
    start: usize,
    name: usize,
    /// Each parameter's name and type.
    params: Vec<(usize, usize)>,
    /// The arrow and the name after it.
    ret: At,
    end: usize,
}
fn ptr<T>(x: &T) -> *const u8 {
    x as *const T as *const u8
}
impl Places {
    pub fn new(src: &str, p: &Parsed) -> Places {
        let mut it = p.nodes.iter().filter(|n| n.kind != "body");
        let mut w = Places { node: HashMap::new(), toks: lex(src) };
        p.items.iter().for_each(|e| w.walk(e, &mut it));
        assert!(it.next().is_none(), "more nodes than expected");
        w
    }
    fn take<'b>(&mut self, at: *const u8, kind: &str, it: &mut dyn Iterator<Item = &'b Node>) {
        let n = it.next().expect("fewer nodes than expected");
        assert_eq!(n.kind, kind, "the nodes are in another order");
        // A declaration and its node begin at the same address or not, so both may be put here.
        self.node.insert(at, (n.s, n.e));
    }
    fn walk<'b>(&mut self, e: &E, it: &mut dyn Iterator<Item = &'b Node>) {
        if let E::Class(c) = e {
            if let Some(b) = &c.base {
                self.walk(b, it);
            }
            for i in &c.items {
                let (b, at, k) = match i {
                    Item::Fn(d) => (&d.body, ptr(d), "fn"),
                    Item::Op(d) => (&d.body, ptr(d), "op"),
                };
                b.iter().for_each(|x| self.walk(x, it));
                self.take(at, k, it);
            }
        } else {
            let mut v: Vec<&E> = vec![];
            e.each_child(&mut |x| v.push(x));
            v.into_iter().for_each(|x| self.walk(x, it));
        }
        self.take(ptr(e), e.kind(), it);
        match e {
            E::Fn(d) => drop(self.node.insert(ptr(d), self.node[&ptr(e)])),
            E::Op(d) => drop(self.node.insert(ptr(d), self.node[&ptr(e)])),
            _ => {}
        }
    }
    fn at<T>(&self, x: &T) -> At {
        self.node[&ptr(x)]
    }
    fn tok(&self, at: usize) -> usize {
        self.toks.partition_point(|t| t.s < at)
    }
    /// The start of the n-th token of something.
    fn nth(&self, at: usize, n: usize) -> usize {
        self.toks[self.tok(at) + n].s
    }
    fn is(&self, i: usize, x: &'static str) -> bool {
        matches!(self.toks[i].k, K::P(k) if k == x)
    }
    fn header(&self, start: usize) -> Header {
        let mut i = self.tok(start);
        let mut h = Header { start, ..Default::default() };
        if !self.is(i, "|") {
            h.name = self.toks[i + 1].s;
            i += 2;
        }
        i += 1;
        while let K::Ident = self.toks[i].k {
            let n = self.toks[i].s;
            i += 1;
            let mut t = 0;
            if self.is(i, ":") {
                t = self.toks[i + 1].s;
                i += 2;
                if self.is(i, "?") {
                    i += 1;
                }
            }
            h.params.push((n, t));
            if self.is(i, ",") {
                i += 1;
            }
        }
        h.end = self.toks[i].s;
        if self.is(i + 1, "->") {
            h.ret = (self.toks[i + 1].s, self.toks[i + 2].s);
        }
        h
    }
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Var { mutable: bool },
    Fn { init: bool },
    Class { init: bool },
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Script,
    Module,
    Function,
    Method,
    Ctor,
}
struct Scope {
    vars: Vec<(String, St)>,
    is_loop: bool,
}
struct Ctx {
    kind: Kind,
    scopes: Vec<Scope>,
    ret: Option<(Ty, usize)>,
}
pub struct Check<'a> {
    places: Option<&'a Places>,
    pub found: Vec<Found>,
    ctx: Vec<Ctx>,
    pub codes: BTreeSet<&'static str>,
    /// Names that were read and found in no scope, so that they must be global.
    pub globals: BTreeSet<String>,
    /// A `super` stands where `self` names a declaration still to come: whether that is an
    /// early use of it (E2402) or still means the receiver is nowhere said.
    pub hidden_self: bool,
}

/// Every rule the program breaks.
pub fn check(prog: &[E], module: bool) -> Check<'static> {
    check_at(prog, module, None)
}
/// With places, every broken rule is found where it is broken.
pub fn check_at<'a>(prog: &[E], module: bool, places: Option<&'a Places>) -> Check<'a> {
    let mut c = Check { places, found: vec![], ctx: vec![], codes: BTreeSet::new(), globals: BTreeSet::new(), hidden_self: false };
    let kind = if module { Kind::Module } else { Kind::Script };
    c.ctx.push(Ctx { kind, scopes: vec![], ret: None });
    c.block(prog);
    c
}

impl<'a> Check<'a> {
    fn bad(&mut self, code: &'static str, at: usize) {
        self.bad_in(code, (at, at), String::new());
    }
    fn bad_in(&mut self, code: &'static str, (lo, hi): At, says: String) {
        self.codes.insert(code);
        if self.places.is_some() {
            self.found.push(Found { code, lo, hi, says });
        }
    }
    fn bad_name(&mut self, code: &'static str, at: usize, name: &str) {
        self.bad_in(code, (at, at), format!("'{}'", name));
    }
    fn start<T>(&self, x: &T) -> usize {
        self.range(x).0
    }
    fn range<T>(&self, x: &T) -> At {
        self.places.map_or((0, 0), |p| p.at(x))
    }
    fn nth(&self, at: usize, n: usize) -> usize {
        self.places.map_or(0, |p| p.nth(at, n))
    }
    fn top(&mut self) -> &mut Ctx {
        self.ctx.last_mut().unwrap()
    }
    fn push(&mut self, is_loop: bool) {
        self.top().scopes.push(Scope { vars: vec![], is_loop });
    }
    fn pop(&mut self) {
        self.top().scopes.pop();
    }
    fn add(&mut self, n: &str, s: St) {
        self.top().scopes.last_mut().unwrap().vars.push((n.to_string(), s));
    }
    fn find(&mut self, depth: usize, n: &str) -> Option<&mut St> {
        let c = &mut self.ctx[depth];
        for s in c.scopes.iter_mut().rev() {
            for (m, st) in s.vars.iter_mut().rev() {
                if m == n {
                    return Some(st);
                }
            }
        }
        None
    }
    /// The variable a name refers to, and whether it belongs to the current function.
    fn lookup(&mut self, n: &str) -> Option<(St, bool)> {
        let last = self.ctx.len() - 1;
        for d in (0..=last).rev() {
            if let Some(s) = self.find(d, n) {
                return Some((*s, d == last));
            }
        }
        None
    }
    fn used(&mut self, n: &str, at: At) {
        match self.lookup(n) {
            Some((St::Fn { init: false }, true)) | Some((St::Class { init: false }, true)) => {
                self.bad_in("E2402", at, format!("'{}'", n))
            }
            Some(_) => {}
            None => {
                self.globals.insert(n.to_string());
            }
        }
    }
    fn receiver(&mut self) {
        if let Some((St::Fn { init: false }, true)) | Some((St::Class { init: false }, true)) = self.lookup("self") {
            self.hidden_self = true;
        }
    }
    fn hoist(&mut self, b: &[E]) {
        for e in b {
            let mut e = e;
            while let E::Export(x) = e {
                e = x;
            }
            match e {
                E::Fn(d) => self.add(&d.name, St::Fn { init: false }),
                E::Class(d) => self.add(&d.name, St::Class { init: false }),
                _ => {}
            }
        }
    }
    fn block(&mut self, b: &[E]) {
        self.push(false);
        self.hoist(b);
        b.iter().for_each(|e| self.expr(e));
        self.pop();
    }
    fn exprs(&mut self, b: &[E]) {
        b.iter().for_each(|e| self.expr(e));
    }
    fn func(&mut self, kind: Kind, at: At, params: &[Param], ret: &Option<Ty>, body: &[E], derived: bool, unique: bool) {
        let h = self.places.map(|p| p.header(at.0)).unwrap_or_default();
        if unique {
            let s: BTreeSet<&str> = params.iter().map(|p| p.name.as_str()).collect();
            if s.len() < params.len() {
                self.bad("E2207", h.start);
            }
        }
        if kind == Kind::Ctor {
            if ret.is_some() {
                self.bad("E2200", h.ret.0);
            }
            if derived && !matches!(body.first(), Some(E::SuperCall(_))) {
                self.bad_in("E2203", (h.end, at.1), String::new());
            }
        }
        let ret = if kind == Kind::Ctor { None } else { ret.clone().map(|t| (t, h.ret.1)) };
        self.ctx.push(Ctx { kind, scopes: vec![], ret });
        self.push(false);
        for (i, p) in params.iter().enumerate() {
            self.add(&p.name, St::Var { mutable: false });
            if let Some(t) = &p.ty {
                let at = h.params.get(i).map_or(0, |x| x.1);
                self.used(&t.name, (at, at));
            }
        }
        self.hoist(body);
        self.exprs(body);
        self.leave();
        self.ctx.pop();
    }
    fn leave(&mut self) {
        if let Some((t, at)) = self.top().ret.clone() {
            self.used(&t.name, (at, at));
        }
    }
    fn in_loop(&mut self) -> bool {
        self.top().scopes.iter().any(|s| s.is_loop)
    }
    fn is_fn(&mut self) -> bool {
        matches!(self.top().kind, Kind::Function | Kind::Method)
    }
    fn has_super(&mut self) -> bool {
        matches!(self.top().kind, Kind::Method | Kind::Ctor)
    }
    fn expr(&mut self, e: &E) {
        let at = self.range(e);
        match e {
            E::Null | E::Unit | E::Bool(_) | E::Int(_) | E::Float(_) | E::Str(_) => {}
            E::Id(n) => self.used(n, (at.0, at.0)),
            E::List(v) => self.exprs(v),
            E::Obj(v) => v.iter().for_each(|(_, x)| self.expr(x)),
            E::Field(x, _) | E::Neg(x) | E::Not(x) | E::NullProp(x) => self.expr(x),
            E::Lam(p, b) => match &**b {
                E::Block(v) => self.func(Kind::Function, at, p, &None, v, false, false),
                x => self.func(Kind::Function, at, p, &None, std::slice::from_ref(x), false, false),
            },
            E::SuperAcc(c, _) => {
                if !self.has_super() {
                    self.bad("E2205", at.0);
                }
                if let Some(c) = c {
                    self.used(c, (at.0, at.1))
                }
                self.receiver();
            }
            E::SuperCall(v) => {
                if !self.has_super() {
                    self.bad("E2205", at.0);
                }
                self.receiver();
                self.exprs(v)
            }
            E::Index(a, b) | E::Bin(_, a, b) => {
                self.expr(a);
                self.expr(b)
            }
            E::Is(x, t) => {
                self.expr(x);
                self.used(&t.name, at)
            }
            E::ErrProp(x) => {
                if !self.is_fn() {
                    self.bad("E2503", at.0);
                }
                self.expr(x);
                self.leave()
            }
            E::Asg(_, t, r) => {
                match &**t {
                    E::Id(n) => match self.lookup(n) {
                        None => self.bad_name("E2401", at.0, n),
                        Some((St::Var { mutable: true }, _)) => {}
                        Some(_) => self.bad_name("E2403", at.0, n),
                    },
                    E::Field(x, _) => self.expr(x),
                    E::Index(a, i) => {
                        self.expr(a);
                        self.expr(i)
                    }
                    _ => self.bad("E2400", at.0),
                }
                self.expr(r)
            }
            E::If(c, t, el) => {
                self.expr(c);
                self.block(t);
                if let Some(x) = el {
                    self.expr(x)
                }
            }
            E::Block(b) => self.block(b),
            E::OrErr(x, n, b) => {
                self.push(false);
                self.expr(x);
                self.used("Result", at);
                self.push(false);
                self.add(n, St::Var { mutable: false });
                self.block(b);
                self.pop();
                self.pop();
            }
            E::Call(t, v) => {
                self.expr(t);
                self.exprs(v)
            }
            E::Let(p, m, x) => {
                self.expr(x);
                match p {
                    Pat::One(n) => self.add(n, St::Var { mutable: *m }),
                    Pat::Many(v) => v.iter().for_each(|n| self.add(n, St::Var { mutable: *m })),
                }
            }
            E::Fn(d) => {
                self.func(Kind::Function, at, &d.params, &d.ret, &d.body, false, true);
                let last = self.ctx.len() - 1;
                match self.find(last, &d.name) {
                    Some(St::Fn { init }) if !*init => *init = true,
                    _ => {
                        let name = self.nth(at.0, 1);
                        self.bad_name("E2301", name, &d.name)
                    }
                }
            }
            E::Op(d) => self.func(Kind::Function, at, &d.params, &d.ret, &d.body, false, true),
            E::Class(d) => self.class(d, at),
            E::Import(m, names, _) => {
                names.iter().chain(m).for_each(|n| self.add(n, St::Var { mutable: false }));
            }
            E::Export(x) => {
                let (kind, depth) = (self.top().kind, self.top().scopes.len());
                let says = match kind {
                    Kind::Module => "in the top level scope of a module",
                    Kind::Script => "inside modules. Export used in the context of: script",
                    _ => "inside modules. Export used in the context of: function",
                };
                if kind != Kind::Module || depth > 1 {
                    self.bad_in("E2504", (at.0, at.0), says.into());
                }
                self.expr(x)
            }
            E::Loop(b) => {
                self.push(true);
                self.block(b);
                self.pop()
            }
            E::While(c, b) => {
                self.push(true);
                self.expr(c);
                self.block(b);
                self.pop()
            }
            E::For(n, src, b) => {
                self.expr(src);
                self.push(true);
                self.add(n, St::Var { mutable: false });
                self.block(b);
                self.pop()
            }
            E::Break => {
                if !self.in_loop() {
                    self.bad("E2501", at.0)
                }
            }
            E::Continue => {
                if !self.in_loop() {
                    self.bad("E2502", at.0)
                }
            }
            E::Ret(x) => {
                match self.top().kind {
                    Kind::Script | Kind::Module => self.bad("E2500", at.0),
                    Kind::Ctor if x.is_some() => self.bad("E2204", at.0),
                    _ => {}
                }
                if let Some(x) = x {
                    self.expr(x)
                }
                self.leave()
            }
        }
    }
    fn class(&mut self, d: &ClassD, at: At) {
        self.push(false);
        match &d.base {
            Some(b) => self.expr(b),
            None => self.used("Any", at),
        }
        self.add("super", St::Var { mutable: true });
        let last = self.ctx.len() - 1;
        match self.find(last, &d.name) {
            Some(St::Class { init }) if !*init => *init = true,
            _ => {
                let name = self.nth(at.0, 1);
                self.bad_name("E2300", name, &d.name)
            }
        }
        for i in &d.items {
            match i {
                Item::Fn(m) => {
                    let at = self.range(m);
                    let h = self.places.map(|p| p.header(at.0)).unwrap_or_default();
                    let receiver = h.params.first().map_or(0, |x| x.0);
                    let first = m.params.first().filter(|p| p.name == "self");
                    let kind = match first {
                        Some(p) => {
                            if p.ty.is_some() {
                                self.bad("E2206", receiver);
                            }
                            if m.name == "new" {
                                Kind::Ctor
                            } else {
                                Kind::Method
                            }
                        }
                        None => {
                            if m.name == "new" {
                                self.bad("E2201", h.name);
                            }
                            Kind::Function
                        }
                    };
                    self.func(kind, at, &m.params, &m.ret, &m.body, d.base.is_some(), true);
                }
                Item::Op(o) => {
                    let at = self.range(o);
                    let h = self.places.map(|p| p.header(at.0)).unwrap_or_default();
                    let receiver = h.params.first().map_or(0, |x| x.0);
                    match o.params.first().filter(|p| p.name == "self") {
                        Some(p) if p.ty.is_some() => self.bad("E2206", receiver),
                        Some(_) => {}
                        None => self.bad("E2202", at.0),
                    }
                    self.func(Kind::Method, at, &o.params, &o.ret, &o.body, false, true);
                }
            }
        }
        self.pop();
    }
}
