//! Turns any tree into a nearby program that breaks no static rule.
use crate::ast::*;
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq)]
enum St {
    Var(bool),
    Pending,
    Done,
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Script,
    Module,
    Function,
    Method,
    Ctor,
}
struct Scope {
    vars: Vec<(String, St)>,
    is_loop: bool,
}
struct Cx {
    kind: Kind,
    scopes: Vec<Scope>,
    ret: Option<String>,
}
struct Fix {
    cx: Vec<Cx>,
    n: u32,
}

pub fn repair(prog: &mut Vec<E>, module: bool) {
    let mut f = Fix { cx: vec![], n: 0 };
    f.cx.push(Cx { kind: if module { Kind::Module } else { Kind::Script }, scopes: vec![], ret: None });
    f.block(prog);
}

impl Fix {
    fn fresh(&mut self) -> String {
        self.n += 1;
        format!("z{}", self.n)
    }
    fn top(&mut self) -> &mut Cx {
        self.cx.last_mut().unwrap()
    }
    fn push(&mut self, is_loop: bool) {
        self.top().scopes.push(Scope { vars: vec![], is_loop });
    }
    fn pop(&mut self) {
        self.top().scopes.pop();
    }
    fn add(&mut self, n: &str, s: St) {
        self.top().scopes.last_mut().unwrap().vars.push((n.to_string(), s));
    }
    fn lookup(&mut self, n: &str) -> Option<(St, bool)> {
        let last = self.cx.len() - 1;
        for d in (0..=last).rev() {
            for s in self.cx[d].scopes.iter().rev() {
                for (m, st) in s.vars.iter().rev() {
                    if m == n {
                        return Some((*st, d == last));
                    }
                }
            }
        }
        None
    }
    fn bad_use(&mut self, n: &str) -> bool {
        matches!(self.lookup(n), Some((St::Pending, true)))
    }
    fn name(&mut self, n: &mut String) {
        if self.bad_use(n) {
            *n = self.fresh();
        }
    }
    fn ty(&mut self, t: &mut Option<Ty>) {
        if let Some(t) = t {
            self.name(&mut t.name)
        }
    }
    fn hoist(&mut self, b: &mut [E]) {
        let mut seen = BTreeSet::new();
        for e in b {
            let mut e = e;
            while let E::Export(x) = e {
                e = x;
            }
            let name = match e {
                E::Fn(d) => &mut d.name,
                E::Class(d) => &mut d.name,
                _ => continue,
            };
            if !seen.insert(name.clone()) {
                self.n += 1;
                *name = format!("z{}", self.n);
                seen.insert(name.clone());
            }
            let name = name.clone();
            self.add(&name, St::Pending);
        }
    }
    fn pending(&mut self, n: &str) -> bool {
        self.top().scopes.last().unwrap().vars.iter().any(|v| v.0 == n && v.1 == St::Pending)
    }
    /// A name being declared here must not take the place of a function or class that is still to come.
    fn declare(&mut self, n: &mut String, s: St) {
        if self.pending(n) {
            *n = self.fresh();
        }
        self.add(n, s);
    }
    fn done(&mut self, n: &str) {
        for s in self.top().scopes.iter_mut().rev() {
            if let Some(v) = s.vars.iter_mut().rev().find(|v| v.0 == n) {
                v.1 = St::Done;
                return;
            }
        }
    }
    fn block(&mut self, b: &mut Vec<E>) {
        self.push(false);
        self.hoist(b);
        b.iter_mut().for_each(|e| self.expr(e));
        self.pop();
    }
    fn func(&mut self, kind: Kind, params: &mut [Param], ret: &mut Option<Ty>, body: &mut Vec<E>, derived: bool) {
        let mut seen = BTreeSet::new();
        for p in params.iter_mut() {
            if !seen.insert(p.name.clone()) {
                p.name = self.fresh();
            }
        }
        if kind == Kind::Ctor {
            *ret = None;
            if derived && !matches!(body.first(), Some(E::SuperCall(_))) {
                body.insert(0, E::SuperCall(vec![]));
            }
        }
        // The result type is looked up wherever the function is left, so its name must be usable everywhere.
        if let Some(t) = ret {
            if self.bad_use(&t.name) || t.name.starts_with('z') {
                t.name = "Any".into();
            }
        }
        self.cx.push(Cx { kind, scopes: vec![], ret: ret.as_ref().map(|t| t.name.clone()) });
        self.push(false);
        for p in params.iter_mut() {
            self.add(&p.name.clone(), St::Var(false));
            self.ty(&mut p.ty);
        }
        self.hoist(body);
        body.iter_mut().for_each(|e| self.expr(e));
        let r = self.top().ret.clone();
        let bad = r.map_or(false, |r| self.bad_use(&r));
        self.cx.pop();
        if bad {
            *ret = None;
        }
    }
    fn in_fn(&mut self) -> bool {
        matches!(self.top().kind, Kind::Function | Kind::Method)
    }
    fn in_method(&mut self) -> bool {
        matches!(self.top().kind, Kind::Ctor | Kind::Method)
    }
    fn expr(&mut self, e: &mut E) {
        let in_loop = self.top().scopes.iter().any(|s| s.is_loop);
        let top = self.cx.len() == 1 && self.cx[0].scopes.len() == 1;
        // What may not stand here.
        let ret_bad = self.top().ret.clone().map_or(false, |r| self.bad_use(&r));
        match e {
            E::Break | E::Continue if !in_loop => *e = E::Unit,
            E::Ret(x) => match self.top().kind {
                Kind::Script | Kind::Module => {
                    *e = match x.take() {
                        Some(x) => *x,
                        None => E::Unit,
                    };
                    return self.expr(e);
                }
                Kind::Ctor => *x = None,
                _ if ret_bad => {
                    *e = E::Unit;
                }
                _ => {}
            },
            E::ErrProp(x) if !self.in_fn() || ret_bad => {
                *e = (**x).clone();
                return self.expr(e);
            }
            E::SuperCall(v) if !self.in_method() => {
                *e = E::List(std::mem::take(v));
                return self.expr(e);
            }
            E::SuperAcc(_, n) if !self.in_method() => *e = field(id("super_"), &n.clone()),
            E::Export(x) if !(top && self.cx[0].kind == Kind::Module) => {
                *e = (**x).clone();
                return self.expr(e);
            }
            _ => {}
        }
        match e {
            E::Null | E::Unit | E::Bool(_) | E::Int(_) | E::Float(_) | E::Str(_) | E::Break | E::Continue => {}
            E::Id(n) => self.name(n),
            E::List(v) | E::SuperCall(v) => v.iter_mut().for_each(|x| self.expr(x)),
            E::Obj(v) => v.iter_mut().for_each(|(_, x)| self.expr(x)),
            E::Field(x, _) | E::Neg(x) | E::Not(x) | E::NullProp(x) | E::ErrProp(x) => self.expr(x),
            E::Lam(p, b) => {
                let mut body = match std::mem::replace(&mut **b, E::Null) {
                    E::Block(v) => v,
                    x => vec![x],
                };
                self.func(Kind::Function, p, &mut None, &mut body, false);
                **b = E::Block(body);
            }
            E::SuperAcc(c, _) => {
                if let Some(c) = c {
                    self.name(c)
                }
            }
            E::Index(a, b) | E::Bin(_, a, b) => {
                self.expr(a);
                self.expr(b)
            }
            E::Is(x, t) => {
                self.expr(x);
                self.name(&mut t.name)
            }
            E::Asg(_, t, r) => {
                let bad = match &**t {
                    E::Id(n) => !matches!(self.lookup(n), Some((St::Var(true), _))),
                    _ => false,
                };
                if bad {
                    // Assign to a field of it, or to some variable that may change.
                    let ok: Vec<String> = self
                        .cx
                        .iter()
                        .flat_map(|c| c.scopes.iter().flat_map(|s| s.vars.iter()))
                        .filter(|v| v.1 == St::Var(true))
                        .map(|v| v.0.clone())
                        .collect();
                    let ok: Vec<String> =
                        ok.into_iter().filter(|n| n != "super" && matches!(self.lookup(n), Some((St::Var(true), _)))).collect();
                    **t = match ok.last() {
                        Some(n) => id(n),
                        None => field((**t).clone(), "q"),
                    };
                }
                match &mut **t {
                    E::Id(_) => {}
                    E::Field(x, _) => self.expr(x),
                    E::Index(a, i) => {
                        self.expr(a);
                        self.expr(i)
                    }
                    _ => {}
                }
                self.expr(r)
            }
            E::If(c, t, el) => {
                self.expr(c);
                self.block(t);
                if let Some(x) = el {
                    self.expr(x)
                }
            }
            E::Block(b) => self.block(b),
            E::OrErr(x, n, b) => {
                self.push(false);
                self.expr(x);
                if self.bad_use("Result") {
                    *e = E::Unit;
                    self.pop();
                    return;
                }
                self.push(false);
                self.add(n, St::Var(false));
                self.block(b);
                self.pop();
                self.pop();
            }
            E::Call(t, v) => {
                self.expr(t);
                v.iter_mut().for_each(|x| self.expr(x))
            }
            E::Let(p, m, x) => {
                self.expr(x);
                match p {
                    Pat::One(n) => self.declare(n, St::Var(*m)),
                    Pat::Many(v) => v.iter_mut().for_each(|n| self.declare(n, St::Var(*m))),
                }
            }
            E::Fn(d) => {
                self.func(Kind::Function, &mut d.params, &mut d.ret, &mut d.body, false);
                self.done(&d.name);
            }
            E::Op(d) => self.func(Kind::Function, &mut d.params, &mut d.ret, &mut d.body, false),
            E::Class(d) => self.class(d),
            E::Import(m, names, _) => {
                names.iter_mut().chain(m).for_each(|n| self.declare(n, St::Var(false)));
            }
            E::Export(x) => self.expr(x),
            E::Loop(b) => {
                self.push(true);
                self.block(b);
                self.pop()
            }
            E::While(c, b) => {
                self.push(true);
                self.expr(c);
                self.block(b);
                self.pop()
            }
            E::For(n, src, b) => {
                self.expr(src);
                self.push(true);
                self.add(n, St::Var(false));
                self.block(b);
                self.pop()
            }
            E::Ret(x) => {
                if let Some(x) = x {
                    self.expr(x)
                }
            }
        }
    }
    fn class(&mut self, d: &mut ClassD) {
        self.push(false);
        if d.base.is_none() && self.bad_use("Any") {
            d.base = Some(bx(id("Base")));
        }
        if let Some(b) = &mut d.base {
            self.expr(b)
        }
        self.add("super", St::Var(true));
        self.done(&d.name);
        let derived = d.base.is_some();
        for i in &mut d.items {
            match i {
                Item::Fn(m) => {
                    let recv = m.params.first().map_or(false, |p| p.name == "self");
                    if recv {
                        m.params[0].ty = None;
                    }
                    if m.name == "new" && !recv {
                        m.params.retain(|p| p.name != "self");
                        m.params.insert(0, Param { name: "self".into(), ty: None });
                    }
                    let kind = match (recv || m.name == "new", m.name == "new") {
                        (true, true) => Kind::Ctor,
                        (true, false) => Kind::Method,
                        _ => Kind::Function,
                    };
                    self.func(kind, &mut m.params, &mut m.ret, &mut m.body, derived);
                }
                Item::Op(o) => {
                    o.params.retain(|p| p.name != "self");
                    o.params.truncate(1);
                    o.params.insert(0, Param { name: "self".into(), ty: None });
                    self.func(Kind::Method, &mut o.params, &mut o.ret, &mut o.body, false);
                }
            }
        }
        self.pop();
    }
}
