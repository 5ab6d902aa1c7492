//! Generates programs that mean something: typed enough to run, with side effects everywhere.
use crate::ast::*;
use crate::exec::Prog;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[path = "gen_modules.rs"]
pub mod modules;
#[path = "gen_crowd.rs"]
mod crowd;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T {
    Int,
    Bool,
    Float,
    Str,
    /// An integer or null.
    NInt,
    /// An array of integers.
    Arr,
    /// An array of functions without parameters.
    FArr,
    /// A function of so many integers to an integer.
    Fun(u8),
    /// An object with the fields a, b: Int, n: NInt, o: NObj.
    Obj,
    NObj,
    Res,
    Inst(usize),
    /// Something a for loop can go over, giving integers.
    Iter,
    /// Something that is only looked at.
    Opaque,
}

/// How often the generator picks each feature.
#[derive(Clone, Debug)]
pub struct Profile {
    pub size: i32,
    pub depth: u32,
    pub trace: u32,
    pub ctl: u32,
    pub closures: u32,
    pub scopes: u32,
    pub loops: u32,
    pub classes: u32,
    pub nulls: u32,
    pub results: u32,
    pub types: u32,
    pub ops: u32,
    pub floats: u32,
    pub assign: u32,
    pub wrong: u32,
    pub exprs: u32,
    pub fns: u32,
    pub prelude: bool,
}
impl Profile {
    pub fn base() -> Profile {
        Profile {
            size: 60,
            depth: 4,
            trace: 25,
            ctl: 4,
            closures: 4,
            scopes: 6,
            loops: 5,
            classes: 1,
            nulls: 4,
            results: 2,
            types: 10,
            ops: 1,
            floats: 3,
            assign: 8,
            wrong: 1,
            exprs: 8,
            fns: 3,
            prelude: true,
        }
    }
}

struct Var {
    name: String,
    ty: T,
    mutable: bool,
    ready: bool,
    /// Callable functions say how deep they may be used; others ignore it.
    cost: u32,
}
struct Scope {
    vars: Vec<Var>,
    is_loop: bool,
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Top,
    Fn,
    Method,
    Ctor,
}
struct Cx {
    scopes: Vec<Scope>,
    kind: Kind,
    ret: T,
    class: usize,
    loops: u32,
}
#[derive(Clone)]
pub struct Klass {
    pub name: String,
    pub base: Option<usize>,
    pub args: usize,
    pub has_new: bool,
    /// Methods with their number of parameters besides self, inherited ones included.
    pub methods: Vec<(String, usize)>,
    pub statics: Vec<(String, usize)>,
    pub ops: Vec<&'static str>,
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    cx: Vec<Cx>,
    pub classes: Vec<Klass>,
    p: Profile,
    left: i32,
    uniq: u32,
    global_ops: BTreeSet<&'static str>,
}

const NAMES: &[&str] = &["a", "b", "c", "d", "e", "f", "g", "h"];

/// A whole script.
pub fn script(r: &mut Rng, p: Profile) -> Prog {
    let prelude = p.prelude;
    let mut g = Gen::new(r, p);
    let main = g.program();
    Prog { module: false, main, modules: BTreeMap::new(), prelude }
}

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, p: Profile) -> Gen<'r> {
        let left = p.size;
        Gen { r, cx: vec![], classes: vec![], p, left, uniq: 0, global_ops: BTreeSet::new() }
    }
    pub fn program(&mut self) -> Vec<E> {
        self.cx.push(Cx { scopes: vec![], kind: Kind::Top, ret: T::Int, class: 0, loops: 0 });
        let n = 4 + self.r.below(9);
        let b = self.block(n, None);
        self.cx.pop();
        b
    }
    /// A few variables to start with, so that later expressions have something to read.
    fn seed_vars(&mut self, out: &mut Vec<E>) {
        for (t, p) in [(T::Int, 90), (T::Int, 60), (T::Bool, 40), (T::Obj, 50), (T::Arr, 40), (T::NInt, 30), (T::Fun(1), 30), (T::NObj, 20)] {
            if self.pct(p) {
                let left = std::mem::replace(&mut self.left, 4);
                let e = self.expr(t, 1);
                self.left = left - 1;
                let n = self.name();
                let m = self.pct(60);
                self.declare(&n, t, m);
                out.push(E::Let(Pat::One(n), m, bx(e)));
            }
        }
    }
    /// Shows the value of some variable.
    fn look(&mut self, out: &mut Vec<E>) {
        if let Some((n, t)) = self.var(|v| !matches!(v.ty, T::Fun(_))) {
            if matches!(t, T::Inst(usize::MAX)) && self.cx.last().unwrap().kind == Kind::Ctor {
                return;
            }
            out.push(call("t", vec![id(&n)]));
        }
    }
    /// How many parameters a function has: few, now and then many.
    fn arity(&mut self) -> usize {
        match self.r.below(40) {
            0 => self.r.range(3, 6),
            1 => self.r.range(3, 14),
            _ => self.r.below(3),
        }
    }
    /// Arguments, which get simpler as they get more.
    fn args(&mut self, k: usize, d: u32) -> Vec<E> {
        let d = if k > 3 { d.min(1) } else { d };
        (0..k).map(|_| self.expr(T::Int, d)).collect()
    }
    fn pct(&mut self, p: u32) -> bool {
        self.r.pct(p as usize)
    }
    fn top(&mut self) -> &mut Cx {
        self.cx.last_mut().unwrap()
    }
    fn fresh(&mut self, s: &str) -> String {
        self.uniq += 1;
        format!("{}{}", s, self.uniq)
    }
    /// A name for a new variable of the current scope.
    fn name(&mut self) -> String {
        for _ in 0..10 {
            let n = self.r.pick(NAMES).to_string();
            let s = self.cx.last().unwrap().scopes.last().unwrap();
            if !s.vars.iter().any(|v| v.name == n && !v.ready) {
                return n;
            }
        }
        self.fresh("v")
    }
    fn declare(&mut self, name: &str, ty: T, mutable: bool) {
        let v = Var { name: name.into(), ty, mutable, ready: true, cost: 0 };
        self.top().scopes.last_mut().unwrap().vars.push(v);
    }
    fn push(&mut self, is_loop: bool) {
        self.top().scopes.push(Scope { vars: vec![], is_loop });
    }
    fn pop(&mut self) {
        self.top().scopes.pop();
    }
    /// The visible variables that satisfy a condition.
    fn vars(&self, want: impl Fn(&Var) -> bool) -> Vec<(String, T)> {
        let mut seen = BTreeSet::new();
        let mut out = vec![];
        for c in self.cx.iter().rev() {
            for s in c.scopes.iter().rev() {
                for v in s.vars.iter().rev() {
                    if seen.insert(v.name.as_str()) && v.ready && want(v) {
                        out.push((v.name.clone(), v.ty));
                    }
                }
            }
        }
        out
    }
    fn var(&mut self, want: impl Fn(&Var) -> bool) -> Option<(String, T)> {
        let v = self.vars(want);
        if v.is_empty() {
            None
        } else {
            let i = self.r.below(v.len());
            Some(v[i].clone())
        }
    }
    fn of(&mut self, t: T) -> Option<String> {
        self.var(|v| v.ty == t).map(|v| v.0)
    }
    fn in_loop(&self) -> bool {
        self.cx.last().unwrap().scopes.iter().any(|s| s.is_loop)
    }

    // ---- blocks and statements ----

    /// A block of about `n` statements; with a type, its last expression has that type.
    pub fn block(&mut self, n: usize, value: Option<T>) -> Vec<E> {
        self.push(false);
        let b = self.body(n, value);
        self.pop();
        b
    }
    /// The statements of a block whose scope is already there.
    fn body(&mut self, n: usize, value: Option<T>) -> Vec<E> {
        // Functions and classes are known from the start of the block.
        let mut plans: Vec<Plan> = vec![];
        let mut taken: Vec<String> = vec![];
        let deep = self.cx.len() > 3;
        if n > 0 && !deep {
            for _ in 0..2 {
                let pc = self.p.fns * 3;
                if self.left > 15 && self.pct(pc) {
                    let name = self.r.pick(NAMES).to_string();
                    if !taken.contains(&name) && !self.top().scopes.last().unwrap().vars.iter().any(|v| v.name == name) {
                        taken.push(name.clone());
                        let k = self.arity() as u8;
                        self.hoist(&name, T::Fun(k));
                        plans.push(Plan::Fn(name, k));
                    }
                }
            }
            let pc = self.p.classes * 10;
            let pc = if self.cx.len() > 1 { pc / 5 } else { pc };
            if self.left > 15 && self.pct(pc) && self.cx.len() < 3 {
                let k = 1 + (self.p.classes > 3) as usize * self.r.below(4);
                for _ in 0..k {
                    let name = self.fresh("C");
                    self.hoist(&name, T::Fun(200));
                    plans.push(Plan::Class(name));
                }
            }
        }
        let mut out = vec![];
        plans.reverse();
        if self.cx.len() == 1 && self.cx[0].scopes.len() == 1 && self.uniq == 0 {
            self.uniq = 1;
            self.seed_vars(&mut out);
        }
        for i in 0..n {
            while !plans.is_empty() && (self.pct(60) || i + 1 == n) {
                let p = plans.pop().unwrap();
                self.planned(p, &mut out);
            }
            if self.left <= 0 {
                break;
            }
            // No statement may use up what the others need.
            let share = (2 * self.left / (n - i) as i32).clamp(6, self.left.max(6));
            let rest = self.left - share;
            self.left = share;
            self.stmt(&mut out);
            self.left += rest;
            if self.pct(30) {
                self.look(&mut out);
            }
        }
        while let Some(p) = plans.pop() {
            self.planned(p, &mut out);
        }
        if let Some(t) = value {
            let e = self.expr(t, self.p.depth.saturating_sub(1));
            out.push(e);
        }
        out
    }
    fn hoist(&mut self, name: &str, ty: T) {
        let v = Var { name: name.into(), ty, mutable: false, ready: false, cost: 0 };
        self.top().scopes.last_mut().unwrap().vars.push(v);
    }
    fn ready(&mut self, name: &str) {
        let s = self.top().scopes.last_mut().unwrap();
        if let Some(v) = s.vars.iter_mut().rev().find(|v| v.name == name) {
            v.ready = true;
        }
    }
    fn planned(&mut self, p: Plan, out: &mut Vec<E>) {
        match p {
            Plan::Fn(name, k) => {
                let cap = self.r.range(8, 40) as i32;
                let d = self.capped(cap, |g| g.func(&name, k));
                self.ready(&name);
                out.push(E::Fn(d));
                // Unless it was redeclared meanwhile, call it.
                if self.pct(65) {
                    let args = (0..k).map(|_| self.capped(6, |g| g.expr(T::Int, if k > 3 { 1 } else { 2 }))).collect();
                    out.push(call("t", vec![call(&name, args)]));
                }
            }
            Plan::Class(name) => {
                let d = self.class(&name);
                self.ready(&name);
                out.push(E::Class(d));
                let i = self.classes.iter().position(|k| k.name == name).unwrap();
                let n = self.r.below(4);
                for _ in 0..n {
                    if self.pct(30) {
                        let e = self.capped(8, |g| g.instance(i, 3));
                        let n = self.name();
                        let m = self.pct(30);
                        self.declare(&n, T::Inst(i), m);
                        out.push(E::Let(Pat::One(n.clone()), m, bx(e)));
                        out.push(call("t", vec![id(&n)]));
                    } else {
                        let e = self.capped(12, |g| g.method_of(i, 3));
                        out.push(call("t", vec![e]));
                    }
                }
            }
        }
    }
    /// Makes something within a budget of its own.
    fn capped<X>(&mut self, n: i32, f: impl FnOnce(&mut Self) -> X) -> X {
        let rest = (self.left - n).max(0);
        self.left -= rest;
        let x = f(self);
        self.left += rest;
        x
    }
    pub fn func(&mut self, name: &str, k: u8) -> FnD {
        self.left -= 2;
        let mut params = vec![];
        self.cx.push(Cx { scopes: vec![], kind: Kind::Fn, ret: T::Int, class: 0, loops: 0 });
        self.push(false);
        for i in 0..k {
            let mut n = self.r.pick(NAMES).to_string();
            // Only a first parameter is a receiver.
            if i > 0 && self.pct(6) {
                n = "self".into();
            }
            if params.iter().any(|p: &Param| p.name == n) {
                n = self.fresh("p");
            }
            let ty = self.annotation(T::Int);
            params.push(Param { name: n.clone(), ty });
            self.declare(&n, T::Int, false);
        }
        let ret = self.annotation(T::Int);
        let n = 1 + self.r.below(3);
        let body = self.body(n, Some(T::Int));
        self.cx.pop();
        FnD { name: name.into(), params, ret, body }
    }
    fn annotation(&mut self, t: T) -> Option<Ty> {
        let pc = self.p.types;
        if !self.pct(pc) {
            return None;
        }
        let wrong = self.p.wrong;
        if self.pct(wrong) {
            let n = *self.r.pick(&["Bool", "String", "Int", "Float", "Array", "Null", "Function"]);
            return Some(Ty { name: n.into(), null: self.pct(30) });
        }
        let name = match t {
            T::Int | T::NInt => "Int",
            T::Bool => "Bool",
            T::Float => "Float",
            T::Str => "String",
            T::Arr | T::FArr => "Array",
            T::Fun(_) => "Function",
            T::Obj | T::NObj | T::Iter | T::Opaque => "Any",
            T::Res => "Result",
            T::Inst(i) => return Some(Ty { name: self.classes[i].name.clone(), null: false }),
        };
        let null = matches!(t, T::NInt | T::NObj) || self.pct(15);
        let name = if self.pct(15) { "Any" } else { name };
        Some(Ty { name: name.into(), null })
    }
    fn any_type(&mut self) -> T {
        let p = self.p.clone();
        let w = [
            (T::Int, 10),
            (T::Bool, 4),
            (T::Float, p.floats),
            (T::Str, 2),
            (T::NInt, p.nulls),
            (T::Arr, 3),
            (T::FArr, p.closures / 2),
            (T::Fun(0), p.closures),
            (T::Fun(1), p.closures),
            (T::Fun(2), p.closures / 2),
            (T::Obj, 3),
            (T::NObj, p.nulls / 2 + 1),
            (T::Res, if p.prelude { p.results } else { 0 }),
            (T::Iter, p.loops / 2),
        ];
        let ws: Vec<usize> = w.iter().map(|x| x.1 as usize).collect();
        let t = w[self.r.weighted(&ws)].0;
        if !self.classes.is_empty() {
            let pc = self.p.classes * 6;
            if self.pct(pc) {
                if let Some(i) = self.visible_class() {
                    return T::Inst(i);
                }
            }
        }
        t
    }
    fn visible_class(&mut self) -> Option<usize> {
        let (n, _) = self.var(|v| v.ty == T::Fun(200))?;
        self.classes.iter().position(|k| k.name == n)
    }

    fn stmt(&mut self, out: &mut Vec<E>) {
        self.left -= 1;
        let p = self.p.clone();
        let deep = self.cx.last().unwrap().scopes.len() > 6;
        let lp = if deep || self.cx.last().unwrap().loops >= 2 { 0 } else { p.loops as usize };
        let ctl = if self.in_loop() || self.cx.last().unwrap().kind != Kind::Top { p.ctl as usize } else { 0 };
        let sc = if deep { 0 } else { p.scopes as usize };
        let w = [
            10,                                        // 0 trace an expression
            8,                                         // 1 let
            p.assign as usize,                           // 2 assign
            lp,                                        // 3 while
            lp / 2,                                    // 4 loop
            lp,                                        // 5 for range
            lp,                                        // 6 for iterator
            sc,                                        // 7 if
            sc / 2,                                    // 8 block
            ctl,                                       // 9 conditional exit
            1,                                         // 10 destructuring
            p.assign as usize / 2,                       // 11 field or index assignment
            p.closures as usize,                         // 12 closure into an array
            if p.closures > 3 { 2 } else { 0 },        // 13 counter pair
            if p.prelude { p.results as usize / 2 } else { 0 }, // 14 result function
            (p.fns / 2) as usize,                        // 15 recursive function
            if self.cx.len() == 1 { p.ops.min(5) as usize } else { 0 }, // 16 global operator
            1,                                         // 17 bare expression
            p.types as usize / 12,                       // 18 typed function
            p.closures as usize / 2,                     // 19 functions of functions
            p.classes as usize * 3,                      // 20 an instance
            p.classes as usize * 3,                      // 21 a method's result
            if self.left > 20 && self.cx.len() < 3 { 2 } else { 0 }, // 22 a lot of one thing
            if deep { 0 } else { 1 },                  // 23 the value of a statement
        ];
        let d = p.depth;
        match self.r.weighted(&w) {
            0 => {
                let t = self.any_type();
                let e = self.expr(t, d);
                out.push(call("t", vec![e]));
            }
            1 => {
                let t = self.any_type();
                let e = self.expr(t, d);
                let n = self.name();
                let m = self.pct(55);
                self.declare(&n, t, m);
                out.push(E::Let(Pat::One(n), m, bx(e)));
            }
            2 => {
                let v = self.var(|v| v.mutable);
                if let Some((n, t)) = v {
                    let num = matches!(t, T::Int | T::Float);
                    if num && self.pct(50) {
                        let op = *self.r.pick(&["+=", "-=", "*="]);
                        let e = self.expr(t, d - 1);
                        out.push(E::Asg(op, bx(id(&n)), bx(e)));
                    } else {
                        let e = self.expr(t, d - 1);
                        out.push(asg(id(&n), e));
                    }
                    if self.pct(40) {
                        out.push(call("t", vec![id(&n)]));
                    }
                } else {
                    let e = self.expr(T::Int, d);
                    let n = self.name();
                    self.declare(&n, T::Int, true);
                    out.push(let_mut(&n, e));
                }
            }
            3 => {
                // A counter of its own keeps every loop finite.
                let k = self.fresh("k");
                out.push(let_mut(&k, E::Int(0)));
                let n = self.r.below(4) as i64;
                let lim = bin("<", id(&k), E::Int(n));
                self.push(true);
                self.top().loops += 1;
                let c = if self.pct(30) {
                    let c = self.expr(T::Bool, 2);
                    bin("&&", lim, c)
                } else if self.pct(30) {
                    call("t", vec![lim])
                } else {
                    lim
                };
                self.push(false);
                let mut b = vec![E::Asg("+=", bx(id(&k)), bx(E::Int(1)))];
                let m = 1 + self.r.below(3);
                b.extend(self.body(m, None));
                self.pop();
                self.pop();
                self.top().loops -= 1;
                out.push(E::While(bx(c), b));
            }
            4 => {
                let k = self.fresh("k");
                out.push(let_mut(&k, E::Int(0)));
                let n = self.r.below(4) as i64;
                self.push(true);
                self.top().loops += 1;
                self.push(false);
                let mut b = vec![
                    E::Asg("+=", bx(id(&k)), bx(E::Int(1))),
                    E::If(bx(bin(">", id(&k), E::Int(n))), vec![E::Break], None),
                ];
                let m = 1 + self.r.below(3);
                b.extend(self.body(m, None));
                self.pop();
                self.pop();
                self.top().loops -= 1;
                out.push(E::Loop(b));
            }
            5 => {
                let lo = self.bound(d);
                let hi = self.bound(d);
                let op = *self.r.pick(&["..", "..="]);
                let e = self.for_loop(bin(op, lo, hi));
                out.push(e);
            }
            6 => {
                let t = if self.pct(50) { T::Arr } else { T::Iter };
                let src = self.expr(t, 2);
                let e = self.for_loop(src);
                out.push(e);
            }
            7 => {
                let c = self.expr(T::Bool, d - 1);
                let n = 1 + self.r.below(3);
                let a = self.block(n, None);
                let b = if self.pct(50) {
                    let n = 1 + self.r.below(3);
                    let x = self.block(n, None);
                    if self.pct(30) {
                        let c = self.expr(T::Bool, 2);
                        Some(bx(E::If(bx(c), x, None)))
                    } else {
                        Some(bx(E::Block(x)))
                    }
                } else {
                    None
                };
                out.push(E::If(bx(c), a, b));
            }
            8 => {
                let n = 1 + self.r.below(4);
                let b = self.block(n, None);
                out.push(E::Block(b));
            }
            9 => {
                let x = self.exit();
                let c = self.expr(T::Bool, d - 1);
                self.push(false);
                let n = self.r.below(2);
                let mut b = self.body(n, None);
                self.pop();
                b.push(x);
                out.push(E::If(bx(c), b, None));
            }
            10 => {
                let e = self.expr(T::Obj, 2);
                let m = self.pct(40);
                let mut names = vec!["a".to_string(), "b".to_string()];
                if self.pct(40) {
                    names.push("n".into());
                }
                if self.pct(40) {
                    names.reverse();
                }
                let pend: Vec<String> =
                    self.top().scopes.last().unwrap().vars.iter().filter(|v| !v.ready).map(|v| v.name.clone()).collect();
                if names.iter().any(|n| pend.contains(n)) {
                    out.push(call("t", vec![e]));
                    return;
                }
                for n in &names {
                    self.declare(n, if n == "n" { T::NInt } else { T::Int }, m);
                }
                out.push(E::Let(Pat::Many(names), m, bx(e)));
            }
            11 => self.place_assign(out),
            12 => {
                let f = match self.of(T::FArr) {
                    Some(f) => f,
                    None => {
                        let n = self.name();
                        self.declare(&n, T::FArr, false);
                        out.push(let_(&n, E::List(vec![])));
                        n
                    }
                };
                let l = self.expr(T::Fun(0), d);
                out.push(E::Call(bx(field(id(&f), "push")), vec![l]));
                if self.pct(40) {
                    let x = self.fresh("x");
                    out.push(E::For(x.clone(), bx(id(&f)), vec![call("t", vec![E::Call(bx(id(&x)), vec![])])]));
                }
            }
            13 => {
                // Two closures over one variable, outliving its block.
                let (a, v) = (self.fresh("o"), self.fresh("v"));
                let init = self.expr(T::Int, 2);
                let step = self.expr(T::Int, 1);
                let mut inner = vec![let_mut(&v, init)];
                if self.pct(40) {
                    inner.push(call("t", vec![id(&v)]));
                }
                let inc = E::Lam(vec![], bx(E::Block(vec![E::Asg("+=", bx(id(&v)), bx(step)), id(&v)])));
                let get = E::Lam(vec![], bx(id(&v)));
                inner.push(E::Obj(vec![("inc".into(), inc), ("get".into(), get)]));
                out.push(let_(&a, E::Block(inner)));
                for _ in 0..2 {
                    let m = *self.r.pick(&["inc", "get"]);
                    out.push(call("t", vec![E::Call(bx(field(id(&a), m)), vec![])]));
                }
            }
            14 => {
                // A function giving results, with `!!` inside half-evaluated expressions.
                let f = self.fresh("r");
                let d = self.result_fn(&f);
                out.push(E::Fn(d));
                let a = self.expr(T::Int, 2);
                let c = call(&f, vec![a]);
                if self.pct(50) {
                    let e = self.fresh("e");
                    self.push(false);
                    self.declare(&e, T::NInt, false);
                    let b = self.block(1, Some(T::Int));
                    self.pop();
                    out.push(call("t", vec![E::OrErr(bx(c), e, b)]));
                } else {
                    out.push(call("t", vec![c]));
                }
            }
            15 => {
                let f = self.fresh("q");
                self.cx.push(Cx { scopes: vec![], kind: Kind::Fn, ret: T::Int, class: 0, loops: 2 });
                self.push(false);
                self.declare("z", T::Int, false);
                let base = self.expr(T::Int, 1);
                let step = self.expr(T::Int, 2);
                self.cx.pop();
                let op = *self.r.pick(&["+", "-", "*"]);
                let rec = call(&f, vec![bin("-", id("z"), E::Int(1))]);
                let rec = if self.pct(50) { bin(op, step, rec) } else { bin(op, rec, step) };
                let body = if self.pct(50) {
                    vec![E::If(bx(bin("<=", id("z"), E::Int(0))), vec![base], Some(bx(E::Block(vec![rec]))))]
                } else {
                    vec![E::If(bx(bin("<=", id("z"), E::Int(0))), vec![E::Ret(Some(bx(base)))], None), rec]
                };
                out.push(E::Fn(FnD { name: f.clone(), params: vec![Param { name: "z".into(), ty: None }], ret: None, body }));
                let n = self.r.below(5) as i64;
                out.push(call("t", vec![call(&f, vec![E::Int(n)])]));
            }
            16 => {
                let op = *self.r.pick(&["+", "-", "*", "<", "==", "%", "/", ">", "<=", ">=", "!="]);
                if self.global_ops.insert(op) {
                    self.cx.push(Cx { scopes: vec![], kind: Kind::Fn, ret: T::Int, class: 0, loops: 2 });
                    self.push(false);
                    let t = call("t", vec![id("x")]);
                    let tr = if self.pct(70) { T::Int } else { self.any_type() };
                    let v = self.expr(tr, 2);
                    let ret = self.annotation(tr);
                    let (tx, ty) = (self.annotation(T::Obj), self.annotation(T::Int));
                    let tx = if matches!(op, "==" | "!=") { None } else { tx };
                    let early = self.pct(30).then(|| {
                        let c = self.expr(T::Bool, 1);
                        let e = self.expr(tr, 1);
                        E::If(bx(c), vec![E::Ret(Some(bx(e)))], None)
                    });
                    self.cx.pop();
                    let ps = vec![Param { name: "x".into(), ty: tx }, Param { name: "y".into(), ty }];
                    let mut body = vec![t, call("t", vec![id("y")])];
                    body.extend(early);
                    body.push(v);
                    out.push(E::Op(OpD { op, params: ps, ret, body }));
                    let l = self.expr(T::Obj, 1);
                    let r = self.expr(T::Int, 2);
                    let e = if matches!(op, "==" | "!=") { bin(op, E::Str("s".into()), r) } else { bin(op, l, r) };
                    out.push(call("t", vec![e]));
                }
            }
            17 => {
                let t = self.any_type();
                let e = self.expr(t, d);
                out.push(e);
            }
            18 => {
                let f = self.fresh("y");
                let (tp, tr) = (self.any_type(), self.any_type());
                self.cx.push(Cx { scopes: vec![], kind: Kind::Fn, ret: tr, class: 0, loops: 1 });
                self.push(false);
                self.declare("z", tp, false);
                let ty = self.annotation(tp);
                let ret = self.annotation(tr);
                let body = self.body(1, Some(tr));
                self.cx.pop();
                out.push(E::Fn(FnD { name: f.clone(), params: vec![Param { name: "z".into(), ty }], ret, body }));
                let a = self.expr(tp, 2);
                out.push(call("t", vec![call(&f, vec![a])]));
            }
            20 => match self.visible_class() {
                Some(i) => {
                    let e = self.instance(i, d);
                    let n = self.name();
                    let m = self.pct(30);
                    self.declare(&n, T::Inst(i), m);
                    out.push(E::Let(Pat::One(n.clone()), m, bx(e)));
                    if self.pct(50) {
                        out.push(call("t", vec![id(&n)]));
                    }
                }
                None => {
                    let e = self.expr(T::Int, d);
                    out.push(call("t", vec![e]));
                }
            },
            21 => {
                let e = self.method_call(d);
                out.push(call("t", vec![e]));
                self.look(out);
            }
            22 => self.crowd(out),
            23 => {
                let v = self.odd_value();
                if self.pct(30) {
                    let n = self.fresh("u");
                    out.push(let_(&n, v));
                    out.push(call("t", vec![id(&n)]));
                } else {
                    out.push(call("t", vec![v]));
                }
            }
            _ => {
                // A function that returns a closure over its parameter and a local.
                let f = self.fresh("m");
                self.cx.push(Cx { scopes: vec![], kind: Kind::Fn, ret: T::Fun(1), class: 0, loops: 1 });
                self.push(false);
                self.declare("z", T::Int, false);
                let mut body = self.body(1, None);
                let l = self.fresh("w");
                let e = self.expr(T::Int, 2);
                body.push(let_mut(&l, e));
                self.declare(&l, T::Int, true);
                let r = self.expr(T::Fun(1), 3);
                body.push(if self.pct(30) { E::Ret(Some(bx(r))) } else { r });
                self.cx.pop();
                out.push(E::Fn(FnD { name: f.clone(), params: vec![Param { name: "z".into(), ty: None }], ret: None, body }));
                let g = self.fresh("g");
                let a = self.expr(T::Int, 1);
                out.push(let_(&g, call(&f, vec![a])));
                self.declare(&g, T::Fun(1), false);
                for i in 0..2 {
                    out.push(call("t", vec![call(&g, vec![E::Int(i)])]));
                }
            }
        }
    }
    fn bound(&mut self, d: u32) -> E {
        if self.pct(70) {
            let n = self.r.range(0, 4) as i64;
            let e = E::Int(n);
            if self.pct(40) {
                call("t", vec![e])
            } else {
                e
            }
        } else {
            let e = self.expr(T::Int, d.min(2));
            // Keep the range short.
            bin("%", e, E::Int(4))
        }
    }
    fn for_loop(&mut self, src: E) -> E {
        let n = self.r.pick(NAMES).to_string();
        self.push(true);
        self.top().loops += 1;
        self.declare(&n, T::Int, false);
        let m = 1 + self.r.below(3);
        let mut b = self.block(m, None);
        if self.pct(50) {
            let at = if self.pct(50) { 0 } else { b.len() };
            // Before the body declares anything, or after it.
            if at == 0 {
                b.insert(0, call("t", vec![id(&n)]));
            }
        }
        self.pop();
        self.top().loops -= 1;
        E::For(n, bx(src), b)
    }
    /// Something that leaves the loop or function.
    fn exit(&mut self) -> E {
        let l = self.in_loop();
        let kind = self.cx.last().unwrap().kind;
        if l && (kind == Kind::Top || self.pct(65)) {
            return if self.pct(50) { E::Break } else { E::Continue };
        }
        match kind {
            Kind::Top => E::Unit,
            Kind::Ctor => E::Ret(None),
            _ => {
                let t = self.cx.last().unwrap().ret;
                let e = self.expr(t, 2);
                E::Ret(Some(bx(e)))
            }
        }
    }
    /// What a statement is worth when something wants its value.
    fn odd_value(&mut self) -> E {
        let form = self.r.below(5);
        if form == 4 {
            self.cx.push(Cx { scopes: vec![], kind: Kind::Fn, ret: T::Int, class: 0, loops: 1 });
            self.push(false);
        }
        self.push(false);
        let mut b = vec![];
        let n = self.r.below(2);
        if n > 0 {
            b = self.body(1, None);
        }
        match self.r.below(7) {
            0 => {
                let k = self.fresh("s");
                let e = self.expr(T::Int, 2);
                b.push(let_(&k, e));
            }
            1 => {
                let m = b.len();
                self.place_assign(&mut b);
                // Without its trace the assignment comes last.
                if b.len() > m + 1 {
                    b.pop();
                }
            }
            2 => {
                if let Some((n, t)) = self.var(|v| v.mutable) {
                    let num = matches!(t, T::Int | T::Float);
                    let op = if num { *self.r.pick(&["=", "+=", "-=", "*="]) } else { "=" };
                    let e = self.expr(t, 2);
                    b.push(E::Asg(op, bx(id(&n)), bx(e)));
                }
            }
            3 => {
                if let Some(o) = self.of(T::Obj) {
                    let e = self.expr(T::Int, 2);
                    let base = self.maybe_traced(id(&o));
                    let a = asg(field(base, *self.r.pick(&["a", "b"])), e);
                    b.push(if self.pct(30) { E::Block(vec![a]) } else { a });
                }
            }
            4 => {
                let t = self.any_type();
                let e = self.expr(t, 2);
                b.push(e);
            }
            5 => {
                let f = self.fresh("f");
                b.push(if self.pct(50) {
                    E::While(bx(E::Bool(false)), vec![])
                } else {
                    E::Fn(FnD { name: f, params: vec![], ret: None, body: vec![E::Int(1)] })
                });
            }
            _ => {}
        }
        self.pop();
        match form {
            0 => E::Block(b),
            1 | 2 => {
                let c = self.expr(T::Bool, 2);
                E::If(bx(c), b, None)
            }
            3 => {
                let (c, d) = (self.expr(T::Bool, 1), self.expr(T::Bool, 1));
                let e = self.small(0, T::Int, 1);
                if self.pct(50) {
                    E::If(bx(c), e, Some(bx(E::If(bx(d), b, None))))
                } else {
                    E::If(bx(c), b, Some(bx(E::Block(e))))
                }
            }
            _ => {
                let c = self.expr(T::Bool, 1);
                self.cx.pop();
                let b = if self.pct(50) { b } else { vec![E::If(bx(c), b, None)] };
                E::Call(bx(E::Lam(vec![], bx(E::Block(b)))), vec![])
            }
        }
    }
    fn place_assign(&mut self, out: &mut Vec<E>) {
        let d = self.p.depth - 1;
        let ar = self.pct(40);
        let (place, name) = if ar {
            match self.of(T::Arr) {
                Some(a) => {
                    let i = self.r.below(2) as i64;
                    let i = self.traced(E::Int(i));
                    let base = self.maybe_traced(id(&a));
                    (E::Index(bx(base), bx(i)), a)
                }
                None => {
                    let e = self.expr(T::Arr, 2);
                    let n = self.name();
                    self.declare(&n, T::Arr, false);
                    out.push(let_(&n, e));
                    return;
                }
            }
        } else {
            let o = match self.of(T::Obj) {
                Some(o) => o,
                None => {
                    let e = self.expr(T::Obj, 2);
                    let n = self.name();
                    self.declare(&n, T::Obj, false);
                    out.push(let_(&n, e));
                    return;
                }
            };
            let f = *self.r.pick(&["a", "b"]);
            let base = self.maybe_traced(id(&o));
            (field(base, f), o)
        };
        if ar && self.pct(70) {
            // Writing past the end of an array is not defined; guard it.
            let op = if self.pct(50) { "=" } else { *self.r.pick(&["+=", "-=", "*="]) };
            let e = self.expr(T::Int, d);
            let a = E::Asg(op, bx(place), bx(e));
            out.push(E::If(bx(bin(">", E::Call(bx(field(id(&name), "length")), vec![]), E::Int(1))), vec![a], None));
        } else if !ar {
            let op = if self.pct(50) { "=" } else { *self.r.pick(&["+=", "-=", "*="]) };
            let e = self.expr(T::Int, d);
            let a = E::Asg(op, bx(place), bx(e));
            out.push(if self.pct(20) { call("t", vec![a]) } else { a });
        }
        out.push(call("t", vec![id(&name)]));
    }
    fn result_fn(&mut self, name: &str) -> FnD {
        self.cx.push(Cx { scopes: vec![], kind: Kind::Fn, ret: T::Res, class: 0, loops: 0 });
        self.push(false);
        self.declare("z", T::Int, false);
        let ty = self.annotation(T::Int);
        let ret = if self.pct(40) { Some(Ty { name: "Result".into(), null: self.pct(20) }) } else { None };
        let n = 1 + self.r.below(2);
        let body = self.body(n, Some(T::Res));
        self.cx.pop();
        FnD { name: name.into(), params: vec![Param { name: "z".into(), ty }], ret, body }
    }
    fn traced(&mut self, e: E) -> E {
        call("t", vec![e])
    }
    fn maybe_traced(&mut self, e: E) -> E {
        let p = self.p.trace;
        if self.pct(p) {
            call("t", vec![e])
        } else {
            e
        }
    }

    // ---- expressions ----

    pub fn expr(&mut self, t: T, d: u32) -> E {
        self.left -= 1;
        let e = self.raw(t, d);
        if d > 0 {
            self.maybe_traced(e)
        } else {
            e
        }
    }
    fn raw(&mut self, t: T, d: u32) -> E {
        let d1 = d.saturating_sub(1);
        let leaf = d == 0 || self.left <= 0;
        if !leaf {
            // Things every type can be.
            let p = self.p.clone();
            let can = self.in_loop() || !matches!(self.cx.last().unwrap().kind, Kind::Top);
            let deep = self.cx.last().unwrap().scopes.len() > 7;
            let w = [
                40,
                if deep { 0 } else { p.scopes as usize / 2 },
                if deep { 0 } else { p.scopes as usize / 3 },
                if can { p.ctl as usize } else { 0 },
                if can { p.ctl as usize / 2 } else { 0 },
                p.closures as usize / 3,
                p.wrong as usize,
            ];
            match self.r.weighted(&w) {
                1 => {
                    let c = self.expr(T::Bool, d1);
                    let a = { let n = self.r.below(2); self.small(n, t, d1) };
                    let b = { let n = self.r.below(2); self.small(n, t, d1) };
                    return E::If(bx(c), a, Some(bx(E::Block(b))));
                }
                2 => {
                    let n = self.r.below(3);
                    return E::Block(self.small(n, t, d1));
                }
                3 => {
                    // Leaves from the middle of whatever is being evaluated.
                    let c = self.expr(T::Bool, d1);
                    let x = self.exit();
                    let v = self.small(0, t, d1);
                    return if self.pct(50) {
                        E::If(bx(c), vec![x], Some(bx(E::Block(v))))
                    } else {
                        E::If(bx(c), v, Some(bx(E::Block(vec![x]))))
                    };
                }
                4 => {
                    let c = self.expr(T::Bool, d1);
                    let x = self.exit();
                    self.push(false);
                    let mut b = self.body(1, None);
                    b.push(E::If(bx(c), vec![x], None));
                    let v = self.expr(t, d1);
                    self.pop();
                    b.push(v);
                    return E::Block(b);
                }
                5 => {
                    // An immediately called function.
                    self.cx.push(Cx { scopes: vec![], kind: Kind::Fn, ret: t, class: 0, loops: 1 });
                    self.push(false);
                    let mut ps = vec![];
                    let mut args = vec![];
                    let k = self.arity();
                    for _ in 0..k {
                        let mut n = self.r.pick(NAMES).to_string();
                        if ps.iter().any(|p: &Param| p.name == n) {
                            n = self.fresh("p");
                        }
                        self.declare(&n, T::Int, false);
                        let ty = self.annotation(T::Int);
                        ps.push(Param { name: n, ty });
                    }
                    let n = self.r.below(2);
                    let b = self.body(n, Some(t));
                    self.cx.pop();
                    args.extend(self.args(k, d1));
                    return E::Call(bx(E::Lam(ps, bx(E::Block(b)))), args);
                }
                6 => {
                    let t = self.any_type();
                    return self.expr(t, d1);
                }
                _ => {}
            }
        }
        if self.pct(if leaf { 70 } else { 25 }) {
            if let Some(n) = self.of(t) {
                return id(&n);
            }
        }
        match t {
            T::Int => self.int(d),
            T::Bool => self.boolean(d),
            T::Float => self.float(d),
            T::Str => self.string(d),
            T::NInt => self.nint(d),
            T::Arr => {
                if !leaf && self.pct(20) {
                    let a = self.expr(T::Arr, d1);
                    let f = self.expr(T::Fun(1), d1);
                    return E::Call(bx(field(a, "map")), vec![f]);
                }
                let n = self.r.below(if leaf { 3 } else { 5 });
                E::List((0..n).map(|_| self.expr(T::Int, d1.min(2))).collect())
            }
            T::FArr => {
                let n = self.r.below(3);
                E::List((0..n).map(|_| self.expr(T::Fun(0), d1.min(2))).collect())
            }
            T::Fun(k) => self.function(k, d),
            T::Obj => {
                let mut v = vec![
                    ("a".to_string(), self.expr(T::Int, d1.min(2))),
                    ("b".to_string(), self.expr(T::Int, d1.min(2))),
                ];
                if !leaf {
                    v.push(("n".into(), self.expr(T::NInt, d1.min(2))));
                    if self.pct(40) {
                        v.push(("o".into(), self.expr(T::NObj, d1.min(2))));
                    }
                }
                if self.pct(25) {
                    let i = self.r.below(v.len());
                    let x = v.remove(i);
                    v.push(x);
                }
                E::Obj(v)
            }
            T::NObj => {
                if leaf || self.pct(30) {
                    return if self.pct(60) { E::Null } else { self.raw(T::Obj, 0) };
                }
                match self.r.below(3) {
                    0 => self.expr(T::Obj, d1),
                    1 => {
                        let o = self.expr(T::NObj, d1);
                        field(E::NullProp(bx(o)), "o")
                    }
                    _ => {
                        let o = self.expr(T::Obj, d1);
                        field(o, "o")
                    }
                }
            }
            T::Res => {
                let d2 = d1.min(2);
                if !leaf && self.pct(20) {
                    let r = self.expr(T::Res, d2);
                    let f = self.expr(T::Fun(1), d2);
                    return E::Call(bx(field(r, "map")), vec![f]);
                }
                let v = self.expr(T::Int, d2);
                let n = if self.pct(60) { "Ok" } else { "Err" };
                call(n, vec![v])
            }
            T::Inst(i) => self.instance(i, d),
            T::Opaque => self.lit_int(),
            T::Iter => {
                if self.p.prelude && self.pct(40) {
                    let (a, b) = (self.bound(d1), self.bound(d1));
                    // As the source of a loop this is a value, not a range loop, because it is a block.
                    return E::Block(vec![bin(if self.pct(50) { ".." } else { "..=" }, a, b)]);
                }
                let k = self.fresh("k");
                let n = self.r.below(4) as i64;
                let v = if leaf { id(&k) } else { self.expr(T::Int, d1.min(2)) };
                let v = self.maybe_traced(bin("+", id(&k), v));
                let done = self.maybe_traced(bin(">", id(&k), E::Int(n)));
                let next = E::Lam(
                    vec![],
                    bx(E::Block(vec![
                        E::Asg("+=", bx(id(&k)), bx(E::Int(1))),
                        E::Obj(vec![("is_done".into(), done), ("value".into(), v)]),
                    ])),
                );
                let it = E::Obj(vec![("iter".into(), E::Lam(vec![], bx(E::Obj(vec![("next".into(), next)]))))]);
                E::Block(vec![let_mut(&k, E::Int(0)), it])
            }
        }
    }
    /// A block with a value.
    fn small(&mut self, n: usize, t: T, d: u32) -> Vec<E> {
        self.push(false);
        let mut b = self.body(n, None);
        let v = self.expr(t, d);
        self.pop();
        b.push(v);
        b
    }
    fn lit_int(&mut self) -> E {
        let n = match self.r.below(12) {
            0 => 0,
            1 => 1,
            2 => *self.r.pick(&[255, 256, 127, 128, 65535, 1 << 31, (1 << 53) + 1, i64::MAX]),
            _ => self.r.range(2, 30) as i64,
        };
        E::Int(n)
    }
    fn int(&mut self, d: u32) -> E {
        let d1 = d.saturating_sub(1);
        if d == 0 || self.left <= 0 {
            return self.lit_int();
        }
        let p = self.p.clone();
        let w = [
            3,
            p.exprs as usize,                               // 1 arithmetic
            2,                                            // 2 negate
            5,                                            // 3 call
            3,                                            // 4 index
            3,                                            // 5 field
            p.nulls as usize,                               // 6 coalesce
            2,                                            // 7 pipeline
            if p.prelude { p.results as usize } else { 0 }, // 8 or-else
            if p.prelude { p.results as usize } else { 0 }, // 9 !!
            p.classes as usize * 3,                         // 10 methods
            1,                                            // 11 length
            p.exprs as usize / 4,                           // 12 division
            if p.classes > 0 { 2 } else { 0 },            // 13 super
        ];
        match self.r.weighted(&w) {
            1 => {
                let op = *self.r.pick(&["+", "-", "*"]);
                let (a, b) = (self.expr(T::Int, d1), self.expr(T::Int, d1));
                bin(op, a, b)
            }
            2 => {
                let a = self.expr(T::Int, d1);
                E::Neg(bx(a))
            }
            3 => {
                let k = self.arity() as u8;
                let v = self.vars(|v| matches!(v.ty, T::Fun(k) if k < 200));
                let (f, k) = if v.is_empty() || self.pct(20) {
                    (self.expr(T::Fun(k), d1), k)
                } else {
                    let i = self.r.below(v.len());
                    let k = match v[i].1 {
                        T::Fun(k) => k,
                        _ => 0,
                    };
                    (id(&v[i].0), k)
                };
                let args = self.args(k as usize, d1);
                E::Call(bx(f), args)
            }
            4 => {
                // Indexing past the end gives null, so give it a default.
                let a = self.expr(T::Arr, d1);
                let i = self.index();
                let e = E::Index(bx(a), bx(i));
                let x = self.expr(T::Int, d1.min(1));
                bin("??", e, x)
            }
            5 => {
                let o = self.expr(T::Obj, d1);
                field(o, *self.r.pick(&["a", "b"]))
            }
            6 => {
                let (a, b) = (self.expr(T::NInt, d1), self.expr(T::Int, d1));
                bin("??", a, b)
            }
            7 => {
                let (a, f) = (self.expr(T::Int, d1), self.expr(T::Fun(1), d1));
                bin("|>", a, f)
            }
            8 => {
                let a = self.expr(T::Res, d1);
                let n = self.r.pick(NAMES).to_string();
                self.push(false);
                self.declare(&n, T::Int, false);
                let k = self.r.below(2);
                let b = self.small(k, T::Int, d1);
                self.pop();
                E::OrErr(bx(a), n, b)
            }
            9 => {
                let a = self.expr(T::Res, d1);
                if self.cx.last().unwrap().kind == Kind::Fn && self.cx.last().unwrap().ret == T::Res {
                    E::ErrProp(bx(a))
                } else {
                    field(a, "result")
                }
            }
            10 => self.method_call(d1),
            11 => {
                let a = self.expr(T::Arr, d1);
                E::Call(bx(field(a, "length")), vec![])
            }
            12 => {
                let a = self.expr(T::Int, d1);
                let wrong = self.p.wrong;
                let b = if self.pct(wrong) {
                    self.expr(T::Int, d1)
                } else {
                    let n = self.r.range(1, 9) as i64;
                    self.maybe_traced(E::Int(n))
                };
                bin(*self.r.pick(&["/", "%"]), a, b)
            }
            13 => {
                let c = self.cx.last().unwrap();
                let (k, class) = (c.kind, c.class);
                if matches!(k, Kind::Method | Kind::Ctor) {
                    if let Some(b) = self.classes[class].base {
                        if !self.classes[b].methods.is_empty() {
                            let i = self.r.below(self.classes[b].methods.len());
                            let (m, n) = self.classes[b].methods[i].clone();
                            if self.pct(30) {
                                return self.super_call(b, d1);
                            }
                            let args = self.super_args(n, d1);
                            return E::Call(bx(E::SuperAcc(None, m)), args);
                        }
                    }
                    return field(id("self"), "x");
                }
                self.lit_int()
            }
            _ => self.lit_int(),
        }
    }
    /// Calls the base class's constructor again.
    fn super_call(&mut self, b: usize, d: u32) -> E {
        let k = self.classes[b].clone();
        let args = self.super_args(k.args, d);
        let e = E::SuperCall(args);
        let e = if self.pct(20) { E::NullProp(bx(e)) } else { e };
        if k.methods.is_empty() || self.pct(60) {
            return bin("??", field(e, *self.r.pick(&["x", "y"])), E::Int(7));
        }
        let (m, n) = self.r.pick(&k.methods).clone();
        let args = self.args(n, d.min(1));
        E::Call(bx(field(e, &m)), args)
    }
    /// Arguments of which one may be a chain of its own.
    fn super_args(&mut self, n: usize, d: u32) -> Vec<E> {
        let mut args = self.args(n, d.min(1));
        if n > 0 && self.p.nulls > 0 && self.pct(15) {
            let i = self.r.below(n);
            args[i] = self.expr(T::NInt, d.min(2));
        }
        args
    }
    fn index(&mut self) -> E {
        let n = self.r.below(4) as i64;
        self.maybe_traced(E::Int(n))
    }
    fn method_call(&mut self, d: u32) -> E {
        let i = match self.visible_class() {
            Some(i) => i,
            None => return self.lit_int(),
        };
        self.method_of(i, d)
    }
    fn method_of(&mut self, i: usize, d: u32) -> E {
        let k = self.classes[i].clone();
        if !k.statics.is_empty() && self.pct(20) {
            let (m, n) = self.r.pick(&k.statics).clone();
            let args = self.args(n, d.min(2));
            return E::Call(bx(field(id(&k.name), &m)), args);
        }
        let o = self.expr(T::Inst(i), d);
        if !k.ops.is_empty() && self.pct(35) {
            let op = *self.r.pick(&k.ops);
            let x = self.expr(T::Int, d);
            return bin(op, o, x);
        }
        if k.methods.is_empty() || self.pct(20) {
            return bin("??", field(o, *self.r.pick(&["x", "y"])), E::Int(7));
        }
        let (m, n) = self.r.pick(&k.methods).clone();
        let args = self.args(n, d.min(2));
        E::Call(bx(field(o, &m)), args)
    }
    fn instance(&mut self, i: usize, d: u32) -> E {
        let k = self.classes[i].clone();
        let d1 = d.saturating_sub(1).min(2);
        let args = self.args(k.args, d1);
        call(&k.name, args)
    }
    fn boolean(&mut self, d: u32) -> E {
        if d == 0 || self.left <= 0 {
            if self.pct(60) {
                if let Some(n) = self.of(T::Int) {
                    let k = self.lit_int();
                    return bin(*self.r.pick(&["<", ">", "<=", ">=", "==", "!="]), id(&n), k);
                }
            }
            return E::Bool(self.pct(50));
        }
        let d1 = d - 1;
        let w = [1, 8, 3, 3, 2, 2, 1, 1, self.p.types as usize / 5];
        match self.r.weighted(&w) {
            1 => {
                let op = *self.r.pick(&["<", ">", "<=", ">=", "==", "!="]);
                let t = if self.pct(80) { T::Int } else { T::Float };
                let (a, b) = (self.expr(t, d1), self.expr(t, d1));
                bin(op, a, b)
            }
            2 => {
                let (a, b) = (self.expr(T::Bool, d1), self.expr(T::Bool, d1));
                bin("&&", a, b)
            }
            3 => {
                let (a, b) = (self.expr(T::Bool, d1), self.expr(T::Bool, d1));
                bin("||", a, b)
            }
            4 => {
                let a = self.expr(T::Bool, d1);
                E::Not(bx(a))
            }
            5 => {
                let (a, b) = (self.expr(T::NInt, d1), self.expr(T::NInt, d1));
                bin(*self.r.pick(&["==", "!="]), a, b)
            }
            6 => {
                let (a, b) = (self.expr(T::Str, d1), self.expr(T::Str, d1));
                bin(*self.r.pick(&["==", "!="]), a, b)
            }
            7 => {
                let (a, b) = (self.expr(T::Bool, d1), self.expr(T::Bool, d1));
                bin(*self.r.pick(&["==", "!=", "<", "<=", ">", ">="]), a, b)
            }
            8 => {
                let t = self.any_type();
                let x = self.expr(t, d1);
                let mut names: Vec<String> =
                    ["Int", "Bool", "Float", "String", "Array", "Function", "Null", "Unit", "Any"].map(|s| s.into()).to_vec();
                names.extend(self.vars(|v| v.ty == T::Fun(200)).into_iter().map(|v| v.0));
                let n = self.r.pick(&names).clone();
                E::Is(bx(x), Ty { name: n, null: self.pct(30) })
            }
            _ => E::Bool(self.pct(50)),
        }
    }
    fn float(&mut self, d: u32) -> E {
        if d == 0 || self.left <= 0 || self.pct(30) {
            let f = *self.r.pick(&[0.0, 1.0, 0.5, 1.5, 2.25, 100.0, 3.0, 0.1, 1e10]);
            return E::Float(f);
        }
        let op = *self.r.pick(&["+", "-", "*", "/"]);
        let (a, b) = (self.expr(T::Float, d - 1), self.expr(T::Float, d - 1));
        if self.pct(10) {
            return E::Neg(bx(a));
        }
        bin(op, a, b)
    }
    fn string(&mut self, d: u32) -> E {
        if d == 0 || self.left <= 0 || self.pct(60) {
            return E::Str(self.r.pick(&["", "a", "b", "x y", "é", "0"]).to_string());
        }
        let (a, b) = (self.expr(T::Str, d - 1), self.expr(T::Str, d - 1));
        bin("+", a, b)
    }
    fn nint(&mut self, d: u32) -> E {
        if d == 0 || self.left <= 0 {
            return if self.pct(50) { E::Null } else { self.lit_int() };
        }
        let d1 = d - 1;
        match self.r.below(11) {
            9 => {
                // A chain as an argument of a chain, with nothing around it.
                let f = if self.pct(30) { E::Null } else { id("t") };
                let f = self.holder(f);
                let a = self.expr(T::NInt, d1);
                E::Call(bx(if self.pct(50) { E::NullProp(bx(f)) } else { f }), vec![a])
            }
            10 => {
                let c = self.cx.last().unwrap();
                let (k, class) = (c.kind, c.class);
                match if matches!(k, Kind::Method | Kind::Ctor) { self.classes[class].base } else { None } {
                    Some(b) if !self.classes[b].methods.is_empty() => {
                        let k = self.classes[b].clone();
                        if self.pct(40) {
                            return self.super_call(b, d1);
                        }
                        let (m, n) = self.r.pick(&k.methods).clone();
                        let args = self.super_args(n, d1);
                        E::NullProp(bx(E::Call(bx(E::SuperAcc(None, m)), args)))
                    }
                    _ => {
                        // An index that is a chain.
                        let a = self.expr(T::Arr, d1);
                        let a = self.holder(a);
                        let o = self.expr(T::NObj, d1);
                        let i = field(E::NullProp(bx(o)), "a");
                        let i = if self.pct(80) { bin("%", bin("??", i, E::Int(1)), E::Int(3)) } else { i };
                        E::Index(bx(E::NullProp(bx(a))), bx(i))
                    }
                }
            }
            0 => E::Null,
            1 => self.expr(T::Int, d1),
            2 => {
                let o = self.expr(T::NObj, d1);
                field(E::NullProp(bx(o)), *self.r.pick(&["a", "b", "n"]))
            }
            3 => {
                let o = self.expr(T::NObj, d1);
                let inner = field(E::NullProp(bx(o)), "o");
                field(E::NullProp(bx(inner)), *self.r.pick(&["a", "b"]))
            }
            4 => {
                // A call through a possibly missing function, whose arguments must then not run.
                let f = if self.pct(50) { E::Null } else { self.expr(T::Fun(1), d1) };
                let f = self.holder(f);
                let a = self.expr(T::Int, d1);
                E::Call(bx(E::NullProp(bx(f))), vec![a])
            }
            5 => {
                let a = self.expr(T::Arr, d1);
                let i = self.index();
                E::Index(bx(a), bx(i))
            }
            6 => {
                let a = if self.pct(50) { E::Null } else { self.expr(T::Arr, d1) };
                let a = self.holder(a);
                let i = self.index();
                let c = E::Index(bx(E::NullProp(bx(a))), bx(i));
                if self.pct(30) {
                    E::NullProp(bx(c))
                } else {
                    c
                }
            }
            7 => {
                let (a, b) = (self.expr(T::NInt, d1), self.expr(T::NInt, d1));
                bin("??", a, b)
            }
            _ => {
                // A chain inside an argument of a chain.
                let f = self.expr(T::Fun(1), d1);
                let f = self.holder(f);
                let o = self.expr(T::NObj, d1);
                let x = field(E::NullProp(bx(o)), "a");
                let x = bin("??", x, E::Int(3));
                E::Call(bx(E::NullProp(bx(f))), vec![x])
            }
        }
    }
    /// Keeps a literal from standing where a chain would apply to it directly.
    fn holder(&mut self, e: E) -> E {
        field(E::Obj(vec![("h".into(), e)]), "h")
    }
    fn function(&mut self, k: u8, d: u32) -> E {
        self.cx.push(Cx { scopes: vec![], kind: Kind::Fn, ret: T::Int, class: 0, loops: 1 });
        self.push(false);
        let mut ps: Vec<Param> = vec![];
        for _ in 0..k {
            let mut n = self.r.pick(NAMES).to_string();
            if self.pct(2) {
                n = "self".into();
            }
            if ps.iter().any(|p| p.name == n) {
                n = self.fresh("p");
            }
            self.declare(&n, T::Int, false);
            let ty = self.annotation(T::Int);
            ps.push(Param { name: n, ty });
        }
        let simple = d == 0 || self.left <= 0 || self.cx.len() > 4;
        let b = if simple || self.pct(50) {
            self.expr(T::Int, if simple { 0 } else { d.min(3) - 1 })
        } else {
            let n = 1 + self.r.below(2);
            E::Block(self.body(n, Some(T::Int)))
        };
        self.cx.pop();
        E::Lam(ps, bx(b))
    }

    // ---- classes ----

    pub fn class(&mut self, name: &str) -> ClassD {
        self.left -= 4;
        let base = if self.pct(55) { self.visible_class() } else { None };
        let idx = self.classes.len();
        let (mut methods, mut statics, mut ops) = (vec![], vec![], vec![]);
        let mut base_args = 0;
        if let Some(b) = base {
            let k = &self.classes[b];
            methods = k.methods.clone();
            statics = k.statics.clone();
            ops = k.ops.clone();
            base_args = k.args;
        }
        self.classes.push(Klass {
            name: name.into(),
            base,
            args: 0,
            has_new: false,
            methods: methods.clone(),
            statics: statics.clone(),
            ops: ops.clone(),
        });
        let mut items = vec![];
        self.push(false);
        let base_needs = base.map_or(false, |b| self.classes[b].has_new);
        let has_new = base_needs || self.pct(85);
        let args = if has_new { self.arity() } else { 0 };
        self.classes[idx].has_new = has_new;
        // The other items, some before the constructor.
        let mut n_items = 1 + self.r.below(3);
        let at = self.r.below(n_items as usize + 1) as usize;
        let mut i = 0;
        while n_items > 0 || i <= at {
            if i == at && has_new {
                items.push(Item::Fn(self.capped(15, |g| g.ctor(idx, args, base.is_some(), base_args))));
            }
            i += 1;
            if n_items == 0 {
                continue;
            }
            n_items -= 1;
            match self.r.below(6) {
                0 => {
                    let s = self.r.pick(&["make", "s1", "s2"]).to_string();
                    let k = self.arity() as u8;
                    if items.iter().any(|x| matches!(x, Item::Fn(f) if f.name == s)) {
                        continue;
                    }
                    let d = self.capped(12, |g| g.func(&s, k));
                    statics.retain(|x: &(String, usize)| x.0 != s);
                    statics.push((s, k as usize));
                    items.push(Item::Fn(d));
                }
                1 => {
                    let op = *self.r.pick(OVERLOADS);
                    if items.iter().any(|x| matches!(x, Item::Op(o) if o.op == op)) {
                        continue;
                    }
                    let (ps, ret, body) = self.capped(15, |g| g.method(idx, 1));
                    if !ops.contains(&op) {
                        ops.push(op);
                    }
                    items.push(Item::Op(OpD { op, params: ps, ret, body }));
                }
                _ => {
                    let m = self.r.pick(&["get", "m1", "m2", "m3"]).to_string();
                    if items.iter().any(|x| matches!(x, Item::Fn(f) if f.name == m)) {
                        continue;
                    }
                    // An override keeps its number of parameters.
                    let k = methods.iter().find(|x| x.0 == m).map(|x| x.1).unwrap_or(0);
                    let k = if methods.iter().any(|x| x.0 == m) { k } else { self.arity() };
                    let (ps, ret, body) = self.capped(15, |g| g.method(idx, k));
                    methods.retain(|x: &(String, usize)| x.0 != m);
                    methods.push((m.clone(), k));
                    items.push(Item::Fn(FnD { name: m, params: ps, ret, body }));
                }
            }
        }
        self.pop();
        let k = &mut self.classes[idx];
        k.args = args;
        k.has_new = has_new;
        k.methods = methods;
        k.statics = statics;
        k.ops = ops;
        let base = base.map(|b| bx(id(&self.classes[b].name.clone())));
        ClassD { name: name.into(), base, items }
    }
    fn enter_method(&mut self, idx: usize, kind: Kind, n: usize) -> Vec<Param> {
        self.cx.push(Cx { scopes: vec![], kind, ret: T::Int, class: idx, loops: 1 });
        self.push(false);
        self.declare("self", T::Inst(usize::MAX), false);
        let mut ps = vec![Param { name: "self".into(), ty: None }];
        for _ in 0..n {
            let mut n = self.r.pick(NAMES).to_string();
            if ps.iter().any(|p| p.name == n) {
                n = self.fresh("p");
            }
            let ty = self.annotation(T::Int);
            self.declare(&n, T::Int, false);
            ps.push(Param { name: n, ty });
        }
        ps
    }
    fn method(&mut self, idx: usize, n: usize) -> (Vec<Param>, Option<Ty>, Vec<E>) {
        let ps = self.enter_method(idx, Kind::Method, n);
        let ret = self.annotation(T::Int);
        let mut body = vec![];
        if self.pct(60) {
            // Without a constructor the fields start out missing.
            let op = if self.classes[idx].has_new || self.pct(5) { *self.r.pick(&["=", "+=", "-="]) } else { "=" };
            let e = self.expr(T::Int, 2);
            let f = *self.r.pick(&["x", "y"]);
            body.push(E::Asg(op, bx(field(id("self"), f)), bx(e)));
        }
        let k = self.r.below(2);
        let rest = self.body(k, None);
        body.extend(rest);
        if self.pct(30) {
            body.push(call("t", vec![id("self")]));
        }
        let derived = self.classes[idx].base.is_some() as usize;
        let v = match self.r.weighted(&[1, 1, 1 + 2 * derived, 1]) {
            0 => bin("??", field(id("self"), "x"), E::Int(1)),
            1 => {
                // A closure inside a method sees self.
                E::Call(bx(E::Lam(vec![], bx(bin("??", field(id("self"), "y"), E::Int(2))))), vec![])
            }
            2 => match self.classes[idx].base {
                Some(b) if !self.classes[b].methods.is_empty() => {
                    let k = self.classes[b].clone();
                    let (m, n) = self.r.pick(&k.methods).clone();
                    let args = (0..n).map(|_| self.expr(T::Int, 1)).collect();
                    let named = if self.pct(30) { Some(k.name.clone()) } else { None };
                    E::Call(bx(E::SuperAcc(named, m)), args)
                }
                _ => self.expr(T::Int, 2),
            },
            _ => self.expr(T::Int, 2),
        };
        body.push(if self.pct(20) { E::Ret(Some(bx(v))) } else { v });
        self.cx.pop();
        (ps, ret, body)
    }
    fn ctor(&mut self, idx: usize, n: usize, derived: bool, base_args: usize) -> FnD {
        let ps = self.enter_method(idx, Kind::Ctor, n);
        let mut body = vec![];
        if derived {
            let a = (0..base_args).map(|_| self.expr(T::Int, 2)).collect();
            body.push(E::SuperCall(a));
        }
        for f in ["x", "y"] {
            let inherited = self.classes[idx].base.map_or(false, |b| self.classes[b].has_new);
            if !inherited || self.pct(40) {
                let e = self.expr(T::Int, 2);
                body.push(asg(field(id("self"), f), e));
            }
        }
        let k = self.r.below(2);
        let rest = self.body(k, None);
        body.extend(rest);
        if self.pct(15) {
            body.push(E::Ret(None));
        }
        self.cx.pop();
        FnD { name: "new".into(), params: ps, ret: None, body }
    }
}

enum Plan {
    Fn(String, u8),
    Class(String),
}
