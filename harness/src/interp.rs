//! A reference interpreter over the syntax tree: the meaning of a program, without bytecode.
use crate::ast::*;
use crate::model::{self, arr, call, cell, construct, obj, render, truth, Cel, Class, Exc, Exec, FnKind, FnObj, World, R, V};
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct Node {
    name: *const str,
    cell: Cel,
    parent: Env,
}
type Env = Option<Rc<Node>>;

#[derive(Clone, Copy)]
enum Body {
    Exprs(*const [E]),
    One(*const E),
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Plain,
    Method,
    Ctor,
}
pub struct Closure {
    name: *const str,
    params: *const [Param],
    ret: *const Option<Ty>,
    body: Body,
    env: Env,
    kind: Kind,
}

#[derive(Clone, Copy, PartialEq)]
enum Where {
    Script,
    Module,
    Fn,
}
struct Frame {
    env: Env,
    ret: *const Option<Ty>,
    at: Where,
    ctor: bool,
}

pub struct Interp<'a> {
    pub w: World,
    modules: &'a BTreeMap<String, Vec<E>>,
    loaded: BTreeMap<String, V>,
    pub steps: u64,
    limit: u64,
    depth: usize,
    pub max_depth: usize,
    /// How often each kind of node was evaluated.
    pub kinds: BTreeMap<&'static str, u64>,
    pub calls: u64,
}

static NO_TYPE: Option<Ty> = None;

impl<'a> Exec for Interp<'a> {
    fn world(&mut self) -> &mut World {
        &mut self.w
    }
    fn invoke(&mut self, f: &Rc<FnObj>, recv: Option<V>, args: Vec<V>) -> R<V> {
        let c = match &f.kind {
            FnKind::Interp(c) => c,
            _ => return Err(Exc::Monitor("a compiled function reached the reference interpreter".into())),
        };
        // The tree outlives every closure made from it.
        let params = unsafe { &*c.params };
        let mut vals = vec![];
        if c.kind != Kind::Plain {
            match recv {
                Some(r) => vals.push(r),
                None => return Err(Exc::Discard("a method without a receiver")),
            }
        }
        vals.extend(args);
        if vals.len() != params.len() {
            return Err(Exc::Discard("wrong number of arguments"));
        }
        if self.depth >= 150 {
            return Err(Exc::Discard("deep recursion"));
        }
        self.depth += 1;
        self.calls += 1;
        self.max_depth = self.max_depth.max(self.depth);
        let r = self.enter(c, params, vals);
        self.depth -= 1;
        r
    }
}

impl<'a> Interp<'a> {
    pub fn new(modules: &'a BTreeMap<String, Vec<E>>, limit: u64) -> Self {
        Interp {
            w: World::new(),
            modules,
            loaded: BTreeMap::new(),
            steps: 0,
            limit,
            depth: 0,
            max_depth: 0,
            kinds: BTreeMap::new(),
            calls: 0,
        }
    }
    /// Runs a program as a script, and gives its value.
    pub fn script(&mut self, prog: &[E]) -> R<V> {
        let mut f = Frame { env: None, ret: &NO_TYPE, at: Where::Script, ctor: false };
        self.block(&mut f, prog)
    }
    /// Runs a program as a module, and gives its exports.
    pub fn module(&mut self, prog: &[E]) -> R<V> {
        let k = self.w.module.clone();
        let o = obj(&k);
        self.run_module(prog, o.clone())?;
        Ok(o)
    }
    fn run_module(&mut self, prog: &[E], export: V) -> R<()> {
        let mut f = Frame { env: None, ret: &NO_TYPE, at: Where::Module, ctor: false };
        self.declare(&mut f, "#export", cell(Some(export)));
        self.block(&mut f, prog)?;
        Ok(())
    }
    /// Runs the prelude and makes what it exports global.
    pub fn prelude(&mut self, prog: &[E]) -> R<()> {
        if let V::Obj(o) = self.module(prog)? {
            for (k, v) in o.fields.borrow().iter() {
                self.w.globals.entry(k.clone()).or_insert_with(|| v.clone());
            }
        }
        Ok(())
    }

    fn declare(&mut self, f: &mut Frame, name: &str, c: Cel) {
        f.env = Some(Rc::new(Node { name: name as *const str, cell: c, parent: f.env.take() }));
    }
    fn find(&self, f: &Frame, name: &str) -> Option<Cel> {
        let mut n = f.env.as_ref();
        while let Some(x) = n {
            if unsafe { &*x.name } == name {
                return Some(x.cell.clone());
            }
            n = x.parent.as_ref();
        }
        None
    }
    fn read(&self, f: &Frame, name: &str) -> R<V> {
        match self.find(f, name) {
            Some(c) => match &*c.borrow() {
                Some(v) => Ok(v.clone()),
                None => Err(Exc::Discard("reading a declaration before it is reached")),
            },
            None => match self.w.globals.get(name) {
                Some(v) => Ok(v.clone()),
                None => Err(Exc::Err("E3301")),
            },
        }
    }
    fn check_type(&mut self, f: &Frame, t: &Ty, v: &V) -> R<()> {
        let class = self.read(f, &t.name)?;
        self.w.assert_type(v, &class, t.null)
    }
    fn leave(&mut self, f: &Frame, v: V) -> R<V> {
        if let Some(t) = unsafe { &*f.ret } {
            self.check_type(f, t, &v)?;
        }
        Ok(v)
    }

    fn enter(&mut self, c: &Closure, params: &[Param], vals: Vec<V>) -> R<V> {
        let mut f = Frame { env: c.env.clone(), ret: c.ret, at: Where::Fn, ctor: c.kind == Kind::Ctor };
        for (p, v) in params.iter().zip(vals) {
            self.declare(&mut f, &p.name, cell(Some(v.clone())));
            if let Some(t) = &p.ty {
                self.check_type(&f, t, &v)?;
            }
        }
        let r = match c.body {
            Body::Exprs(b) => {
                let b = unsafe { &*b };
                self.hoist(&mut f, b);
                self.seq(&mut f, b)
            }
            Body::One(e) => {
                // A body that is a block shares the scope of the parameters.
                match unsafe { &*e } {
                    E::Block(b) => {
                        self.hoist(&mut f, b);
                        self.seq(&mut f, b)
                    }
                    e => {
                        self.hoist(&mut f, std::slice::from_ref(e));
                        self.eval(&mut f, e)
                    }
                }
            }
        };
        match r {
            Ok(v) => {
                if f.ctor {
                    return self.read(&f, "self");
                }
                self.leave(&f, v)
            }
            Err(Exc::Return(v)) => Ok(v),
            Err(Exc::Break) | Err(Exc::Continue) | Err(Exc::NullExit) => {
                Err(Exc::Monitor("control left a function in the reference interpreter".into()))
            }
            Err(e) => Err(e),
        }
    }
    fn hoist(&mut self, f: &mut Frame, b: &[E]) {
        for e in b {
            let mut e = e;
            while let E::Export(x) = e {
                e = x;
            }
            match e {
                E::Fn(d) => self.declare(f, &d.name, cell(None)),
                E::Class(d) => self.declare(f, &d.name, cell(None)),
                _ => {}
            }
        }
    }
    fn seq(&mut self, f: &mut Frame, b: &[E]) -> R<V> {
        let mut v = V::Unit;
        for e in b {
            v = self.eval(f, e)?;
        }
        Ok(v)
    }
    fn block(&mut self, f: &mut Frame, b: &[E]) -> R<V> {
        let saved = f.env.clone();
        self.hoist(f, b);
        let r = self.seq(f, b);
        f.env = saved;
        r
    }
    fn closure(&mut self, f: &Frame, name: &str, params: &[Param], ret: &Option<Ty>, body: Body, kind: Kind) -> V {
        let c = Closure { name, params, ret, body, env: f.env.clone(), kind };
        V::Fn(Rc::new(FnObj { kind: FnKind::Interp(c) }))
    }
    fn func(&mut self, f: &Frame, d: &FnD, kind: Kind) -> V {
        self.closure(f, &d.name, &d.params, &d.ret, Body::Exprs(&d.body[..]), kind)
    }

    fn eval(&mut self, f: &mut Frame, e: &E) -> R<V> {
        match e {
            E::NullProp(_) | E::ErrProp(_) | E::Field(..) | E::SuperAcc(..) | E::Call(..) | E::SuperCall(_) | E::Index(..) => {
                match self.link(f, e) {
                    Err(Exc::NullExit) => Ok(V::Null),
                    r => r,
                }
            }
            _ => self.plain(f, e),
        }
    }
    fn tick(&mut self, e: &E) -> R<()> {
        self.steps += 1;
        *self.kinds.entry(e.kind()).or_insert(0) += 1;
        if self.steps > self.limit {
            return Err(Exc::Discard("a long run"));
        }
        Ok(())
    }
    /// Evaluates an element of a chain; a null that ends the chain is thrown.
    fn link(&mut self, f: &mut Frame, e: &E) -> R<V> {
        match e {
            E::NullProp(x) => {
                self.tick(e)?;
                match self.link(f, x)? {
                    V::Null => Err(Exc::NullExit),
                    v => {
                        // The comparison with null may be anything's, but the built-in one decides.
                        Ok(v)
                    }
                }
            }
            E::ErrProp(x) => {
                self.tick(e)?;
                let v = self.link(f, x)?;
                let ok = self.w.get_field(&v, "is_ok")?;
                if truth(&ok, "E3000")? {
                    self.w.get_field(&v, "result")
                } else {
                    let v = self.leave(f, v)?;
                    Err(Exc::Return(v))
                }
            }
            E::Field(x, n) => {
                self.tick(e)?;
                let v = self.link(f, x)?;
                self.w.get_field(&v, n)
            }
            E::SuperAcc(c, n) => {
                self.tick(e)?;
                let k = self.read(f, c.as_deref().unwrap_or("super"))?;
                let this = self.read(f, "self")?;
                self.w.super_method(&k, &this, n)
            }
            E::SuperCall(args) => {
                self.tick(e)?;
                let this = self.read(f, "self")?;
                let mut v = vec![];
                for a in args {
                    v.push(self.eval(f, a)?);
                }
                match self.read(f, "super")? {
                    V::Class(k) => construct(self, &k, v, this),
                    _ => Err(Exc::Err("E3007")),
                }
            }
            E::Call(t, args) => {
                self.tick(e)?;
                let t = self.link(f, t)?;
                let mut v = vec![];
                for a in args {
                    v.push(self.eval(f, a)?);
                }
                call(self, &t, v)
            }
            E::Index(t, i) => {
                self.tick(e)?;
                let t = self.link(f, t)?;
                let i = self.eval(f, i)?;
                self.w.get_index(&t, &i)
            }
            _ => self.plain(f, e),
        }
    }
    fn plain(&mut self, f: &mut Frame, e: &E) -> R<V> {
        self.tick(e)?;
        Ok(match e {
            E::Null => V::Null,
            E::Unit => V::Unit,
            E::Bool(b) => V::Bool(*b),
            E::Int(i) => V::Int(*i),
            E::Float(x) => V::Float(*x),
            E::Str(s) => V::Str(s.as_str().into()),
            E::Id(n) => self.read(f, n)?,
            E::List(v) => {
                let mut out = vec![];
                for x in v {
                    out.push(self.eval(f, x)?);
                }
                arr(out)
            }
            E::Obj(v) => {
                let any = self.w.any.clone();
                let o = obj(&any);
                for (k, x) in v {
                    let x = self.eval(f, x)?;
                    self.w.set_field(&o, k, x)?;
                }
                o
            }
            E::Lam(p, b) => self.closure(f, "", p, &NO_TYPE, Body::One(&**b), Kind::Plain),
            E::Neg(x) => {
                let v = self.eval(f, x)?;
                model::negate(&v)?
            }
            E::Not(x) => {
                let v = self.eval(f, x)?;
                model::not(&v)?
            }
            E::Bin("&&", a, b) => {
                let a = self.eval(f, a)?;
                if !truth(&a, "E3102")? {
                    return Ok(a);
                }
                let b = self.eval(f, b)?;
                truth(&b, "E3102")?;
                b
            }
            E::Bin("||", a, b) => {
                let a = self.eval(f, a)?;
                if truth(&a, "E3102")? {
                    return Ok(a);
                }
                let b = self.eval(f, b)?;
                truth(&b, "E3102")?;
                b
            }
            E::Bin("??", a, b) => match self.eval(f, a)? {
                V::Null => self.eval(f, b)?,
                v => v,
            },
            E::Bin("|>", a, b) => {
                let g = self.eval(f, b)?;
                let a = self.eval(f, a)?;
                call(self, &g, vec![a])?
            }
            E::Bin(op, a, b) => {
                let a = self.eval(f, a)?;
                let b = self.eval(f, b)?;
                model::binary(self, op, a, b)?
            }
            E::Is(x, t) => {
                let v = self.eval(f, x)?;
                if t.null && matches!(v, V::Null) {
                    return Ok(V::Bool(true));
                }
                match self.read(f, &t.name)? {
                    V::Class(k) => V::Bool(self.w.is_a(&v, &k)),
                    _ => return Err(Exc::Err("E3007")),
                }
            }
            E::Asg(op, t, r) => self.assign(f, op, t, r)?,
            E::If(c, t, el) => {
                let c = self.eval(f, c)?;
                if truth(&c, "E3000")? {
                    self.block(f, t)?
                } else {
                    match el {
                        Some(x) => self.eval(f, x)?,
                        None => V::Unit,
                    }
                }
            }
            E::Block(b) => self.block(f, b)?,
            E::OrErr(x, n, b) => {
                let v = self.eval(f, x)?;
                let k = self.read(f, "Result")?;
                self.w.assert_type(&v, &k, false)?;
                let ok = self.w.get_field(&v, "is_ok")?;
                if truth(&ok, "E3000")? {
                    self.w.get_field(&v, "result")?
                } else {
                    let saved = f.env.clone();
                    let r = self.w.get_field(&v, "result")?;
                    self.declare(f, n, cell(Some(r)));
                    let r = self.block(f, b);
                    f.env = saved;
                    r?
                }
            }
            E::Let(p, _, x) => {
                let v = self.eval(f, x)?;
                match p {
                    Pat::One(n) => self.declare(f, n, cell(Some(v.clone()))),
                    Pat::Many(ns) => {
                        for n in ns {
                            let x = self.w.get_field(&v, n)?;
                            self.declare(f, n, cell(Some(x)));
                        }
                    }
                }
                v
            }
            E::Fn(d) => {
                let v = self.func(f, d, Kind::Plain);
                match self.find(f, &d.name) {
                    Some(c) => *c.borrow_mut() = Some(v.clone()),
                    None => return Err(Exc::Discard("a function that was not declared ahead")),
                }
                v
            }
            E::Op(d) => {
                let v = self.closure(f, "", &d.params, &d.ret, Body::Exprs(&d.body[..]), Kind::Plain);
                let name = model::op_name(d.op);
                if self.w.globals.contains_key(name) {
                    return Err(Exc::Err("E3300"));
                }
                self.w.globals.insert(name.into(), v);
                V::Unit
            }
            E::Class(d) => {
                let saved = f.env.clone();
                let r = self.class(f, d);
                f.env = saved;
                r?
            }
            E::Import(m, names, path) => {
                let v = self.load(path)?;
                for n in names {
                    let x = self.w.get_field(&v, n)?;
                    self.declare(f, n, cell(Some(x)));
                }
                if let Some(m) = m {
                    self.declare(f, m, cell(Some(v.clone())));
                }
                v
            }
            E::Export(x) => {
                let out = self.read(f, "#export")?;
                let v = self.eval(f, x)?;
                match &**x {
                    E::Let(Pat::Many(ns), _, _) => {
                        for n in ns {
                            let x = self.read(f, n)?;
                            self.w.set_field(&out, n, x)?;
                        }
                    }
                    E::Let(Pat::One(n), _, _) | E::Id(n) => self.w.set_field(&out, n, v.clone())?,
                    E::Fn(d) => self.w.set_field(&out, &d.name, v.clone())?,
                    E::Class(d) => self.w.set_field(&out, &d.name, v.clone())?,
                    _ => return Err(Exc::Discard("an export of something else")),
                }
                v
            }
            E::Loop(b) => loop {
                match self.block(f, b) {
                    Ok(_) | Err(Exc::Continue) => {}
                    Err(Exc::Break) => break V::Unit,
                    Err(x) => return Err(x),
                }
                self.tick(e)?;
            },
            E::While(c, b) => {
                let saved = f.env.clone();
                let r = loop {
                    f.env = saved.clone();
                    match self.while_step(f, c, b) {
                        Ok(true) | Err(Exc::Continue) => {}
                        Ok(false) | Err(Exc::Break) => break V::Unit,
                        Err(x) => return Err(x),
                    }
                    self.tick(e)?;
                };
                f.env = saved;
                r
            }
            E::For(n, src, b) => self.for_loop(f, e, n, src, b)?,
            E::Break => return Err(Exc::Break),
            E::Continue => return Err(Exc::Continue),
            E::Ret(x) => {
                if f.at != Where::Fn {
                    return Err(Exc::Discard("a return outside a function"));
                }
                let v = match x {
                    Some(x) => self.eval(f, x)?,
                    None if f.ctor => self.read(f, "self")?,
                    None => V::Unit,
                };
                let v = self.leave(f, v)?;
                return Err(Exc::Return(v));
            }
            E::NullProp(_) | E::ErrProp(_) | E::Field(..) | E::SuperAcc(..) | E::Call(..) | E::SuperCall(_) | E::Index(..) => {
                unreachable!()
            }
        })
    }
    fn while_step(&mut self, f: &mut Frame, c: &E, b: &[E]) -> R<bool> {
        let c = self.eval(f, c)?;
        if !truth(&c, "E3000")? {
            return Ok(false);
        }
        self.block(f, b)?;
        Ok(true)
    }
    fn for_loop(&mut self, f: &mut Frame, e: &E, n: &str, src: &E, b: &[E]) -> R<V> {
        let outer = f.env.clone();
        let r = match src {
            E::Bin(op @ (".." | "..="), lo, hi) => {
                let hi = self.eval(f, hi)?;
                let mut i = self.eval(f, lo)?;
                let start = f.env.clone();
                loop {
                    f.env = start.clone();
                    let c = model::binary(self, if *op == ".." { "<" } else { "<=" }, i.clone(), hi.clone())?;
                    if !truth(&c, "E3000")? {
                        break;
                    }
                    self.declare(f, n, cell(Some(i.clone())));
                    match self.block(f, b) {
                        Ok(_) | Err(Exc::Continue) => {}
                        Err(Exc::Break) => break,
                        Err(x) => return Err(x),
                    }
                    i = model::binary(self, "+", i, V::Int(1))?;
                    self.tick(e)?;
                }
                start
            }
            _ => {
                let v = self.eval(f, src)?;
                let it = self.w.get_field(&v, "iter")?;
                let it = call(self, &it, vec![])?;
                let next = self.w.get_field(&it, "next")?;
                let start = f.env.clone();
                loop {
                    f.env = start.clone();
                    let r = call(self, &next, vec![])?;
                    let done = self.w.get_field(&r, "is_done")?;
                    if truth(&done, "E3000")? {
                        break;
                    }
                    let v = self.w.get_field(&r, "value")?;
                    self.declare(f, n, cell(Some(v)));
                    match self.block(f, b) {
                        Ok(_) | Err(Exc::Continue) => {}
                        Err(Exc::Break) => break,
                        Err(x) => return Err(x),
                    }
                    self.tick(e)?;
                }
                start
            }
        };
        let _ = outer;
        f.env = r;
        Ok(V::Unit)
    }
    fn assign(&mut self, f: &mut Frame, op: &'static str, t: &E, r: &E) -> R<V> {
        let arith: Option<&'static str> = match op {
            "=" => None,
            "+=" => Some("+"),
            "-=" => Some("-"),
            "*=" => Some("*"),
            _ => Some("/"),
        };
        match t {
            E::Id(n) => {
                let c = match self.find(f, n) {
                    Some(c) => c,
                    None => return Err(Exc::Discard("assigning an undeclared variable")),
                };
                let v = match arith {
                    None => self.eval(f, r)?,
                    Some(op) => {
                        let old = self.read(f, n)?;
                        let r = self.eval(f, r)?;
                        model::binary(self, op, old, r)?
                    }
                };
                *c.borrow_mut() = Some(v);
                Ok(V::Unit)
            }
            E::Field(o, n) => {
                let o = self.eval(f, o)?;
                match arith {
                    None => {
                        let v = self.eval(f, r)?;
                        self.w.set_field(&o, n, v.clone())?;
                        Ok(v)
                    }
                    Some(op) => {
                        let old = self.w.get_field(&o, n)?;
                        let r = self.eval(f, r)?;
                        let v = model::binary(self, op, old, r)?;
                        self.w.set_field(&o, n, v)?;
                        Ok(V::Unit)
                    }
                }
            }
            E::Index(a, i) => {
                let a = self.eval(f, a)?;
                let i = self.eval(f, i)?;
                let v = match arith {
                    None => self.eval(f, r)?,
                    Some(op) => {
                        let old = self.w.get_index(&a, &i)?;
                        let r = self.eval(f, r)?;
                        model::binary(self, op, old, r)?
                    }
                };
                self.w.set_index(&a, &i, v)?;
                Ok(V::Unit)
            }
            _ => Err(Exc::Discard("assigning something else")),
        }
    }
    fn class(&mut self, f: &mut Frame, d: &ClassD) -> R<V> {
        let base = match &d.base {
            Some(b) => self.eval(f, b)?,
            None => self.read(f, "Any")?,
        };
        self.declare(f, "super", cell(Some(base.clone())));
        let v = self.w.inherit(&base, &d.name)?;
        match self.find(f, &d.name) {
            Some(c) => *c.borrow_mut() = Some(v.clone()),
            None => return Err(Exc::Discard("a class that was not declared ahead")),
        }
        let k: Rc<Class> = match &v {
            V::Class(k) => k.clone(),
            _ => unreachable!(),
        };
        for i in &d.items {
            match i {
                Item::Fn(m) => {
                    if m.params.first().map_or(false, |p| p.name == "self") {
                        let kind = if m.name == "new" { Kind::Ctor } else { Kind::Method };
                        let c = self.func(f, m, kind);
                        k.methods.borrow_mut().insert(m.name.clone(), c);
                    } else {
                        let c = self.func(f, m, Kind::Plain);
                        k.fields.borrow_mut().insert(m.name.clone(), c);
                    }
                }
                Item::Op(o) => {
                    let c = self.closure(f, "", &o.params, &o.ret, Body::Exprs(&o.body[..]), Kind::Method);
                    k.methods.borrow_mut().insert(model::op_name(o.op).into(), c);
                }
            }
        }
        Ok(v)
    }
    fn load(&mut self, path: &str) -> R<V> {
        if let Some(v) = self.loaded.get(path) {
            return Ok(v.clone());
        }
        let modules = self.modules;
        let prog = match modules.get(path) {
            Some(p) => p,
            None => return Err(Exc::Discard("no such module")),
        };
        let k = self.w.module.clone();
        let o = obj(&k);
        self.loaded.insert(path.into(), o.clone());
        if self.depth >= 150 {
            return Err(Exc::Discard("deep recursion"));
        }
        self.depth += 1;
        let r = self.run_module(prog, o.clone());
        self.depth -= 1;
        r?;
        Ok(o)
    }
}

impl Closure {
    #[allow(dead_code)]
    pub fn name(&self) -> &str {
        unsafe { &*self.name }
    }
}
#[allow(dead_code)]
fn shown(v: &V) -> String {
    render(v)
}
