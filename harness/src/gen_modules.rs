//! Programs of several modules.
use super::*;

pub type Sig = BTreeMap<String, T>;

/// A main program and the modules it may import.
pub fn bundle(r: &mut Rng, p: Profile) -> Prog {
    let prelude = p.prelude;
    let n = r.weighted(&[0, 5, 4, 3, 1]);
    let module = r.pct(55);
    let mut g = Gen::new(r, p.clone());
    let mut avail: Vec<(String, Sig)> = vec![];
    let mut modules = BTreeMap::new();
    for i in 0..n {
        let path = match g.r.below(4) {
            0 => format!("m{}", i),
            1 => format!("./lib/m{}.dm", i),
            2 => format!("../m{} x.dm", i),
            _ => format!("mé{}", i),
        };
        g.left = p.size / 2;
        let (items, sig) = g.file(true, &avail);
        modules.insert(path.clone(), items);
        avail.push((path, sig));
    }
    g.left = p.size;
    let (main, _) = g.file(module, &avail);
    Prog { module, main, modules, prelude }
}

impl<'r> Gen<'r> {
    /// One file: its items and what it exports.
    fn file(&mut self, module: bool, avail: &[(String, Sig)]) -> (Vec<E>, Sig) {
        self.cx.push(Cx { scopes: vec![], kind: Kind::Top, ret: T::Int, class: 0, loops: 0 });
        self.push(false);
        let mut out = vec![];
        let mut sig = Sig::new();
        let mut mods: Vec<(String, usize)> = vec![];
        let chunks = self.r.range(2, 5);
        for _ in 0..chunks {
            let share = (self.left / 2).max(8);
            if !avail.is_empty() && self.pct(75) {
                self.capped(share / 2, |g| g.import(avail, &mut mods, &mut out));
            }
            for _ in 0..2 {
                if !mods.is_empty() && self.pct(50) {
                    self.capped(10, |g| g.use_module(avail, &mods, &mut out));
                }
            }
            if !avail.is_empty() && self.pct(25) {
                self.capped(25, |g| g.nested_import(avail, &mut out));
            }
            let n = self.r.range(1, 3);
            let items = self.capped(share, |g| g.body(n, None));
            for e in items {
                let wrap = module && self.pct(45);
                match e {
                    E::Let(..) | E::Fn(_) | E::Class(_) if wrap => {
                        let names = match &e {
                            E::Let(Pat::Many(ns), ..) => ns.clone(),
                            E::Let(Pat::One(n), ..) => vec![n.clone()],
                            E::Fn(d) => vec![d.name.clone()],
                            E::Class(d) => vec![d.name.clone()],
                            _ => vec![],
                        };
                        for n in names {
                            let t = self.once(&n);
                            sig.insert(n, t);
                        }
                        out.push(E::Export(bx(e)));
                    }
                    e => out.push(e),
                }
            }
            if module {
                for _ in 0..self.r.below(3) {
                    if let Some((n, t)) = self.var(|_| true) {
                        out.push(E::Export(bx(id(&n))));
                        sig.insert(n.clone(), t);
                        // What comes later does not change what was exported.
                        if self.pct(40) && self.vars(|v| v.name == n && v.mutable).len() == 1 && t != T::Opaque {
                            let e = self.capped(6, |g| g.expr(t, 2));
                            out.push(asg(id(&n), e));
                        }
                    }
                }
                if self.pct(5) {
                    let n = *self.r.pick(&["Range", "Ok", "Result", "t"]);
                    if n != "t" || self.pct(20) {
                        out.push(E::Export(bx(id(n))));
                        sig.insert(n.into(), T::Opaque);
                    }
                }
            }
            if self.pct(40) {
                self.look(&mut out);
            }
        }
        if self.pct(50) && module && !out.is_empty() {
            // The module ends in something other than an export.
            out.push(call("t", vec![E::Str("end".into())]));
        }
        self.cx.pop();
        (out, sig)
    }
    /// The type of a variable of the outermost scope, if there is just one of that name.
    fn once(&self, name: &str) -> T {
        let mut it = self.cx[0].scopes[0].vars.iter().filter(|v| v.name == name);
        match (it.next(), it.next()) {
            (Some(v), None) => v.ty,
            _ => T::Opaque,
        }
    }
    fn import(&mut self, avail: &[(String, Sig)], mods: &mut Vec<(String, usize)>, out: &mut Vec<E>) {
        let k = self.r.below(avail.len());
        let (path, sig) = &avail[k];
        let mut names: Vec<String> = vec![];
        let all: Vec<&String> = sig.keys().collect();
        if !all.is_empty() {
            for _ in 0..self.r.below(4) {
                let n = self.r.pick(&all).to_string();
                let busy = self.cx.last().unwrap().scopes.last().unwrap().vars.iter().any(|v| v.name == n && !v.ready);
                if !names.contains(&n) && !busy {
                    names.push(n);
                }
            }
        }
        let m = if names.is_empty() || self.pct(35) {
            let m = if self.pct(20) { self.name() } else { self.fresh("m") };
            if names.contains(&m) {
                None
            } else {
                Some(m)
            }
        } else {
            None
        };
        if m.is_none() && names.is_empty() {
            return;
        }
        for n in &names {
            self.declare(n, sig[n], false);
        }
        if let Some(m) = &m {
            self.declare(m, T::Opaque, false);
            if m.starts_with('m') {
                mods.push((m.clone(), k));
            }
        }
        out.push(E::Import(m.clone(), names.clone(), path.clone()));
        for n in names.iter().chain(m.iter()) {
            if self.pct(50) {
                out.push(call("t", vec![id(n)]));
            }
        }
    }
    fn use_module(&mut self, avail: &[(String, Sig)], mods: &[(String, usize)], out: &mut Vec<E>) {
        let (m, k) = self.r.pick(mods).clone();
        let all: Vec<(String, T)> = avail[k].1.iter().map(|(n, t)| (n.clone(), *t)).collect();
        if all.is_empty() {
            out.push(call("t", vec![id(&m)]));
            return;
        }
        let (n, t) = self.r.pick(&all).clone();
        let f = field(id(&m), &n);
        match t {
            T::Fun(200) => {
                let i = self.classes.iter().position(|k| k.name == n).unwrap();
                let args = (0..self.classes[i].args).map(|_| self.expr(T::Int, 2)).collect();
                let e = E::Call(bx(f), args);
                let e = if self.pct(50) { bin("??", field(e, "x"), E::Int(1)) } else { e };
                out.push(call("t", vec![e]));
            }
            T::Fun(k) => {
                let args = (0..k).map(|_| self.expr(T::Int, 2)).collect();
                out.push(call("t", vec![E::Call(bx(f), args)]));
            }
            T::Opaque | T::Inst(_) => out.push(call("t", vec![f])),
            t => match self.r.below(4) {
                0 => {
                    let e = self.expr(t, 2);
                    out.push(asg(f.clone(), e));
                    out.push(call("t", vec![f]));
                }
                1 => {
                    let v = self.name();
                    let mu = self.pct(40);
                    // Without the module, its name would mean something else.
                    if v != m {
                        self.declare(&v, t, mu);
                        out.push(E::Let(Pat::One(v), mu, bx(f)));
                    }
                }
                2 if t == T::Int => {
                    let e = self.expr(t, 2);
                    out.push(E::Asg("+=", bx(f.clone()), bx(e)));
                    out.push(call("t", vec![f]));
                }
                _ => out.push(call("t", vec![f])),
            },
        }
    }
    fn nested_import(&mut self, avail: &[(String, Sig)], out: &mut Vec<E>) {
        let kind = self.r.below(4);
        if kind == 0 {
            self.cx.push(Cx { scopes: vec![], kind: Kind::Fn, ret: T::Int, class: 0, loops: 0 });
        }
        self.push(kind == 1);
        let mut b = vec![];
        let mut mods = vec![];
        self.import(avail, &mut mods, &mut b);
        if !mods.is_empty() {
            self.use_module(avail, &mods, &mut b);
        }
        if self.pct(30) {
            self.import(avail, &mut mods, &mut b);
        }
        let n = self.r.range(1, 2);
        let rest = self.body(n, if kind == 0 { Some(T::Int) } else { None });
        b.extend(rest);
        self.pop();
        match kind {
            0 => {
                self.cx.pop();
                let name = self.fresh("f");
                out.push(E::Fn(FnD { name: name.clone(), params: vec![], ret: None, body: b }));
                out.push(call("t", vec![call(&name, vec![])]));
                if self.pct(40) {
                    out.push(call("t", vec![call(&name, vec![])]));
                }
            }
            1 => {
                let v = self.fresh("i");
                out.push(E::For(v, bx(bin("..", E::Int(0), E::Int(2))), b));
            }
            2 => {
                let e = self.expr(T::Bool, 1);
                out.push(E::If(bx(e), b, None));
            }
            _ => out.push(E::Block(b)),
        }
    }
}
