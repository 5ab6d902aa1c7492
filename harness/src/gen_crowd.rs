//! Statements with a lot of one thing: exits, captures, branches, scopes, parameters and the like.
//! Small programs never have more than a few of each, and counts have limits and fast paths of their own.
use super::*;

fn t(e: E) -> E {
    call("t", vec![e])
}
fn lam(b: Vec<E>) -> E {
    E::Lam(vec![], bx(E::Block(b)))
}
fn param(n: &str) -> Param {
    Param { name: n.into(), ty: None }
}

impl<'r> Gen<'r> {
    /// Mostly around ten, sometimes more.
    fn many(&mut self) -> usize {
        match self.r.below(6) {
            0 => self.r.range(2, 5),
            1 => self.r.range(15, 36),
            _ => self.r.range(5, 18),
        }
    }
    pub(super) fn crowd(&mut self, out: &mut Vec<E>) {
        let c = self.p.classes as usize;
        let w = [
            2 + self.p.ctl as usize,
            2 + self.p.closures as usize,
            2,
            2 + self.p.closures as usize / 2,
            2 + self.p.scopes as usize / 2,
            2 + self.p.exprs as usize / 4,
            3,
            4,
            1 + self.p.loops as usize / 2,
            2,
            2 + self.p.nulls as usize / 2,
            if self.cx.len() == 1 && self.cx[0].scopes.len() < 3 { 1 + 2 * c } else { 0 },
            3,
            2 + self.p.types as usize / 10,
            3,
            2 + self.p.scopes as usize / 3,
            2 + self.p.exprs as usize / 4,
            if self.p.prelude { 1 + self.p.results as usize / 2 } else { 0 },
        ];
        self.capped(25, |g| match g.r.weighted(&w) {
            0 => g.many_exits(out),
            1 => g.many_captures(out),
            2 => g.many_branches(out),
            3 => g.many_functions_deep(out),
            4 => g.many_scopes(out),
            5 => g.many_operands(out),
            6 => g.many_items(out),
            7 => g.many_parameters(out, false),
            8 => g.many_loops_deep(out),
            9 => g.many_calls_deep(out),
            10 => g.many_links(out),
            11 => g.many_classes(out),
            12 => g.many_siblings(out),
            13 => g.many_parameters(out, true),
            14 => g.many_held(out),
            15 => g.many_locals(out),
            16 => g.many_literals(out),
            _ => g.many_errors(out),
        })
    }
    /// A loop with many breaks and continues, each the only one to fire at its turn.
    fn many_exits(&mut self, out: &mut Vec<E>) {
        let n = self.many();
        let k = self.fresh("k");
        let fs = self.fresh("f");
        let v = self.fresh("v");
        let captured = self.pct(50);
        if captured {
            out.push(let_(&fs, E::List(vec![])));
        }
        let breaks_from = self.r.below(n + 1);
        let mut b = vec![];
        let form = self.r.below(4);
        if form < 2 {
            out.push(let_mut(&k, E::Int(0)));
            b.push(E::Asg("+=", bx(id(&k)), bx(E::Int(1))));
        }
        let mut body = vec![let_mut(&v, bin("*", id(&k), E::Int(3)))];
        if captured {
            body.push(E::Call(bx(field(id(&fs), "push")), vec![lam(vec![E::Asg("+=", bx(id(&v)), bx(E::Int(1))), id(&v)])]));
        }
        for i in 0..n {
            let last = i + 1 == n || (i >= breaks_from && self.pct(50));
            // The breaks that come first in the text fire last.
            let at = if last { 2 * n - i } else { i + 1 };
            let mut x = vec![];
            if self.pct(40) {
                let w = self.fresh("w");
                x.push(let_(&w, bin("+", id(&v), E::Int(i as i64))));
                x.push(t(id(&w)));
                if captured && self.pct(30) {
                    x.push(E::Call(bx(field(id(&fs), "push")), vec![lam(vec![id(&w)])]));
                }
            }
            x.push(if last { E::Break } else { E::Continue });
            let cond = bin(if last { ">=" } else { "==" }, id(&k), E::Int(at as i64));
            body.push(match self.r.below(4) {
                0 => E::Block(vec![let_("z", id(&v)), E::If(bx(cond), x, None), t(id("z"))]),
                1 => E::If(bx(cond), vec![E::Block(x)], None),
                _ => E::If(bx(cond), x, None),
            });
            if self.pct(30) {
                body.push(t(bin("+", id(&k), E::Int(100 * i as i64))));
            }
        }
        body.push(t(id(&v)));
        b.extend(body);
        let lim = 2 * n as i64 + 2;
        out.push(match form {
            0 => E::While(bx(bin("<", id(&k), E::Int(lim))), b),
            1 => E::Loop(b),
            2 => E::For(k.clone(), bx(bin("..", E::Int(0), E::Int(lim))), b),
            _ => {
                let all = (0..n.min(12) as i64 * 2).map(E::Int).collect();
                E::For(k.clone(), bx(E::List(all)), b)
            }
        });
        if captured {
            let x = self.fresh("x");
            out.push(E::For(x.clone(), bx(id(&fs)), vec![t(E::Call(bx(id(&x)), vec![])), t(E::Call(bx(id(&x)), vec![]))]));
        }
    }
    /// Many variables, each changed by closures of its own.
    fn many_captures(&mut self, out: &mut Vec<E>) {
        let n = self.many();
        let names: Vec<String> = (0..n).map(|_| self.fresh("v")).collect();
        let fs = self.fresh("f");
        let mut b = vec![];
        let late = self.r.below(n);
        for (i, v) in names.iter().enumerate() {
            b.push(let_mut(v, E::Int(10 * i as i64)));
            if i == late {
                b.push(let_(&fs, E::List(vec![])));
            }
        }
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = self.r.below(i + 1);
            order.swap(i, j);
        }
        // One function over all of them, and some over a few.
        let all = order.iter().map(|i| id(&names[*i])).collect();
        b.push(E::Call(bx(field(id(&fs), "push")), vec![lam(vec![E::List(all)])]));
        for i in &order {
            let v = &names[*i];
            let o = &names[self.r.below(n)];
            let f = match self.r.below(3) {
                0 => lam(vec![E::Asg("+=", bx(id(v)), bx(id(o))), id(v)]),
                1 => lam(vec![E::Call(bx(lam(vec![asg(id(v), bin("+", id(o), E::Int(1))), id(v)])), vec![])]),
                _ => lam(vec![bin("-", id(v), id(o))]),
            };
            b.push(E::Call(bx(field(id(&fs), "push")), vec![f]));
        }
        if self.pct(50) {
            let v = &names[self.r.below(n)];
            b.push(E::Asg("+=", bx(id(v)), bx(E::Int(1000))));
        }
        b.push(id(&fs));
        let g = self.fresh("g");
        let x = self.fresh("x");
        if self.pct(50) {
            out.push(let_(&g, E::Block(b)));
        } else {
            out.push(let_(&g, E::Call(bx(lam(b)), vec![])));
        }
        for _ in 0..2 {
            out.push(E::For(x.clone(), bx(id(&g)), vec![t(E::Call(bx(id(&x)), vec![]))]));
        }
    }
    fn many_branches(&mut self, out: &mut Vec<E>) {
        let n = self.many();
        let k = self.fresh("k");
        let mut e = if self.pct(70) { Some(bx(E::Block(vec![E::Int(-1)]))) } else { None };
        let value = e.is_some();
        for i in (0..n).rev() {
            let mut b = vec![];
            if self.pct(30) {
                let v = self.fresh("v");
                b.push(let_(&v, E::Int(i as i64 + 50)));
                b.push(t(id(&v)));
            }
            b.push(E::Int(i as i64));
            let c = bin("==", id(&k), E::Int(i as i64));
            let c = self.maybe_traced(c);
            e = Some(bx(E::If(bx(c), b, e)));
        }
        let e = *e.unwrap();
        let e = if value { t(e) } else { e };
        out.push(E::For(k, bx(bin("..=", E::Int(0), E::Int(n as i64))), vec![e]));
    }
    /// Functions within functions, the innermost using variables of every level.
    fn many_functions_deep(&mut self, out: &mut Vec<E>) {
        let n = self.r.range(3, 9);
        let vs: Vec<String> = (0..n).map(|_| self.fresh("v")).collect();
        let a = &vs[self.r.below(n)];
        let mut inner = vec![E::Asg("+=", bx(id(a)), bx(E::Int(5)))];
        for _ in 0..3 {
            inner.push(t(id(&vs[self.r.below(n)])));
        }
        inner.push(vs.iter().map(|v| id(v)).reduce(|x, y| bin("+", x, y)).unwrap());
        let mut f = inner;
        for (i, v) in vs.iter().enumerate().rev() {
            let before = let_mut(v, E::Int(i as i64 + 1));
            let shadow = self.pct(20) && i > 0;
            let mut b = vec![];
            if shadow {
                // A block of the same name that is gone before the function is made.
                b.push(E::Block(vec![let_(v, E::Int(99)), t(id(v))]));
            }
            b.push(before);
            let h = self.fresh("h");
            match self.r.below(3) {
                0 => {
                    b.push(E::Fn(FnD { name: h.clone(), params: vec![], ret: None, body: f }));
                    b.push(bin("+", call(&h, vec![]), id(v)));
                }
                1 => {
                    b.push(let_(&h, lam(f)));
                    b.push(call(&h, vec![]));
                    b.push(call(&h, vec![]));
                    b.push(t(id(v)));
                    b.push(id(v));
                }
                _ => b.push(E::Call(bx(lam(f)), vec![])),
            }
            f = b;
        }
        out.push(t(E::Block(f)));
    }
    fn many_scopes(&mut self, out: &mut Vec<E>) {
        let n = self.r.range(5, 24);
        let name = self.r.pick(NAMES).to_string();
        let mut b = vec![t(id(&name))];
        for i in 0..n {
            let other = self.fresh("v");
            let m = self.pct(50);
            let init = if i + 1 == n || self.pct(30) { E::Int(i as i64) } else { E::Int(1000 + i as i64) };
            let mut x = vec![E::Let(Pat::One(name.clone()), m, bx(init)), let_(&other, bin("*", id(&name), E::Int(2)))];
            x.push(E::Block(b));
            if m && self.pct(40) {
                x.push(E::Asg("+=", bx(id(&name)), bx(id(&other))));
            }
            x.push(t(bin("+", id(&name), id(&other))));
            b = x;
            if self.pct(30) {
                b = vec![E::If(bx(E::Bool(true)), b, None)];
            }
        }
        out.push(E::Block(b));
    }
    fn many_operands(&mut self, out: &mut Vec<E>) {
        let n = self.many();
        let kind = self.r.below(3);
        let mut e = self.expr(T::Int, 1);
        for i in 0..n {
            let x = if self.pct(50) { E::Int(i as i64 % 9 + 1) } else { self.expr(T::Int, 0) };
            let x = self.maybe_traced(x);
            let op = *self.r.pick(&["+", "-", "*"]);
            e = match kind {
                0 => bin(op, e, x),
                1 => bin(op, x, e),
                _ => {
                    if self.pct(50) {
                        bin(op, e, x)
                    } else {
                        bin(op, x, e)
                    }
                }
            };
        }
        out.push(t(e));
    }
    fn many_items(&mut self, out: &mut Vec<E>) {
        let n = self.many();
        let o = self.fresh("o");
        if self.pct(40) {
            let v = (0..n).map(|i| t(E::Int(i as i64))).collect();
            out.push(let_(&o, E::List(v)));
            let i = self.r.below(n) as i64;
            out.push(t(E::Index(bx(id(&o)), bx(E::Int(i)))));
            out.push(E::Asg("-=", bx(E::Index(bx(id(&o)), bx(E::Int(i)))), bx(E::Int(3))));
            out.push(t(id(&o)));
            return;
        }
        let names: Vec<String> = (0..n).map(|_| self.fresh("p")).collect();
        let vals: Vec<(String, E)> = names.iter().enumerate().map(|(i, k)| (k.clone(), t(E::Int(i as i64 + 7)))).collect();
        out.push(let_(&o, E::Obj(vals)));
        let mut pick: Vec<String> = names.iter().filter(|_| self.r.pct(60)).cloned().collect();
        if pick.is_empty() {
            pick.push(names[0].clone());
        }
        for i in (1..pick.len()).rev() {
            let j = self.r.below(i + 1);
            pick.swap(i, j);
        }
        let m = self.pct(50);
        let mut b = vec![E::Let(Pat::Many(pick.clone()), m, bx(t(id(&o))))];
        for _ in 0..4 {
            let p = &pick[self.r.below(pick.len())];
            if m {
                b.push(E::Asg("+=", bx(id(p)), bx(E::Int(1))));
            }
            b.push(t(id(p)));
        }
        b.push(t(E::List(pick.iter().map(|p| id(p)).collect())));
        out.push(E::Block(b));
    }
    /// A function, method, or lambda with many parameters, perhaps annotated.
    fn many_parameters(&mut self, out: &mut Vec<E>, typed: bool) {
        let n = self.r.range(3, 16);
        let mut types = vec![];
        let ps: Vec<Param> = (0..n)
            .map(|_| {
                let name = self.fresh("p");
                let ty = *self.r.pick(&[T::Int, T::Bool, T::Str, T::NInt, T::Arr]);
                types.push(ty);
                let ty = if typed { self.annotation(ty) } else { None };
                Param { name, ty }
            })
            .collect();
        let tr = *self.r.pick(&[T::Int, T::Bool, T::Str, T::NInt]);
        let ret = if typed {
            let null = self.pct(40);
            let name = match tr {
                T::Bool => "Bool",
                T::Str => "String",
                _ => "Int",
            };
            if self.pct(10) { Some(Ty { name: "Bool".into(), null }) } else { Some(Ty { name: name.into(), null: null || tr == T::NInt }) }
        } else {
            None
        };
        let method = self.cx.len() == 1 && self.cx[0].scopes.len() < 3 && self.pct(45);
        self.cx.push(Cx { scopes: vec![], kind: Kind::Fn, ret: tr, class: 0, loops: 1 });
        self.push(false);
        for (p, ty) in ps.iter().zip(&types) {
            self.declare(&p.name, *ty, false);
        }
        let mut body = vec![t(E::List(ps.iter().map(|p| id(&p.name)).collect()))];
        if self.pct(50) {
            let rest = self.body(1, None);
            body.extend(rest);
        }
        if self.pct(25) {
            let c = self.expr(T::Bool, 1);
            let v = self.expr(tr, 1);
            body.push(E::If(bx(c), vec![E::Ret(Some(bx(v)))], None));
        }
        let v = self.expr(tr, 1);
        body.push(v);
        self.cx.pop();
        let f = self.fresh("f");
        let wrong = self.p.wrong * 4;
        let mut args: Vec<E> = vec![];
        for ty in &types {
            let ty = if self.pct(wrong) { T::Bool } else { *ty };
            args.push(self.expr(ty, 0));
        }
        for a in args.iter_mut() {
            if self.r.pct(30) {
                *a = t(a.clone());
            }
        }
        if method {
            let c = self.fresh("C");
            let mut mps = vec![param("self")];
            mps.extend(ps);
            let how = self.r.below(3);
            let d = match how {
                0 => {
                    // The constructor.
                    body.pop();
                    body.retain(|x| !matches!(x, E::If(_, b, _) if matches!(b.last(), Some(E::Ret(_)))));
                    FnD { name: "new".into(), params: mps, ret: None, body }
                }
                1 => FnD { name: f.clone(), params: mps[1..].to_vec(), ret, body },
                _ => FnD { name: f.clone(), params: mps, ret, body },
            };
            if how == 0 && has_exit(&d.body) {
                return;
            }
            out.push(E::Class(ClassD { name: c.clone(), base: None, items: vec![Item::Fn(d)] }));
            out.push(t(match how {
                0 => call(&c, args),
                1 => E::Call(bx(field(id(&c), &f)), args),
                _ => E::Call(bx(field(call(&c, vec![]), &f)), args),
            }));
            return;
        }
        if typed || self.pct(60) {
            out.push(E::Fn(FnD { name: f.clone(), params: ps, ret, body }));
        } else {
            out.push(let_(&f, E::Lam(ps, bx(E::Block(body)))));
        }
        out.push(t(call(&f, args)));
    }
    fn many_loops_deep(&mut self, out: &mut Vec<E>) {
        let n = self.r.range(3, 6);
        let vs: Vec<String> = (0..n).map(|_| self.fresh("i")).collect();
        let mut b = vec![t(vs.iter().map(|v| id(v)).reduce(|x, y| bin("+", bin("*", x, E::Int(2)), y)).unwrap())];
        for v in vs.iter().rev() {
            let mut x = vec![];
            let w = self.fresh("w");
            x.push(let_(&w, bin("+", id(v), E::Int(1))));
            match self.r.below(4) {
                0 => x.push(E::If(bx(bin("==", id(&w), E::Int(1))), vec![E::Continue], None)),
                1 => x.push(E::If(bx(bin("==", id(&w), E::Int(2))), vec![t(id(v)), E::Break], None)),
                _ => {}
            }
            x.extend(b);
            if self.pct(40) {
                x.push(t(id(&w)));
            }
            if self.pct(20) {
                x.push(E::Break);
            }
            b = match self.r.below(4) {
                0 => {
                    let mut y = vec![E::Asg("+=", bx(id(v)), bx(E::Int(1)))];
                    y.extend(x);
                    vec![let_mut(v, E::Int(-1)), E::While(bx(bin("<", id(v), E::Int(1))), y)]
                }
                1 => {
                    let mut y =
                        vec![E::Asg("+=", bx(id(v)), bx(E::Int(1))), E::If(bx(bin(">", id(v), E::Int(1))), vec![E::Break], None)];
                    y.extend(x);
                    vec![let_mut(v, E::Int(-1)), E::Loop(y)]
                }
                2 => vec![E::For(v.clone(), bx(E::List(vec![E::Int(0), E::Int(1)])), x)],
                _ => vec![E::For(v.clone(), bx(bin("..", E::Int(0), E::Int(2))), x)],
            };
            if self.pct(25) {
                b.push(t(E::Int(-7)));
            }
        }
        out.push(E::Block(b));
    }
    fn many_calls_deep(&mut self, out: &mut Vec<E>) {
        let n = self.r.range(5, 24);
        let mut e = self.expr(T::Int, 1);
        for i in 0..n {
            let k = E::Int(i as i64);
            e = match self.r.below(7) {
                0 => t(bin("+", k, e)),
                1 => bin("-", e, t(k)),
                2 => E::Block(vec![e]),
                3 => E::If(bx(E::Bool(true)), vec![e], Some(bx(E::Block(vec![k])))),
                4 => E::Call(bx(E::Lam(vec![param("q")], bx(bin("+", id("q"), k)))), vec![e]),
                5 => E::Index(bx(E::List(vec![k, e])), bx(E::Int(1))),
                _ => field(E::Obj(vec![("u".into(), e), ("w".into(), k)]), "u"),
            };
        }
        out.push(t(e));
    }
    /// Long chains of `?.`, `??`, `&&`, `||` and `|>`.
    fn many_links(&mut self, out: &mut Vec<E>) {
        let n = self.many();
        let stop = self.r.below(n + 2);
        let k = self.fresh("o");
        match self.r.below(4) {
            0 => {
                let mut v = E::Int(5);
                for i in (0..n).rev() {
                    v = if i == stop { E::Null } else { E::Obj(vec![("o".into(), v)]) };
                }
                out.push(let_(&k, v));
                let mut e = id(&k);
                for _ in 0..n {
                    e = field(E::NullProp(bx(e)), "o");
                }
                out.push(t(e));
            }
            1 => {
                let mut e = t(if stop == 0 { E::Int(0) } else { E::Null });
                for i in 0..n {
                    let x = t(if i + 1 >= stop { E::Int(i as i64) } else { E::Null });
                    e = if self.pct(70) { bin("??", e, x) } else { bin("??", x, e) };
                }
                out.push(t(e));
            }
            2 => {
                let mut e = t(E::Bool(self.pct(50)));
                for _ in 0..n {
                    let x = t(E::Bool(self.pct(50)));
                    let op = *self.r.pick(&["&&", "||"]);
                    e = if self.pct(70) { bin(op, e, x) } else { bin(op, x, e) };
                }
                out.push(t(e));
            }
            _ => {
                let mut e = t(E::Int(1));
                for i in 0..n.min(14) {
                    let q = if self.pct(50) { bin("+", id("q"), E::Int(i as i64)) } else { t(id("q")) };
                    e = bin("|>", e, E::Lam(vec![param("q")], bx(q)));
                }
                out.push(t(e));
            }
        }
    }
    /// A line of classes, each calling the one below it, or a class of many members.
    fn many_classes(&mut self, out: &mut Vec<E>) {
        let n = self.r.range(3, 9);
        if self.pct(40) {
            let c = self.fresh("C");
            let n = self.r.range(4, 20);
            let mut items = vec![];
            for i in 0..n {
                let ps = if self.pct(60) { vec![param("self"), param("z")] } else { vec![param("z")] };
                let own = if ps.len() == 2 { bin("??", field(id("self"), &format!("g{}", self.r.below(n))), E::Int(3)) } else { E::Int(1) };
                let body = if ps.len() == 2 && self.pct(50) {
                    vec![asg(field(id("self"), &format!("g{}", i)), id("z")), t(own), id("z")]
                } else {
                    vec![t(own), bin("+", id("z"), E::Int(i as i64))]
                };
                items.push(Item::Fn(FnD { name: format!("f{}", i), params: ps, ret: None, body }));
            }
            let is_method: Vec<bool> =
                items.iter().map(|x| matches!(x, Item::Fn(f) if f.params.len() == 2)).collect();
            out.push(E::Class(ClassD { name: c.clone(), base: None, items }));
            let o = self.fresh("o");
            out.push(let_(&o, call(&c, vec![])));
            for _ in 0..5 {
                let i = self.r.below(n);
                let on = if is_method[i] { id(&o) } else { id(&c) };
                out.push(t(E::Call(bx(field(on, &format!("f{}", i))), vec![E::Int(i as i64 * 3)])));
            }
            return;
        }
        let names: Vec<String> = (0..n).map(|_| self.fresh("C")).collect();
        let ctor = self.pct(60);
        let mut has = vec![];
        for (i, c) in names.iter().enumerate() {
            let mut items = vec![];
            if ctor {
                let mut b = vec![];
                if i > 0 {
                    b.push(E::SuperCall(vec![bin("+", t(id("z")), E::Int(1))]));
                }
                b.push(asg(field(id("self"), &format!("x{}", i)), id("z")));
                items.push(Item::Fn(FnD { name: "new".into(), params: vec![param("self"), param("z")], ret: None, body: b }));
            }
            let own = i == 0 || self.pct(75);
            has.push(own);
            if own {
                let mut b = vec![t(E::Int(i as i64))];
                let skip = if i > 0 { self.r.below(i) } else { 0 };
                b.push(if i == 0 {
                    bin("??", field(id("self"), "x0"), E::Int(-3))
                } else if self.pct(25) {
                    E::Call(bx(E::SuperAcc(Some(names[skip].clone()), "m".into())), vec![])
                } else if self.pct(25) {
                    E::Call(bx(lam(vec![E::Call(bx(E::SuperAcc(None, "m".into())), vec![])])), vec![])
                } else {
                    bin("+", E::Call(bx(E::SuperAcc(None, "m".into())), vec![]), E::Int(i as i64))
                });
                items.push(Item::Fn(FnD { name: "m".into(), params: vec![param("self")], ret: None, body: b }));
            }
            if self.pct(40) {
                let b = vec![E::Call(bx(field(id("self"), "m")), vec![])];
                items.push(Item::Fn(FnD { name: format!("k{}", i), params: vec![param("self")], ret: None, body: b }));
            }
            let base = if i > 0 { Some(bx(id(&names[i - 1]))) } else { None };
            out.push(E::Class(ClassD { name: c.clone(), base, items }));
        }
        let o = self.fresh("o");
        let i = if self.pct(50) { n - 1 } else { self.r.below(n) };
        out.push(let_(&o, call(&names[i], if ctor { vec![E::Int(20)] } else { vec![] })));
        out.push(t(E::Call(bx(field(id(&o), "m")), vec![])));
        out.push(t(id(&o)));
        for c in names.iter() {
            out.push(t(E::Is(bx(id(&o)), Ty { name: c.clone(), null: false })));
        }
    }
    /// Functions of one block that call those after them.
    fn many_siblings(&mut self, out: &mut Vec<E>) {
        let n = self.many();
        let names: Vec<String> = (0..n).map(|_| self.fresh("s")).collect();
        let m = self.fresh("v");
        let mut b = vec![];
        let mut ds = vec![];
        for (i, f) in names.iter().enumerate() {
            let next = if i + 1 < n { call(&names[i + 1], vec![bin("+", id("z"), E::Int(1))]) } else { id("z") };
            let mut body = vec![];
            if self.pct(40) {
                body.push(E::Asg("+=", bx(id(&m)), bx(id("z"))));
            }
            if self.pct(30) {
                body.push(t(id(&m)));
            }
            body.push(next);
            ds.push(E::Fn(FnD { name: f.clone(), params: vec![param("z")], ret: None, body }));
        }
        if self.pct(50) {
            ds.reverse();
        }
        b.push(let_mut(&m, E::Int(0)));
        b.extend(ds);
        b.push(t(call(&names[0], vec![E::Int(1)])));
        let i = self.r.below(n);
        b.push(t(call(&names[i], vec![E::Int(1)])));
        b.push(t(id(&m)));
        out.push(E::Block(b));
    }
    /// A function with many `!!`, the first error leaving it.
    /// A literal, and perhaps others that are almost the same.
    fn like(&mut self) -> Vec<E> {
        let mut v = vec![];
        match self.r.below(4) {
            0 => {
                let base = *self.r.pick(&[0i64, 1, 127, 128, 255, 256, 32767, 32768, 65536, 1 << 31, 1 << 32, 1 << 53, (1 << 53) + 1, i64::MAX - 1]);
                for _ in 0..self.r.range(1, 4) {
                    let d = self.r.below(3) as i64 - 1;
                    v.push(E::Int(base.saturating_add(d).max(0)));
                }
                if self.pct(30) {
                    v.push(E::Float(base as f64));
                }
            }
            1 => {
                let base = *self.r.pick(&[0.0, 1.0, 0.3, 0.1, 2.0, 100.5, 1e-10, 1e10, 16777217.0, 1e16, 123456.789]);
                let mut bits = f64::to_bits(base);
                for _ in 0..self.r.range(1, 4) {
                    v.push(E::Float(f64::from_bits(bits)));
                    bits += *self.r.pick(&[0u64, 1, 1, 2, 1 << 20, 1 << 29]);
                }
                if self.pct(30) {
                    v.push(E::Int(base as i64));
                }
            }
            2 => {
                let base = self.r.pick(&["", "a", "abc", "A b", "é", "1", "true", "null", "0.5", "self", "next", "#f", "x".repeat(300).as_str()]).to_string();
                for _ in 0..self.r.range(1, 4) {
                    let mut x = base.clone();
                    match self.r.below(8) {
                        0 => x.push(' '),
                        1 => x.insert(0, ' '),
                        2 => x = x.to_uppercase(),
                        3 => x.push('e'),
                        4 => x.push_str("e\u{301}"),
                        5 => drop(x.pop()),
                        6 => x.push('\u{200b}'),
                        _ => {}
                    }
                    v.push(E::Str(x));
                }
            }
            _ => v.extend([E::Null, E::Unit, E::Bool(true), E::Bool(false), E::Int(0), E::Int(1), E::Float(0.0), E::Float(1.0)]),
        }
        v
    }
    fn many_literals(&mut self, out: &mut Vec<E>) {
        let mut v = vec![];
        for _ in 0..self.r.range(1, 8) {
            v.extend(self.like());
        }
        for i in (1..v.len()).rev() {
            let j = self.r.below(i + 1);
            v.swap(i, j);
        }
        v.truncate(60);
        let n = v.len();
        match self.r.below(4) {
            0 => out.push(t(E::List(v))),
            1 => v.into_iter().for_each(|x| out.push(t(x))),
            2 => {
                let f = lam(v.into_iter().map(t).collect());
                out.push(t(E::Call(bx(f), vec![])));
            }
            _ => {
                for _ in 0..n.min(12) {
                    let (a, b) = (v[self.r.below(n)].clone(), v[self.r.below(n)].clone());
                    out.push(t(bin(*self.r.pick(&["==", "!="]), a, b)));
                }
            }
        }
    }
    /// Many variables of one scope or a few, any of them used later, here or from closures and inner blocks.
    fn many_locals(&mut self, out: &mut Vec<E>) {
        let n = *self.r.pick(&[20, 35, 50, 70, 100, 140, 180]);
        let mut b: Vec<E> = vec![];
        let mut vs: Vec<(String, bool)> = vec![];
        for i in 0..n {
            let v = self.fresh("v");
            let m = self.pct(40);
            let x = if self.pct(20) && i > 0 { id(&vs[self.r.below(i)].0) } else { E::Int(i as i64 % 50) };
            match self.r.below(12) {
                0 => {
                    let w = self.fresh("w");
                    b.push(E::Fn(FnD { name: w, params: vec![], ret: None, body: vec![E::Int(i as i64)] }));
                }
                1 => {
                    let (w, z) = (self.fresh("w"), self.fresh("z"));
                    b.push(E::Let(Pat::Many(vec![w.clone(), z.clone()]), m, bx(E::Obj(vec![(z.clone(), x.clone()), (w.clone(), E::Int(5))]))));
                    vs.push((w, m));
                    vs.push((z, m));
                }
                _ => {}
            }
            b.push(E::Let(Pat::One(v.clone()), m, bx(x)));
            vs.insert(i.min(vs.len()), (v, m));
        }
        for _ in 0..self.r.range(4, 14) {
            let k = match self.r.below(4) {
                0 => self.r.below(vs.len().min(4)),
                _ => self.r.below(vs.len()),
            };
            let (v, m) = vs[k].clone();
            let u = if m { E::Asg("+=", bx(id(&v)), bx(E::Int(1))) } else { t(id(&v)) };
            b.push(match self.r.below(5) {
                0 => E::Block(vec![u, t(id(&v))]),
                1 => E::Call(bx(lam(vec![u, t(id(&v))])), vec![]),
                2 => E::Call(bx(lam(vec![t(E::Call(bx(lam(vec![u, id(&v)])), vec![]))])), vec![]),
                _ => u,
            });
            b.push(t(id(&v)));
        }
        match self.r.below(3) {
            0 => out.push(E::Call(bx(lam(b)), vec![])),
            1 => {
                let f = self.fresh("f");
                out.push(E::Fn(FnD { name: f.clone(), params: vec![], ret: None, body: b }));
                out.push(t(call(&f, vec![])));
            }
            _ => out.push(E::Block(b)),
        }
    }
    /// Ways out of the middle of an expression that holds many half-computed values.
    fn many_held(&mut self, out: &mut Vec<E>) {
        let k = self.fresh("k");
        let in_loop = self.pct(40);
        let ways = self.r.range(1, 4);
        // What stands innermost: a way out for some turns, a value for the others.
        let mut x = vec![];
        for i in 0..ways {
            let exit = if in_loop {
                if self.pct(50) { E::Break } else { E::Continue }
            } else {
                match self.r.below(4) {
                    0 => E::Ret(None),
                    1 if self.p.prelude => E::ErrProp(bx(call("Err", vec![E::Int(i as i64)]))),
                    _ => E::Ret(Some(bx(self.expr(T::Int, 1)))),
                }
            };
            let mut b = vec![];
            if self.pct(30) {
                let v = self.fresh("v");
                b.push(let_(&v, E::Int(i as i64)));
                b.push(if self.pct(50) { t(E::Call(bx(lam(vec![id(&v)])), vec![])) } else { t(id(&v)) });
            }
            b.push(exit);
            x.push(E::If(bx(bin("==", id(&k), E::Int(i as i64 + 1))), b, None));
        }
        x.push(t(bin("+", id(&k), E::Int(7))));
        let mut e = E::Block(x);
        for _ in 0..self.r.range(1, 4) {
            let n = match self.r.below(4) {
                0 => self.r.range(1, 3),
                1 => self.r.range(20, 70),
                _ => self.r.range(3, 20),
            };
            let at = if self.pct(60) { n } else { self.r.below(n + 1) };
            let kind = self.r.below(6);
            let item = |g: &mut Self, i: usize| {
                let x = E::Int(i as i64 % 7);
                if g.pct(15) { t(x) } else { x }
            };
            e = match kind {
                0 => {
                    let mut v: Vec<E> = (0..n).map(|i| item(self, i)).collect();
                    v.insert(at, e);
                    E::Index(bx(E::List(v)), bx(E::Int(at as i64)))
                }
                1 => {
                    let mut v: Vec<E> = (0..n).map(|i| item(self, i)).collect();
                    v.insert(at, e);
                    let ps: Vec<Param> = (0..=n).map(|i| param(&format!("a{}", i))).collect();
                    E::Call(bx(E::Lam(ps, bx(bin("-", id(&format!("a{}", at)), id("a0"))))), v)
                }
                2 => {
                    for i in 0..n {
                        let l = item(self, i);
                        e = bin(*self.r.pick(&["+", "-", "*"]), l, e);
                    }
                    e
                }
                3 => {
                    let n = n.min(15);
                    let at = at.min(n);
                    let mut v: Vec<(String, E)> = (0..n).map(|i| (format!("b{}", i), item(self, i))).collect();
                    v.insert(at, ("res".into(), e));
                    field(E::Obj(v), "res")
                }
                4 => {
                    let v = self.fresh("v");
                    E::Block(vec![let_mut(&v, E::Int(3)), E::Asg("+=", bx(id(&v)), bx(e)), id(&v)])
                }
                _ => {
                    let v = self.fresh("v");
                    let l = self.fresh("l");
                    let mut b = vec![let_(&l, E::List(vec![E::Int(1), E::Int(2)])), let_(&v, E::Int(0))];
                    b.push(E::Asg("-=", bx(E::Index(bx(id(&l)), bx(id(&v)))), bx(e)));
                    b.push(E::Index(bx(id(&l)), bx(E::Int(0))));
                    E::Block(b)
                }
            };
        }
        let body = vec![t(e)];
        let lim = E::Int(ways as i64 + 2);
        if in_loop {
            let src = if self.pct(50) { bin("..", E::Int(0), lim) } else { E::List((0..ways as i64 + 2).map(E::Int).collect()) };
            let l = E::For(k, bx(src), body);
            out.push(if self.pct(50) { l } else { t(E::Call(bx(lam(vec![l, E::Int(5)])), vec![])) });
        } else {
            let f = self.fresh("f");
            out.push(E::Fn(FnD { name: f.clone(), params: vec![param(&k)], ret: None, body }));
            let i = self.fresh("i");
            out.push(E::For(i.clone(), bx(bin("..", E::Int(0), lim)), vec![t(call(&f, vec![id(&i)]))]));
        }
    }
    fn many_errors(&mut self, out: &mut Vec<E>) {
        let n = self.r.range(3, 16);
        let f = self.fresh("r");
        let mut body = vec![];
        let mut sum = vec![];
        for i in 0..n {
            let c = E::If(
                bx(bin("==", id("z"), E::Int(i as i64))),
                vec![call("Err", vec![E::Int(i as i64)])],
                Some(bx(E::Block(vec![call("Ok", vec![t(E::Int(i as i64))])]))),
            );
            let e = E::ErrProp(bx(E::Block(vec![c])));
            if self.pct(60) {
                let v = self.fresh("v");
                body.push(let_(&v, e));
                sum.push(id(&v));
            } else {
                sum.push(e);
            }
        }
        body.push(call("Ok", vec![sum.into_iter().reduce(|x, y| bin("+", x, y)).unwrap()]));
        out.push(E::Fn(FnD { name: f.clone(), params: vec![param("z")], ret: None, body }));
        for _ in 0..2 {
            let i = self.r.below(n + 1) as i64;
            out.push(t(call(&f, vec![E::Int(i)])));
        }
    }
}

/// Does a body return something?
fn has_exit(b: &[E]) -> bool {
    b.iter().any(|e| {
        if matches!(e, E::Ret(_)) {
            return true;
        }
        let mut kids = vec![];
        e.each_child(&mut |c| kids.push(c.clone()));
        has_exit(&kids)
    })
}
