//! K01: the static rules.
use crate::props::lots;
use crate::ast::*;
use crate::exec;
use crate::fw::*;
use crate::names;
use crate::parse::parse;
use crate::props::code::{limit_code, tree};
use crate::props::syntax::located;
use crate::props::text::ref_position;
use crate::rng::Rng;
use crate::synth::Syn;
use crate::{print, stat};

fn param(n: &str) -> Param {
    Param { name: n.into(), ty: None }
}
fn typed(n: &str, t: &str) -> Param {
    Param { name: n.into(), ty: Some(Ty { name: t.into(), null: false }) }
}
fn func(name: &str, params: Vec<Param>, body: Vec<E>) -> FnD {
    FnD { name: name.into(), params, ret: None, body }
}
const NAMES: &[&str] = &["a", "b", "c", "x", "f", "C1", "z1", "self", "super_", "q9"];

/// Something that may be fine or wrong, depending on where it stands.
fn breaker(r: &mut Rng) -> (E, &'static str) {
    let n = r.pick(NAMES).to_string();
    match r.below(28) {
        0 => (E::Ret(Some(bx(E::Int(1)))), "return"),
        1 => (E::Block(vec![E::Ret(None)]), "return"),
        2 => (E::Break, "break"),
        3 => (E::Continue, "continue"),
        4 => (E::SuperCall(vec![E::Int(1)]), "super call"),
        5 => (E::SuperAcc(None, "m".into()), "super access"),
        6 => (E::SuperAcc(Some(n), "m".into()), "super access"),
        7 => (E::ErrProp(bx(call("f9", vec![]))), "!!"),
        8 => (E::Export(bx(let_("e9", E::Int(1)))), "export"),
        9 => (E::Export(bx(E::Fn(func("e8", vec![], vec![])))), "export"),
        10 => (asg(id(&n), E::Int(1)), "assignment"),
        11 => (E::Asg("+=", bx(id(&n)), bx(E::Int(1))), "assignment"),
        12 => (E::Fn(func(&n, vec![], vec![E::Int(1)])), "function of some name"),
        13 => (E::Class(ClassD { name: n, base: None, items: vec![] }), "class of some name"),
        14 => (E::Fn(func("w1", vec![param("p"), param("q"), param("p")], vec![])), "duplicate parameters"),
        15 => (
            E::Op(OpD { op: "+", params: vec![param("p"), param("p")], ret: None, body: vec![] }),
            "duplicate parameters",
        ),
        16 | 17 => class_breaker(r),
        18 => (id(&n), "use of a name"),
        19 => (call(&n, vec![]), "use of a name"),
        20 => (
            E::Block(vec![call("late", vec![]), E::Fn(func("late", vec![], vec![]))]),
            "use before declaration",
        ),
        21 => (
            E::Block(vec![
                E::Lam(vec![], bx(call("late", vec![]))),
                E::Fn(func("other", vec![], vec![call("late", vec![]), E::Class(ClassD { name: "late".into(), base: None, items: vec![] })])),
                E::Fn(func("late", vec![], vec![])),
            ]),
            "use before declaration",
        ),
        22 => {
            let m = r.pct(50);
            (
                E::Block(vec![
                    E::Let(Pat::One("v".into()), m, bx(E::Int(1))),
                    E::Lam(vec![], bx(E::Block(vec![E::Asg("-=", bx(id("v")), bx(E::Int(1)))]))),
                ]),
                "assignment through a closure",
            )
        }
        23 => (E::For("v".into(), bx(E::List(vec![])), vec![asg(id("v"), E::Int(1))]), "assignment"),
        24 => {
            let m = r.pct(50);
            (
                E::Block(vec![
                    E::Let(Pat::Many(vec!["v".into(), "w".into()]), m, bx(E::Obj(vec![]))),
                    asg(id(*r.pick(&["v", "w"])), E::Int(1)),
                ]),
                "assignment",
            )
        }
        25 | 26 => {
            // Two declarations of one name.
            let mut decl = |r: &mut Rng| match r.below(4) {
                0 => E::Fn(func("twice", vec![], vec![])),
                1 => let_("twice", E::Int(1)),
                _ => E::Class(ClassD { name: "twice".into(), base: None, items: vec![] }),
            };
            let mut b = vec![decl(r)];
            if r.pct(30) {
                b.push(E::Int(1));
            }
            b.push(decl(r));
            if r.pct(20) {
                b.push(E::Block(vec![decl(r)]));
            }
            (E::Block(b), "two declarations of a name")
        }
        _ => (E::Lam(vec![param("p"), param("p")], bx(E::Int(1))), "lambda parameters"),
    }
}
fn class_breaker(r: &mut Rng) -> (E, &'static str) {
    let name = "W2".to_string();
    let base = if r.pct(50) { Some(bx(id("Base"))) } else { None };
    let m = |f: FnD| Item::Fn(f);
    let op = |params: Vec<Param>| Item::Op(OpD { op: "-", params, ret: None, body: vec![] });
    let sup = || E::SuperCall(vec![]);
    let mut new = func("new", vec![param("self")], vec![]);
    let (items, what) = match r.below(16) {
        0 => {
            new.ret = Some(Ty { name: "Int".into(), null: false });
            new.body = vec![sup()];
            (vec![m(new)], "constructor with a result type")
        }
        1 => (vec![m(func("new", vec![param("x")], vec![]))], "constructor without a receiver"),
        2 => (vec![op(vec![param("x"), param("y")])], "operator without a receiver"),
        3 => (vec![m(new)], "constructor without a super call"),
        4 => {
            new.body = vec![let_("x", E::Int(1)), sup()];
            (vec![m(new)], "late super call")
        }
        5 => {
            new.body = vec![E::Block(vec![sup()])];
            (vec![m(new)], "nested super call")
        }
        6 => {
            new.body = vec![sup(), E::Ret(Some(bx(E::Int(1))))];
            (vec![m(new)], "constructor returning a value")
        }
        7 => {
            new.body = vec![sup(), E::If(bx(E::Bool(true)), vec![E::Ret(Some(bx(E::Null)))], None)];
            (vec![m(new)], "constructor returning a value")
        }
        8 => {
            new.body = vec![sup(), E::If(bx(E::Bool(true)), vec![E::Ret(None)], None)];
            (vec![m(new)], "constructor leaving early")
        }
        9 => (vec![m(func("m", vec![typed("self", "Int")], vec![]))], "typed receiver"),
        10 => (vec![op(vec![typed("self", "Int"), param("y")])], "typed receiver"),
        11 => (vec![m(func("m", vec![param("self"), param("self")], vec![]))], "duplicate parameters"),
        12 => (vec![m(func("m", vec![param("x")], vec![sup()]))], "super call without a receiver"),
        13 => (vec![m(func("m", vec![param("self")], vec![E::Lam(vec![], bx(sup()))]))], "super call in a closure"),
        14 => {
            new.body = vec![sup(), E::ErrProp(bx(id("x")))];
            (vec![m(new)], "!! in a constructor")
        }
        _ => {
            new.body = vec![sup(), E::Lam(vec![], bx(E::Block(vec![E::Ret(Some(bx(E::Int(1)))), ])))];
            (vec![m(new), op(vec![param("self"), param("y")])], "closure in a constructor")
        }
    };
    (E::Class(ClassD { name, base, items }), what)
}
/// Puts something inside other constructs.
fn wrap(e: E, r: &mut Rng) -> E {
    match r.below(14) {
        0 => E::Block(vec![e]),
        1 => E::If(bx(E::Bool(true)), vec![e], None),
        2 => E::If(bx(E::Bool(true)), vec![], Some(bx(E::Block(vec![e])))),
        3 => E::Loop(vec![e]),
        4 => E::While(bx(E::Bool(true)), vec![e]),
        5 => E::For("w5".into(), bx(E::List(vec![])), vec![e]),
        6 => E::Lam(vec![], bx(E::Block(vec![e]))),
        7 => E::Fn(func("w7", vec![], vec![e])),
        8 => E::Class(ClassD { name: "W8".into(), base: None, items: vec![Item::Fn(func("m", vec![param("self")], vec![e]))] }),
        9 => E::Class(ClassD { name: "W9".into(), base: None, items: vec![Item::Fn(func("m", vec![], vec![e]))] }),
        10 => E::Class(ClassD { name: "W10".into(), base: None, items: vec![Item::Fn(func("new", vec![param("self")], vec![e]))] }),
        11 => E::OrErr(bx(id("r")), "w11".into(), vec![e]),
        12 => E::List(vec![E::Int(1), E::Block(vec![e])]),
        _ => call("f", vec![E::Block(vec![e])]),
    }
}
fn insert(items: &mut Vec<E>, e: E, r: &mut Rng) {
    // A random list of statements.
    let mut n = 1;
    items.iter_mut().for_each(|x| x.each_body(&mut |_| n += 1));
    let k = r.below(n);
    let at = r.next() as usize;
    let mut put = |v: &mut Vec<E>| v.insert(at % (v.len() + 1), e.clone());
    if k == 0 {
        return put(items);
    }
    let mut i = 0;
    items.iter_mut().for_each(|x| {
        x.each_body(&mut |v| {
            i += 1;
            if i == k {
                put(v)
            }
        })
    });
}
fn replace(items: &mut [E], e: E, r: &mut Rng) -> bool {
    let mut n = 0;
    items.iter_mut().for_each(|x| x.each_operand(&mut |_| n += 1));
    if n == 0 {
        return false;
    }
    let k = r.below(n);
    let mut i = 0;
    items.iter_mut().for_each(|x| {
        x.each_operand(&mut |v| {
            if i == k {
                *v = e.clone();
            }
            i += 1;
        })
    });
    true
}

/// What is wrong with the compiler's answer to a text, if anything.
fn fault(src: &str, module: bool) -> Option<(String, Vec<&'static str>)> {
    let p = parse(src).ok()?;
    let rules = stat::check(&p.items, module);
    let want: Vec<&'static str> = rules.codes.into_iter().collect();
    let got = exec::compile(src, module);
    let m = match (&got, want.is_empty()) {
        (Ok(_), true) => return None,
        (Ok(_), false) => format!("accepted although it breaks {}", want.join(", ")),
        (Err(e), empty) => {
            let code = located(e).map(|x| x.0).unwrap_or_else(|m| m);
            if rules.hidden_self && code == "E2402" {
                return None;
            }
            // Limits are K12's.
            if limit_code(&code) || (code == "E1005" && src.matches(',').count() >= 253) {
                return None;
            }
            if empty {
                format!("rejected with {} although it breaks no rule: {:#}", code, e)
            } else if want.iter().any(|w| *w == code) {
                return None;
            } else {
                format!("rejected with {} although what it breaks is {}", code, want.join(", "))
            }
        }
    };
    Some((m, want))
}
/// What is wrong with the place a rejection names, if anything.
fn misplaced(src: &str, module: bool) -> Option<String> {
    let p = parse(src).ok()?;
    let places = stat::Places::new(src, &p);
    let rules = stat::check_at(&p.items, module, Some(&places));
    let e = exec::compile(src, module).err()?;
    let (code, line, col) = match located(&e) {
        Ok(x) => x,
        Err(m) => return Some(m),
    };
    let at = |o: usize| {
        let (l, c) = ref_position(src, o);
        (l + 1, c + 1)
    };
    let text = format!("{}", e).replace(|c| matches!(c, '\u{2068}' | '\u{2069}'), "");
    let mut known: Vec<&stat::Found> = rules.found.iter().filter(|f| f.code == code).collect();
    if known.is_empty() || rules.hidden_self && code == "E2402" {
        // Whether it should be rejected at all belongs to K01.
        return None;
    }
    known.retain(|f| at(f.lo) <= (line, col) && (line, col) <= at(f.hi));
    if known.is_empty() {
        let v: Vec<_> =
            rules.found.iter().filter(|f| f.code == code).map(|f| (at(f.lo), at(f.hi), src[f.lo..].chars().take(20).collect::<String>())).collect();
        return Some(format!("what is rejected with {} stands at {:?}, but the report is for {}:{}\n{}", code, v, line, col, text));
    }
    if !known.iter().any(|f| text.contains(&f.says)) {
        return Some(format!("the report of {} does not say {:?}\n{}", code, known[0].says, text));
    }
    None
}
fn shrink(src: &str, fails: &dyn Fn(&str) -> bool) -> String {
    let t0 = std::time::Instant::now();
    let mut toks: Vec<String> =
        crate::lex::lex(src).iter().map(|x| src[x.s..x.e].to_string()).filter(|s| !s.is_empty()).collect();
    let mut best = src.to_string();
    let mut n = toks.len() / 2;
    while n >= 1 {
        let mut i = 0;
        while i < toks.len() && t0.elapsed().as_secs() < 20 {
            let mut less = toks.clone();
            less.drain(i..(i + n).min(toks.len()));
            let s = less.join(" ");
            if fails(&s) {
                toks = less;
                best = s;
            } else {
                i += (n / 2).max(1);
            }
        }
        n = if n > 40 { n / 2 } else { n - 1 };
    }
    best
}

/// A program that probably breaks a rule; what was put in it for that.
pub fn sample(c: &mut Ctx, plain: usize) -> Option<(String, bool, &'static str)> {
    let module = c.rng.pct(40);
    let mut items;
    let mut what = "";
    let many = c.idx % 12 == 5 || c.idx % 12 == 11;
    match if many { 4 } else { c.rng.weighted(&[3, 5, 2, 2]) } {
        4 => {
            // A lot of one thing, with one name for another or a construct put in.
            let all = lots::reading();
            let fitted;
            let s = if c.idx % 12 == 5 {
                &all[(c.idx / 12) as usize % all.len()]
            } else {
                fitted = crate::props::fit::program(&mut c.rng, module);
                &fitted
            };
            let mut p = None;
            if c.rng.pct(50) {
                let toks = crate::lex::lex(s);
                let names: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].k == crate::lex::K::Ident).collect();
                if names.len() > 1 {
                    // Mostly where names are declared, or could be.
                    let declaring: Vec<usize> =
                        names.iter().copied().filter(|i| *i > 0 && ["let", "mut", "fn", "class", "|", ",", "("].contains(&&s[toks[i - 1].s..toks[i - 1].e])).collect();
                    let some = if declaring.len() > 1 && c.rng.pct(70) { &declaring } else { &names };
                    let at = *c.rng.pick(some);
                    let from = *c.rng.pick(some);
                    let t: Vec<&str> = (0..toks.len()).map(|i| if i == at { from } else { i }).map(|i| &s[toks[i].s..toks[i].e]).collect();
                    p = parse(&t.join(" ")).ok();
                    what = "one name for another";
                }
            }
            let mut v = p.or_else(|| parse(s).ok())?.items;
            if what.is_empty() || c.rng.pct(20) {
                let (mut e, w) = breaker(&mut c.rng);
                what = w;
                if c.rng.pct(30) {
                    e = wrap(e, &mut c.rng);
                }
                insert(&mut v, e, &mut c.rng);
            }
            items = v;
            c.count("programs with a lot of one thing", 1);
        }
        0 => {
            // Nothing but the construct, wrapped.
            let (mut e, w) = breaker(&mut c.rng);
            what = w;
            for _ in 0..c.rng.below(5) {
                e = wrap(e, &mut c.rng);
            }
            items = vec![e];
            if c.rng.pct(40) {
                items.insert(0, let_mut("a", E::Int(1)));
            }
            if c.rng.pct(30) {
                items.push(E::Fn(func(*c.rng.pick(NAMES), vec![], vec![])));
            }
        }
        1 => {
            items = tree(&mut c.rng).0;
            let n = *c.rng.pick(&[0, 1, 1, 1, 2]);
            for _ in 0..n {
                let (mut e, w) = breaker(&mut c.rng);
                what = w;
                for _ in 0..c.rng.below(3) {
                    e = wrap(e, &mut c.rng);
                }
                if c.rng.pct(50) {
                    insert(&mut items, e, &mut c.rng);
                } else {
                    // Declarations only stand among statements.
                    let e = if matches!(e, E::Fn(_) | E::Op(_) | E::Class(_) | E::Export(_) | E::Loop(_) | E::While(..) | E::For(..) | E::Ret(_) | E::Break | E::Continue) {
                        E::Block(vec![e])
                    } else {
                        e
                    };
                    if !replace(&mut items, e, &mut c.rng) {
                        return None;
                    }
                }
            }
        }
        2 => {
            let budget = *c.rng.pick(&[5, 15, 40]);
            items = Syn::new(&mut c.rng, budget, 8).program();
        }
        _ => items = tree(&mut c.rng).0,
    }
    print::normalize(&mut items, true);
    let st = if c.rng.pct(plain) { print::PLAIN } else { print::random_style(&mut c.rng) };
    let mut src = print::program(&items, st, &mut c.rng);
    if c.rng.pct(12) {
        let free = |n: &str| (names::ours(n) || NAMES.contains(&n)) && !["self", "new", "super", "Any"].contains(&n);
        if names::renamed(&mut [&mut src], &free, &mut c.rng) {
            c.count("unusual names", 1);
        }
    }
    Some((src, module, what))
}
fn k01(c: &mut Ctx) -> Res {
    let (src, module, what) = match sample(c, 70) {
        Some(s) => s,
        None => return Ok(()),
    };
    current(&src);
    if let Some((m, _)) = fault(&src, module) {
        let s = shrink(&src, &|x| fault(x, module).is_some());
        let m = fault(&s, module).map_or(m, |x| x.0);
        return viol(format!("{} (as a {})", m, if module { "module" } else { "script" }), format!("{}\n--- as generated\n{}", s, src));
    }
    match parse(&src) {
        Err(_) => c.count("unreadable", 1),
        Ok(p) => {
            let codes = stat::check(&p.items, module).codes;
            c.distinct(hash(&src));
            if !what.is_empty() {
                c.count(&format!("placed: {}", what), 1);
            }
            if codes.is_empty() {
                c.count("accepted programs", 1);
            } else {
                c.count("rejected programs", 1);
                if codes.len() == 1 {
                    c.count(&format!("rejected for {} alone", codes.iter().next().unwrap()), 1);
                }
            }
            c.sample(|| src.clone());
        }
    }
    Ok(())
}
pub static K01: Prop = Prop {
    id: "K01",
    rule: "constructs that are legal only in some places, put alone into up to four others, or into random places of valid programs; and unrepaired random programs. Accepted if and only if a reference checker finds no broken rule, and otherwise rejected with the code of a rule it finds broken; distinct by text.",
    quick: 600_000,
    thorough: 10_000_000,
    case: k01,
    need: &[
        "accepted programs",
        "programs with a lot of one thing",
        "placed: one name for another",
        "rejected for E2200 alone",
        "rejected for E2201 alone",
        "rejected for E2202 alone",
        "rejected for E2203 alone",
        "rejected for E2204 alone",
        "rejected for E2205 alone",
        "rejected for E2206 alone",
        "rejected for E2207 alone",
        "rejected for E2300 alone",
        "rejected for E2301 alone",
        "rejected for E2401 alone",
        "rejected for E2402 alone",
        "rejected for E2403 alone",
        "rejected for E2500 alone",
        "rejected for E2501 alone",
        "rejected for E2502 alone",
        "rejected for E2503 alone",
        "rejected for E2504 alone",
    ],
    assumptions: &[
        "where a program breaks several rules any of them may be named",
        "a repeated parameter of a lambda is not an error in this language version",
    ],
    extra: None,
    stack_mb: 512,
};

// ---------------------------------------------------------------- K14

fn k14(c: &mut Ctx) -> Res {
    let (src, module, what) = match sample(c, 25) {
        Some(s) => s,
        None => return Ok(()),
    };
    let src = crate::props::syntax::far(c, src, false);
    current(&src);
    if let Some(m) = misplaced(&src, module) {
        let s = shrink(&src, &|x| misplaced(x, module).is_some());
        let m = misplaced(&s, module).unwrap_or(m);
        return viol(format!("{} (as a {})", m, if module { "module" } else { "script" }), format!("{}\n--- as generated\n{}", s, src));
    }
    let p = match parse(&src) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    let places = stat::Places::new(&src, &p);
    let rules = stat::check_at(&p.items, module, Some(&places));
    if let (false, Err(e)) = (rules.codes.is_empty(), exec::compile(&src, module)) {
        if let Ok((code, line, _)) = located(&e) {
            let n = rules.found.iter().filter(|f| f.code == code).count();
            if n > 0 {
                c.distinct(hash(&src));
                c.count("located rejections", 1);
                c.count(&format!("located {}", code), 1);
                if n == 1 {
                    c.count(&format!("located {} with one place to name", code), 1);
                }
                if !what.is_empty() {
                    c.count(&format!("placed: {}", what), 1);
                }
                c.max("line named", line as u64);
            }
        }
        c.sample(|| src.clone());
    }
    Ok(())
}
pub static K14: Prop = Prop {
    id: "K14",
    rule: "the programs of K01 that break a rule, mostly in random layouts; the place (line and column) and the name a rejection gives are compared with where a reference checker finds the rule broken; distinct by text.",
    quick: 400_000,
    thorough: 6_000_000,
    case: k14,
    need: &[
        "texts far into a source",
        "located E2200 with one place to name",
        "located E2201 with one place to name",
        "located E2202 with one place to name",
        "located E2203 with one place to name",
        "located E2204 with one place to name",
        "located E2205 with one place to name",
        "located E2206 with one place to name",
        "located E2207 with one place to name",
        "located E2300 with one place to name",
        "located E2301 with one place to name",
        "located E2401 with one place to name",
        "located E2402 with one place to name",
        "located E2403 with one place to name",
        "located E2500 with one place to name",
        "located E2501 with one place to name",
        "located E2502 with one place to name",
        "located E2503 with one place to name",
        "located E2504 with one place to name",
    ],
    assumptions: &[
        "where a program breaks several rules, or one in several places, any of them may be named",
        "a missing super call is reported anywhere in the constructor after its parameters, and an implicit use of a name anywhere in the construct that makes it",
    ],
    extra: None,
    stack_mb: 512,
};
