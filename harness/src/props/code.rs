//! What can be said about emitted code without knowing what the program means: K02, K03, K13, B01.
use crate::ast::E;
use crate::exec;
use crate::fw::*;
use crate::names;
use crate::gen;
use crate::model::Exc;
use crate::parse::parse;
use crate::props::{big, fit, lots, sem};
use crate::rng::Rng;
use crate::synth::{mutate, Syn};
use crate::verify::{self, Func, K};
use crate::{fix, print, stat, vm};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// A tree of a program that breaks no static rule, and whether it is a module.
pub fn tree(r: &mut Rng) -> (Vec<E>, bool, &'static str) {
    match r.weighted(&[4, 5, 3]) {
        0 => {
            let p = sem::profile("mix", r);
            (gen::script(r, p).main, false, "meaningful programs")
        }
        1 => {
            let budget = *r.pick(&[10, 30, 80, 200]);
            let depth = *r.pick(&[5, 8, 12]);
            let mut items = Syn::new(r, budget, depth).program();
            let module = r.pct(40);
            print::normalize(&mut items, true);
            fix::repair(&mut items, module);
            (items, module, "syntactic programs")
        }
        _ => {
            let p = sem::profile("mix", r);
            let mut items = gen::script(r, p).main;
            print::normalize(&mut items, true);
            let mut t = print::tokens(&items, print::PLAIN, r);
            let module = r.pct(30);
            for _ in 0..r.range(1, 3) {
                let old = t.clone();
                mutate(&mut t, r);
                if let Ok(p) = parse(&t.join(" ")) {
                    items = p.items;
                } else {
                    t = old;
                }
            }
            fix::repair(&mut items, module);
            (items, module, "mutated programs")
        }
    }
}
/// A program with a lot of one thing, sometimes disturbed and repaired.
fn many(c: &mut Ctx) -> (Vec<E>, bool, &'static str) {
    let all = lots::reading();
    let s = &all[(c.idx / 9) as usize % all.len()];
    let module = c.rng.pct(30);
    let mut items = None;
    if c.rng.pct(30) {
        items = parse(&lots::disturbed(&mut c.rng, s.clone(), 100)).ok();
    }
    let mut items = items.or_else(|| parse(s).ok()).map(|p| p.items).unwrap_or_default();
    print::normalize(&mut items, true);
    fix::repair(&mut items, module);
    (items, module, "programs with a lot of one thing")
}
/// Expressions put in each other's places, sometimes disturbed.
fn fitted(c: &mut Ctx) -> (Vec<E>, bool, &'static str) {
    let module = c.rng.pct(30);
    let s = fit::program(&mut c.rng, module);
    let s = if c.rng.pct(30) { lots::disturbed(&mut c.rng, s.clone(), 100) } else { s };
    let mut items = parse(&s).map(|p| p.items).unwrap_or_default();
    print::normalize(&mut items, true);
    fix::repair(&mut items, module);
    (items, module, "expressions in each other's places")
}
/// A text of such a program. `None` if repairing it did not work out.
pub fn valid(c: &mut Ctx) -> Option<(String, bool)> {
    let (mut items, module, what) = match c.idx % 9 {
        4 => many(c),
        7 => fitted(c),
        _ => tree(&mut c.rng),
    };
    print::normalize(&mut items, true);
    let st = if c.rng.pct(60) { print::PLAIN } else { print::random_style(&mut c.rng) };
    let mut src = print::program(&items, st, &mut c.rng);
    if c.rng.pct(15) && names::renamed(&mut [&mut src], if what == "expressions in each other's places" { &fit::free } else { &names::ours }, &mut c.rng) {
        c.count("unusual names", 1);
    }
    let p = match parse(&src) {
        Ok(p) => p.items,
        Err(_) => {
            c.count("discarded: unreadable", 1);
            return None;
        }
    };
    if let Some(code) = stat::check(&p, module).codes.into_iter().next() {
        c.count(&format!("discarded: {}", code), 1);
        return None;
    }
    c.count(what, 1);
    Some((src, module))
}
pub fn limit_code(s: &str) -> bool {
    ["E2100", "E2101", "E2102", "E2103", "E2104"].iter().any(|c| s.contains(c))
}

// ---------------------------------------------------------------- K02

fn k02(c: &mut Ctx) -> Res {
    let (src, module) = match valid(c) {
        Some(x) => x,
        None => return Ok(()),
    };
    current(&src);
    let bc = match exec::compile(&src, module) {
        Ok(b) => b,
        Err(_) => {
            c.count("rejected", 1);
            return Ok(());
        }
    };
    match verify::decode(&bc) {
        Ok(f) => {
            c.distinct(hash(&src));
            let (mut n, mut ops, mut jumps, mut ups, mut consts, mut slots) = (0, 0, 0, 0, 0, 0);
            let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
            f.each(&mut |g| {
                n += 1;
                ops += g.ops.len();
                slots = slots.max(g.slots);
                consts = consts.max(g.consts.len());
                for o in &g.ops {
                    jumps += (o.to > 0) as u64;
                    ups += o.ups.len() as u64;
                    *kinds.entry(verify::name(o.ins)).or_default() += 1;
                }
            });
            c.count("programs decoded", 1);
            c.count("functions decoded", n);
            c.count("instructions decoded", ops as u64);
            c.count("jump targets checked", jumps);
            c.count("captures checked", ups);
            c.max("slots of a function", slots as u64);
            c.max("constants of a function", consts as u64);
            for (k, n) in kinds {
                c.count(&format!("op {}", k), n);
            }
            c.sample(|| src.clone());
            Ok(())
        }
        Err(m) => viol(format!("malformed bytecode: {}", m), shrink(&src, module, &|s| match exec::compile(s, module) {
            Ok(b) => verify::decode(&b).is_err(),
            Err(_) => false,
        })),
    }
}
/// Removes what can be removed from a program that must stay valid.
pub fn shrink(src: &str, module: bool, fails: &dyn Fn(&str) -> bool) -> String {
    let t0 = std::time::Instant::now();
    let mut toks: Vec<String> =
        crate::lex::lex(src).iter().map(|x| src[x.s..x.e].to_string()).filter(|s| !s.is_empty()).collect();
    let mut best = src.to_string();
    let mut n = toks.len() / 2;
    while n >= 1 {
        let mut i = 0;
        while i < toks.len() && t0.elapsed().as_secs() < 20 {
            let mut less = toks.clone();
            less.drain(i..(i + n).min(toks.len()));
            let s = less.join(" ");
            let ok = parse(&s).map_or(false, |p| stat::check(&p.items, module).codes.is_empty());
            if ok && fails(&s) {
                toks = less;
                best = s;
            } else {
                i += (n / 2).max(1);
            }
        }
        n = if n > 40 { n / 2 } else { n - 1 };
    }
    best
}
pub static K02: Prop = Prop {
    id: "K02",
    rule: "valid programs (meaningful, syntactic and mutated ones, scripts and modules) are compiled and every function's code is decoded and checked; distinct by text.",
    quick: 150_000,
    thorough: 6_000_000,
    case: k02,
    need: &["programs decoded", "jump targets checked", "captures checked", "meaningful programs", "syntactic programs", "mutated programs"],
    assumptions: &["the operands of each instruction are those the shipped virtual machine reads"],
    extra: None,
    stack_mb: 512,
};

// ---------------------------------------------------------------- K03

fn stack_fault(src: &str, module: bool, st: Option<&mut Ctx>) -> Option<String> {
    let code = match exec::build(src, module, &BTreeMap::new(), true) {
        Ok(c) => c,
        Err(_) => return None,
    };
    let mut bad = None;
    let (mut points, mut joins, mut max, mut dead, mut n) = (0, 0, 0, 0, 0);
    code.main.each(&mut |f| {
        n += 1;
        match verify::flow(f) {
            Ok(x) => {
                points += x.points as u64;
                joins += x.joins as u64;
                max = max.max(x.max);
                dead += x.unreachable as u64;
            }
            Err(e) => bad = Some(e),
        }
    });
    if bad.is_some() {
        return bad;
    }
    let mut m = vm::Vm::new(&code.modules, 60_000);
    let r = (|| {
        if let Some(p) = &code.prelude {
            m.prelude(p)?;
        }
        if module {
            m.module(&code.main)
        } else {
            m.script(&code.main)
        }
    })();
    let seen = std::mem::take(&mut m.seen);
    drop(m);
    let bad = match r {
        // Programs of unknown meaning may pass too few arguments or read what has not been set yet.
        Err(Exc::Monitor(m)) if m.contains("operand") => Some(format!("while running: {}", m)),
        _ => None,
    };
    crate::model::clear_heap();
    if let Some(c) = st {
        c.count("programs followed", 1);
        c.count("functions followed", n);
        c.count("points reached with one depth", points);
        c.count("joins of paths", joins);
        c.count("unreachable instructions", dead);
        c.count("instructions executed", seen.steps);
        c.count("calls executed", seen.calls);
        c.max("operand depth", max as u64);
        c.max("operand stack while running", seen.max_stack as u64);
    }
    bad
}
const K03_DIRECTED: &[&str] = &[
    "fn f(x) { let a = [1, 2, if x { return 7 } else { 3 }, 4] a } t(f(true)) t(f(false))",
    "let mut n = 0 loop { n += 1 t([1, t(n + if n > 3 { break } else { continue })]) }",
    "let mut n = 0 while n < 3 { n += 1 #{ a: 1, b: if n == 2 { continue } else { n } } } n",
    "for x in 0..5 { t(1 + (2 * if x == 3 { break } else { x })) }",
    "for x in [1, 2, 3] { t(1 + (2 * if x == 2 { continue } else { x })) }",
    "for x in [1, 2, 3] { for y in 0..3 { t([x, y, if y == 1 { break } else { 0 }]) } }",
    "fn f(r) { [1, r!!, 2] } f(Ok(1)) f(Err(2))",
    "fn f(r) { 1 + t(2, t(r!!)) } f(Ok(1)) f(Err(2))",
    "fn f(r) { for x in [1, 2] { for y in 0..2 { return [x, y, r!!] } } } f(Ok(1)) f(Err(2))",
    "fn f(o) { [1, o?.a?.b, 2, o?(t(1))] } f(null)",
    "fn f(o) { let x = 1 { let y = 2 [x, { let z = 3 o?.a }, y] } } f(null) f(#{ a: 1 })",
    "let x = null [1, x?.a?.b.c[2](3), 4]",
    "let o = null 1 + (o?.a ?? 2) + (o?(1) ?? 3)",
    "class A { fn new(self) { self.x = 1 return } fn m(self, y) { [1, if y { return 2 } else { 3 }] } } A().m(true) A().m(false)",
    "class A { fn new(self, a) { self.a = a } } class B : A { fn new(self, r) { super([1, r or e { return }]) } } B(Ok(1)) B(Err(1))",
    "fn f(x) { loop { loop { [1, [2, [3, if x { return 4 } else { break }]]] } break } 5 } f(true) f(false)",
    "fn f(r: Result) -> Int { let v = r or e { return e } v } f(Ok(1)) f(Err(2))",
    "fn f(r) { [1, r or e { return [2, e] }, 3] } f(Ok(1)) f(Err(2))",
    "for x in 0..3 { [1, Err(x) or e { if e == 1 { continue } e }, 3] }",
    "for x in 0..3 { [1, Err(x) or e { if e == 1 { break } e }, 3] }",
    "let a = [1] a[if false { 2 } else { 0 }] += if true { 3 } else { 4 } a",
    "fn f(a) { a[t(0)] += [1, if true { return 9 } else { 0 }] } f([1])",
    "fn f(a) { a.x *= [1, if true { return 9 } else { 0 }] } f(#{ x: 1 })",
    "loop { let a = #{ x: 1 } a.x += { break } }",
    "loop { let a = #{ x: 1 } a.x = { break } }",
    "loop { let a = [1] a[{ break }] = 1 }",
    "for i in 0..{ for j in [1, 2] { if j == 2 { break } } 3 } { t(i) }",
    "while { let mut r = false for x in [1] { r = x == 2 } r } { t(1) }",
    "fn f() { return { for x in [1, 2] { return x } 5 } } f()",
    "fn f(x) -> Int? { if x { return null } 3 } f(true) f(false)",
    "fn f(x) { x |> if x == 1 { return 5 } else { |y| y + 1 } } f(1) f(2)",
    "fn f(x) { true && { return 1 } } f(1)  fn g(x) { false || { return 1 } } g(1)  fn h(x) { null ?? { return 1 } } h(1)",
    "loop { let { a, b } = #{ a: 1, b: { break } } }",
    "{ fn f() { 1 } class A { } op +(a, b) { 1 } let x = 1 } if true { } else { } { }",
    "fn f() { fn g() { } } f() class A { } class B : A { } B()",
    "fn f(x) { x is { 1 } } ",
];
fn k03(c: &mut Ctx) -> Res {
    let directed: Vec<&&str> = K03_DIRECTED.iter().filter(|s| parse(s).is_ok()).collect();
    let (src, module) = if (c.idx as usize) < directed.len() {
        c.count("directed programs", 1);
        (directed[c.idx as usize].to_string(), false)
    } else {
        match valid(c) {
            Some(x) => x,
            None => return Ok(()),
        }
    };
    current(&src);
    match stack_fault(&src, module, Some(c)) {
        None => {
            c.distinct(hash(&src));
            c.sample(|| src.clone());
            Ok(())
        }
        Some(m) => viol(m, shrink(&src, module, &|s| stack_fault(s, module, None).is_some())),
    }
}
pub static K03: Prop = Prop {
    id: "K03",
    rule: "directed programs leaving half-evaluated expressions in every way, then valid programs; each function's code is followed along every path, and the program is run on a monitored machine that owns one operand stack per activation; distinct by text.",
    quick: 100_000,
    thorough: 4_000_000,
    case: k03,
    need: &["programs followed", "directed programs", "joins of paths", "instructions executed", "meaningful programs", "syntactic programs", "mutated programs"],
    assumptions: &["instructions take and give as many operands as in the shipped virtual machine"],
    extra: None,
    stack_mb: 512,
};

// ---------------------------------------------------------------- K13

/// Functions without a name are called after their identifier.
fn without_ids(s: &str) -> String {
    let b = s.as_bytes();
    let is_id = |w: &[u8]| w.iter().enumerate().all(|(i, c)| if [8, 13, 18, 23].contains(&i) { *c == b'-' } else { c.is_ascii_hexdigit() });
    match (0..b.len().saturating_sub(35)).find(|i| is_id(&b[*i..*i + 36])) {
        Some(i) => format!("{}ID{}", &s[..i], without_ids(&s[i + 36..])),
        None => s.to_string(),
    }
}
/// A program's code without the identifiers of its functions.
pub fn canon(f: &Rc<Func>, out: &mut String) {
    use std::fmt::Write;
    let name = without_ids(&f.name);
    let _ = write!(out, "fn {:?} slots={} upvalues={} length={}\n", name, f.slots, f.ups, f.len);
    for o in &f.ops {
        let _ = write!(out, "{} {:?} {} {} {} {:?}\n", o.pos, o.ins, o.a, o.b, o.to, o.ups);
    }
    for k in &f.consts {
        match k {
            K::Int(i) => {
                let _ = write!(out, "int {}\n", i);
            }
            K::Float(x) => {
                let _ = write!(out, "float {:?}\n", x.to_bits());
            }
            K::Str(s) => {
                let _ = write!(out, "string {:?}\n", s);
            }
            K::Sym(s) => {
                let _ = write!(out, "symbol {:?}\n", s);
            }
            K::Fn(g) => canon(g, out),
        }
    }
    out.push_str("end\n");
}
/// What compiling a text gives, without identifiers; and the identifiers.
pub fn outcome(src: &str, module: bool) -> (String, Option<(BTreeSet<String>, usize)>) {
    match exec::compile(src, module) {
        Err(e) => (format!("error\n{}\n{:#}", e, e), None),
        Ok(b) => match verify::decode(&b) {
            Ok(f) => {
                let mut s = String::new();
                canon(&f, &mut s);
                (s, Some(verify::ids(&f)))
            }
            // Undecodable code is compared as it prints.
            Err(m) => (format!("malformed: {}", m), None),
        },
    }
}
pub fn first_difference(a: &str, b: &str) -> String {
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("line {}: {:?} against {:?}", i, x, y);
        }
    }
    format!("{} lines against {}", a.lines().count(), b.lines().count())
}
/// Texts that fail in different places of the compiler.
pub const FAILING: &[&str] = &[
    "let x = ",
    "fn f() { class A { fn m(self) { break } } }",
    "fn f(a) { fn g() { |x| { y = 1 } } }",
    "loop { fn f() { continue } }",
    "{ { return 1 } }",
    "class A { fn new() { } }",
    "class A { fn m(self) { |x| { super.q super } } } x = 2",
    "fn f() { } fn f() { }",
    "export let a = 1",
    "for x in 0..3 { for y in x { let z = 1 |q| { z = 2 } } }",
    "let é = 1",
    "let a = 1 a = 2",
    "fn f(a, a) { a }",
    "f() fn f() { }",
];
pub fn any_text(c: &mut Ctx) -> (String, bool) {
    if c.rng.pct(25) {
        // A rejected program, most likely.
        let (mut items, module, _) = tree(&mut c.rng);
        print::normalize(&mut items, true);
        let st = print::random_style(&mut c.rng);
        let mut t = print::tokens(&items, st, &mut c.rng);
        for _ in 0..c.rng.range(1, 3) {
            mutate(&mut t, &mut c.rng);
        }
        return (print::layout(&t, st.layout, &mut c.rng), module);
    }
    if c.rng.pct(15) {
        let budget = *c.rng.pick(&[10, 30, 80]);
        let items = Syn::new(&mut c.rng, budget, 8).program();
        let st = print::random_style(&mut c.rng);
        let s = print::program(&items, st, &mut c.rng);
        return (s, c.rng.pct(50));
    }
    let (mut items, module, _) = tree(&mut c.rng);
    print::normalize(&mut items, true);
    (print::plain(&items), module)
}
thread_local! {
    /// Identifiers handed out so far.
    static SEEN_IDS: std::cell::RefCell<std::collections::HashSet<u64>> = Default::default();
}
/// What a long run of one kind of compilation leaves behind.
fn history(c: &mut Ctx, k: usize) -> Res {
    const PROBES: &[(&str, bool)] = &[
        ("fn f(a: A?) -> A { let g = |x| { a = 1 x } g } class A { fn new(self) { self.x = [1, 2] } op +(self, o) { o } }", false),
        ("fn f(a) { let mut n = a let g = |x| { n += 1 x(n)?.y ?? || n } for i in 0..a { if i == 3 { break } n = g } n }", false),
        ("import * as m, { x } from \"m\" export let y = x + 2.5 export fn f() { return m!! } export class A { fn m(self) { #{ a: \"a\" } } }", true),
        ("class A { } class B : A { fn new(self) { super() } fn m(self) { super.m() or e { super[A].m } } }", false),
        ("let x = 1 x = 2", false),
        ("let é = 1", false),
    ];
    const WORKING: &[&str] = &["1", "let x = |a| a", "class A { fn m(self) { } }", "fn f(a) { f } for i in 0..1 { i }", "#{ a: [1, 2.5, \"s\"] }"];
    let (text, n) = if k < FAILING.len() { (FAILING[k], 3000) } else { (WORKING[k - FAILING.len()], 70_000) };
    let module = text.starts_with("export") && k % 2 == 0;
    current(text);
    let seen = || PROBES.iter().map(|p| outcome(p.0, p.1).0).collect::<Vec<_>>();
    let (a, first) = (seen(), outcome(text, module).0);
    for _ in 0..n {
        let _ = exec::compile(text, module);
    }
    c.count("compilations in between", n);
    c.count("long histories", 1);
    let (b, last) = (seen(), outcome(text, module).0);
    if first != last {
        return viol(format!("compiling a text {} times changes the outcome: {}", n, first_difference(&first, &last)), text);
    }
    if let Some(i) = (0..a.len()).find(|i| a[*i] != b[*i]) {
        return viol(
            format!("a text has another outcome after {} compilations of another: {}", n, first_difference(&a[i], &b[i])),
            format!("{}\n--- compiled in between\n{}", PROBES[i].0, text),
        );
    }
    Ok(())
}
/// A program of a great many functions.
fn legion(c: &mut Ctx, k: usize) -> Res {
    let inner = |n: usize, f: &str| vec![f; n].join(", ");
    let src = match k {
        0 => big::seq(250, |i| format!("fn f{}() {{ [|x| x, || 1] }}", i)),
        1 => big::seq(45, |i| format!("class A{} {{ fn new(self) {{ }} fn m(self) {{ }} op +(self, o) {{ }} fn s() {{ }} }}", i)),
        2 => big::seq(200, |i| format!("fn f{}() {{ [{}] }}", i, inner(40, "|x| x"))),
        3 => big::seq(60, |i| format!("fn f{}() {{ {} }}", i, big::seq(60, |j| format!("fn g{}() {{ }}", j)))),
        _ => big::seq(254, |i| format!("fn f{}() {{ let a = [{}] let b = [{}] }}", i, inner(200, "|| 1"), inner(56, "|| || 1"))),
    };
    current(&src);
    match outcome(&src, false).1 {
        Some((set, n)) => {
            c.count("functions", n as u64);
            c.max("functions of one program", n as u64);
            if set.len() != n {
                return viol(format!("{} functions share {} identifiers", n, set.len()), src);
            }
            Ok(())
        }
        None => viol("a program of many small functions is rejected", src),
    }
}
fn k13(c: &mut Ctx) -> Res {
    let k = c.idx as usize;
    if k < 5 {
        return legion(c, k);
    }
    if k < 5 + FAILING.len() + 5 {
        return history(c, k - 5);
    }
    let (src, module) = any_text(c);
    current(&src);
    let (a, ids) = outcome(&src, module);
    // The same again, with other work in between.
    for _ in 0..c.rng.range(1, 3) {
        let mut between = vec![];
        for _ in 0..c.rng.below(3) {
            let other = if c.rng.pct(50) { c.rng.pick(FAILING).to_string() } else { any_text(c).0 };
            let kind = c.rng.pct(50);
            let _ = exec::compile(&other, kind);
            c.count("compilations in between", 1);
            between.push(other);
        }
        let (b, _) = outcome(&src, module);
        c.count("repeated compilations", 1);
        if a != b {
            return viol(
                format!("compiling the same text twice differs: {}", first_difference(&a, &b)),
                format!("{}\n--- compiled in between\n{}", src, between.join("\n---\n")),
            );
        }
    }
    if c.rng.pct(3) {
        let s2 = src.clone();
        let b = with_stack(256, move || outcome(&s2, module).0);
        c.count("compilations in another thread", 1);
        match b {
            Ok(b) if a == b => {}
            Ok(b) => return viol(format!("compiling in another thread differs: {}", first_difference(&a, &b)), src),
            Err(_) => return viol("compiling in another thread panics", src),
        }
    }
    match &ids {
        Some((set, n)) => {
            c.count("accepted programs", 1);
            c.count("functions", *n as u64);
            if set.len() != *n {
                return viol(format!("{} functions share {} identifiers", n, set.len()), src);
            }
            let clash = SEEN_IDS.with(|s| {
                let mut s = s.borrow_mut();
                if s.len() > 4_000_000 {
                    s.clear();
                }
                set.iter().any(|i| !s.insert(hash(i)))
            });
            let _ = clash; // Only functions of one program have to differ.
        }
        None => c.count("rejected programs", 1),
    }
    c.distinct(hash(&src));
    // Other layouts of the same program.
    if let (Some(_), Ok(p)) = (&ids, parse(&src)) {
        let mut items = p.items;
        print::normalize(&mut items, true);
        let (plain, _) = outcome(&print::plain(&items), module);
        for _ in 0..2 {
            let st = print::random_style(&mut c.rng);
            let s = print::program(&items, st, &mut c.rng);
            current(&s);
            let (b, _) = outcome(&s, module);
            c.count("layouts compared", 1);
            if b != plain {
                return viol(
                    format!("another layout changes the code: {}", first_difference(&plain, &b)),
                    format!("{}\n--- against\n{}", print::plain(&items), s),
                );
            }
        }
    }
    c.sample(|| src.clone());
    Ok(())
}
/// Prints a digest of many compilations, for comparison between processes.
pub fn digest(seed: u64, n: u64, backwards: bool) -> String {
    let mut st = Stats::default();
    let mut texts = vec![];
    for i in 0..n {
        let mut c = Ctx { rng: Rng::for_case("K13-processes", seed, i), idx: i, tier: Tier::Quick, seed, st: &mut st };
        texts.push(any_text(&mut c));
    }
    let mut out: Vec<(usize, u64)> = vec![];
    let order: Vec<usize> = if backwards { (0..texts.len()).rev().collect() } else { (0..texts.len()).collect() };
    for i in order {
        out.push((i, hash(&outcome(&texts[i].0, texts[i].1).0)));
    }
    out.sort();
    out.iter().map(|x| format!("{:016x}\n", x.1)).collect()
}
fn k13_processes(st: &mut Stats, tier: Tier) -> Result<Vec<String>, Viol> {
    let n = if tier == Tier::Quick { 2000 } else { 40_000 };
    let exe = std::env::current_exe().unwrap();
    let run = |back: &str, dir: &str| {
        std::process::Command::new(&exe)
            .args(["digest", "7", &n.to_string(), back])
            .current_dir(dir)
            .env_clear()
            .env("LANG", if back == "1" { "de_DE.UTF-8" } else { "C" })
            .output()
            .map(|o| String::from_utf8_lossy(&o.stdout).to_string())
            .unwrap_or_default()
    };
    let a = run("0", "/");
    let b = run("1", "/tmp");
    st.counts.insert("texts compared between processes".into(), a.lines().count().min(b.lines().count()) as u64);
    if a.lines().count() != n as usize || b.lines().count() != n as usize {
        return viol("a process compiling many texts does not end normally", format!("vh digest 7 {} 0", n));
    }
    if let Some(i) = a.lines().zip(b.lines()).position(|(x, y)| x != y) {
        let mut s = Stats::default();
        let mut c = Ctx { rng: Rng::for_case("K13-processes", 7, i as u64), idx: i as u64, tier: Tier::Quick, seed: 7, st: &mut s };
        return viol("compiling in another process gives something else", any_text(&mut c).0);
    }
    Ok(vec![])
}
pub static K13: Prop = Prop {
    id: "K13",
    rule: "valid and rejected programs are compiled repeatedly, with failing and successful compilations in between, in other threads, in two other processes in opposite orders, and in other layouts; emitted code (without identifiers) or the rendered error is compared; distinct by text.",
    quick: 50_000,
    thorough: 2_500_000,
    case: k13,
    need: &["accepted programs", "rejected programs", "repeated compilations", "compilations in between", "layouts compared", "compilations in another thread", "functions", "long histories", "max functions of one program"],
    assumptions: &["sources without a path"],
    extra: Some(k13_processes),
    stack_mb: 512,
};

// ---------------------------------------------------------------- B01

use dice_bytecode::{Bytecode, BytecodeCursor, ConstantValue, FunctionBytecode, Instruction};

/// The name an instruction is listed under.
fn snake(s: &str) -> String {
    const SHORT: &[(&str, &str)] = &[
        ("Negate", "NEG"),
        ("Multiply", "MUL"),
        ("Divide", "DIV"),
        ("Remainder", "REM"),
        ("Subtract", "SUB"),
        ("GreaterThan", "GT"),
        ("GreaterThanOrEqual", "GTE"),
        ("LessThan", "LT"),
        ("LessThanOrEqual", "LTE"),
        ("Equal", "EQ"),
        ("NotEqual", "NEQ"),
    ];
    if let Some(x) = SHORT.iter().find(|x| x.0 == s) {
        return x.1.into();
    }
    let mut o = String::new();
    for (i, ch) in s.chars().enumerate() {
        if ch.is_ascii_uppercase() && i > 0 {
            o.push('_');
        }
        o.push(ch.to_ascii_uppercase());
    }
    o
}
/// The instructions, by byte.
fn table() -> Result<Vec<(u8, Instruction, String)>, Viol> {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    let mut t = vec![];
    for b in 0..=255u8 {
        if let Ok(i) = std::panic::catch_unwind(|| Instruction::from(b)) {
            t.push((b, i, format!("{:?}", i)));
        }
    }
    std::panic::set_hook(old);
    for (b, i, n) in &t {
        let back: u8 = (*i).into();
        if back != *b {
            return viol(format!("byte {} is read as {} and written as {}", b, n, back), "");
        }
        let text = format!("{}", i);
        let want = format!("{:02X} | {}", b, snake(n));
        let squeeze = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
        if squeeze(&text) != squeeze(&want) {
            return viol(format!("{} is shown as {:?} and not as {:?}", n, text, want), "");
        }
    }
    for (i, x) in t.iter().enumerate() {
        for y in &t[i + 1..] {
            if x.2 == y.2 || format!("{}", x.1) == format!("{}", y.1) {
                return viol(format!("bytes {} and {} are the same instruction", x.0, y.0), "");
            }
        }
    }
    if t.is_empty() || t.iter().enumerate().any(|(i, x)| x.0 as usize != i) {
        return viol("the instructions are not numbered from 0 up without gaps", "");
    }
    Ok(t)
}
fn cursor_walk(c: &mut Ctx, t: &[(u8, Instruction, String)]) -> Res {
    let n = *c.rng.pick(&[0, 1, 2, 3, 5, 20, 300, 70_000]);
    let n = c.rng.below(n + 1);
    let mut buf: Vec<u8> = (0..n).map(|_| c.rng.next() as u8).collect();
    // Mostly instructions, so that they can be read anywhere.
    for b in buf.iter_mut() {
        if c.rng.pct(60) {
            *b = t[c.rng.below(t.len())].0;
        }
    }
    let show = || format!("{:?}", &buf[..buf.len().min(200)]);
    let mut cur = BytecodeCursor::new(&buf);
    let (mut pos, mut last) = (0usize, 0usize);
    let mut log = vec![];
    for _ in 0..c.rng.range(1, 60) {
        let left = n - pos;
        let what = c.rng.below(6);
        let fail = |log: &[String], m: String| viol(format!("{} after {}", m, log.join(", ")), show());
        match what {
            0 => {
                if left > 0 && buf[pos] as usize >= t.len() {
                    continue;
                }
                let got = cur.read_instruction();
                let want = if left > 0 { Some(t[buf[pos] as usize].2.clone()) } else { None };
                let got = got.map(|g| format!("{:?}", g));
                log.push("instruction".into());
                if got != want {
                    return fail(&log, format!("read {:?} and not {:?}", got, want));
                }
                if left > 0 {
                    last = pos;
                    pos += 1;
                }
                c.count("instructions read", 1);
            }
            1 if left > 0 => {
                let got = cur.read_u8();
                log.push("byte".into());
                if got != buf[pos] {
                    return fail(&log, format!("read byte {} and not {}", got, buf[pos]));
                }
                pos += 1;
                c.count("bytes read", 1);
            }
            2 if left > 1 => {
                let got = cur.read_offset();
                let want = i16::from_be_bytes([buf[pos], buf[pos + 1]]);
                log.push("offset".into());
                if got != want {
                    return fail(&log, format!("read offset {} and not {}", got, want));
                }
                pos += 2;
                c.count("offsets read", 1);
            }
            3 => {
                // A relative jump inside the buffer.
                let lo = (pos as i64).min(32768);
                let hi = (left as i64).min(32767);
                let d = match c.rng.below(4) {
                    0 => -lo,
                    1 => hi,
                    2 => 0,
                    _ => -lo + c.rng.below((lo + hi + 1) as usize) as i64,
                };
                cur.offset_position(d as i16);
                pos = (pos as i64 + d) as usize;
                log.push(format!("jump {}", d));
                c.count(if d < 0 { "backward jumps" } else { "forward jumps" }, 1);
            }
            4 => {
                pos = c.rng.below(n + 1);
                cur.set_position(pos as u64);
                log.push(format!("go to {}", pos));
            }
            _ => continue,
        }
        if cur.position() != pos as u64 || cur.remaining() != (n - pos) as u64 {
            return fail(&log, format!("at {} with {} left, and not at {} with {}", cur.position(), cur.remaining(), pos, n - pos));
        }
        if cur.last_instruction_offset() != last as u64 {
            return fail(&log, format!("the last instruction is at {} and not at {}", cur.last_instruction_offset(), last));
        }
    }
    Ok(())
}
/// Well-formed code that no compiler made.
fn random_code(r: &mut Rng, t: &[(u8, Instruction, String)], depth: usize) -> Bytecode {
    let nk = r.range(1, 12);
    let mut consts: Vec<ConstantValue> = vec![];
    for i in 0..nk {
        consts.push(match r.below(if depth > 0 { 6 } else { 4 }) {
            0 => ConstantValue::Int(r.next() as i64),
            1 => ConstantValue::Float(1.5),
            2 => ConstantValue::String("text".to_string().into()),
            3 => ConstantValue::Symbol(format!("name{}", i).into()),
            _ => {
                let b = random_code(r, t, depth - 1);
                let name = r.pick(&["f", "g", "new", "é\"", ""]).to_string();
                let mut f = some_function();
                f.bytecode = b;
                f.name = name.into();
                ConstantValue::Function(f)
            }
        });
    }
    let (slots, ups) = (r.range(1, 256), r.below(6));
    let mut data = vec![];
    for _ in 0..r.below(40) {
        let (b, i, _) = &t[r.below(t.len())];
        let mut code = vec![*b];
        match i {
            Instruction::Jump | Instruction::JumpIfFalse | Instruction::JumpIfTrue => {
                let d = *r.pick(&[0, 1, -1, 127, 128, 255, 256, -128, -129, -256, 32767, -32768, 513]);
                code.extend_from_slice(&(d as i16).to_be_bytes());
            }
            Instruction::CreateClosure => {
                let fs: Vec<usize> =
                    consts.iter().enumerate().filter(|(_, k)| matches!(k, ConstantValue::Function(_))).map(|x| x.0).collect();
                if fs.is_empty() {
                    continue;
                }
                let k = *r.pick(&fs);
                code.push(k as u8);
                if let ConstantValue::Function(f) = &consts[k] {
                    for _ in 0..f.bytecode.upvalue_count() {
                        code.push(r.below(2) as u8);
                        code.push(r.next() as u8);
                    }
                }
            }
            Instruction::LoadFieldToLocal => {
                code.push(r.next() as u8);
                code.push(r.next() as u8);
            }
            i if operand(*i) => code.push(r.next() as u8),
            _ => {}
        }
        data.extend(code);
    }
    Bytecode::new(data.into(), slots, ups, consts.into())
}
fn some_function() -> FunctionBytecode {
    let bc = exec::compile("fn f() { 1 }", false).unwrap_or_else(|e| panic!("{}", e));
    let f = bc.constants().iter().find_map(|k| match k {
        ConstantValue::Function(f) => Some(f.clone()),
        _ => None,
    });
    f.expect("a function")
}
/// Whether an instruction has one byte of operand.
fn operand(i: Instruction) -> bool {
    use Instruction::*;
    matches!(
        i,
        PushConst | Dup | LoadModule | LoadGlobal | LoadLocal | LoadField | LoadMethod | LoadUpvalue | StoreGlobal | StoreLocal
            | StoreField | StoreMethod | StoreUpvalue | AssignLocal | AssignField | AssignUpvalue | CloseUpvalue | Call | CallSuper
            | CreateArray | InheritClass | AssertTypeForLocal | AssertTypeOrNullForLocal
    )
}
/// What the listing has to say, line by line: position, byte and name, numbers of the operands.
fn listing(bc: &Bytecode, t: &[(u8, Instruction, String)], out: &mut Vec<String>) {
    let mut c = bc.cursor();
    let mut raw = vec![];
    while c.remaining() > 0 {
        raw.push(c.read_u8());
    }
    let mut i = 0;
    while i < raw.len() {
        let (b, ins, n) = &t[raw[i] as usize];
        let at = i;
        i += 1;
        let ops = match ins {
            Instruction::Jump | Instruction::JumpIfFalse | Instruction::JumpIfTrue => {
                i += 2;
                i16::from_be_bytes([raw[i - 2], raw[i - 1]]).to_string()
            }
            Instruction::CreateClosure => {
                let k = raw[i] as usize;
                i += 1;
                let mut s = k.to_string();
                if let ConstantValue::Function(f) = &bc.constants()[k] {
                    for _ in 0..f.bytecode.upvalue_count() {
                        s.push_str(&format!(" {}{}", if raw[i] == 1 { "L" } else { "U" }, raw[i + 1]));
                        i += 2;
                    }
                }
                s
            }
            Instruction::LoadFieldToLocal => {
                i += 2;
                format!("{} {}", raw[i - 2], raw[i - 1])
            }
            x if operand(*x) => {
                i += 1;
                raw[i - 1].to_string()
            }
            _ => String::new(),
        };
        out.push(format!("{} | {:02X} | {} | {}", at, b, snake(n), ops));
    }
    for k in bc.constants() {
        if let ConstantValue::Function(f) = k {
            out.push(format!("Function: {:?}", f.name.to_string()));
            listing(&f.bytecode, t, out);
        }
    }
}
/// The same, taken from the listing itself.
fn read_listing(text: &str) -> Vec<String> {
    let mut out = vec![];
    for l in text.lines() {
        if l.starts_with("Function: ") {
            out.push(l.trim_end().to_string());
            continue;
        }
        let f: Vec<&str> = l.split('|').map(|x| x.trim()).collect();
        if f.len() < 3 || f[0].parse::<u64>().is_err() {
            continue;
        }
        let rest = f[3..].join(" ");
        let mut ops = vec![];
        for w in rest.split(|ch: char| ch.is_whitespace() || ch == '(' || ch == ')') {
            if let Some((k, v)) = w.split_once('=') {
                let mark = match k {
                    "parent_local" => "L",
                    "upvalue" => "U",
                    _ => "",
                };
                ops.push(format!("{}{}", mark, v));
            }
        }
        out.push(format!("{} | {} | {} | {}", f[0], f[1], f[2], ops.join(" ")));
    }
    out
}
fn b01(c: &mut Ctx) -> Res {
    let t = table()?;
    if c.idx == 0 {
        c.count("instructions in the table", t.len() as u64);
    }
    match c.rng.below(3) {
        0 => {
            c.count("code buffers", 1);
            cursor_walk(c, &t)
        }
        1 => {
            let bc = random_code(&mut c.rng, &t, 3);
            check_listing(c, &bc, &t, "code made by the harness")
        }
        _ => {
            let (src, module) = match valid(c) {
                Some(x) => x,
                None => return Ok(()),
            };
            current(&src);
            let bc = match exec::compile(&src, module) {
                Ok(b) => b,
                Err(_) => return Ok(()),
            };
            if verify::decode(&bc).is_err() {
                c.count("malformed programs left to K02", 1);
                return Ok(());
            }
            c.count("compiled programs listed", 1);
            check_listing(c, &bc, &t, &src)
        }
    }
}
fn check_listing(c: &mut Ctx, bc: &Bytecode, t: &[(u8, Instruction, String)], what: &str) -> Res {
    let mut want = vec![];
    listing(bc, t, &mut want);
    let text = format!("{}", bc);
    let got = read_listing(&text);
    c.count("listed lines compared", want.len() as u64);
    c.distinct(hash(&want.join("\n")));
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return viol(
            format!("the listing's entry {} is {:?} and should be {:?}", i, got.get(i), want.get(i)),
            format!("{}\n--- listing\n{}", what, text),
        );
    }
    Ok(())
}
pub static B01: Prop = Prop {
    id: "B01",
    rule: "all 256 bytes; random walks of the cursor over random buffers; listings of generated and of compiled code, read back and compared with the bytes; distinct by listing.",
    quick: 120_000,
    thorough: 6_000_000,
    case: b01,
    need: &["instructions in the table", "code buffers", "forward jumps", "backward jumps", "offsets read", "compiled programs listed", "listed lines compared"],
    assumptions: &["the listing keeps its columns: position, byte, name, operands as key=value"],
    extra: None,
    stack_mb: 512,
};
