//! K12: what does not fit the encoding.
use crate::ast::*;
use crate::exec;
use crate::fw::*;
use crate::gen;
use crate::props::code::{canon, limit_code};
use crate::props::sem::{self, texts, verdict, Texts, Verdict};
use crate::props::syntax::located;
use crate::rng::Rng;
use crate::verify::{self, Func};
use crate::{parse::parse, print, stat};
use std::rc::Rc;

fn list(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect::<Vec<_>>().join(", ")
}
pub fn seq(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect::<Vec<_>>().join(" ")
}
/// What a limit is measured by.
#[derive(Clone, Copy, PartialEq)]
enum By {
    /// Parameters or arguments: the limit itself.
    Count(usize),
    Slots,
    Consts,
    Ups,
    Jump,
}
struct Kind {
    name: &'static str,
    code: &'static str,
    by: By,
    /// How much of the resource one more unit takes.
    unit: usize,
    max: usize,
    make: fn(usize) -> String,
}
const PAD: &str = "null ";
/// Statements of two bytes each.
fn pad(n: usize) -> String {
    PAD.repeat(n)
}
macro_rules! kinds {
    ($(($name:expr, $code:expr, $by:expr, $unit:expr, $max:expr, $make:expr)),* $(,)?) => {
        &[$(Kind { name: $name, code: $code, by: $by, unit: $unit, max: $max, make: $make }),*]
    };
}
static KINDS: &[Kind] = kinds![
    ("arguments", "E1005", By::Count(255), 1, 400, |n| format!("fn f({}) {{ [{}] }} f({})", list(n, |i| format!("p{}", i)), list(n, |i| format!("p{}", i)), list(n, |i| (i % 7).to_string()))),
    ("arguments of an unknown function", "E1005", By::Count(255), 1, 400, |n| format!("t(1) nobody({})", list(n, |_| "1".into()))),
    ("arguments of a method", "E1005", By::Count(254), 1, 400, |n| format!("class A {{ fn m(self, {}) {{ [{}] }} }} A().m({})", list(n, |i| format!("p{}", i)), list(n, |i| format!("p{}", i)), list(n, |i| (i % 7).to_string()))),
    ("arguments of a lambda", "E1005", By::Count(255), 1, 400, |n| format!("(|{}| [{}])({})", list(n, |i| format!("p{}", i)), list(n, |i| format!("p{}", i)), list(n, |i| (i % 7).to_string()))),
    ("arguments of a super call", "E1005", By::Count(254), 1, 400, |n| format!("class A {{ fn new(self, {}) {{ self.x = [{}] }} }} class B : A {{ fn new(self) {{ super({}) }} }} B().x", list(n, |i| format!("p{}", i)), list(n, |i| format!("p{}", i)), list(n, |i| (i % 7).to_string()))),
    ("list items", "E2102", By::Count(255), 1, 400, |n| format!("let a = [{}] t(a) a", list(n, |i| (i % 9).to_string()))),
    ("nested list items", "E2102", By::Count(255), 1, 400, |n| format!("let a = [1, [{}], 2] t(a) a", list(n, |i| format!("t({})", i % 9)))),
    ("locals of a script", "E2103", By::Slots, 1, 400, |n| format!("{} t(v0) t(v{}) v{}", seq(n, |i| format!("let v{} = {}", i, i % 9)), n - 1, n / 2)),
    ("locals of a function", "E2103", By::Slots, 1, 400, |n| format!("fn f(a) {{ {} t(v{}) a }} f(7)", seq(n, |i| format!("let mut v{} = {}", i, i % 9)), n - 1)),
    ("locals of a lambda", "E2103", By::Slots, 1, 400, |n| format!("(|a| {{ {} t(v{}) a }})(7)", seq(n, |i| format!("let v{} = {}", i, i % 9)), n - 1)),
    ("locals of a method", "E2103", By::Slots, 1, 400, |n| format!("class A {{ fn m(self, a) {{ {} t(v{}) a }} }} A().m(7)", seq(n, |i| format!("let v{} = {}", i, i % 9)), n - 1)),
    ("locals of a constructor", "E2103", By::Slots, 1, 400, |n| format!("class A {{ fn new(self, a) {{ {} t(v{}) self.a = a }} }} A(7).a", seq(n, |i| format!("let v{} = {}", i, i % 9)), n - 1)),
    ("locals of nested blocks", "E2103", By::Slots, 2, 200, |n| {
        let mut s = "t(0)".to_string();
        for i in (0..n).rev().step_by(1) {
            s = if i % 25 == 0 { format!("{{ let v{} = {} let w{} = 2 {} t(v{}) }}", i, i % 9, i, s, i) } else { format!("let v{} = {} let w{} = 3 {}", i, i % 9, i, s) };
        }
        s
    }),
    ("destructured locals", "E2101 or E2103", By::Consts, 1, 400, |n| format!("let {{ {} }} = #{{ v0: 5 }} t(v0) t(v{})", list(n, |i| format!("v{}", i)), n - 1)),
    ("functions of a block", "E2101 or E2103", By::Consts, 1, 400, |n| format!("{} t(v0()) t(v{}())", seq(n, |i| format!("fn v{}() {{ {} }}", i, i % 9)), n - 1)),
    ("classes of a block", "E2101 or E2103", By::Consts, 1, 400, |n| format!("{} t(v0()) t(v{}())", seq(n, |i| format!("class v{} {{ }}", i)), n - 1)),
    ("loop variables", "E2103", By::Slots, 1, 400, |n| format!("{} for x in 0..2 {{ for y in [1, 2] {{ t([x, y]) }} }}", seq(n, |i| format!("let v{} = {}", i, i % 9)))),
    ("results", "E2103", By::Slots, 1, 400, |n| format!("fn f(r) {{ {} let z = r or e {{ t(e) 5 }} t(z) return [r!!, 2] }} f(Ok(1)) f(Err(2))", seq(n, |i| format!("let v{} = {}", i, i % 9)))),
    ("integer constants", "E2101", By::Consts, 1, 400, |n| format!("{} t({}) {}", seq(n, |i| (i + 2).to_string()), n + 1, n / 2 + 2)),
    ("float constants", "E2101", By::Consts, 1, 400, |n| format!("{} t({}.5)", seq(n, |i| format!("{}.5", i + 2)), n + 1)),
    ("string constants", "E2101", By::Consts, 1, 400, |n| format!("{} t(\"s{}\")", seq(n, |i| format!("\"s{}\"", i)), n - 1)),
    ("global names", "E2101", By::Consts, 1, 400, |n| format!("t(1) let f = || {{ {} }} 1", seq(n, |i| format!("g{}", i)))),
    ("field names", "E2101", By::Consts, 1, 400, |n| format!("let o = #{{ a: 1 }} {} t(o.f{})", seq(n, |i| format!("o.f{} = {}", i, i % 2)), n - 1)),
    ("object keys", "E2101", By::Consts, 1, 400, |n| format!("let o = #{{ {} }} t(o.f0) t(o.f{})", list(n, |i| format!("f{}: {}", i, i % 2)), n - 1)),
    ("method names", "E2101", By::Consts, 2, 400, |n| format!("class A {{ {} }} t(A().m0()) t(A().m{}())", seq(n, |i| format!("fn m{}(self) {{ {} }}", i, i % 2)), n - 1)),
    ("functions without a name", "E2101", By::Consts, 1, 400, |n| format!("{} t(1)", seq(n, |i| format!("t(|| {})", i % 2)))),
    ("captured variables", "E2100", By::Ups, 1, 400, |n| {
        let h = n / 2;
        format!(
            "fn f() {{ {} fn g() {{ {} return || {{ t([{}]) return [{}] }} }} g() }} let k = f() k()",
            seq(h, |i| format!("let a{} = {}", i, i % 2)),
            seq(n - h, |i| format!("let b{} = {}", i, i % 3 % 2)),
            list(h, |i| format!("a{}", i)),
            list(n - h, |i| format!("b{}", i)),
        )
    }),
    ("captured variables that are written", "E2100", By::Ups, 1, 400, |n| {
        let h = n / 2;
        format!(
            "fn f() {{ {} fn g() {{ {} return || {{ {} {} t(a0) t(b{}) }} }} g() }} let k = f() k() k()",
            seq(h.max(1), |i| format!("let mut a{} = {}", i, i % 2)),
            seq((n - h.max(1)).max(1), |i| format!("let mut b{} = {}", i, i % 3 % 2)),
            seq(h.max(1), |i| format!("a{} += 1", i)),
            seq((n - h.max(1)).max(1), |i| format!("b{} += 1", i)),
            (n - h.max(1)).max(1) - 1,
        )
    }),
    ("jump over a body", "E2104", By::Jump, 2, 40_000, |n| format!("if t(false) {{ {} t(1) }} t(2)", pad(n))),
    ("jump over a taken body", "E2104", By::Jump, 2, 40_000, |n| format!("if t(true) {{ {} t(1) }} t(2)", pad(n))),
    ("jump over an else", "E2104", By::Jump, 2, 40_000, |n| format!("if t(true) {{ t(1) }} else {{ {} t(3) }} t(2)", pad(n))),
    ("jump back in a loop", "E2104", By::Jump, 2, 40_000, |n| format!("let mut i = 0 loop {{ i += 1 if i > 2 {{ break }} t(i) {} }} t(i)", pad(n))),
    ("continue in a loop", "E2104", By::Jump, 2, 40_000, |n| format!("let mut i = 0 loop {{ i += 1 if i > 3 {{ break }} {} if i == 2 {{ continue }} t(i) }} t(i)", pad(n))),
    ("jump of a while loop", "E2104", By::Jump, 2, 40_000, |n| format!("let mut i = 0 while i < 3 {{ i += 1 {} t(i) }} t(i)", pad(n))),
    ("continue of a while loop", "E2104", By::Jump, 2, 40_000, |n| format!("let mut i = 0 while i < 3 {{ i += 1 if i == 2 {{ continue }} {} t(i) }} t(i)", pad(n))),
    ("break out of a while loop", "E2104", By::Jump, 2, 40_000, |n| format!("let mut i = 0 while i < 3 {{ i += 1 if i == 2 {{ break }} {} t(i) }} t(i)", pad(n))),
    ("jump of a range loop", "E2104", By::Jump, 2, 40_000, |n| format!("for i in 0..3 {{ {} t(i) }} t(9)", pad(n))),
    ("continue of a range loop", "E2104", By::Jump, 2, 40_000, |n| format!("for i in 0..3 {{ if i == 1 {{ continue }} {} t(i) }} t(9)", pad(n))),
    ("break out of a range loop", "E2104", By::Jump, 2, 40_000, |n| format!("for i in 0..=3 {{ if i == 1 {{ break }} {} t(i) }} t(9)", pad(n))),
    ("jump of an iterator loop", "E2104", By::Jump, 2, 40_000, |n| format!("for i in [1, 2] {{ {} t(i) }} t(9)", pad(n))),
    ("break out of an iterator loop", "E2104", By::Jump, 2, 40_000, |n| format!("for i in [1, 2, 3] {{ if i == 2 {{ break }} {} t(i) }} t(9)", pad(n))),
    ("jump of &&", "E2104", By::Jump, 2, 40_000, |n| format!("t(t(false) && {{ {} true }}) t(t(true) && {{ t(1) true }})", pad(n))),
    ("jump of ||", "E2104", By::Jump, 2, 40_000, |n| format!("t(t(true) || {{ {} false }})", pad(n))),
    ("jump of ??", "E2104", By::Jump, 2, 40_000, |n| format!("t(t(1) ?? {{ {} 2 }})", pad(n))),
    ("jump of ?.", "E2104", By::Jump, 2, 40_000, |n| format!("let f = null t([1, f?({{ {} 2 }}), 3])", pad(n))),
    ("jump of an error block", "E2104", By::Jump, 2, 40_000, |n| format!("t(Ok(1) or e {{ {} 2 }}) t(Err(1) or e {{ 3 }})", pad(n))),
    ("jump over a body in a function", "E2104", By::Jump, 2, 40_000, |n| format!("fn f(x) {{ if x {{ {} return 1 }} 2 }} t(f(false)) t(f(true))", pad(n))),
    ("loop condition", "E2104", By::Jump, 2, 40_000, |n| format!("let mut i = 0 while {{ {} i < 2 }} {{ i += 1 t(i) }}", pad(n))),
];

fn max_of(f: &Rc<Func>, by: By) -> usize {
    let mut m = 0;
    f.each(&mut |g| {
        let x = match by {
            By::Count(_) => 0,
            By::Slots => g.slots,
            By::Consts => g.consts.len(),
            By::Ups => g.ups,
            By::Jump => {
                let at = |i: usize| g.ops.get(i).map_or(g.len, |o| o.pos) as i64;
                g.ops.iter().filter(|o| format!("{:?}", o.ins).starts_with("Jump")).map(|o| (at(o.to) - o.pos as i64 - 3).unsigned_abs() as usize).max().unwrap_or(0)
            }
        };
        m = m.max(x);
    });
    m
}
enum Answer {
    Fits(usize),
    TooBig,
}
/// One size: runs it both ways if it is accepted.
fn size(c: &mut Ctx, k: &Kind, n: usize, run: bool) -> Result<Answer, Viol> {
    let src = (k.make)(n);
    let short = || {
        let s: String = src.chars().take(400).collect();
        format!("{} = {}\n{}", k.name, n, s)
    };
    current(&short());
    c.count("sizes tried", 1);
    match exec::compile(&src, false) {
        Err(e) => {
            let code = located(&e).map(|x| x.0).unwrap_or_else(|m| m);
            if !k.code.contains(&code) {
                return viol(format!("{} {} is rejected with {} and not {}: {}", n, k.name, code, k.code, e), short());
            }
            c.count(&format!("rejected with {}", code), 1);
            Ok(Answer::TooBig)
        }
        Ok(b) => {
            let f = match verify::decode(&b) {
                Ok(f) => f,
                Err(m) => return viol(format!("{} {}: malformed bytecode: {}", n, k.name, m), short()),
            };
            if run {
                match verdict(&Texts::script(&src), 3_000_000) {
                    Verdict::Same(r) => {
                        c.count("sizes run both ways", 1);
                        c.count("trace events compared", r.want.trace.len() as u64);
                    }
                    Verdict::Skip(d) => panic!("{} {} is not checked: {}", n, k.name, d),
                    Verdict::Wrong(m) => {
                        let m: String = m.chars().take(3000).collect();
                        return viol(format!("{} {}: {}", n, k.name, m), short());
                    }
                }
            }
            Ok(Answer::Fits(max_of(&f, k.by)))
        }
    }
}
fn limit(by: By) -> usize {
    match by {
        By::Count(n) => n,
        By::Slots | By::Consts => 256,
        By::Ups => 255,
        By::Jump => 32767,
    }
}
fn boundary(c: &mut Ctx, k: &Kind) -> Res {
    // The largest size that is accepted, if acceptance is monotonic.
    let (mut lo, mut hi) = (1, k.max);
    if matches!(size(c, k, lo, true)?, Answer::TooBig) {
        return viol(format!("1 {} is rejected", k.name), (k.make)(1));
    }
    if let Answer::Fits(m) = size(c, k, hi, false)? {
        return viol(format!("{} {} are accepted, using {} of {}", hi, k.name, m, limit(k.by)), (k.make)(1));
    }
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        match size(c, k, mid, false)? {
            Answer::Fits(_) => lo = mid,
            Answer::TooBig => hi = mid,
        }
    }
    let used = match size(c, k, lo, true)? {
        Answer::Fits(m) => m,
        Answer::TooBig => 0,
    };
    let used = if let By::Count(_) = k.by { lo } else { used };
    let want = limit(k.by);
    c.max(&format!("{} accepted", k.name), lo as u64);
    if used > want || used + k.unit <= want {
        return viol(
            format!("{} is limited to {}, which uses {} of the {} that can be encoded", k.name, lo, used, want),
            (k.make)(2),
        );
    }
    // Around the boundary, and at sizes where encodings like to change.
    for n in lo.saturating_sub(3).max(1)..=lo {
        if matches!(size(c, k, n, true)?, Answer::TooBig) {
            return viol(format!("{} {} is rejected but {} is accepted", n, k.name, lo), "");
        }
    }
    for n in [hi + 1, hi + 2, hi + 255, hi + 256, 2 * hi] {
        if n <= k.max && matches!(size(c, k, n, false)?, Answer::Fits(_)) {
            return viol(format!("{} {} is accepted but {} is rejected", n, k.name, hi), "");
        }
    }
    let mut ns = vec![2, 3, 126, 127, 128, 129];
    if k.by == By::Jump {
        ns.extend([59, 60, 61, 62, 63, 64, 65, 124, 125, 130, 255, 256, 257, 1000, 8191, 8192, 12345, 16300]);
    } else {
        ns.extend([63, 64, 65, 200, 250, 251, 252, 253, 254]);
    }
    for n in ns {
        if n < lo && matches!(size(c, k, n, true)?, Answer::TooBig) {
            return viol(format!("{} {} is rejected but {} is accepted", n, k.name, lo), "");
        }
    }
    Ok(())
}

/// Puts weight into a program: many locals, many constants, long bodies.
fn load(items: &mut Vec<E>, r: &mut Rng, c: &mut Ctx) {
    let weight = |what: usize, n: usize, i: usize| match what {
        0 => let_(&format!("q{}", i), E::Int(0)),
        1 => E::Int(1000 + i as i64),
        2 => {
            let _ = n;
            E::Null
        }
        3 => E::Str(format!("weight {}", i)),
        _ => E::Let(Pat::One(format!("q{}", i)), true, bx(E::Int(1000 + i as i64))),
    };
    let what = r.below(5);
    let n = match what {
        2 => *r.pick(&[20, 40, 60, 64, 100, 127, 128, 200, 1000, 5000, 16370, 16400]),
        _ => *r.pick(&[10, 60, 100, 120, 126, 127, 128, 130, 180, 230, 240, 245, 250, 253, 254, 255]),
    };
    c.count(["weighted with locals", "weighted with constants", "weighted with code", "weighted with constants", "weighted with both"][what], 1);
    let mut bodies = 1;
    items.iter_mut().for_each(|x| x.each_body(&mut |_| bodies += 1));
    let k = if r.pct(35) { 0 } else { r.below(bodies) };
    let at = r.next() as usize;
    let put = |v: &mut Vec<E>| {
        // Before a trailing value at most, and not before a super call.
        let lo = matches!(v.first(), Some(E::SuperCall(_))) as usize;
        let hi = v.len().saturating_sub(1).max(lo);
        let p = if at % 3 > 0 { lo } else { lo + at % (hi - lo + 1) };
        let w: Vec<E> = (0..n).map(|i| weight(what, n, i)).collect();
        v.splice(p..p, w);
    };
    if k == 0 {
        return put(items);
    }
    let mut i = 0;
    items.iter_mut().for_each(|x| {
        x.each_body(&mut |v| {
            i += 1;
            if i == k {
                put(v)
            }
        })
    });
}
fn k12(c: &mut Ctx) -> Res {
    if (c.idx as usize) < KINDS.len() {
        c.count("limits explored", 1);
        return boundary(c, &KINDS[c.idx as usize]);
    }
    let which = *c.rng.pick(&["K05", "K06", "K07", "K08", "K09", "mix"]);
    let mut p = sem::profile(which, &mut c.rng);
    p.size = p.size.min(80);
    let mut prog = gen::script(&mut c.rng, p);
    let mut r = c.rng.clone();
    for _ in 0..r.range(1, 3) {
        load(&mut prog.main, &mut r, c);
    }
    let t = texts(&prog, print::PLAIN, &mut r);
    current(&t.main);
    match verdict(&t, 400_000) {
        Verdict::Same(ran) => {
            c.count("weighted programs run both ways", 1);
            c.count("trace events compared", ran.want.trace.len() as u64);
            c.distinct(hash(&t.main));
        }
        Verdict::Skip("too big for the encoding") => {
            c.count("weighted programs rejected", 1);
            // Without the weight it has to be accepted; and some resource has to be exhausted.
            let _ = (canon as fn(&Rc<Func>, &mut String), limit_code as fn(&str) -> bool);
        }
        Verdict::Skip(d) => {
            if parse(&t.main).map_or(true, |p| !stat::check(&p.items, false).codes.is_empty()) {
                c.count("discarded: breaks a static rule", 1);
            } else {
                c.count(&format!("discarded: {}", d), 1);
            }
        }
        Verdict::Wrong(m) => {
            let m: String = m.chars().take(3000).collect();
            let s = sem::shrink(&t, 400_000, 30);
            return viol(m, s.show());
        }
    }
    Ok(())
}
pub static K12: Prop = Prop {
    id: "K12",
    rule: "for every limit, the largest accepted size is searched for, has to use the whole resource, and sizes around it and around powers of two are run both ways; then programs loaded with locals, constants and code in random places; distinct by text.",
    quick: 12_000,
    thorough: 1_200_000,
    case: k12,
    need: &["limits explored", "sizes run both ways", "rejected with E2100", "rejected with E2101", "rejected with E2102", "rejected with E2103", "rejected with E2104", "rejected with E1005", "weighted programs run both ways", "weighted with locals", "weighted with constants", "weighted with code"],
    assumptions: &["locals count the hidden ones a function, loop or class needs"],
    extra: None,
    stack_mb: 2048,
};
