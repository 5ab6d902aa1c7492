//! K10: modules. L01: the prelude.
use crate::fw::*;
use crate::gen;
use crate::print;
use crate::rng::Rng;
use crate::props::sem::{check, profile, texts, Texts};
use std::collections::BTreeMap;
use std::sync::OnceLock;

/// Ways to export x (and sometimes y), with the ways the value can be used beside looking at it.
const EXPORTS: &[&str] = &[
    "export let x = t(1)",
    "export let mut x = t(1)",
    "export let mut x = 1 x = 2",
    "export let mut x = [1] x = [2] t(x)",
    "let x = t(1) export x",
    "let mut x = 1 export x x = 2",
    "let mut x = 1 x = 2 export x x = 3 t(x)",
    "let mut x = 1 export x x += 5 export x",
    "export let x = 1 export let x = t(2)",
    "export let x = 1 let x = 2 t(x)",
    "let x = 1 export x let x = 2 export x",
    "export let x = null",
    "export let x = 1 export let y = x + 1",
    "export let y = 1 export let x = y + 1",
    "export let x = { let y = 2 t(y) y + 1 }",
    "export let x = if t(true) { 1 } else { 2 }",
    "export let x = |a| t(a)",
    "export let x = || { t(7) 8 }",
    "export fn x() { t(3) 4 }",
    "export fn x(a) { t(a) a }",
    "export fn x() { y() } fn y() { t(5) 6 }",
    "fn y() { 1 } export fn x() { y() + 1 } export y",
    "fn x() { t(9) 1 } export x",
    "export x fn x() { 1 }",
    "let mut n = 0 export fn x() { n += 1 n } export fn y() { n }",
    "let mut n = 0 export let x = || { n += 1 n } export n n = 7",
    "export class x { fn new(self) { self.v = t(1) } fn m(self) { t(self.v) 2 } fn s() { 3 } }",
    "export class x { fn m(self) { t(2) } }",
    "class y { fn m(self) { t(4) 5 } } export class x : y { }",
    "export class y { fn new(self, a) { self.v = a } fn m(self) { self.v } } export class x : y { fn new(self) { super(3) } fn m(self) { super.m() + 1 } }",
    "class x { fn m(self) { 1 } } export x",
    "class x { fn new(self) { self.v = 3 } } let x = x() export x",
    "export class x { op +(self, o) { t(o) 11 } }",
    "export let { x, y } = #{ x: t(1), y: t(2) }",
    "export let { y, x } = #{ x: t(1), y: t(2) }",
    "export let { x } = #{ x: t(1), y: t(2) }",
    "export let mut { x, y } = #{ x: t(1), y: t(2) } x = y y = 9 t(x)",
    "let { x, y } = #{ x: 1, y: 2 } export y export x",
    "let o = #{ x: 1, y: 2 } export let { x } = o o.x = 5 export let { y } = o",
    "export let { x, y } = t(#{ x: 1, y: [2] }) t(x) t(y)",
    "export Range export Ok",
    "export let x = Ok(1)",
    "export let x = #{ x: 1 }",
    "export let x = [1, 2, 3]",
    "let y = 1",
    "",
    "t(1)",
    "1",
    "{ let x = 1 t(x) } export let x = 2",
    "if t(true) { let x = 1 } export let x = 3",
    "for i in 0..3 { t(i) } export let x = 4",
    "let mut x = 0 while x < 3 { x += 1 } export x",
    "export let x = t(1) x",
    "export let x = 1 export fn y() { x }",
    "export let mut x = 1 export fn y() { x += 1 x }",
    "let l = [] for i in 0..3 { l.push(|| i) } export let x = l[1]",
    "export fn x(a: Int) -> Int { a }",
    "export fn x(a) -> Int? { return a }",
    "op #dd(a) { t(a) a } export let x = 1",
    "export let x = t(1) export let y = t(2) export let z = t(3)",
    "let a = 1 let b = 2 { let c = 3 export } export let x = a + b",
    "export let x = y fn y() { 1 }",
    "let mut k = 0 export let x = loop { k += 1 if k > 2 { break } }",
    "export let x = { class x { fn m(self) { 8 } } x() }",
    "export let x = { fn x() { 8 } x }",
];
/// Ways of bringing x in, around a hole.
const IMPORTS: &[&str] = &[
    "import { x } from \"a\" @",
    "import { x, y } from \"a\" t(y) @",
    "import { y, x } from \"a\" t(y) @",
    "import { y } from \"a\" t(y) import { x } from \"a\" @",
    "import * as m from \"a\" let x = m.x @",
    "import * as x from \"a\" @",
    "import * as m, { x } from \"a\" t(m) @",
    "import * as m, { x, y } from \"a\" t(y) t(m) @",
    "{ import { x } from \"a\" @ }",
    "if true { import { x } from \"a\" @ }",
    "fn g() { import { x } from \"a\" @ } t(g()) t(g())",
    "fn g(x) { t(x) import { x } from \"a\" @ } t(g(1))",
    "let g = || { import * as m, { x } from \"a\" t(m) @ } t(g())",
    "for i in 0..2 { import { x } from \"a\" @ }",
    "for i in 0..2 { import * as m from \"a\" let x = m.x @ }",
    "let mut i = 0 while i < 2 { i += 1 import { x } from \"a\" @ }",
    "loop { import { x } from \"a\" @ break }",
    "import { x } from \"a\" import { x } from \"a\" @",
    "import * as m from \"a\" import * as n from \"a\" t(m == n) let x = n.x @",
    "let x = 5 t(x) { import { x } from \"a\" @ } t(x)",
    "let mut x = 5 { import { x } from \"a\" @ } x += 1 t(x)",
    "import { x } from \"a\" let f = || x t(f()) @",
    "import { x } from \"a\" { let f = || { @ } f() }",
    "import { x } from \"b\" @",
    "import * as b from \"b\" let x = b.x @ t(b)",
    "import { x } from \"c\" @",
    "t(0) import { x } from \"a\" t(0) import { x } from \"b\" @",
    "class K { fn m(self) { import { x } from \"a\" @ } } t(K().m())",
    "class K { fn new(self) { import { x } from \"a\" self.x = x @ } } t(K())",
    "let k = t([t(1), { import { x } from \"a\" @ }, t(2)])",
    "let k = t(1) + { import { x } from \"a\" t(x) 5 } t(k)",
    "let k = { import { x } from \"a\" } t(k)",
    "let k = { import * as m, { x } from \"a\" } t(k)",
    "if t(false) { import { x } from \"a\" t(x) } t(1)",
    "import * as m from \"a\" m.x = t(5) import { x } from \"a\" @",
    "import * as m from \"a\" m.z = 5 import { z } from \"a\" import * as n from \"a\" t(n) let x = z @",
    "import { nothing } from \"a\" t(1)",
    "t(2) import { x } from \"nowhere\" t(3)",
    "import { x } from \"cycle\" @",
    "import * as x from \"half\" @",
    "import { x } from \"a\"",
    "import * as x from \"a\"",
    "import * as m, { x } from \"a\"",
    "let a = t(1) let b = t(2) import { x } from \"a\" t(a) t(b) @ t(a) t(b)",
    "import { x } from \"a\" let c = t(3) @ t(c)",
    "import * as m, { x } from \"a\" let c = t(3) t(m.x) @ t(c)",
    "{ let a = 1 let b = 2 t(a + b) } import { x } from \"a\" let c = 4 @ t(c)",
];
/// Uses of x.
const USES: &[&str] = &[
    "t(x)",
    "t(x) t(x())",
    "t(x(t(6)))",
    "t(x().m())",
    "t([x, x()])",
    "let z = x t(z() + z())",
    "t(x.s())",
    "class Z : x { fn m(self) { t(super.m()) 20 } } t(Z().m()) t(Z() is x)",
    "t(x.x)",
    "t(x() + t(2))",
    "return x",
    "let f = || x t(f())",
    "t(t(4) |> x)",
];
const OTHER: &[(&str, &str)] = &[
    ("b", "t(\"b\") import { x } from \"a\" export x t(\"b done\")"),
    ("c", "import * as m from \"a\" t(m) import { x } from \"b\" export let y = x export x"),
    ("cycle", "t(\"cycle\") export let x = t(1) import * as m from \"cycle\" t(m)"),
    ("half", "t(\"half\") export let x = 1 import * as m from \"other half\" export let y = m"),
    ("other half", "t(\"other half\") import { x } from \"half\" export let z = x + 1"),
];
fn directed() -> &'static [(String, String, bool)] {
    static P: OnceLock<Vec<(String, String, bool)>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v = vec![];
        for e in EXPORTS {
            // The module alone.
            v.push(("".into(), e.to_string(), true));
            v.push(("".into(), format!("t(0) {} t(9)", e), true));
            for i in IMPORTS {
                for (k, u) in USES.iter().enumerate() {
                    if k > 0 && !i.contains('@') {
                        continue;
                    }
                    let s = i.replace('@', u);
                    v.push((e.to_string(), s.clone(), false));
                    if k < 2 {
                        v.push((e.to_string(), format!("{} export let done = 1", s), true));
                        v.push((e.to_string(), format!("export let first = 1 {} export first", s), true));
                    }
                }
            }
        }
        v
    })
}
fn k10(c: &mut Ctx) -> Res {
    let d = directed();
    if (c.idx as usize) < d.len() {
        let (a, main, module) = &d[c.idx as usize];
        let mut modules: BTreeMap<String, String> = OTHER.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        modules.insert("a".into(), a.clone());
        modules.retain(|k, _| main.contains(&format!("\"{}\"", k)) || (main.contains("\"c\"") && ["a", "b"].contains(&k.as_str())) || (main.contains("\"b\"") && k == "a") || (main.contains("half") && k.contains("half")));
        c.count("directed programs", 1);
        let t = Texts { main: main.clone(), module: *module, modules, prelude: true };
        if check(c, &t, false)? {
            c.count("directed programs run both ways", 1);
        } else if std::env::var("VH_SHOW").is_ok() {
            eprintln!("DISCARDED {}", t.show());
        }
        return Ok(());
    }
    static MANY: OnceLock<Vec<(String, bool, Vec<(String, String)>)>> = OnceLock::new();
    let many = MANY.get_or_init(crate::props::lots::modules);
    if let Some((main, module, ms)) = many.get(c.idx as usize - d.len()) {
        c.count("directed programs", 1);
        let t = Texts { main: main.clone(), module: *module, modules: ms.iter().cloned().collect(), prelude: true };
        if check(c, &t, false)? {
            c.count("directed programs run both ways", 1);
        } else if let Ok(p) = std::env::var("VH_SHOW") {
            use std::io::Write;
            if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(p) {
                let _ = writeln!(f, "DISCARDED {}", t.show());
            }
        }
        return Ok(());
    }
    let mut p = profile(if c.rng.pct(50) { "K10" } else { "mix" }, &mut c.rng);
    p.ops = 0;
    let prog = gen::modules::bundle(&mut c.rng, p);
    let st = if c.rng.pct(75) { print::PLAIN } else { print::random_style(&mut c.rng) };
    let t = texts(&prog, st, &mut c.rng);
    if check(c, &t, false)? {
        c.count("bundles", 1);
        c.count("modules in bundles", t.modules.len() as u64);
        if t.module {
            c.count("main modules", 1);
        }
    }
    Ok(())
}
pub static K10: Prop = Prop {
    id: "K10",
    rule: "directed: 65 ways to export, alone and in 47 ways of importing with 13 uses; then random bundles of up to four modules that import each other at the top, in blocks, loops and functions, and a main script or module. Each bundle runs in the reference interpreter and, compiled, on the monitored machine; traces, the value or error and the exported fields are compared. Non-trivial: at least two trace events; distinct by text.",
    quick: 200_000,
    thorough: 6_000_000,
    case: k10,
    need: &["programs run both ways", "trace events compared", "directed programs run both ways", "bundles", "main modules", "eval import", "eval export", "op LoadModule", "op StoreField"],
    assumptions: &[
        "the instruction set means what the harness's machine does (calibrated against the shipped virtual machine's source, which does not build)",
        "a module is found by the exact path text; finding files is the virtual machine's business",
    ],
    extra: None,
    stack_mb: 512,
};

// ---------------------------------------------------------------- L01

const SHIPPED: &str = "/repo/data/scripts/prelude.dm";
const PUBLIC: &[&str] = &["Range", "RangeInclusive", "Result", "Ok", "Err", "roll"];
fn shipped() -> &'static str {
    static S: OnceLock<String> = OnceLock::new();
    S.get_or_init(|| std::fs::read_to_string(SHIPPED).unwrap_or_default())
}
/// A script and the trace it should have.
struct Spec {
    src: String,
    want: Vec<String>,
    end: Option<&'static str>,
    n: usize,
}
impl Spec {
    fn t(&mut self, src: &str, want: &str) {
        self.src.push_str(&format!("t({}) ", src));
        self.want.push(want.into());
    }
    fn name(&mut self, s: &str) -> String {
        self.n += 1;
        format!("{}{}", s, self.n)
    }
}
fn lit(i: i64) -> String {
    if i == i64::MIN {
        format!("({} - 1)", i + 1)
    } else {
        format!("{}", i)
    }
}
/// A range expression, what it contains.
fn range(r: &mut Rng, s: &mut Spec) -> (String, i64, i64, bool) {
    let base = match r.below(8) {
        0 => i64::MAX - 200,
        1 => i64::MIN,
        2 => i64::MIN + r.below(50) as i64,
        3 => r.next() as i64 / 2,
        4 => -(r.below(20) as i64),
        _ => r.below(6) as i64,
    };
    let a = base;
    let b = match r.below(10) {
        0 => a,
        1 => a.saturating_sub(r.range(1, 10) as i64),
        2 => a + 1,
        3 if a < 0 => 0.min(a + 30),
        4 => a.saturating_sub(1),
        _ => a + r.below(12) as i64,
    };
    let incl = r.pct(50);
    let op = if incl { "..=" } else { ".." };
    let class = if incl { "RangeInclusive" } else { "Range" };
    let n = s.name("r");
    let e = match r.below(6) {
        0 => format!("{}({}, {})", class, lit(a), lit(b)),
        1 => format!("{{ {}{}{} }}", lit(a), op, lit(b)),
        2 => format!("({}{}{})", lit(a), op, lit(b)),
        3 => {
            s.src.push_str(&format!("let {} = {}{}{} ", n, lit(a), op, lit(b)));
            n
        }
        4 => {
            s.src.push_str(&format!("let {} = {}({}, {}) ", n, class, lit(a), lit(b)));
            n
        }
        _ => {
            s.src.push_str(&format!("let {}a = {} let {}b = {} let {} = {}a{}{}b ", n, lit(a), n, lit(b), n, n, op, n));
            n
        }
    };
    (e, a, b, incl)
}
fn elems(a: i64, b: i64, incl: bool) -> Vec<i64> {
    let mut v = vec![];
    let mut i = a;
    while if incl { i <= b } else { i < b } {
        v.push(i);
        i += 1;
        assert!(v.len() < 100);
    }
    v
}
#[derive(Clone)]
struct Rs {
    ok: bool,
    shown: String,
    int: Option<i64>,
}
/// An expression that makes a result, and what it is.
fn result(r: &mut Rng, s: &mut Spec, d: u32) -> (String, Rs) {
    if d == 0 || r.pct(35) {
        let ok = r.pct(55);
        let (v, shown, int) = match r.below(8) {
            0 => ("null".to_string(), "null".to_string(), None),
            1 => ("()".into(), "unit".into(), None),
            2 => ("\"text\"".into(), crate::model::render(&crate::model::V::Str("text".into())), None),
            3 => ("true".into(), "true".into(), None),
            4 => ("[1, 2]".into(), "[1, 2]".into(), None),
            _ => {
                let i = r.below(100) as i64;
                (format!("{}", i), format!("{}", i), Some(i))
            }
        };
        let class = if ok { "Ok" } else { "Err" };
        return if r.pct(12) {
            (format!("Result({}, {})", ok, v), Rs { ok, shown, int })
        } else {
            (format!("{}({})", class, v), Rs { ok, shown, int })
        };
    }
    let (e, x) = result(r, s, d - 1);
    if let Some(i) = x.int.filter(|_| r.pct(80)) {
        let k = r.below(9) as i64;
        let v = i + k;
        if x.ok {
            s.want.push(format!("{}", i));
        }
        let f = format!("|v| t(v) + {}", k);
        let f = if r.pct(50) {
            f
        } else {
            let n = s.name("f");
            s.src.insert_str(0, &format!("fn {}(v) {{ t(v) + {} }} ", n, k));
            n
        };
        let y = if x.ok { Rs { ok: true, shown: format!("{}", v), int: Some(v) } } else { x };
        (format!("{}.map({})", e, f), y)
    } else {
        let y = if x.ok { Rs { ok: true, shown: x.shown.clone(), int: x.int } } else { x };
        // The function is called for an ok value, whatever that is, and only then.
        if y.ok {
            s.want.push(y.shown.clone());
        }
        (format!("{}.map(|v| {{ t(v) v }})", e), y)
    }
}
/// Long ranges are summed, not listed.
fn long_range(r: &mut Rng, s: &mut Spec) {
    let a = *r.pick(&[0, 1, -3, -100, 250, 65_000, -40_000, 2_147_483_000, -2_147_484_000, 1 << 53]);
    let n = match r.below(4) {
        0 => *r.pick(&[100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025]),
        1 => r.below(3000) as i64,
        _ => r.below(400) as i64,
    };
    let incl = r.pct(50);
    let (g, k, d, i) = (s.name("g"), s.name("k"), s.name("d"), s.name("i"));
    s.src.push_str(&format!("let {} = {}{}{} let mut {} = 0 let mut {} = 0 for {} in {} {{ {} += 1 {} += {} - {} * {} }} ", g, lit(a), if incl { "..=" } else { ".." }, lit(a + n), k, d, i, g, k, d, i, lit(a), k));
    let m = n + incl as i64;
    // The j-th element is a + j - 1, so every round adds a + (j - 1) - a * j.
    let want: i64 = (1..=m).fold(0i64, |w, j| w.wrapping_add((a + j - 1).wrapping_sub(a.wrapping_mul(j))));
    s.t(&k, &m.to_string());
    s.t(&d, &want.to_string());
}
/// Many results exist before any is looked at.
fn many_results(r: &mut Rng, s: &mut Spec) {
    let n = if r.pct(10) { r.range(12, 24) } else { r.range(2, 10) };
    let mut all = vec![];
    let mut change = vec![];
    for _ in 0..n {
        let x = s.name("m");
        let ok = r.pct(50);
        let i = r.below(1000) as i64;
        let class = if ok { "Ok" } else { "Err" };
        let e = match r.below(8) {
            0 => {
                // A result that carries a result.
                let inner = r.pct(50);
                s.src.push_str(&format!("let {}i = {}({}) ", x, if inner { "Ok" } else { "Err" }, i));
                all.push((format!("{}.result.is_ok", x), inner.to_string()));
                all.push((format!("{}.result.result", x), i.to_string()));
                format!("{}({}i)", class, x)
            }
            1 => {
                // The very object, not a copy.
                s.src.push_str(&format!("let {}o = #{{ v: {} }} ", x, i));
                change.push(format!("{}o.v += 1000 ", x));
                all.push((format!("{}.result.v", x), (i + 1000).to_string()));
                format!("{}({}o)", class, x)
            }
            2 => {
                s.src.push_str(&format!("fn {}f(a) {{ a + {} }} ", x, i));
                all.push((format!("({}.result)(1)", x), (i + 1).to_string()));
                format!("{}({}f)", class, x)
            }
            _ => {
                all.push((format!("{}.result", x), i.to_string()));
                format!("{}({})", class, i)
            }
        };
        all.push((format!("{}.is_ok", x), ok.to_string()));
        if r.pct(25) && n < 12 {
            // What is made of it leaves it alone.
            s.src.push_str(&format!("let {} = {} {}.map(|v| null) ", x, e, x));
        } else {
            s.src.push_str(&format!("let {} = {} ", x, e));
        }
    }
    s.src.push_str(&change.concat());
    for _ in 0..all.len().min(20) {
        let (e, w) = r.pick(&all).clone();
        s.t(&e, &w);
    }
}
fn l01(c: &mut Ctx) -> Res {
    let text = shipped();
    if c.idx == 0 {
        return exports(c, text);
    }
    let mut s = Spec { src: String::new(), want: vec![], end: None, n: 0 };
    let r = &mut c.rng;
    let mut kinds = vec![];
    for _ in 0..r.range(1, 4) {
        match r.weighted(&[4, 4, 2, 3, 2, 6, 0, 2, 1, 1]) {
            0 => {
                // A loop, possibly left early.
                let (e, a, b, incl) = range(r, &mut s);
                let v = elems(a, b, incl);
                let i = s.name("i");
                match r.below(5) {
                    0 => {
                        let stop = &{ *r.pick(&[a, b, a.saturating_add(2)]) };
                        s.src.push_str(&format!("for {} in {} {{ if {} == {} {{ break }} t({}) }} ", i, e, i, lit(*stop), i));
                        s.want.extend(v.iter().take_while(|x| *x != stop).map(|x| x.to_string()));
                    }
                    1 => {
                        let skip = &{ *r.pick(&[a, b, a.saturating_add(2)]) };
                        s.src.push_str(&format!("for {} in {} {{ if {} == {} {{ continue }} t({}) }} ", i, e, i, lit(*skip), i));
                        s.want.extend(v.iter().filter(|x| *x != skip).map(|x| x.to_string()));
                    }
                    2 => {
                        let j = s.name("i");
                        let (e2, a2, b2, incl2) = (format!("Range({}, {})", lit(a), lit(b)), a, b, false);
                        let inner = elems(a2, b2, incl2);
                        s.src.push_str(&format!("for {} in {} {{ for {} in {} {{ t([{}, {}]) }} }} ", i, e, j, e2, i, j));
                        for x in &v {
                            s.want.extend(inner.iter().map(|y| format!("[{}, {}]", x, y)));
                        }
                    }
                    _ => {
                        s.src.push_str(&format!("for {} in {} {{ t({}) }} ", i, e, i));
                        s.want.extend(v.iter().map(|x| x.to_string()));
                    }
                }
                s.t("0", "0");
                kinds.push("range loops");
            }
            1 => {
                // The protocol by hand, past the end.
                let (e, a, b, incl) = range(r, &mut s);
                let v = elems(a, b, incl);
                let (it, n) = (s.name("it"), s.name("n"));
                s.src.push_str(&format!("let {} = {}.iter() let mut {} = null ", it, if e.starts_with('{') { format!("({})", e) } else { e }, n));
                for k in 0..v.len() + r.below(4) + 1 {
                    s.src.push_str(&format!("{} = {}.next() ", n, it));
                    s.t(&format!("{}.is_done", n), if k < v.len() { "false" } else { "true" });
                    if k < v.len() {
                        s.t(&format!("{}.value", n), &v[k].to_string());
                    }
                }
                kinds.push("iterators by hand");
            }
            2 => {
                // Iterators of one range do not disturb each other.
                let (e, a, b, incl) = range(r, &mut s);
                let v = elems(a, b, incl);
                let (rg, p, q, n) = (s.name("g"), s.name("p"), s.name("q"), s.name("n"));
                s.src.push_str(&format!("let {} = {} let {} = {}.iter() let {} = {}.iter() let mut {} = null ", rg, e, p, rg, q, rg, n));
                let mut at = [0, 0];
                for _ in 0..v.len() * 2 + 2 {
                    let w = r.below(2);
                    s.src.push_str(&format!("{} = {}.next() ", n, if w == 0 { &p } else { &q }));
                    let k = at[w];
                    s.t(&format!("{}.is_done", n), if k < v.len() { "false" } else { "true" });
                    if k < v.len() {
                        s.t(&format!("{}.value", n), &v[k].to_string());
                    }
                    at[w] += 1;
                }
                for round in 0..2 {
                    s.src.push_str(&format!("for i in {} {{ t(i + {}) }} ", rg, round));
                    s.want.extend(v.iter().map(|x| (x + round).to_string()));
                }
                s.t(&format!("{}.start == {}", rg, lit(a)), "true");
                s.t(&format!("{}.end == {}", rg, lit(b)), "true");
                kinds.push("iterators of one range");
            }
            3 => {
                // What a range is.
                let (e, _, _, incl) = range(r, &mut s);
                let rg = s.name("g");
                s.src.push_str(&format!("let {} = {} ", rg, e));
                s.t(&format!("{} is Range", rg), if incl { "false" } else { "true" });
                s.t(&format!("{} is RangeInclusive", rg), if incl { "true" } else { "false" });
                kinds.push("kinds of ranges");
            }
            4 => {
                // Loops over the operator's value in a function, with a result.
                let (e, a, b, incl) = range(r, &mut s);
                let f = s.name("f");
                let v = elems(a, b, incl);
                s.src.push_str(&format!("fn {}(g, k) {{ for i in g {{ if k == 0 {{ return Ok(i) }} k = k - 1 }} Err(\"none\") }} ", f).replace("fn ", "fn ").replace("k = k - 1", "t(i)").replace("if k == 0", &format!("if k == i")));
                let k = *r.pick(&[a, b, a.saturating_add(1)]);
                let rs = s.name("x");
                s.src.push_str(&format!("let {} = {}({}, {}) ", rs, f, e, lit(k)));
                for x in &v {
                    if *x == k {
                        break;
                    }
                    s.want.push(x.to_string());
                }
                s.t(&format!("{}.is_ok", rs), if v.contains(&k) { "true" } else { "false" });
                kinds.push("searches");
            }
            5 => {
                let d = r.below(4) as u32;
                let mut inner = Spec { src: String::new(), want: vec![], end: None, n: s.n };
                let (e, x) = result(r, &mut inner, d);
                s.n = inner.n;
                let n = s.name("x");
                s.src.push_str(&inner.src);
                s.want.extend(inner.want);
                s.src.push_str(&format!("let {} = {} ", n, e));
                for _ in 0..r.range(1, 4) {
                    match r.below(8) {
                        0 | 1 => s.t(&format!("{}.is_ok", n), if x.ok { "true" } else { "false" }),
                        2 | 3 => s.t(&format!("{}.result", n), &x.shown),
                        4 => s.t(&format!("{} is Result", n), "true"),
                        5 => {
                            if !e.starts_with("Result(") || e.contains(".map(") {
                                s.t(&format!("{} is Ok", n), if x.ok { "true" } else { "false" });
                                s.t(&format!("{} is Err", n), if x.ok { "false" } else { "true" });
                            }
                        }
                        6 => {
                            s.src.push_str(&format!("t({} or e {{ t(e) 777 }}) ", n));
                            if !x.ok {
                                s.want.push(x.shown.clone());
                                s.want.push("777".into());
                            } else {
                                s.want.push(x.shown.clone());
                            }
                        }
                        _ => {
                            let f = s.name("f");
                            s.src.push_str(&format!("fn {}() {{ t({}!!) Ok(888) }} t({}().result) ", f, n, f));
                            if x.ok {
                                s.want.push(x.shown.clone());
                                s.want.push("888".into());
                            } else {
                                s.want.push(x.shown.clone());
                            }
                        }
                    }
                }
                kinds.push("results");
            }
            7 => {
                many_results(r, &mut s);
                kinds.push("many results");
            }
            8 => {
                long_range(r, &mut s);
                kinds.push("long ranges");
            }
            _ => {
                // Wrong uses stop the program.
                let (e, code) = *r.pick(&[
                    ("Ok(1).map(1)", "E3100"),
                    ("Err(1).map(null)", "E3101"),
                    ("Result(1, 2)", "E3100"),
                    ("Result(null, 2)", "E3101"),
                ]);
                s.t("5", "5");
                s.src.push_str(&format!("t({}) ", e));
                s.end = Some(code);
                kinds.push("wrong uses");
                break;
            }
        }
    }
    current(&s.src);
    let code = match crate::exec::build_with(&s.src, false, &BTreeMap::new(), Some(text)) {
        Ok(c) => c,
        Err(crate::exec::Bad::Rejected(e, src)) if src == text => return viol(format!("the prelude is rejected: {:#}", e), text),
        Err(crate::exec::Bad::Rejected(e, _)) => {
            return match crate::parse::parse(&s.src) {
                Ok(_) => viol(format!("a valid program is rejected: {:#}", e), &s.src),
                Err(x) => panic!("the harness made a bad program: {:?} at {}\n{}", x.codes, &s.src[x.s..], s.src),
            }
        }
        Err(crate::exec::Bad::Malformed(m)) | Err(crate::exec::Bad::Monitor(m)) => return viol(m, &s.src),
        Err(crate::exec::Bad::Discard(d)) => panic!("{}", d),
    };
    let (got, _) = crate::exec::execute(&code, false, 2_000_000);
    let got = match got {
        Ok(g) => g,
        Err(crate::exec::Bad::Monitor(m)) => return viol(format!("while running: {}", m), &s.src),
        Err(crate::exec::Bad::Discard(m)) => return viol(format!("the program does not get to its end: {}", m), &s.src),
        Err(_) => unreachable!(),
    };
    let end = got.end.as_ref().err().copied();
    if got.trace != s.want || end != s.end {
        let k = got.trace.iter().zip(&s.want).take_while(|(a, b)| a == b).count();
        return viol(
            format!("event {} should be {:?} but is {:?}; the program should end with {:?} and ends with {:?}", k, s.want.get(k), got.trace.get(k), s.end, end),
            &s.src,
        );
    }
    c.count("programs", 1);
    c.count("events compared", s.want.len() as u64);
    for k in kinds {
        c.count(k, 1);
    }
    c.distinct(hash(&s.src));
    c.sample(|| s.src.clone());
    Ok(())
}
/// The prelude on its own.
fn exports(c: &mut Ctx, text: &str) -> Res {
    current(text);
    let code = match crate::exec::build_with("1", false, &BTreeMap::new(), Some(text)) {
        Ok(c) => c,
        Err(crate::exec::Bad::Rejected(e, _)) => return viol(format!("the prelude is rejected: {:#}", e), text),
        Err(_) => return viol("the prelude's code is malformed", text),
    };
    let prelude = match &code.prelude {
        Some(p) => p,
        None => return Ok(()),
    };
    let none = BTreeMap::new();
    let mut vm = crate::vm::Vm::new(&none, 1_000_000);
    let out = vm.module(prelude);
    let names: Vec<String> = match out {
        Ok(crate::model::V::Obj(o)) => o.fields.borrow().keys().cloned().collect(),
        _ => return viol("the prelude does not run to its end", text),
    };
    drop(vm);
    crate::model::clear_heap();
    for n in PUBLIC {
        if !names.iter().any(|x| x == n) {
            return viol(format!("the prelude does not export {}, only {:?}", n, names), text);
        }
        c.count("exports found", 1);
    }
    // Whatever else is marked as exported.
    if let Ok(p) = crate::parse::parse(text) {
        use crate::ast::{Pat, E};
        for e in &p.items {
            if let E::Export(x) = e {
                let ns = match &**x {
                    E::Let(Pat::One(n), ..) | E::Id(n) => vec![n.clone()],
                    E::Let(Pat::Many(v), ..) => v.clone(),
                    E::Fn(d) => vec![d.name.clone()],
                    E::Class(d) => vec![d.name.clone()],
                    _ => vec![],
                };
                for n in ns {
                    if !names.contains(&n) {
                        return viol(format!("the prelude does not export {}", n), text);
                    }
                }
            }
        }
    }
    Ok(())
}
pub static L01: Prop = Prop {
    id: "L01",
    rule: "the shipped prelude is compiled and run, its exports listed; then random scripts of range loops, iterators driven by hand past their end, interleaved iterators of one range, results and chains of map run on it, and their traces are compared with sequences computed directly. Distinct by text.",
    quick: 200_000,
    thorough: 6_000_000,
    case: l01,
    need: &["exports found", "programs", "events compared", "range loops", "iterators by hand", "iterators of one range", "kinds of ranges", "searches", "results", "many results", "long ranges", "wrong uses"],
    assumptions: &[
        "the instruction set means what the harness's machine does (calibrated against the shipped virtual machine's source, which does not build)",
        "ranges end at least 100 below the largest integer, as their iterators count past the end",
    ],
    extra: None,
    stack_mb: 256,
};
