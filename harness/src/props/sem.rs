//! The properties about what compiled programs do: each program runs in the reference interpreter
//! and, compiled, on the monitored machine.
use crate::ast::*;
use crate::exec::{self, build, execute, interpret, Bad, Expected, Prog};
use crate::ast::nestings;
use crate::fw::*;
use crate::gen::{self, Profile};
use crate::model::Exc;
use crate::names;
use crate::parse::parse;
use crate::print;
use crate::props::dir;
use crate::rng::Rng;
use crate::stat;
use crate::verify;
use crate::vm::Seen;
use std::collections::BTreeMap;

/// The texts of a program.
#[derive(Clone)]
pub struct Texts {
    pub main: String,
    pub module: bool,
    pub modules: BTreeMap<String, String>,
    pub prelude: bool,
}
impl Texts {
    pub fn script(s: &str) -> Texts {
        Texts { main: s.into(), module: false, modules: BTreeMap::new(), prelude: true }
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        for (k, v) in &self.modules {
            o.push_str(&format!("// module {:?}\n{}\n", k, v));
        }
        o.push_str(&format!("// {}\n{}", if self.module { "main module" } else { "script" }, self.main));
        o
    }
}
pub fn texts(p: &Prog, st: print::Style, rng: &mut Rng) -> Texts {
    let norm = |items: &Vec<E>| {
        let mut v = items.clone();
        print::normalize(&mut v, true);
        v
    };
    let mut t = Texts {
        main: print::program(&norm(&p.main), st, rng),
        module: p.module,
        modules: p.modules.iter().map(|(k, v)| (k.clone(), print::program(&norm(v), st, rng))).collect(),
        prelude: p.prelude,
    };
    if rng.pct(25) {
        let mut all: Vec<&mut String> = t.modules.values_mut().collect();
        all.push(&mut t.main);
        names::unusual(&mut all, rng);
    }
    t
}

pub struct Ran {
    pub want: exec::Outcome,
    pub exp: Expected,
    pub seen: Seen,
    pub flow: verify::Flow,
    pub funcs: usize,
}
pub enum Verdict {
    Same(Box<Ran>),
    Skip(&'static str),
    Wrong(String),
}
pub const STEPS: u64 = 60_000;

/// Runs a program both ways with every monitor on.
pub fn verdict(t: &Texts, limit: u64) -> Verdict {
    let read = |s: &str| parse(s).map(|p| p.items);
    let main = match read(&t.main) {
        Ok(m) => m,
        Err(_) => return Verdict::Skip("unreadable"),
    };
    let mut modules = BTreeMap::new();
    for (k, v) in &t.modules {
        match read(v) {
            Ok(m) => modules.insert(k.clone(), m),
            Err(_) => return Verdict::Skip("unreadable"),
        };
    }
    let broken = std::iter::once((&main, t.module))
        .chain(modules.values().map(|m| (m, true)))
        .find_map(|(m, k)| stat::check(m, k).codes.into_iter().next());
    if let Some(code) = broken {
        return Verdict::Skip(code);
    }
    let p = Prog { module: t.module, main, modules, prelude: t.prelude };
    let code = match build(&t.main, t.module, &t.modules, t.prelude) {
        Ok(c) => c,
        Err(Bad::Rejected(e, src)) => {
            let s = e.to_string();
            if ["E2100", "E2101", "E2102", "E2103", "E2104"].iter().any(|c| s.contains(c)) {
                // What needs hundreds of something has hundreds of tokens.
                if crate::lex::lex(&src).len() < 200 {
                    return Verdict::Wrong(format!("a small program is rejected for its size: {:#}\nin: {}", e, src));
                }
                return Verdict::Skip("too big for the encoding");
            }
            return Verdict::Wrong(format!("a valid program is rejected: {:#}\nin: {}", e, src));
        }
        Err(Bad::Malformed(m)) => return Verdict::Wrong(format!("malformed bytecode: {}", m)),
        Err(Bad::Monitor(m)) => return Verdict::Wrong(m),
        Err(Bad::Discard(d)) => return Verdict::Skip(d),
    };
    let mut flow = verify::Flow { points: 0, joins: 0, max: 0, unreachable: 0 };
    let mut funcs = 0;
    let mut bad = None;
    for m in code.modules.values().chain(std::iter::once(&code.main)) {
        m.each(&mut |f| {
            funcs += 1;
            match verify::flow(f) {
                Ok(x) => {
                    flow.points += x.points;
                    flow.joins += x.joins;
                    flow.max = flow.max.max(x.max);
                    flow.unreachable += x.unreachable;
                }
                Err(e) => bad = Some(e),
            }
        });
    }
    if let Some(e) = bad {
        return Verdict::Wrong(format!("operand stack: {}", e));
    }
    let mut exp = interpret(&p, limit);
    let want = match std::mem::replace(&mut exp.out, Err(Exc::Discard(""))) {
        Ok(o) => o,
        Err(Exc::Discard(d)) => return Verdict::Skip(d),
        Err(Exc::Monitor(m)) => panic!("the reference interpreter lost its way: {}", m),
        Err(_) => panic!("control left the program in the reference interpreter"),
    };
    let (got, seen) = execute(&code, t.module, exp.steps * 300 + 100_000);
    match got {
        Ok(g) if g == want => Verdict::Same(Box::new(Ran { want, exp, seen, flow, funcs })),
        Ok(g) => Verdict::Wrong(format!("the program should give {}\nbut the compiled code gives {}", want, g)),
        Err(Bad::Monitor(m)) => Verdict::Wrong(format!("while running the compiled code: {}", m)),
        Err(Bad::Discard(m)) => Verdict::Wrong(format!("the program should give {}\nbut the compiled code does not get there: {}", want, m)),
        Err(_) => unreachable!(),
    }
}

/// Removes whatever tokens it can while the program still fails.
pub fn shrink(t: &Texts, limit: u64, budget: u64) -> Texts {
    let t0 = std::time::Instant::now();
    let mut cur = t.clone();
    let keys: Vec<Option<String>> = t.modules.keys().cloned().map(Some).chain(std::iter::once(None)).collect();
    for k in keys {
        let text = match &k {
            Some(k) => cur.modules[k].clone(),
            None => cur.main.clone(),
        };
        let mut toks: Vec<String> = crate::lex::lex(&text)
            .iter()
            .map(|x| text[x.s..x.e].to_string())
            .filter(|s| !s.is_empty())
            .collect();
        let mut n = toks.len() / 2;
        while n >= 1 {
            let mut i = 0;
            while i < toks.len() {
                if t0.elapsed().as_secs() > budget {
                    return cur;
                }
                let mut less = toks.clone();
                less.drain(i..(i + n).min(toks.len()));
                let mut c = cur.clone();
                match &k {
                    Some(k) => {
                        c.modules.insert(k.clone(), less.join(" "));
                    }
                    None => c.main = less.join(" "),
                }
                if matches!(verdict(&c, limit), Verdict::Wrong(_)) {
                    cur = c;
                    toks = less;
                } else {
                    i += (n / 2).max(1);
                }
            }
            n = if n > 40 { n / 2 } else { n - 1 };
        }
    }
    cur
}

pub fn report(c: &mut Ctx, r: &Ran, text: &str) {
    c.count("programs run both ways", 1);
    c.count("reference steps", r.exp.steps);
    c.count("machine steps", r.seen.steps);
    c.count("trace events compared", r.want.trace.len() as u64);
    c.count("functions checked", r.funcs as u64);
    c.count("stack depth: points", r.flow.points as u64);
    c.count("stack depth: joins", r.flow.joins as u64);
    c.max("operand stack", r.seen.max_stack as u64);
    c.max("call depth", r.seen.max_depth as u64);
    c.count("captures", r.seen.captured);
    c.count("captured variables closed", r.seen.closed);
    c.count("uses through open captures", r.seen.through_open);
    c.count("uses through closed captures", r.seen.through_closed);
    for (k, n) in &r.exp.kinds {
        c.count(&format!("eval {}", k), *n);
    }
    match &r.want.end {
        Ok(_) => c.count("ended with a value", 1),
        Err(e) => c.count(&format!("ended with {}", e), 1),
    }
    if r.want.trace.len() >= 2 {
        c.distinct(hash(text));
        c.count("programs with two or more events", 1);
    }
    if c.idx % 16 == 0 {
        for (n, i) in &r.seen.ops {
            if let Some(i) = i {
                c.count(&format!("op {}", verify::name(*i)), *n);
            }
        }
    }
}
pub fn check(c: &mut Ctx, t: &Texts, must: bool) -> Result<bool, Viol> {
    current(&t.show());
    match verdict(t, STEPS) {
        Verdict::Same(r) => {
            report(c, &r, &t.main);
            if let Ok(deep) = std::env::var("VH_NEST") {
                // For whoever asks what the programs are made of.
                for s in std::iter::once(&t.main).chain(t.modules.values()) {
                    if let Ok(p) = parse(s) {
                        nestings(&p.items, deep == "3", &mut |k| c.count(&format!("nest {}", k), 1));
                    }
                }
            }
            c.sample(|| t.show());
            Ok(true)
        }
        Verdict::Skip(d) => {
            if must {
                panic!("a directed program is not checked: {}\n{}", d, t.show());
            }
            c.count("programs discarded", 1);
            if std::env::var("VH_SHOW").is_ok() {
                eprintln!("DISCARDED {}\n{}", d, t.show());
            }
            c.count(&format!("discarded: {}", d), 1);
            Ok(false)
        }
        Verdict::Wrong(m) => {
            let s = shrink(t, STEPS, 20);
            let m2 = match verdict(&s, STEPS) {
                Verdict::Wrong(m) => m,
                _ => m,
            };
            viol(m2, format!("{}\n--- as generated\n{}", s.show(), t.show()))
        }
    }
}

/// The weights each property's programs are made with.
pub fn profile(id: &str, r: &mut Rng) -> Profile {
    let mut p = Profile::base();
    p.size = *r.pick(&[30, 60, 100, 100, 200]);
    p.depth = r.range(3, 5) as u32;
    match id {
        "K04" => {
            p.exprs = 14;
            p.ops = 2;
            p.floats = 5;
            p.assign = 12;
            p.trace = 40;
            p.loops = 2;
            p.scopes = 2;
        }
        "K05" => {
            p.scopes = 14;
            p.fns = 5;
            p.assign = 12;
            p.closures = 3;
        }
        "K06" => {
            p.ctl = 16;
            p.loops = 12;
            p.scopes = 10;
            p.fns = 4;
        }
        "K07" => {
            p.closures = 14;
            p.loops = 7;
            p.ctl = 8;
            p.scopes = 8;
            p.assign = 10;
        }
        "K08" => {
            p.classes = 8;
            p.ops = 2;
            p.closures = 2;
            p.size = *r.pick(&[80, 150, 250]);
        }
        "K09" => {
            p.nulls = 14;
            p.results = 10;
            p.ctl = 5;
            p.fns = 4;
        }
        "K11" => {
            p.types = 70;
            p.wrong = 12;
            p.fns = 7;
            p.classes = 3;
            p.ops = 3;
        }
        _ => {
            // A different mix every time.
            for w in [
                &mut p.ctl,
                &mut p.closures,
                &mut p.scopes,
                &mut p.loops,
                &mut p.nulls,
                &mut p.results,
                &mut p.assign,
                &mut p.exprs,
                &mut p.fns,
                &mut p.floats,
            ] {
                *w = *r.pick(&[0, 1, 4, 8, 15]);
            }
            p.classes = *r.pick(&[0, 0, 2, 8]);
            p.types = *r.pick(&[0, 10, 50]);
            p.wrong = *r.pick(&[0, 0, 2]);
            p.ops = *r.pick(&[0, 1, 3]);
            p.trace = *r.pick(&[10, 25, 50]);
        }
    }
    p
}

fn sem(c: &mut Ctx, id: &'static str, directed: &[String]) -> Res {
    if (c.idx as usize) < directed.len() {
        c.count("directed programs", 1);
        if check(c, &Texts::script(&directed[c.idx as usize]), false)? {
            c.count("directed programs run both ways", 1);
        } else {
            c.count("directed programs discarded", 1);
            if let Ok(p) = std::env::var("VH_SHOW") {
                // For whoever works on the list.
                use std::io::Write;
                let text = &directed[c.idx as usize];
                let at = parse(text).err().map(|e| text[e.s..].to_string());
                if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(p) {
                    let _ = writeln!(f, "DISCARDED {} {} at {:?}", c.idx, text, at);
                }
            }
        }
        return Ok(());
    }
    if c.idx % 4 == 1 {
        let module = c.rng.pct(25);
        let mut t = Texts::script(&crate::props::fit::program(&mut c.rng, module));
        t.module = module;
        if c.rng.pct(30) && names::renamed(&mut [&mut t.main], &crate::props::fit::free, &mut c.rng) {
            c.count("unusual names", 1);
        }
        if check(c, &t, false)? {
            c.count("expressions in each other's places", 1);
        } else {
            c.count("expressions in each other's places: discarded", 1);
        }
        return Ok(());
    }
    let which = if c.rng.pct(80) { id } else { "mix" };
    let p = profile(which, &mut c.rng);
    let prog = gen::script(&mut c.rng, p);
    let st = if c.rng.pct(75) { print::PLAIN } else { print::random_style(&mut c.rng) };
    let t = texts(&prog, st, &mut c.rng);
    check(c, &t, false)?;
    Ok(())
}

macro_rules! semantic {
    ($name:ident, $f:ident, $dir:path, $quick:expr, $rule:expr, [$($need:expr),* $(,)?]) => {
        fn $f(c: &mut Ctx) -> Res { sem(c, stringify!($name), crate::props::lots::with(stringify!($name), $dir())) }
        pub static $name: Prop = Prop {
            id: stringify!($name),
            rule: concat!($rule, " Each runs in the reference interpreter and, compiled, on the monitored machine; traces, values and errors are compared. Non-trivial: at least two trace events; distinct by text."),
            quick: $quick,
            thorough: 6_000_000,
            case: $f,
            need: &["programs run both ways", "trace events compared", "directed programs run both ways", "expressions in each other's places", $($need),*],
            assumptions: &[
                "the instruction set means what the harness's machine does (calibrated against the shipped virtual machine's source, which does not build)",
                "programs whose meaning the language leaves open (out-of-bounds writes, wrong argument counts, runaway runs) are discarded and counted",
            ],
            extra: None,
            stack_mb: 512,
        };
    };
}
semantic!(K04, k04, dir::k04, 300_000, "directed: every operator on every pair of 20 values, every kind of assignment target with every operator, operator triples, operands in every context; then typed random programs rich in operators, assignments and calls.",
    ["eval ..", "eval |>", "eval ??", "eval index", "eval neg", "eval /=", "eval *=", "op AssignField", "op AssignIndex", "op LoadIndex", "op RangeInclusive", "ended with E3200"]);
semantic!(K05, k05, dir::k05, 300_000, "directed: every pair of declaration forms of one name, nested in every scope-opening construct, with all visible variables traced; then random programs with nested scopes, shadowing, destructuring and mutation.",
    ["eval let", "eval fn", "eval class", "eval block", "op LoadUpvalue", "op AssignLocal", "op LoadFieldToLocal"]);
semantic!(K06, k06, dir::k06, 300_000, "directed: every exit from every expression context inside every kind of loop, values of every block form, ranges of every shape; then random programs of nested loops, conditionals and early exits.",
    ["eval break", "eval continue", "eval return", "eval for", "eval while", "eval loop", "eval if"]);
semantic!(K07, k07, dir::k07, 300_000, "directed: every way of capturing in every scope left by every exit; then random programs that create, store and call closures in arbitrary order with their scopes.",
    ["captures", "captured variables closed", "uses through open captures", "uses through closed captures", "op CloseUpvalue", "op AssignUpvalue"]);
semantic!(K08, k08, dir::k08, 250_000, "directed: four-level hierarchies with every subset of constructors and members, every pair of operators, every access from every kind of method; then random class hierarchies.",
    ["eval super-access", "eval super-call", "eval op", "op InheritClass", "op LoadMethod", "op StoreMethod", "op CallSuper"]);
semantic!(K09, k09, dir::k09, 300_000, "directed: 60 propagation chains in 19 contexts and 44 error-propagation forms on 6 results; then random programs of nested chains.",
    ["eval ?", "eval !!", "eval or-else", "eval ??"]);
semantic!(K11, k11, dir::k11, 300_000, "directed: 17 types, nullable or not, in 20 positions on 19 values; then random annotated programs in which some annotations are wrong.",
    ["eval is", "op AssertTypeForLocal", "op AssertTypeOrNullForLocal", "op AssertTypeAndReturn", "op AssertTypeOrNullAndReturn", "ended with E3100", "ended with E3101", "op Is"]);
