//! M01: the front end touches only memory it may touch, and frees what it takes.
//! The check runs this built with the address sanitizer, and again in Miri.
use crate::alloc::live;
use crate::conv::conv;
use crate::fw::*;
use crate::props::diag::{hostile, nest, offset, NESTS};
use crate::props::syntax::{candidate, lexical, located};
use crate::props::{code, rules, syntax, text};
use crate::rng::Rng;
use crate::exec;
use dice_core::error::Error;
use dice_core::source::{Source, SourceKind};
use dice_core::span::Span;
use dice_syntax::Parser;
use std::process::{Command, Stdio};

fn placed(src: &str, e: &Error) -> Result<(), String> {
    let (_, line, col) = located(e)?;
    match offset(src, line, col) {
        Some(_) => Ok(()),
        None => Err(format!("an error is placed at {}:{}, which is no place of the text", line, col)),
    }
}
/// Everything the front end does with a text.
fn all(src: &str, module: bool, deep: bool) -> Result<(bool, usize), String> {
    let kind = || if module { SourceKind::Module } else { SourceKind::Script };
    let source = Source::new(src.to_string(), kind());
    let mut spans = 0;
    let result = Parser::new(&source).parse();
    match &result {
        Ok(t) => {
            // The harness's own walk is recursive, too.
            let (_, c) = conv(t);
            for (a, b) in &c.spans {
                if a > b || *b > src.len() || !src.is_char_boundary(*a) || !src.is_char_boundary(*b) {
                    return Err(format!("a node has the span {}..{}, which is no stretch of the text", a, b));
                }
                let _ = source.line_index().position_of(*a);
                spans += 1;
            }
        }
        Err(e) => placed(src, e)?,
    }
    drop(result);
    let r = exec::compile(src, module);
    match &r {
        Ok(b) => {
            let c = b.clone();
            let _ = b.constants().len();
            let mut cur = c.cursor();
            while let Some(_) = cur.read_instruction() {
                break;
            }
            if deep {
                let _ = format!("{}", c);
            }
        }
        Err(e) => {
            if deep {
                placed(src, e)?;
                let _ = format!("{:?}", e);
            }
        }
    }
    Ok((r.is_ok(), spans))
}
fn pick(c: &mut Ctx) -> String {
    match c.rng.weighted(&[5, 2, 3, 3]) {
        0 => hostile(c).0,
        1 => candidate(c),
        2 => lexical(c),
        _ => rules::sample(c, 70).map(|x| x.0).unwrap_or_else(|| "1".into()),
    }
}
fn m01(c: &mut Ctx) -> Res {
    let i = c.idx as usize;
    let src = if i < NESTS.len() {
        nest(i, 200)
    } else if i % 10 == 9 {
        // The other checks' inputs. What they find is theirs to report.
        let f = *c.rng.pick(&[&text::C01, &text::C02, &text::C03, &code::B01, &syntax::S01, &syntax::P02, &syntax::P03, &code::K13]);
        let idx = c.rng.below(f.quick as usize) as u64;
        let mut st = Stats::default();
        let mut d = Ctx { rng: Rng::for_case(f.id, c.seed, idx), idx, tier: c.tier, seed: c.seed, st: &mut st };
        current(&format!("case {} of {}", idx, f.id));
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (f.case)(&mut d)));
        c.count("cases of other checks", 1);
        c.distinct(hash(&format!("{} {}", f.id, idx)));
        return Ok(());
    } else {
        pick(c)
    };
    current(&src);
    for module in [false, true] {
        let go = || std::panic::catch_unwind(|| all(&src, module, true));
        let (ok, spans) = match go() {
            Ok(Ok(x)) => x,
            Ok(Err(m)) => return viol(m, src),
            // Panics are safe, and P01's business.
            Err(_) => {
                c.count("panics", 1);
                continue;
            }
        };
        c.count(if ok { "accepted" } else { "rejected" }, 1);
        c.count("spans checked", spans as u64);
        // What is set up once has been set up now.
        let mut held = [live(); 7];
        for h in &mut held[1..3] {
            let _ = go();
            *h = live();
        }
        if held[1] != held[2] {
            for h in &mut held[3..] {
                let _ = go();
                *h = live();
            }
            if held.windows(2).all(|w| w[1].1 > w[0].1) {
                return viol(format!("each run leaves more memory behind: (bytes, blocks) {:?}", held), src);
            }
        }
        c.count("leak checks", 1);
    }
    c.count("texts", 1);
    if let Ok(s) = std::env::var("VH_SANITIZER") {
        c.count(&format!("texts with the {} sanitizer", s), 1);
    }
    if src.len() > 3 {
        c.distinct(hash(&src));
    }
    c.sample(|| src.chars().take(400).collect());
    Ok(())
}

/// Small texts for Miri, one on each line.
fn small_texts(seed: u64, part: u64, n: u64) -> String {
    let mut out = String::new();
    for k in 0..n {
        let idx = (1 << 30) + part * n + k;
        let mut st = Stats::default();
        let mut c = Ctx { rng: Rng::for_case("M01 miri", seed, idx), idx, tier: Tier::Quick, seed, st: &mut st };
        let mut src = pick(&mut c);
        let most = *c.rng.pick(&[20, 60, 120, 250]);
        if src.len() > most {
            let mut e = most;
            while !src.is_char_boundary(e) {
                e -= 1;
            }
            src.truncate(e);
        }
        out.push_str(&esc(&src));
        out.push('\n');
    }
    out
}
/// Compiles the texts of a file. This is what runs in Miri.
pub fn texts(path: &str) -> i32 {
    let all = std::fs::read_to_string(path).unwrap();
    for (k, l) in all.lines().enumerate() {
        let src = unesc(l);
        println!("text {}", k);
        let ok = std::panic::catch_unwind(|| all_small(&src, k % 2 == 1, k % 50 == 7));
        println!("done {}", ok.map_or("panicked", |o| if o { "accepted" } else { "rejected" }));
    }
    0
}
fn all_small(src: &str, module: bool, shown: bool) -> bool {
    let source = Source::new(src.to_string(), if module { SourceKind::Module } else { SourceKind::Script });
    let li = source.line_index();
    let _ = li.position_of(src.len());
    let _ = li.lines(Span::new(0..src.len().min(1)));
    match exec::compile(src, module) {
        Ok(b) => {
            let _ = format!("{}", b);
            true
        }
        Err(e) => {
            if shown {
                let _ = format!("{}", e);
            }
            false
        }
    }
}
fn miri(st: &mut Stats, tier: Tier) -> Result<Vec<String>, Viol> {
    let harness = format!("{}/harness", verif_dir());
    let (procs, n) = if tier == Tier::Quick { (7u64, 60u64) } else { (7, 4000) };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let limit = if tier == Tier::Quick { "150" } else { "5400" };
    let mut inputs = vec![];
    let kids: Vec<_> = (0..procs)
        .map(|i| {
            let file = format!("{}/work/miri-{}-{}.txt", verif_dir(), std::process::id(), i);
            let all = with_stack(256, move || small_texts(seed, i, n)).unwrap();
            std::fs::write(&file, &all).unwrap();
            inputs.push((file.clone(), all));
            Command::new("timeout")
                .args([limit, "cargo", "+nightly", "miri", "run", "--offline", "-q", "--", "texts", &file])
                .current_dir(&harness)
                .env("CARGO_TARGET_DIR", format!("{}/target-miri", verif_dir()))
                .env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-symbolic-alignment-check")
                .env_remove("RUSTFLAGS")
                .env_remove("ASAN_OPTIONS")
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .stderr(Stdio::piped())
                .spawn()
                .unwrap()
        })
        .collect();
    // Read them all at once, or a full pipe would hold one up.
    let outs: Vec<_> = kids.into_iter().map(|k| std::thread::spawn(move || k.wait_with_output().unwrap())).collect();
    for (o, (file, all)) in outs.into_iter().zip(inputs) {
        let o = o.join().unwrap();
        let _ = std::fs::remove_file(file);
        let (out, err) = (String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned());
        let last = out.lines().filter_map(|l| l.strip_prefix("text ")).last().and_then(|k| k.parse::<usize>().ok());
        let input = last.and_then(|k| all.lines().nth(k)).map(unesc).unwrap_or_default();
        for what in ["accepted", "rejected", "panicked"] {
            let k = out.lines().filter(|l| *l == format!("done {}", what)).count() as u64;
            *st.counts.entry(format!("texts in Miri, {}", what)).or_insert(0) += k;
        }
        for bad in ["Undefined Behavior", "memory leaked", "error: abnormal termination"] {
            if let Some(p) = err.find(bad) {
                let msg: String = err[p..].lines().take(30).collect::<Vec<_>>().join("\n");
                return Err(Viol { msg: format!("Miri: {}", msg), input });
            }
        }
        match o.status.code() {
            Some(0) | Some(124) => {}
            c => {
                *st.counts.entry(format!("Miri ended with {:?}", c)).or_insert(0) += 1;
                eprintln!("{}", err.lines().rev().take(15).collect::<Vec<_>>().join("\n"));
            }
        }
    }
    Ok(vec![])
}
pub static M01: Prop = Prop {
    id: "M01",
    rule: "random characters, edited and spliced programs, nests, token soups, lexical oddities, valid and rule-breaking programs are lexed, parsed, compiled, listed and reported by code built with the address sanitizer and by code built, with the standard library, with the memory sanitizer, both with debug assertions, three times each with the live allocations compared; one case in ten runs another check's case; smaller texts run in Miri. Distinct by text.",
    quick: 25_000,
    thorough: 2_000_000,
    case: m01,
    need: &["texts with the address sanitizer", "texts with the memory sanitizer", "accepted", "rejected", "spans checked", "leak checks", "cases of other checks", "texts in Miri, accepted", "texts in Miri, rejected"],
    assumptions: &[
        "memory counts as leaked when every one of six further runs of a text leaves more blocks behind on its thread",
        "Miri runs texts of at most 250 bytes",
    ],
    extra: Some(miri),
    stack_mb: 1024,
};
