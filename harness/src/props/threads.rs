//! M02: compilations in several threads at once are independent and free of data races.
//! The check runs this built with the thread sanitizer, and as fresh processes whose
//! threads all begin at once.
use crate::fw::*;
use crate::props::code::{any_text, first_difference, outcome, FAILING};
use crate::props::diag::hostile;
use crate::rng::Rng;
use std::sync::{Arc, Barrier};

/// What a compilation gives, for comparison; a panic is an outcome, too.
fn seen(src: &str, module: bool) -> String {
    let go = std::panic::catch_unwind(|| {
        let (s, ids) = outcome(src, module);
        match ids {
            Some((set, n)) if set.len() != n => format!("{} functions share {} identifiers\n{}", n, set.len(), s),
            _ => s,
        }
    });
    go.unwrap_or_else(|_| "panicked".into())
}
fn text(c: &mut Ctx) -> (String, bool) {
    match c.rng.below(10) {
        0 => (c.rng.pick(FAILING).to_string(), c.rng.pct(50)),
        1 => {
            let s = hostile(c).0;
            if s.len() > 3000 { ("loop { break } 1 = 2".into(), false) } else { (s, c.rng.pct(50)) }
        }
        _ => any_text(c),
    }
}
/// Each thread compiles the texts in its own order; with `step`, all begin each one together.
fn crowd(texts: &[(String, bool)], orders: Vec<Vec<usize>>, step: bool) -> Result<Vec<Vec<(usize, String)>>, String> {
    let start = Arc::new(Barrier::new(orders.len()));
    let texts = Arc::new(texts.to_vec());
    let kids: Vec<_> = orders
        .into_iter()
        .map(|order| {
            let (start, texts) = (start.clone(), texts.clone());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    start.wait();
                    let mut out = vec![];
                    for (k, i) in order.into_iter().enumerate() {
                        if step && k > 0 {
                            start.wait();
                        }
                        out.push((i, seen(&texts[i].0, texts[i].1)));
                    }
                    out
                })
                .unwrap()
        })
        .collect();
    // Threads that wait for one that is gone would wait forever; `seen` catches panics.
    kids.into_iter().map(|k| k.join().map_err(|_| "a thread panics".to_string())).collect()
}
fn orders(rng: &mut Rng, threads: usize, n: usize) -> Vec<Vec<usize>> {
    let same = rng.pct(30);
    let shift = rng.pct(50);
    (0..threads)
        .map(|t| {
            let mut o: Vec<usize> = (0..n).collect();
            if !same {
                if shift {
                    o.rotate_left(t % n);
                } else {
                    for k in (1..n).rev() {
                        o.swap(k, rng.below(k + 1));
                    }
                }
            }
            o
        })
        .collect()
}
fn m02(c: &mut Ctx) -> Res {
    let n = c.rng.range(1, 6);
    let texts: Vec<_> = (0..n).map(|_| text(c)).collect();
    let all = texts.iter().map(|t| t.0.as_str()).collect::<Vec<_>>().join("\n---\n");
    current(&all);
    let alone: Vec<String> = texts.iter().map(|t| seen(&t.0, t.1)).collect();
    let threads = *c.rng.pick(&[2, 2, 3, 4, 8]);
    let (step, os) = (c.rng.pct(50), orders(&mut c.rng, threads, n));
    c.count("groups of threads", 1);
    c.count(if step { "groups in step" } else { "groups each at its own pace" }, 1);
    for (t, got) in crowd(&texts, os, step).map_err(|m| Viol { msg: m, input: all.clone() })?.into_iter().enumerate() {
        for (i, s) in got {
            c.count("compilations beside others", 1);
            c.count(if s.starts_with("error") { "rejected beside others" } else { "accepted beside others" }, 1);
            if s != alone[i] {
                return viol(
                    format!("text {} of {} compiled in thread {} of {} beside others differs from the same compiled alone: {}", i, n, t, threads, first_difference(&alone[i], &s)),
                    all,
                );
            }
        }
    }
    if std::env::var("VH_SANITIZER").as_deref() == Ok("thread") {
        c.count("groups with the thread sanitizer", 1);
    }
    c.distinct(hash(&all));
    c.sample(|| all.chars().take(400).collect());
    Ok(())
}

fn some_texts(seed: u64, n: u64) -> Vec<(String, bool)> {
    (0..n)
        .map(|i| {
            let mut st = Stats::default();
            let mut c = Ctx { rng: Rng::for_case("M02-fresh", seed, i), idx: i, tier: Tier::Quick, seed, st: &mut st };
            text(&mut c)
        })
        .collect()
}
/// A process whose first compilations are all at once: one line for each thread.
pub fn fresh(seed: u64, n: u64, threads: u64) -> i32 {
    install_hook();
    let texts = some_texts(seed, n);
    // All first meet at the same text: whatever is set up on first use is set up by all.
    let os = (0..threads).map(|t| { let mut o: Vec<usize> = (0..texts.len()).collect(); if seed % 2 == 1 { o.rotate_left(t as usize % texts.len()); } o }).collect();
    match crowd(&texts, os, seed % 3 == 0) {
        Ok(all) => {
            for mut t in all {
                t.sort();
                println!("{}", t.iter().map(|(_, s)| format!("{:016x}", hash(s))).collect::<Vec<_>>().join(" "));
            }
            0
        }
        Err(m) => {
            eprintln!("{}", m);
            1
        }
    }
}
fn m02_fresh(st: &mut Stats, tier: Tier) -> Result<Vec<String>, Viol> {
    let procs = if tier == Tier::Quick { 120u64 } else { 3000 };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let n = 6;
    let mut exes = vec![std::env::current_exe().unwrap()];
    exes.extend(std::env::var("VH_ALSO").ok().map(Into::into));
    for k in 0..procs {
        let s = seed * 1_000_000 + k;
        let texts = some_texts(s, n);
        let input = || texts.iter().map(|t| t.0.as_str()).collect::<Vec<_>>().join("\n---\n");
        let t2 = texts.clone();
        let want = with_stack(256, move || t2.iter().map(|t| format!("{:016x}", hash(seen(&t.0, t.1).as_str()))).collect::<Vec<_>>().join(" ")).unwrap();
        let o = std::process::Command::new("timeout")
            .arg("120")
            .arg(&exes[k as usize % exes.len()])
            .args(["crowd", &s.to_string(), &n.to_string(), "8"])
            .output()
            .unwrap();
        let (out, err) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
        if let Some(p) = err.find("WARNING: ThreadSanitizer") {
            return viol(err[p..].lines().take(40).collect::<Vec<_>>().join("\n"), input());
        }
        if !o.status.success() || out.lines().count() != 8 {
            return viol(format!("a process that compiles in 8 threads from its start ends with {:?}: {}", o.status, err.lines().last().unwrap_or("")), input());
        }
        if out.lines().any(|l| l != want) {
            return viol("a text compiled in 8 threads of a fresh process at once gives something else in one of them", input());
        }
        *st.counts.entry("fresh processes beginning in 8 threads".into()).or_insert(0) += 1;
    }
    Ok(vec![])
}
pub static M02: Prop = Prop {
    id: "M02",
    rule: "groups of one to six texts (valid, rejected, hostile) are each compiled and reported on by two to eight threads at once, in step or at their own pace, in the same order or not, under the thread sanitizer and without; every outcome is compared with the same text's compiled alone. Fresh processes whose first compilations are eight at once are compared, too. Distinct by group of texts.",
    quick: 6_000,
    thorough: 300_000,
    case: m02,
    need: &["groups of threads", "groups in step", "groups each at its own pace", "accepted beside others", "rejected beside others", "groups with the thread sanitizer", "fresh processes beginning in 8 threads"],
    assumptions: &["each compilation's values stay on its thread: the interface's types are not shareable"],
    extra: Some(m02_fresh),
    stack_mb: 512,
};
