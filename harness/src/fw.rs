//! Orchestration: shards a property's cases over worker processes, watches them, and reports.
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}

pub struct Ctx<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub tier: Tier,
    pub seed: u64,
    pub st: &'a mut Stats,
}
impl<'a> Ctx<'a> {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            if let Some(c) = self.st.counts.get_mut(k) {
                *c += n;
            } else {
                self.st.counts.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.st.counts.entry(format!("max {}", k)).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn distinct(&mut self, h: u64) {
        self.st.distinct.insert(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.st.samples.len() < 2 && self.rng.clone().pct(20) {
            self.st.samples.push(f());
        }
    }
}
pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub struct Viol {
    pub msg: String,
    pub input: String,
}
pub type Res = Result<(), Viol>;
pub fn viol<T>(msg: impl Into<String>, input: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { msg: msg.into(), input: input.into() })
}
thread_local! {
    static CURRENT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
/// Notes the input at hand, for reports about panics.
pub fn current(s: &str) {
    CURRENT.with(|c| {
        let mut c = c.borrow_mut();
        c.clear();
        c.push_str(s);
    });
    static FILE: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
    if let Some(f) = FILE.get_or_init(|| std::env::var("VH_INPUT").ok()) {
        let _ = std::fs::write(f, s);
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub case: fn(&mut Ctx) -> Res,
    /// Counters that must be positive for the run to mean anything.
    pub need: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// Extra work done once by the orchestrator: known findings and the like.
    pub extra: Option<fn(&mut Stats, Tier) -> Result<Vec<String>, Viol>>,
    pub stack_mb: usize,
}

static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        *PANIC.lock().unwrap() = Some((loc, msg));
    }));
}

enum Outcome {
    Ok,
    Viol(Viol),
    Harness(String),
}

fn run_case(p: &Prop, seed: u64, idx: u64, tier: Tier, st: &mut Stats) -> Outcome {
    current("");
    let mut ctx = Ctx { rng: Rng::for_case(p.id, seed, idx), idx, tier, seed, st };
    let r = catch_unwind(AssertUnwindSafe(|| (p.case)(&mut ctx)));
    match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(v)) => Outcome::Viol(v),
        Err(_) => {
            let (loc, msg) = PANIC.lock().unwrap().take().unwrap_or_default();
            let input = CURRENT.with(|c| c.borrow().clone());
            if loc.starts_with("src/") {
                Outcome::Harness(format!("the harness panicked at {}: {}\ninput: {}", loc, msg, input))
            } else {
                Outcome::Viol(Viol { msg: format!("the code under test panicked at {}: {}", loc, msg), input })
            }
        }
    }
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Runs on a thread with plenty of stack.
pub fn with_stack<T: Send + 'static>(mb: usize, f: impl FnOnce() -> T + Send + 'static) -> std::thread::Result<T> {
    std::thread::Builder::new().stack_size(mb << 20).spawn(f).unwrap().join()
}

pub fn worker(p: &'static Prop, seed: u64, tier: Tier, shard: u64, of: u64, n: u64, dir: &str, deadline_s: u64) -> i32 {
    install_hook();
    let cur = Arc::new(AtomicU64::new(u64::MAX));
    let tick = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicBool::new(false));
    let idx_path = format!("{}/cur.{}", dir, shard);
    {
        let (cur, tick, done) = (cur.clone(), tick.clone(), done.clone());
        let idx_path = idx_path.clone();
        std::thread::spawn(move || {
            let mut last = (u64::MAX, Instant::now());
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                let t = tick.load(Ordering::SeqCst);
                if t != last.0 {
                    last = (t, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(case_limit_s()) {
                    let _ = std::fs::write(&idx_path, cur.load(Ordering::SeqCst).to_string());
                    std::process::exit(97);
                }
            }
        });
    }
    let dir = dir.to_string();
    let r = with_stack(p.stack_mb, move || {
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::create(&idx_path).unwrap();
        let mut st = Stats::default();
        let t0 = Instant::now();
        let mut i = shard;
        let mut out = String::new();
        let mut ran = 0u64;
        while i < n {
            cur.store(i, Ordering::SeqCst);
            tick.fetch_add(1, Ordering::SeqCst);
            let _ = f.write_all_at(format!("{:<20}", i).as_bytes(), 0);
            match run_case(p, seed, i, tier, &mut st) {
                Outcome::Ok => {}
                Outcome::Viol(v) => {
                    out.push_str(&format!("V\t{}\t{}\t{}\n", i, esc(&v.msg), esc(&v.input)));
                    break;
                }
                Outcome::Harness(m) => {
                    out.push_str(&format!("H\t{}\t{}\n", i, esc(&m)));
                    break;
                }
            }
            ran += 1;
            i += of;
            if t0.elapsed().as_secs() > deadline_s {
                st.counts.insert("stopped at the time limit".into(), 1);
                break;
            }
        }
        out.push_str(&format!("R\t{}\n", ran));
        for (k, c) in &st.counts {
            out.push_str(&format!("C\t{}\t{}\n", k, c));
        }
        for s in &st.samples {
            out.push_str(&format!("S\t{}\n", esc(s)));
        }
        let mut b = Vec::with_capacity(st.distinct.len() * 8);
        for h in &st.distinct {
            b.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(format!("{}/distinct.{}", dir, shard), b).unwrap();
        std::fs::write(format!("{}/out.{}", dir, shard), out).unwrap();
    });
    done.store(true, Ordering::SeqCst);
    match r {
        Ok(_) => 0,
        Err(_) => 98,
    }
}

fn case_limit_s() -> u64 {
    std::env::var("VH_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(40)
}

/// Reproduces one case in a process of its own. Returns a description if it fails.
fn reproduce(p: &Prop, seed: u64, tier: Tier, idx: u64, dir: &str, exe: &str) -> Option<(String, String)> {
    reproduce_after(p, seed, tier, idx, (idx, 1 << 40), dir, exe)
}
/// The same with the cases of a shard before it.
fn reproduce_after(p: &Prop, seed: u64, tier: Tier, idx: u64, (shard, of): (u64, u64), dir: &str, exe: &str) -> Option<(String, String)> {
    let sub = format!("{}/one", dir);
    let _ = std::fs::create_dir_all(&sub);
    std::env::set_var("VH_INPUT", format!("{}/input.{}", sub, idx));
    let st = spawn(exe, p.id, seed, tier, shard, of, idx + 1, &sub, 100000, 150).wait();
    std::env::remove_var("VH_INPUT");
    let st = st.ok()?;
    let out = std::fs::read_to_string(format!("{}/out.{}", sub, shard)).unwrap_or_default();
    for l in out.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f[0] == "V" {
            return Some((unesc(f[2]), unesc(f[3])));
        }
    }
    use std::os::unix::process::ExitStatusExt;
    if st.code() == Some(97) {
        return Some(("the case does not end within 150 s".into(), std::fs::read_to_string(format!("{}/input.{}", sub, idx)).unwrap_or_default()));
    }
    match st.signal() {
        Some(s @ (4 | 6 | 7 | 8 | 11)) => {
            let said = sanitizer(&format!("{}/err.{}", sub, shard));
            let input = std::fs::read_to_string(format!("{}/input.{}", sub, idx)).unwrap_or_default();
            Some((
                if said.is_empty() { format!("the process is killed by signal {} (native stack overflow, abort, or out of memory)", s) } else { said },
                input,
            ))
        }
        _ => None,
    }
}

#[allow(clippy::too_many_arguments)]
fn spawn(exe: &str, id: &str, seed: u64, tier: Tier, shard: u64, of: u64, n: u64, dir: &str, deadline: u64, case_limit: u64) -> std::process::Child {
    let t = if tier == Tier::Quick { "quick" } else { "thorough" };
    Command::new("/bin/sh")
        .arg("-c")
        .arg(format!(
            "{}ulimit -c 0; exec {} work {} {} {} {} {} {} {} {}",
            if std::env::var("VH_NO_LIMIT").is_ok() { String::new() } else { format!("ulimit -v {}; ", mem_kb()) },
            exe,
            id,
            seed,
            t,
            shard,
            of,
            n,
            dir,
            deadline
        ))
        .env("VH_CASE_LIMIT", case_limit.to_string())
        .env("VH_SANITIZER", if exe.contains("msan") { "memory" } else if exe.contains("tsan") { "thread" } else if exe.contains("asan") { "address" } else { "no" })
        .env("NO_COLOR", "1")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(format!("{}/err.{}", dir, shard)).map_or(Stdio::null(), Stdio::from))
        .spawn()
        .unwrap()
}
/// What a sanitizer said.
fn sanitizer(path: &str) -> String {
    let s = String::from_utf8_lossy(&std::fs::read(path).unwrap_or_default()).into_owned();
    match s.find("AddressSanitizer").or_else(|| s.find("MemorySanitizer")) {
        Some(p) => s[p..].lines().take(30).collect::<Vec<_>>().join("\n"),
        None => String::new(),
    }
}
fn mem_kb() -> u64 {
    10_000_000
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn check(p: &'static Prop, tier: Tier, seed: u64) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let n = if tier == Tier::Quick { p.quick } else { p.thorough };
    let n = std::env::var("VH_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(n);
    let deadline: u64 = if tier == Tier::Quick { 400 } else { 7200 };
    let dir = format!("{}/work/{}-{}", verif_dir(), p.id, std::process::id());
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let deadline = std::env::var("VH_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(deadline);
    let cpus = std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(8).min(16);
    // Every case runs in each of the executables.
    let mut exes = vec![std::env::current_exe().unwrap().display().to_string()];
    exes.extend(std::env::var("VH_ALSO").ok());
    let shards = (cpus / exes.len() as u64).max(1).min(n.max(1));
    let mut kids = vec![];
    for (k, exe) in exes.iter().enumerate() {
        let dir = format!("{}/{}", dir, k);
        std::fs::create_dir_all(&dir).unwrap();
        for s in 0..shards {
            kids.push((s, dir.clone(), exe, spawn(exe, p.id, seed, tier, s, shards, n, &dir, deadline, 40)));
        }
    }
    let mut st = Stats::default();
    let mut ran = 0u64;
    let mut viols: Vec<(u64, String, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    for (s, dir, exe, k) in kids.iter_mut() {
        let status = k.wait().unwrap();
        let out = std::fs::read_to_string(format!("{}/out.{}", dir, s)).unwrap_or_default();
        if status.code() != Some(0) || out.is_empty() {
            let idx: Option<u64> =
                std::fs::read_to_string(format!("{}/cur.{}", dir, s)).ok().and_then(|t| t.trim().parse().ok());
            match idx {
                Some(i) => match reproduce(p, seed, tier, i, dir, exe)
                    .or_else(|| reproduce_after(p, seed, tier, i, (*s, shards), dir, exe).map(|(m, t)| (format!("after the cases before it (shard {} of {}): {}", s, shards, m), t)))
                {
                    Some((m, inp)) => viols.push((i, m, inp)),
                    None => errors.push(format!("worker {} ended with {} at case {}, which passes alone", s, status, i)),
                },
                None => errors.push(format!("worker {} ended with {} before its first case", s, status)),
            }
            continue;
        }
        for l in out.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "V" => viols.push((f[1].parse().unwrap(), unesc(f[2]), unesc(f[3]))),
                "H" => errors.push(format!("case {}: {}", f[1], unesc(f[2]))),
                "R" => ran += f[1].parse::<u64>().unwrap(),
                "C" => {
                    let v: u64 = f[2].parse().unwrap();
                    let e = st.counts.entry(f[1].to_string()).or_insert(0);
                    if f[1].starts_with("max ") {
                        *e = (*e).max(v)
                    } else {
                        *e += v
                    }
                }
                "S" if st.samples.len() < 4 => st.samples.push(unesc(f[1])),
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(format!("{}/distinct.{}", dir, s)) {
            for c in b.chunks_exact(8) {
                st.distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    if let Some(f) = p.extra {
        match f(&mut st, tier) {
            Ok(lines) => lines.iter().for_each(|l| println!("{}", l)),
            Err(v) => viols.push((u64::MAX, v.msg, v.input)),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if viols.is_empty() && errors.is_empty() {
        for k in p.need {
            if st.counts.get(*k).copied().unwrap_or(0) == 0 {
                errors.push(format!("nothing was observed for '{}'", k));
            }
        }
    }
    // Evidence.
    let mut j = String::from("{\n");
    j.push_str(&format!(" \"property\": {},\n", json_str(p.id)));
    j.push_str(&format!(" \"tier\": {},\n", json_str(if tier == Tier::Quick { "quick" } else { "thorough" })));
    j.push_str(&format!(" \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n", seed));
    j.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", ran, st.distinct.len()));
    j.push_str(&format!("  \"rule\": {},\n", json_str(p.rule)));
    j.push_str("  \"observed\": {");
    let mut first = true;
    for (k, v) in &st.counts {
        j.push_str(&format!("{}\n   {}: {}", if first { "" } else { "," }, json_str(k), v));
        first = false;
    }
    j.push_str("\n  },\n  \"samples\": [");
    for (i, s) in st.samples.iter().enumerate() {
        let mut s = s.clone();
        if s.len() > 1500 {
            let mut e = 1500;
            while !s.is_char_boundary(e) {
                e -= 1
            }
            s.truncate(e);
            s.push_str(" ...");
        }
        j.push_str(&format!("{}\n   {}", if i > 0 { "," } else { "" }, json_str(&s)));
    }
    j.push_str("\n  ]\n },\n \"assumptions\": [");
    for (i, a) in p.assumptions.iter().enumerate() {
        j.push_str(&format!("{}{}", if i > 0 { ", " } else { "" }, json_str(a)));
    }
    j.push_str(&format!("],\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), viols.len()));
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
    let _ = std::fs::write(format!("{}/evidence/{}.json", verif_dir(), p.id), j);

    viols.sort();
    if let Some((i, m, inp)) = viols.first() {
        let rd = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&rd);
        let path = format!("{}/{}-{}-{}.txt", rd, p.id, seed, if *i == u64::MAX { "extra".to_string() } else { i.to_string() });
        let mut f = std::fs::File::create(&path).unwrap();
        let _ = write!(
            f,
            "property={} seed={} case={} tier={}\nreplay: target/release/vh one {} {} {} {}\n--- what failed\n{}\n--- input\n{}\n",
            p.id,
            seed,
            i,
            if tier == Tier::Quick { "quick" } else { "thorough" },
            p.id,
            seed,
            i,
            if tier == Tier::Quick { "quick" } else { "thorough" },
            m,
            inp
        );
        let m1: String = m.chars().take(1500).collect();
        println!("{}", m1);
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    if !errors.is_empty() {
        for e in errors.iter().take(3) {
            let e: String = e.chars().take(1200).collect();
            eprintln!("ERROR {}", e);
        }
        return 2;
    }
    println!("{}: {} cases, {} distinct, no violation ({:.1} s)", p.id, ran, st.distinct.len(), t0.elapsed().as_secs_f64());
    0
}

/// Runs a single case here and prints what happens.
pub fn one(p: &'static Prop, seed: u64, idx: u64, tier: Tier) -> i32 {
    install_hook();
    let r = with_stack(p.stack_mb, move || {
        let mut st = Stats::default();
        match run_case(p, seed, idx, tier, &mut st) {
            Outcome::Ok => {
                println!("ok");
                for (k, v) in &st.counts {
                    println!("  {}: {}", k, v);
                }
                0
            }
            Outcome::Viol(v) => {
                println!("VIOLATION: {}\n--- input\n{}", v.msg, v.input);
                1
            }
            Outcome::Harness(m) => {
                println!("HARNESS: {}", m);
                2
            }
        }
    });
    r.unwrap_or(2)
}
