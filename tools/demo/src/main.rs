//! Runs the cases of a file against the toolchain and prints what it observes.
//! A case starts with a line `@@ MODE [name]`; `@@ module PATH` adds a module to the next case.
#![allow(dead_code)]
mod extra;
mod model;
mod verify;
mod vm;

use dice_compiler::compiler::Compiler;
use dice_core::error::Error;
use dice_core::source::{Source, SourceKind};
use model::{render, Exc};
use std::collections::BTreeMap;

pub fn source(text: &str, module: bool) -> Source {
    Source::new(text.to_string(), if module { SourceKind::Module } else { SourceKind::Script })
}
fn compile(text: &str, module: bool) -> Result<dice_bytecode::Bytecode, Error> {
    Compiler::compile_source(source(text, module))
}
fn code_and_place(e: &Error) -> String {
    let s = format!("{}", e);
    let first = s.lines().next().unwrap_or("").trim().to_string();
    let code = first.split(|c: char| !c.is_alphanumeric()).find(|w| w.len() == 5 && w.starts_with('E')).unwrap_or("?").to_string();
    let place = s.lines().find_map(|l| l.trim().strip_prefix("-->")).unwrap_or("").trim().to_string();
    format!("{} at {}", code, place)
}
fn decode(text: &str, module: bool) -> Result<std::rc::Rc<verify::Func>, String> {
    let bc = compile(text, module).map_err(|e| format!("rejected: {}", code_and_place(&e)))?;
    let f = verify::decode(&bc).map_err(|m| format!("malformed: {}", m))?;
    let mut bad = None;
    f.each(&mut |g| {
        if let Err(m) = verify::flow(g) {
            bad.get_or_insert(m);
        }
    });
    match bad {
        Some(m) => Err(format!("unbalanced: {}", m)),
        None => Ok(f),
    }
}
fn run(text: &str, module: bool, mods: &BTreeMap<String, String>, prelude: bool) -> Result<String, String> {
    let mut m = BTreeMap::new();
    for (k, v) in mods {
        m.insert(k.clone(), decode(v, true)?);
    }
    let pre = std::fs::read_to_string("/repo/data/scripts/prelude.dm").unwrap();
    let pre = if prelude { Some(decode(&pre, true)?) } else { None };
    let f = decode(text, module)?;
    let mut vm = vm::Vm::new(&m, 2_000_000);
    let mut go = || {
        if let Some(p) = &pre {
            vm.prelude(p)?;
        }
        if module {
            vm.module(&f)
        } else {
            vm.script(&f)
        }
    };
    let r = go();
    let t = vm.w.trace.join(" ");
    Ok(match r {
        Ok(v) => format!("value {} trace [{}]", render(&v), t),
        Err(Exc::Err(c)) => format!("error {} trace [{}]", c, t),
        Err(Exc::Monitor(m)) => format!("monitor: {} trace [{}]", m, t),
        Err(Exc::Discard(m)) => format!("not run: {}", m),
        Err(_) => "control left the program".to_string(),
    })
}
fn case(mode: &str, text: &str, mods: &BTreeMap<String, String>) -> String {
    let show = |r: Result<String, String>| r.unwrap_or_else(|e| e);
    match mode {
        "run" => show(run(text, false, mods, false)),
        "runmod" => show(run(text, true, mods, false)),
        "prelude" => show(run(text, false, mods, true)),
        // Only what the compiler says about a program.
        "accept" | "acceptmod" => match compile(text, mode == "acceptmod") {
            Ok(_) => "accepted".into(),
            Err(e) => format!("rejected: {}", code_and_place(&e)),
        },
        "report" => match compile(text, false) {
            Ok(_) => "accepted".into(),
            Err(e) => format!("{}\n{:#}", e, e),
        },
        "code" => show(decode(text, false).map(|_| "well formed".into())),
        "positions" => {
            let s = source(text, false);
            let mut o = String::new();
            for i in (0..=text.len()).filter(|i| text.is_char_boundary(*i)) {
                let p = s.line_index().position_of(i);
                o += &format!("{}={}:{} ", i, p.line, p.column_utf16);
            }
            o
        }
        "parse" => match dice_syntax::Parser::new(&source(text, false)).parse() {
            Ok(_) => "parsed".into(),
            Err(e) => code_and_place(&e),
        },
        m => panic!("mode {}", m),
    }
}
fn go() {
    if let Some(path) = std::env::args().nth(1).filter(|p| std::path::Path::new(p).exists()) {
        let all = std::fs::read_to_string(path).unwrap();
        let mut mods = BTreeMap::new();
        for c in all.split("@@ ").skip(1) {
            let (head, text) = c.split_once('\n').unwrap();
            let mut h = head.split(' ');
            let mode = h.next().unwrap();
            let name = h.next().unwrap_or("");
            let text = text.strip_suffix('\n').unwrap_or(text);
            if mode == "module" {
                mods.insert(name.to_string(), text.to_string());
                continue;
            }
            let (m, t, k) = (mode.to_string(), text.to_string(), mods.clone());
            mods.clear();
            let r = std::panic::catch_unwind(move || case(&m, &t, &k)).unwrap_or_else(|_| "panicked".into());
            println!("== {}\n{}", head, r);
        }
    }
    extra::run();
}
fn main() {
    std::env::set_var("NO_COLOR", "1");
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::Builder::new().stack_size(1 << 29).spawn(go).unwrap().join().unwrap();
}
