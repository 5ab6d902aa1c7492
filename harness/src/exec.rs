//! Runs one program both ways and compares.
use crate::ast::*;
use crate::interp::Interp;
use crate::model::{clear_heap, render, Exc, R, V};
use crate::verify::{self, Func};
use crate::vm::{Seen, Vm};
use dice_compiler::compiler::Compiler;
use dice_core::error::Error;
use dice_core::source::{Source, SourceKind};
use std::collections::BTreeMap;
use std::rc::Rc;

/// The harness's own copy of the prelude, so that programs do not depend on the shipped one.
pub const PRELUDE: &str = r#"
export class Range {
    fn new(self, start, end) { self.start = start self.end = end }
    fn iter(self) {
        let mut current = self.start
        #{ next: || {
            let result = if current < self.end { #{ value: current, is_done: false } } else { #{ is_done: true } }
            current += 1
            result
        } }
    }
}
export class RangeInclusive {
    fn new(self, start, end) { self.start = start self.end = end }
    fn iter(self) {
        let mut current = self.start
        #{ next: || {
            let result = if current <= self.end { #{ value: current, is_done: false } } else { #{ is_done: true } }
            current += 1
            result
        } }
    }
}
op ..(start, end) { Range(start, end) }
op ..=(start, end) { RangeInclusive(start, end) }
export class Result {
    fn new(self, is_ok: Bool, result: Any?) { self.is_ok = is_ok self.result = result }
    fn map(self, map_fn: Function) -> Result {
        if self.is_ok { Ok(map_fn(self.result)) } else { Err(self.result) }
    }
}
export class Ok : Result { fn new(self, result) { super(true, result) } }
export class Err : Result { fn new(self, result) { super(false, result) } }
"#;

#[derive(Clone, Debug, PartialEq)]
pub struct Prog {
    pub module: bool,
    pub main: Vec<E>,
    pub modules: BTreeMap<String, Vec<E>>,
    pub prelude: bool,
}
impl Prog {
    pub fn script(main: Vec<E>) -> Prog {
        Prog { module: false, main, modules: BTreeMap::new(), prelude: false }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    pub trace: Vec<String>,
    pub end: Result<String, &'static str>,
}
impl std::fmt::Display for Outcome {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match &self.end {
            Ok(v) => write!(f, "value {}", v)?,
            Err(c) => write!(f, "error {}", c)?,
        }
        write!(f, ", trace [{}]", self.trace.join(", "))
    }
}

pub fn compile(src: &str, module: bool) -> Result<dice_bytecode::Bytecode, Error> {
    let kind = if module { SourceKind::Module } else { SourceKind::Script };
    Compiler::compile_source(Source::new(src.to_string(), kind))
}
pub fn tree(src: &str) -> Vec<E> {
    match crate::parse::parse(src) {
        Ok(p) => p.items,
        Err(e) => panic!("harness source does not parse: {:?} {:?}", e.codes, &src[e.s.min(src.len())..]),
    }
}

fn outcome(trace: &[String], r: R<V>) -> Result<Outcome, Exc> {
    let end = match r {
        Ok(v) => Ok(render(&v)),
        Err(Exc::Err(c)) => Err(c),
        Err(e) => return Err(e),
    };
    Ok(Outcome { trace: trace.to_vec(), end })
}

/// What the reference makes of a program.
pub struct Expected {
    pub out: Result<Outcome, Exc>,
    pub steps: u64,
    pub calls: u64,
    pub depth: usize,
    pub kinds: BTreeMap<&'static str, u64>,
}
thread_local! {
    static PRELUDE_TREE: Vec<E> = tree(PRELUDE);
}
pub fn interpret(p: &Prog, limit: u64) -> Expected {
    PRELUDE_TREE.with(|pre| {
        let mut i = Interp::new(&p.modules, limit);
        let mut go = || -> R<V> {
            if p.prelude {
                i.prelude(pre)?;
            }
            if p.module {
                i.module(&p.main)
            } else {
                i.script(&p.main)
            }
        };
        let r = go();
        let out = outcome(&i.w.trace, r);
        let e = Expected {
            out,
            steps: i.steps,
            calls: i.calls,
            depth: i.max_depth,
            kinds: std::mem::take(&mut i.kinds),
        };
        drop(i);
        clear_heap();
        e
    })
}

pub enum Bad {
    /// The compiler rejected a program of the bundle.
    Rejected(Error, String),
    Malformed(String),
    Monitor(String),
    Discard(&'static str),
}
pub struct Code {
    pub main: Rc<Func>,
    pub modules: BTreeMap<String, Rc<Func>>,
    pub prelude: Option<Rc<Func>>,
}
/// Compiles and decodes a bundle of texts.
pub fn build(main: &str, module: bool, modules: &BTreeMap<String, String>, prelude: bool) -> Result<Code, Bad> {
    build_with(main, module, modules, if prelude { Some(PRELUDE) } else { None })
}
pub fn build_with(main: &str, module: bool, modules: &BTreeMap<String, String>, prelude: Option<&str>) -> Result<Code, Bad> {
    let one = |src: &str, module: bool| -> Result<Rc<Func>, Bad> {
        let bc = compile(src, module).map_err(|e| Bad::Rejected(e, src.to_string()))?;
        verify::decode(&bc).map_err(Bad::Malformed)
    };
    let mut m = BTreeMap::new();
    for (k, v) in modules {
        m.insert(k.clone(), one(v, true)?);
    }
    let prelude = prelude.map(|p| one(p, true)).transpose()?;
    Ok(Code { main: one(main, module)?, modules: m, prelude })
}
pub fn execute(c: &Code, module: bool, limit: u64) -> (Result<Outcome, Bad>, Seen) {
    let mut vm = Vm::new(&c.modules, limit);
    let mut go = || -> R<V> {
        if let Some(p) = &c.prelude {
            vm.prelude(p)?;
        }
        if module {
            vm.module(&c.main)
        } else {
            vm.script(&c.main)
        }
    };
    let r = go();
    let out = match outcome(&vm.w.trace, r) {
        Ok(o) => Ok(o),
        Err(Exc::Monitor(m)) => Err(Bad::Monitor(m)),
        Err(Exc::Discard(m)) => Err(Bad::Discard(m)),
        Err(_) => Err(Bad::Monitor("control left the program".into())),
    };
    let seen = std::mem::take(&mut vm.seen);
    drop(vm);
    clear_heap();
    (out, seen)
}

/// Runs a text both ways and prints what happened.
pub fn show(src: &str, module: bool) {
    let p = match crate::parse::parse(src) {
        Ok(p) => p,
        Err(e) => return println!("reference parser: {:?} at {}..{}", e.codes, e.s, e.e),
    };
    let p = Prog { module, main: p.items, modules: BTreeMap::new(), prelude: true };
    match interpret(&p, 1_000_000).out {
        Ok(o) => println!("reference: {}", o),
        Err(Exc::Discard(d)) => println!("reference: discarded, {}", d),
        Err(_) => println!("reference: control left the program"),
    }
    match build(src, module, &BTreeMap::new(), true) {
        Err(Bad::Rejected(e, _)) => println!("compiler: {}", e),
        Err(Bad::Malformed(m)) => println!("compiler: malformed code: {}", m),
        Err(_) => {}
        Ok(c) => {
            c.main.each(&mut |f| {
                if let Err(m) = verify::flow(f) {
                    println!("flow: {}", m)
                }
            });
            match execute(&c, module, 100_000_000).0 {
                Ok(o) => println!("machine:   {}", o),
                Err(Bad::Monitor(m)) => println!("machine: {}", m),
                Err(Bad::Discard(m)) => println!("machine: discarded, {}", m),
                Err(_) => {}
            }
        }
    }
}
