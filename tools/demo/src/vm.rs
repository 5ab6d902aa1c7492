//! Runs compiled code instruction by instruction, watching everything it does.
use crate::model::{self, arr, call, construct, obj, truth, Class, Exc, Exec, FnKind, FnObj, World, R, V};
use crate::verify::{self, Func, K};
use dice_bytecode::Instruction as I;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

type Slots = Rc<RefCell<Vec<Option<V>>>>;
pub enum Up {
    Open(Slots, usize),
    Closed(V),
}
pub type Upv = Rc<RefCell<Up>>;
pub struct Closure {
    func: Rc<Func>,
    ups: Vec<Upv>,
}

#[derive(Default)]
pub struct Seen {
    pub steps: u64,
    pub calls: u64,
    pub max_depth: usize,
    pub max_stack: usize,
    pub captured: u64,
    pub closed: u64,
    pub through_open: u64,
    pub through_closed: u64,
    pub ops: Vec<(u64, Option<I>)>,
}

pub struct Vm<'a> {
    pub w: World,
    modules: &'a BTreeMap<String, Rc<Func>>,
    loaded: BTreeMap<String, V>,
    limit: u64,
    depth: usize,
    pub seen: Seen,
    /// Upvalues made, to break cycles at the end.
    ups: Vec<Upv>,
    frames: Vec<Slots>,
}

impl<'a> Drop for Vm<'a> {
    fn drop(&mut self) {
        for u in &self.ups {
            *u.borrow_mut() = Up::Closed(V::Null);
        }
        for s in &self.frames {
            s.borrow_mut().clear();
        }
    }
}

impl<'a> Exec for Vm<'a> {
    fn world(&mut self) -> &mut World {
        &mut self.w
    }
    fn invoke(&mut self, f: &Rc<FnObj>, recv: Option<V>, args: Vec<V>) -> R<V> {
        let c = match &f.kind {
            FnKind::Vm(c) => c,
            _ => return Err(Exc::Monitor("an interpreted function reached the machine".into())),
        };
        let mut slots = vec![Some(recv.unwrap_or_else(|| V::Fn(f.clone())))];
        slots.extend(args.into_iter().map(Some));
        if slots.len() > c.func.slots {
            return Err(Exc::Monitor(format!(
                "function {:?} has {} slots for {} arguments and the receiver",
                c.func.name,
                c.func.slots,
                slots.len() - 1
            )));
        }
        slots.resize(c.func.slots, None);
        if self.depth >= 400 {
            return Err(Exc::Discard("deep recursion"));
        }
        self.depth += 1;
        self.seen.calls += 1;
        self.seen.max_depth = self.seen.max_depth.max(self.depth);
        let r = self.run(&c.func, slots, &c.ups);
        self.depth -= 1;
        r
    }
}

struct Act<'f> {
    f: &'f Rc<Func>,
    st: Vec<V>,
    open: Vec<(usize, Upv)>,
    slots: Slots,
    pc: usize,
}
impl<'f> Act<'f> {
    fn bad<T>(&self, m: String) -> R<T> {
        let w = self.f.ops.get(self.pc).map_or("the end".to_string(), |o| format!("{:?} at {}", o.ins, o.pos));
        Err(Exc::Monitor(format!("in function {:?}, {}: {}", self.f.name, w, m)))
    }
    fn pop(&mut self) -> R<V> {
        match self.st.pop() {
            Some(v) => Ok(v),
            None => self.bad("takes an operand that was not pushed".into()),
        }
    }
    fn peek(&self, n: usize) -> R<V> {
        match self.st.len().checked_sub(n + 1) {
            Some(i) => Ok(self.st[i].clone()),
            None => self.bad("looks at an operand that was not pushed".into()),
        }
    }
    fn popn(&mut self, n: usize) -> R<Vec<V>> {
        if self.st.len() < n {
            return self.bad(format!("takes {} operands of {}", n, self.st.len()));
        }
        let at = self.st.len() - n;
        Ok(self.st.split_off(at))
    }
    fn slot(&self, i: u8) -> R<V> {
        match &self.slots.borrow()[i as usize] {
            Some(v) => Ok(v.clone()),
            None => self.bad(format!("reads slot {}, which holds nothing", i)),
        }
    }
}

impl<'a> Vm<'a> {
    pub fn new(modules: &'a BTreeMap<String, Rc<Func>>, limit: u64) -> Self {
        Vm {
            w: World::new(),
            modules,
            loaded: BTreeMap::new(),
            limit,
            depth: 0,
            seen: Seen { ops: vec![(0, None); 256], ..Default::default() },
            ups: vec![],
            frames: vec![],
        }
    }
    pub fn script(&mut self, f: &Rc<Func>) -> R<V> {
        self.run(f, vec![None; f.slots], &[])
    }
    pub fn module(&mut self, f: &Rc<Func>) -> R<V> {
        let k = self.w.module.clone();
        let o = obj(&k);
        self.run_module(f, o.clone())?;
        Ok(o)
    }
    fn run_module(&mut self, f: &Rc<Func>, export: V) -> R<()> {
        if f.slots == 0 {
            return Err(Exc::Monitor("a module without a slot for its exports".into()));
        }
        let mut slots = vec![None; f.slots];
        slots[0] = Some(export.clone());
        let v = self.run(f, slots, &[])?;
        match (&v, &export) {
            (V::Obj(a), V::Obj(b)) if Rc::ptr_eq(a, b) => Ok(()),
            _ => Err(Exc::Monitor(format!("a module gave {} and not its exports", model::render(&v)))),
        }
    }
    pub fn prelude(&mut self, f: &Rc<Func>) -> R<()> {
        if let V::Obj(o) = self.module(f)? {
            for (k, v) in o.fields.borrow().iter() {
                self.w.globals.entry(k.clone()).or_insert_with(|| v.clone());
            }
        }
        Ok(())
    }
    fn load(&mut self, path: &str) -> R<V> {
        if let Some(v) = self.loaded.get(path) {
            return Ok(v.clone());
        }
        let modules = self.modules;
        let f = match modules.get(path) {
            Some(f) => f,
            None => return Err(Exc::Discard("no such module")),
        };
        let k = self.w.module.clone();
        let o = obj(&k);
        self.loaded.insert(path.into(), o.clone());
        if self.depth >= 400 {
            return Err(Exc::Discard("deep recursion"));
        }
        self.depth += 1;
        let r = self.run_module(f, o.clone());
        self.depth -= 1;
        r?;
        Ok(o)
    }

    fn run(&mut self, f: &Rc<Func>, slots: Vec<Option<V>>, ups: &[Upv]) -> R<V> {
        let slots = Rc::new(RefCell::new(slots));
        self.frames.push(slots.clone());
        let mut a = Act { f, st: vec![], open: vec![], slots, pc: 0 };
        let r = self.steps(&mut a, ups);
        if let Ok(v) = r {
            if a.st.len() != 0 {
                return a.bad(format!("leaves {} more operands than its result", a.st.len()));
            }
            if let Some((s, _)) = a.open.first() {
                return a.bad(format!("leaves with the captured variable in slot {} still open", s));
            }
            return Ok(v);
        }
        r
    }
    fn class_of(v: &V) -> R<Rc<Class>> {
        match v {
            V::Class(k) => Ok(k.clone()),
            _ => Err(Exc::Err("E3007")),
        }
    }
    fn steps(&mut self, a: &mut Act, ups: &[Upv]) -> R<V> {
        let f = a.f.clone();
        loop {
            let d = a.st.len();
            self.seen.max_stack = self.seen.max_stack.max(d);
            let known = f.depths.borrow()[a.pc];
            match known {
                Some(x) if x != d => return a.bad(format!("reached with {} operands and earlier with {}", d, x)),
                Some(_) => {}
                None => f.depths.borrow_mut()[a.pc] = Some(d),
            }
            if a.pc == f.ops.len() {
                return a.pop();
            }
            let op = &f.ops[a.pc];
            self.seen.steps += 1;
            let o = &mut self.seen.ops[op.ins as usize & 255];
            o.0 += 1;
            o.1 = Some(op.ins);
            if self.seen.steps > self.limit {
                return Err(Exc::Discard("the machine runs longer than the program should"));
            }
            let mut next = a.pc + 1;
            match op.ins {
                I::PushNull => a.st.push(V::Null),
                I::PushUnit => a.st.push(V::Unit),
                I::PushFalse => a.st.push(V::Bool(false)),
                I::PushTrue => a.st.push(V::Bool(true)),
                I::PushI0 => a.st.push(V::Int(0)),
                I::PushI1 => a.st.push(V::Int(1)),
                I::PushF0 => a.st.push(V::Float(0.0)),
                I::PushF1 => a.st.push(V::Float(1.0)),
                I::PushConst => {
                    let v = match &f.consts[op.a as usize] {
                        K::Int(i) => V::Int(*i),
                        K::Float(x) => V::Float(*x),
                        K::Str(s) => V::Str(s.clone()),
                        K::Fn(g) => V::Fn(Rc::new(FnObj { kind: FnKind::Vm(Closure { func: g.clone(), ups: vec![] }) })),
                        K::Sym(_) => return a.bad("pushes a symbol".into()),
                    };
                    a.st.push(v)
                }
                I::Pop => drop(a.pop()?),
                I::Dup => {
                    let v = a.peek(op.a as usize)?;
                    a.st.push(v)
                }
                I::Swap => {
                    let (x, y) = (a.pop()?, a.pop()?);
                    a.st.push(x);
                    a.st.push(y);
                }
                I::CreateArray => {
                    let v = a.popn(op.a as usize)?;
                    a.st.push(arr(v))
                }
                I::CreateObject => {
                    let any = self.w.any.clone();
                    a.st.push(obj(&any))
                }
                I::CreateClosure => {
                    let g = match &f.consts[op.a as usize] {
                        K::Fn(g) => g.clone(),
                        _ => return a.bad("makes a closure of something else".into()),
                    };
                    let mut v = vec![];
                    for (local, i) in &op.ups {
                        let i = *i as usize;
                        self.seen.captured += 1;
                        if *local {
                            match a.open.iter().find(|(s, _)| *s == i) {
                                Some((_, u)) => v.push(u.clone()),
                                None => {
                                    let u = Rc::new(RefCell::new(Up::Open(a.slots.clone(), i)));
                                    self.ups.push(u.clone());
                                    a.open.push((i, u.clone()));
                                    v.push(u);
                                }
                            }
                        } else {
                            match ups.get(i) {
                                Some(u) => v.push(u.clone()),
                                None => return a.bad(format!("captures upvalue {} of {}", i, ups.len())),
                            }
                        }
                    }
                    a.st.push(V::Fn(Rc::new(FnObj { kind: FnKind::Vm(Closure { func: g, ups: v }) })))
                }
                I::InheritClass => {
                    let b = a.pop()?;
                    let k = self.w.inherit(&b, f.sym(op.a))?;
                    a.st.push(k)
                }
                I::LoadModule => {
                    let v = self.load(f.sym(op.a))?;
                    a.st.push(v)
                }
                I::LoadGlobal => match self.w.globals.get(f.sym(op.a)) {
                    Some(v) => a.st.push(v.clone()),
                    None => return Err(Exc::Err("E3301")),
                },
                I::StoreGlobal => {
                    let v = a.pop()?;
                    let n = f.sym(op.a);
                    if self.w.globals.contains_key(n) {
                        return Err(Exc::Err("E3300"));
                    }
                    self.w.globals.insert(n.into(), v);
                }
                I::LoadLocal => {
                    let v = a.slot(op.a)?;
                    a.st.push(v)
                }
                I::StoreLocal | I::AssignLocal => {
                    let v = a.pop()?;
                    a.slots.borrow_mut()[op.a as usize] = Some(v.clone());
                    a.st.push(if let I::StoreLocal = op.ins { v } else { V::Unit });
                }
                I::LoadField => {
                    let o = a.pop()?;
                    let v = self.w.get_field(&o, f.sym(op.a))?;
                    a.st.push(v)
                }
                I::StoreField | I::AssignField => {
                    let v = a.pop()?;
                    let o = a.pop()?;
                    self.w.set_field(&o, f.sym(op.a), v.clone())?;
                    a.st.push(if let I::StoreField = op.ins { v } else { V::Unit });
                }
                I::LoadIndex => {
                    let i = a.pop()?;
                    let t = a.pop()?;
                    let v = self.w.get_index(&t, &i)?;
                    a.st.push(v)
                }
                I::StoreIndex | I::AssignIndex => {
                    let v = a.pop()?;
                    let i = a.pop()?;
                    let t = a.pop()?;
                    self.w.set_index(&t, &i, v.clone())?;
                    a.st.push(if let I::StoreIndex = op.ins { v } else { V::Unit });
                }
                I::LoadUpvalue => {
                    let v = match ups.get(op.a as usize) {
                        None => return a.bad("has no such upvalue".into()),
                        Some(u) => match &*u.borrow() {
                            Up::Open(s, i) => {
                                self.seen.through_open += 1;
                                s.borrow().get(*i).cloned().flatten()
                            }
                            Up::Closed(v) => {
                                self.seen.through_closed += 1;
                                Some(v.clone())
                            }
                        },
                    };
                    match v {
                        Some(v) => a.st.push(v),
                        None => return a.bad(format!("reads upvalue {}, which holds nothing", op.a)),
                    }
                }
                I::StoreUpvalue | I::AssignUpvalue => {
                    let v = a.pop()?;
                    match ups.get(op.a as usize) {
                        None => return a.bad("has no such upvalue".into()),
                        Some(u) => match &mut *u.borrow_mut() {
                            Up::Open(s, i) => {
                                self.seen.through_open += 1;
                                s.borrow_mut()[*i] = Some(v.clone())
                            }
                            Up::Closed(x) => {
                                self.seen.through_closed += 1;
                                *x = v.clone()
                            }
                        },
                    }
                    a.st.push(if let I::StoreUpvalue = op.ins { v } else { V::Unit });
                }
                I::CloseUpvalue => {
                    let v = a.slots.borrow_mut()[op.a as usize].take();
                    if let Some(i) = a.open.iter().position(|(s, _)| *s == op.a as usize) {
                        let (_, u) = a.open.remove(i);
                        self.seen.closed += 1;
                        match v {
                            Some(v) => *u.borrow_mut() = Up::Closed(v),
                            None => {
                                // The variable was captured before it got a value; nobody may read it.
                                *u.borrow_mut() = Up::Open(Rc::new(RefCell::new(vec![None])), 0)
                            }
                        }
                    }
                }
                I::LoadFieldToLocal => {
                    let o = a.pop()?;
                    let v = self.w.get_field(&o, f.sym(op.a))?;
                    a.slots.borrow_mut()[op.b as usize] = Some(v.clone());
                    a.st.push(v)
                }
                I::LoadMethod => {
                    let r = a.pop()?;
                    let k = a.pop()?;
                    let v = self.w.super_method(&k, &r, f.sym(op.a))?;
                    a.st.push(v)
                }
                I::StoreMethod => {
                    let v = a.pop()?;
                    let k = a.pop()?;
                    let k = Self::class_of(&k)?;
                    k.methods.borrow_mut().insert(f.sym(op.a).into(), v);
                }
                I::Negate => {
                    let v = a.pop()?;
                    a.st.push(model::negate(&v)?)
                }
                I::Not => {
                    let v = a.pop()?;
                    a.st.push(model::not(&v)?)
                }
                I::Multiply | I::Divide | I::Remainder | I::Add | I::Subtract | I::GreaterThan | I::GreaterThanOrEqual
                | I::LessThan | I::LessThanOrEqual | I::Equal | I::NotEqual | I::RangeInclusive | I::RangeExclusive => {
                    let o = match op.ins {
                        I::Multiply => "*",
                        I::Divide => "/",
                        I::Remainder => "%",
                        I::Add => "+",
                        I::Subtract => "-",
                        I::GreaterThan => ">",
                        I::GreaterThanOrEqual => ">=",
                        I::LessThan => "<",
                        I::LessThanOrEqual => "<=",
                        I::Equal => "==",
                        I::NotEqual => "!=",
                        I::RangeInclusive => "..=",
                        _ => "..",
                    };
                    let y = a.pop()?;
                    let x = a.pop()?;
                    let v = model::binary(self, o, x, y)?;
                    a.st.push(v)
                }
                I::Is => {
                    let k = a.pop()?;
                    let k = Self::class_of(&k)?;
                    let v = a.pop()?;
                    a.st.push(V::Bool(self.w.is_a(&v, &k)))
                }
                I::Jump => next = op.to,
                I::JumpIfFalse | I::JumpIfTrue => {
                    let v = a.pop()?;
                    if truth(&v, "E3000")? == matches!(op.ins, I::JumpIfTrue) {
                        next = op.to
                    }
                }
                I::Call => {
                    let args = a.popn(op.a as usize)?;
                    let t = a.pop()?;
                    let v = call(self, &t, args)?;
                    a.st.push(v)
                }
                I::CallSuper => {
                    let k = a.pop()?;
                    let k = Self::class_of(&k)?;
                    let args = a.popn(op.a as usize)?;
                    let this = a.pop()?;
                    let v = construct(self, &k, args, this)?;
                    a.st.push(v)
                }
                I::Return => return a.pop(),
                I::AssertBool => {
                    let v = a.peek(0)?;
                    truth(&v, "E3102")?;
                }
                I::AssertTypeForLocal | I::AssertTypeOrNullForLocal => {
                    let k = a.pop()?;
                    let v = a.slot(op.a)?;
                    self.w.assert_type(&v, &k, matches!(op.ins, I::AssertTypeOrNullForLocal))?;
                }
                I::AssertTypeAndReturn | I::AssertTypeOrNullAndReturn => {
                    let k = a.pop()?;
                    let v = a.peek(0)?;
                    self.w.assert_type(&v, &k, matches!(op.ins, I::AssertTypeOrNullAndReturn))?;
                    return a.pop();
                }
            }
            a.pc = next;
        }
    }
}

#[allow(dead_code)]
fn unused(_: Cell<u8>, _: &Func) -> String {
    verify::name(I::Pop)
}
