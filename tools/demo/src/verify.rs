//! Decodes bytecode through its public interface and checks what can be checked before running it.
use dice_bytecode::{Bytecode, ConstantValue, Instruction as I};
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

pub enum K {
    Int(i64),
    Float(f64),
    Str(Rc<str>),
    Sym(String),
    Fn(Rc<Func>),
}
pub struct Op {
    pub pos: u64,
    pub ins: I,
    pub a: u8,
    pub b: u8,
    /// The index of the instruction a jump leads to (or one past the last).
    pub to: usize,
    /// What a closure captures: (from the enclosing function's slots, index).
    pub ups: Vec<(bool, u8)>,
}
pub struct Func {
    pub name: String,
    pub id: String,
    pub top: bool,
    pub slots: usize,
    pub ups: usize,
    pub consts: Vec<K>,
    pub ops: Vec<Op>,
    pub len: u64,
    /// The operand depth each instruction was reached with.
    pub depths: std::cell::RefCell<Vec<Option<usize>>>,
}

impl Func {
    pub fn each<'a>(self: &'a Rc<Func>, f: &mut dyn FnMut(&'a Rc<Func>)) {
        f(self);
        for k in &self.consts {
            if let K::Fn(g) = k {
                g.each(f)
            }
        }
    }
    pub fn sym(&self, i: u8) -> &str {
        match &self.consts[i as usize] {
            K::Sym(s) => s,
            _ => "",
        }
    }
}

pub fn name(i: I) -> String {
    format!("{:?}", i)
}

/// Decodes a program; an error says how its code is malformed.
pub fn decode(bc: &Bytecode) -> Result<Rc<Func>, String> {
    let f = func(bc, "", "".into(), true)?;
    links(&f)?;
    Ok(f)
}

fn func(bc: &Bytecode, name: &str, id: String, top: bool) -> Result<Rc<Func>, String> {
    let consts: Vec<K> = bc
        .constants()
        .iter()
        .map(|c| {
            Ok(match c {
                ConstantValue::Int(i) => K::Int(*i),
                ConstantValue::Float(x) => K::Float(*x),
                ConstantValue::String(s) => K::Str(s.to_string().into()),
                ConstantValue::Symbol(s) => K::Sym(s.to_string()),
                ConstantValue::Function(f) => K::Fn(func(&f.bytecode, &f.name.to_string(), f.id.to_string(), false)?),
            })
        })
        .collect::<Result<_, String>>()?;
    let at = |m: String| Err(format!("in function {:?}: {}", name, m));
    if bc.slot_count() > 256 {
        return at(format!("{} slots cannot all be addressed", bc.slot_count()));
    }
    if bc.upvalue_count() > 256 {
        return at(format!("{} upvalues cannot all be addressed", bc.upvalue_count()));
    }
    let mut c = bc.cursor();
    let len = c.remaining();
    let mut ops: Vec<Op> = vec![];
    let mut targets: Vec<(usize, i128)> = vec![];
    while c.remaining() > 0 {
        let pos = c.position();
        let ins = match c.read_instruction() {
            Some(i) => i,
            None => return at(format!("no instruction at {}", pos)),
        };
        let mut op = Op { pos, ins, a: 0, b: 0, to: 0, ups: vec![] };
        let need = |c: &dice_bytecode::BytecodeCursor, n: u64| {
            if c.remaining() < n {
                Err(format!("in function {:?}: the code ends inside {:?} at {}", name, ins, pos))
            } else {
                Ok(())
            }
        };
        let k = |op: &Op| -> Result<&K, String> {
            consts.get(op.a as usize).ok_or(format!(
                "in function {:?}: {:?} at {} uses constant {} of {}",
                name,
                ins,
                pos,
                op.a,
                consts.len()
            ))
        };
        let slot = |s: u8| {
            if (s as usize) < bc.slot_count() {
                Ok(())
            } else {
                Err(format!("in function {:?}: {:?} at {} uses slot {} of {}", name, ins, pos, s, bc.slot_count()))
            }
        };
        match ins {
            I::PushConst | I::LoadModule | I::LoadGlobal | I::StoreGlobal | I::LoadField | I::StoreField | I::AssignField
            | I::LoadMethod | I::StoreMethod | I::InheritClass | I::LoadFieldToLocal | I::CreateClosure => {
                need(&c, 1)?;
                op.a = c.read_u8();
                let k = k(&op)?;
                let want = match ins {
                    I::PushConst => !matches!(k, K::Sym(_)),
                    I::CreateClosure => matches!(k, K::Fn(_)),
                    _ => matches!(k, K::Sym(_)),
                };
                if !want {
                    return at(format!("{:?} at {} uses a constant of the wrong kind", ins, pos));
                }
                match (ins, k) {
                    (I::PushConst, K::Fn(f)) if f.ups > 0 => {
                        return at(format!("{:?} at {} pushes a function that captures variables", ins, pos));
                    }
                    (I::CreateClosure, K::Fn(f)) => {
                        need(&c, 2 * f.ups as u64)?;
                        for _ in 0..f.ups {
                            let kind = c.read_u8();
                            let i = c.read_u8();
                            match kind {
                                1 => slot(i)?,
                                0 if (i as usize) < bc.upvalue_count() => {}
                                0 => {
                                    return at(format!(
                                        "{:?} at {} captures upvalue {} of {}",
                                        ins,
                                        pos,
                                        i,
                                        bc.upvalue_count()
                                    ))
                                }
                                _ => return at(format!("{:?} at {} captures something of kind {}", ins, pos, kind)),
                            }
                            op.ups.push((kind == 1, i));
                        }
                    }
                    (I::LoadFieldToLocal, _) => {
                        need(&c, 1)?;
                        op.b = c.read_u8();
                        slot(op.b)?;
                    }
                    _ => {}
                }
            }
            I::LoadLocal | I::StoreLocal | I::AssignLocal | I::CloseUpvalue | I::AssertTypeForLocal | I::AssertTypeOrNullForLocal => {
                need(&c, 1)?;
                op.a = c.read_u8();
                slot(op.a)?;
            }
            I::LoadUpvalue | I::StoreUpvalue | I::AssignUpvalue => {
                need(&c, 1)?;
                op.a = c.read_u8();
                if op.a as usize >= bc.upvalue_count() {
                    return at(format!("{:?} at {} uses upvalue {} of {}", ins, pos, op.a, bc.upvalue_count()));
                }
            }
            I::Dup | I::CreateArray | I::Call | I::CallSuper => {
                need(&c, 1)?;
                op.a = c.read_u8();
            }
            I::Jump | I::JumpIfFalse | I::JumpIfTrue => {
                need(&c, 2)?;
                let d = c.read_offset();
                targets.push((ops.len(), c.position() as i128 + d as i128));
            }
            I::StoreIndex | I::RangeInclusive | I::RangeExclusive | I::PushNull | I::PushUnit | I::PushFalse | I::PushTrue
            | I::PushI0 | I::PushI1 | I::PushF0 | I::PushF1 | I::Pop | I::Swap | I::CreateObject | I::LoadIndex
            | I::AssignIndex | I::Negate | I::Not | I::Multiply | I::Divide | I::Remainder | I::Add | I::Subtract
            | I::GreaterThan | I::GreaterThanOrEqual | I::LessThan | I::LessThanOrEqual | I::Equal | I::NotEqual | I::Is
            | I::Return | I::AssertBool | I::AssertTypeAndReturn | I::AssertTypeOrNullAndReturn => {}
            #[allow(unreachable_patterns)]
            _ => return at(format!("{:?} at {} is no known instruction", ins, pos)),
        }
        ops.push(op);
    }
    let mut index: HashMap<i128, usize> = ops.iter().enumerate().map(|(i, o)| (o.pos as i128, i)).collect();
    index.insert(len as i128, ops.len());
    for (i, to) in targets {
        match index.get(&to) {
            Some(t) => ops[i].to = *t,
            None => return at(format!("{:?} at {} leads to {}, which is no instruction", ops[i].ins, ops[i].pos, to)),
        }
    }
    let n = ops.len() + 1;
    Ok(Rc::new(Func {
        name: name.into(),
        id,
        top,
        slots: bc.slot_count(),
        ups: bc.upvalue_count(),
        consts,
        ops,
        len,
        depths: std::cell::RefCell::new(vec![None; n]),
    }))
}
fn links(f: &Rc<Func>) -> Result<(), String> {
    if f.top && f.ups > 0 {
        return Err("the program itself captures variables".into());
    }
    Ok(())
}

/// How many operands an instruction takes and gives.
pub fn effect(op: &Op) -> (usize, usize) {
    match op.ins {
        I::PushNull | I::PushUnit | I::PushFalse | I::PushTrue | I::PushI0 | I::PushI1 | I::PushF0 | I::PushF1 => (0, 1),
        I::PushConst | I::CreateObject | I::CreateClosure | I::LoadModule | I::LoadGlobal | I::LoadLocal => (0, 1),
        I::LoadUpvalue => (0, 1),
        I::Pop | I::StoreGlobal | I::JumpIfFalse | I::JumpIfTrue => (1, 0),
        I::Dup => (op.a as usize + 1, op.a as usize + 2),
        I::Swap => (2, 2),
        I::CreateArray => (op.a as usize, 1),
        I::InheritClass | I::StoreLocal | I::AssignLocal | I::StoreUpvalue | I::AssignUpvalue => (1, 1),
        I::LoadField | I::LoadFieldToLocal | I::Negate | I::Not | I::AssertBool => (1, 1),
        I::StoreField | I::AssignField | I::LoadIndex | I::LoadMethod | I::Is => (2, 1),
        I::StoreIndex | I::AssignIndex => (3, 1),
        I::CloseUpvalue | I::Jump => (0, 0),
        I::StoreMethod => (2, 0),
        I::Multiply | I::Divide | I::Remainder | I::Add | I::Subtract | I::GreaterThan | I::GreaterThanOrEqual => (2, 1),
        I::LessThan | I::LessThanOrEqual | I::Equal | I::NotEqual | I::RangeInclusive | I::RangeExclusive => (2, 1),
        I::Call => (op.a as usize + 1, 1),
        I::CallSuper => (op.a as usize + 2, 1),
        I::Return => (1, 1),
        I::AssertTypeForLocal | I::AssertTypeOrNullForLocal => (1, 0),
        I::AssertTypeAndReturn | I::AssertTypeOrNullAndReturn => (2, 1),
    }
}
pub fn returns(i: I) -> bool {
    matches!(i, I::Return | I::AssertTypeAndReturn | I::AssertTypeOrNullAndReturn)
}

/// The depth of the operand stack at every reachable instruction, along every path.
pub struct Flow {
    pub points: usize,
    pub joins: usize,
    pub max: usize,
    pub unreachable: usize,
}
pub fn flow(f: &Func) -> Result<Flow, String> {
    let n = f.ops.len();
    let mut depth: Vec<Option<usize>> = vec![None; n + 1];
    let mut work = vec![(0usize, 0usize)];
    let mut out = Flow { points: 0, joins: 0, max: 0, unreachable: 0 };
    let fail = |i: usize, m: String| {
        let w = f.ops.get(i).map_or("the end".to_string(), |o| format!("{:?} at {}", o.ins, o.pos));
        Err(format!("in function {:?}: {}: {}", f.name, w, m))
    };
    while let Some((i, d)) = work.pop() {
        match depth[i] {
            Some(x) if x == d => {
                out.joins += 1;
                continue;
            }
            Some(x) => return fail(i, format!("reached with {} operands and with {}", x, d)),
            None => depth[i] = Some(d),
        }
        out.points += 1;
        out.max = out.max.max(d);
        if i == n {
            if d != 1 {
                return fail(i, format!("the code ends with {} values", d));
            }
            continue;
        }
        let op = &f.ops[i];
        let (take, give) = effect(op);
        if d < take {
            return fail(i, format!("takes {} operands of {}", take, d));
        }
        let after = d - take + give;
        if returns(op.ins) {
            if after != 1 {
                return fail(i, format!("leaves {} values", after));
            }
            continue;
        }
        match op.ins {
            I::Jump => work.push((op.to, after)),
            I::JumpIfFalse | I::JumpIfTrue => {
                work.push((op.to, after));
                work.push((i + 1, after));
            }
            _ => work.push((i + 1, after)),
        }
    }
    out.unreachable = depth[..n].iter().filter(|d| d.is_none()).count();
    Ok(out)
}

/// The distinct identifiers of the functions of a program, and how many functions it has.
pub fn ids(f: &Rc<Func>) -> (BTreeSet<String>, usize) {
    let mut s = BTreeSet::new();
    let mut n = 0;
    f.each(&mut |g| {
        if !g.top {
            s.insert(g.id.clone());
            n += 1;
        }
    });
    (s, n)
}
