//! Values of the language and the parts of its semantics that do not depend on how code runs.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Cel = Rc<RefCell<Option<V>>>;

#[derive(Clone)]
pub enum V {
    Null,
    Unit,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(Rc<str>),
    Arr(Rc<RefCell<Vec<V>>>),
    Obj(Rc<Obj>),
    Class(Rc<Class>),
    Fn(Rc<FnObj>),
    Nat(Nat),
    Bound(Rc<(V, V)>),
}
pub struct Obj {
    pub class: Rc<Class>,
    pub fields: RefCell<BTreeMap<String, V>>,
}
pub struct Class {
    pub name: String,
    pub base: Option<Rc<Class>>,
    pub value_type: bool,
    pub methods: RefCell<BTreeMap<String, V>>,
    pub fields: RefCell<BTreeMap<String, V>>,
}
pub struct FnObj {
    pub kind: FnKind,
}
pub enum FnKind {
    Interp(crate::interp::Closure),
    Vm(crate::vm::Closure),
}
#[derive(Clone)]
pub enum Nat {
    Trace,
    Push,
    Pop,
    Len,
    First,
    Map,
    Filter,
    Iter,
    Next(Rc<(Rc<RefCell<Vec<V>>>, Cell<usize>)>),
    StrAdd,
    Same(bool),
    Opaque,
}
impl Nat {
    fn arity(&self) -> usize {
        match self {
            Nat::Trace | Nat::Push | Nat::Map | Nat::Filter | Nat::StrAdd | Nat::Same(_) | Nat::Opaque => 1,
            Nat::Pop | Nat::Len | Nat::First | Nat::Iter | Nat::Next(_) => 0,
        }
    }
}

pub enum Exc {
    /// An error that stops the program.
    Err(&'static str),
    Break,
    Continue,
    Return(V),
    NullExit,
    /// The case is outside what the model covers.
    Discard(&'static str),
    /// A monitor was violated.
    Monitor(String),
}
pub type R<T> = Result<T, Exc>;

thread_local! {
    static HEAP: RefCell<Vec<Node>> = const { RefCell::new(Vec::new()) };
}
enum Node {
    C(Cel),
    A(Rc<RefCell<Vec<V>>>),
    O(Rc<Obj>),
    K(Rc<Class>),
}
fn reg(n: Node) {
    HEAP.with(|h| h.borrow_mut().push(n));
}
/// Breaks every cycle made since the last call.
pub fn clear_heap() {
    let v = HEAP.with(|h| std::mem::take(&mut *h.borrow_mut()));
    for n in &v {
        match n {
            Node::C(c) => drop(c.borrow_mut().take()),
            Node::A(a) => a.borrow_mut().clear(),
            Node::O(o) => o.fields.borrow_mut().clear(),
            Node::K(k) => {
                k.fields.borrow_mut().clear();
                k.methods.borrow_mut().clear();
            }
        }
    }
}
pub fn cell(v: Option<V>) -> Cel {
    let c = Rc::new(RefCell::new(v));
    reg(Node::C(c.clone()));
    c
}
pub fn arr(v: Vec<V>) -> V {
    let a = Rc::new(RefCell::new(v));
    reg(Node::A(a.clone()));
    V::Arr(a)
}
pub fn obj(class: &Rc<Class>) -> V {
    let o = Rc::new(Obj { class: class.clone(), fields: Default::default() });
    reg(Node::O(o.clone()));
    V::Obj(o)
}
fn class(name: &str, base: Option<&Rc<Class>>, value_type: bool) -> Rc<Class> {
    let k = Rc::new(Class {
        name: name.into(),
        base: base.cloned(),
        value_type,
        methods: Default::default(),
        fields: Default::default(),
    });
    reg(Node::K(k.clone()));
    k
}

pub struct World {
    pub any: Rc<Class>,
    pub module: Rc<Class>,
    null: Rc<Class>,
    unit: Rc<Class>,
    bool: Rc<Class>,
    int: Rc<Class>,
    float: Rc<Class>,
    function: Rc<Class>,
    array: Rc<Class>,
    class: Rc<Class>,
    string: Rc<Class>,
    pub globals: BTreeMap<String, V>,
    pub trace: Vec<String>,
}
impl World {
    pub fn new() -> World {
        let any = class("Any", None, true);
        let v = |n: &str| class(n, Some(&any), true);
        let mut w = World {
            module: class("Module", Some(&any), false),
            null: v("Null"),
            unit: v("Unit"),
            bool: v("Bool"),
            int: v("Int"),
            float: v("Float"),
            function: v("Function"),
            array: v("Array"),
            class: v("Class"),
            string: v("String"),
            globals: BTreeMap::new(),
            trace: vec![],
            any,
        };
        for (n, f) in [
            ("push", Nat::Push),
            ("pop", Nat::Pop),
            ("length", Nat::Len),
            ("first", Nat::First),
            ("map", Nat::Map),
            ("filter", Nat::Filter),
            ("iter", Nat::Iter),
        ] {
            w.array.methods.borrow_mut().insert(n.into(), V::Nat(f));
        }
        {
            let mut m = w.string.methods.borrow_mut();
            m.insert("#add".into(), V::Nat(Nat::StrAdd));
            m.insert("#eq".into(), V::Nat(Nat::Same(true)));
            m.insert("#neq".into(), V::Nat(Nat::Same(false)));
        }
        for k in [&w.any, &w.module, &w.null, &w.unit, &w.bool, &w.int, &w.float, &w.function, &w.array, &w.class, &w.string] {
            w.globals.insert(k.name.clone(), V::Class(k.clone()));
        }
        w.globals.insert("t".into(), V::Nat(Nat::Trace));
        w.globals.insert("opaque".into(), V::Nat(Nat::Opaque));
        w
    }
    pub fn class_of(&self, v: &V) -> Rc<Class> {
        match v {
            V::Null => &self.null,
            V::Unit => &self.unit,
            V::Bool(_) => &self.bool,
            V::Int(_) => &self.int,
            V::Float(_) => &self.float,
            V::Str(_) => &self.string,
            V::Arr(_) => &self.array,
            V::Obj(o) => &o.class,
            V::Class(_) => &self.class,
            V::Fn(_) | V::Nat(_) | V::Bound(_) => &self.function,
        }
        .clone()
    }
    pub fn is_a(&self, v: &V, class: &Rc<Class>) -> bool {
        let mut k = Some(self.class_of(v));
        while let Some(c) = k {
            if Rc::ptr_eq(&c, class) {
                return true;
            }
            k = c.base.clone();
        }
        false
    }
    pub fn method(&self, c: &Rc<Class>, name: &str) -> Option<V> {
        c.methods.borrow().get(name).cloned()
    }
    pub fn get_field(&self, v: &V, key: &str) -> R<V> {
        let own = match v {
            V::Obj(o) => o.fields.borrow().get(key).cloned(),
            V::Class(c) => c.fields.borrow().get(key).cloned(),
            _ => None,
        };
        if let Some(x) = own {
            return Ok(x);
        }
        if key == "new" {
            return Err(Exc::Err("E3400"));
        }
        Ok(match self.method(&self.class_of(v), key) {
            Some(m) => V::Bound(Rc::new((m, v.clone()))),
            None => V::Null,
        })
    }
    pub fn set_field(&self, v: &V, key: &str, x: V) -> R<()> {
        match v {
            V::Obj(o) => o.fields.borrow_mut().insert(key.into(), x),
            V::Class(c) => c.fields.borrow_mut().insert(key.into(), x),
            V::Arr(_) => return Err(Exc::Discard("field of an array")),
            _ => return Err(Exc::Err("E3006")),
        };
        Ok(())
    }
    pub fn get_index(&self, a: &V, i: &V) -> R<V> {
        match (a, i) {
            (V::Arr(v), V::Int(i)) => {
                let v = v.borrow();
                if *i < 0 {
                    return Err(Exc::Discard("negative index"));
                }
                Ok(v.get(*i as usize).cloned().unwrap_or(V::Null))
            }
            (V::Arr(_), _) => Err(Exc::Err("E3005")),
            _ => Err(Exc::Discard("index of something else")),
        }
    }
    pub fn set_index(&self, a: &V, i: &V, x: V) -> R<()> {
        match (a, i) {
            (V::Arr(v), V::Int(i)) => {
                let mut v = v.borrow_mut();
                if *i < 0 || *i as usize >= v.len() {
                    return Err(Exc::Discard("index out of bounds"));
                }
                v[*i as usize] = x;
                Ok(())
            }
            _ => Err(Exc::Discard("index of something else")),
        }
    }
    pub fn inherit(&self, base: &V, name: &str) -> R<V> {
        let b = match base {
            V::Class(c) => c,
            _ => return Err(Exc::Err("E3007")),
        };
        if b.value_type && !Rc::ptr_eq(b, &self.any) {
            return Err(Exc::Err("E3402"));
        }
        let k = class(name, Some(b), false);
        for (n, m) in b.methods.borrow().iter() {
            if n != "new" {
                k.methods.borrow_mut().insert(n.clone(), m.clone());
            }
        }
        for (n, m) in b.fields.borrow().iter() {
            k.fields.borrow_mut().insert(n.clone(), m.clone());
        }
        Ok(V::Class(k))
    }
    pub fn super_method(&self, class: &V, recv: &V, key: &str) -> R<V> {
        let c = match class {
            V::Class(c) => c,
            _ => return Err(Exc::Err("E3007")),
        };
        if !self.is_a(recv, c) {
            return Err(Exc::Err("E3105"));
        }
        Ok(match self.method(c, key) {
            Some(m) => V::Bound(Rc::new((m, recv.clone()))),
            None => V::Null,
        })
    }
    pub fn assert_type(&self, v: &V, class: &V, null_ok: bool) -> R<()> {
        let c = match class {
            V::Class(c) => c,
            _ => return Err(Exc::Err("E3007")),
        };
        if let V::Null = v {
            return if null_ok { Ok(()) } else { Err(Exc::Err("E3101")) };
        }
        if self.is_a(v, c) {
            Ok(())
        } else {
            Err(Exc::Err("E3100"))
        }
    }
}

pub fn truth(v: &V, code: &'static str) -> R<bool> {
    match v {
        V::Bool(b) => Ok(*b),
        _ => Err(Exc::Err(code)),
    }
}

pub trait Exec {
    fn world(&mut self) -> &mut World;
    fn invoke(&mut self, f: &Rc<FnObj>, recv: Option<V>, args: Vec<V>) -> R<V>;
}

pub fn call(x: &mut dyn Exec, f: &V, args: Vec<V>) -> R<V> {
    match f {
        V::Fn(f) => x.invoke(f, None, args),
        V::Bound(b) => match &b.0 {
            V::Fn(f) => x.invoke(f, Some(b.1.clone()), args),
            V::Nat(n) => native(x, n, Some(b.1.clone()), args),
            _ => Err(Exc::Err("E3104")),
        },
        V::Nat(n) => native(x, n, None, args),
        V::Class(c) => {
            let o = obj(c);
            construct(x, c, args, o)
        }
        _ => Err(Exc::Err("E3104")),
    }
}
pub fn construct(x: &mut dyn Exec, c: &Rc<Class>, args: Vec<V>, this: V) -> R<V> {
    let new = x.world().method(c, "new");
    match new {
        Some(V::Fn(f)) => x.invoke(&f, Some(this), args),
        Some(_) => Err(Exc::Discard("a constructor that is no function")),
        None if c.value_type && !Rc::ptr_eq(c, &x.world().any) => Err(Exc::Discard("constructing a value type")),
        None if !args.is_empty() => Ok(this),
        None => match &c.base {
            Some(b) if x.world().method(b, "new").is_some() => Err(Exc::Err("E3401")),
            _ => Ok(this),
        },
    }
}
fn native(x: &mut dyn Exec, n: &Nat, recv: Option<V>, args: Vec<V>) -> R<V> {
    if args.len() != n.arity() {
        return Err(Exc::Discard("wrong number of arguments for a native function"));
    }
    let a = || match &recv {
        Some(V::Arr(a)) => Ok(a.clone()),
        _ => Err(Exc::Discard("no array")),
    };
    Ok(match n {
        Nat::Trace => {
            let s = render(&args[0]);
            let w = x.world();
            if w.trace.len() > 20_000 {
                return Err(Exc::Discard("a very long trace"));
            }
            w.trace.push(s);
            args.into_iter().next().unwrap()
        }
        Nat::Opaque => args.into_iter().next().unwrap(),
        Nat::Push => {
            let a = a()?;
            if a.borrow().len() > 5000 {
                return Err(Exc::Discard("a very long array"));
            }
            a.borrow_mut().push(args.into_iter().next().unwrap());
            V::Unit
        }
        Nat::Pop => a()?.borrow_mut().pop().unwrap_or(V::Null),
        Nat::Len => V::Int(a()?.borrow().len() as i64),
        Nat::First => a()?.borrow().first().cloned().unwrap_or(V::Null),
        Nat::Map => {
            let v: Vec<V> = a()?.borrow().clone();
            let mut out = vec![];
            for i in v {
                out.push(call(x, &args[0], vec![i])?);
            }
            arr(out)
        }
        Nat::Filter => {
            let v: Vec<V> = a()?.borrow().clone();
            let mut out = vec![];
            for i in v {
                match call(x, &args[0], vec![i.clone()])? {
                    V::Bool(true) => out.push(i),
                    V::Bool(false) => {}
                    _ => return Err(Exc::Err("E3000")),
                }
            }
            arr(out)
        }
        Nat::Iter => {
            let a = a()?;
            let any = x.world().any.clone();
            let o = obj(&any);
            x.world().set_field(&o, "next", V::Nat(Nat::Next(Rc::new((a, Cell::new(0))))))?;
            o
        }
        Nat::Next(s) => {
            let any = x.world().any.clone();
            let o = obj(&any);
            let i = s.1.get();
            let item = s.0.borrow().get(i).cloned();
            match item {
                Some(v) => {
                    s.1.set(i + 1);
                    x.world().set_field(&o, "value", v)?;
                    x.world().set_field(&o, "is_done", V::Bool(false))?;
                }
                None => x.world().set_field(&o, "is_done", V::Bool(true))?,
            }
            o
        }
        Nat::StrAdd => match (&recv, &args[0]) {
            (Some(V::Str(a)), V::Str(b)) => {
                if a.len() + b.len() > 20_000 {
                    return Err(Exc::Discard("a very long string"));
                }
                V::Str(format!("{}{}", a, b).into())
            }
            _ => return Err(Exc::Err("E3004")),
        },
        Nat::Same(w) => match (&recv, &args[0]) {
            (Some(V::Str(a)), V::Str(b)) => V::Bool((a == b) == *w),
            _ => V::Bool(!*w),
        },
    })
}

pub fn op_name(op: &str) -> &'static str {
    match op {
        "*" => "#mul",
        "/" => "#div",
        "%" => "#rem",
        "+" => "#add",
        "-" => "#sub",
        ">" => "#gt",
        "<" => "#lt",
        ">=" => "#gte",
        "<=" => "#lte",
        "==" => "#eq",
        "!=" => "#neq",
        ".." => "#range_exclusive",
        "..=" => "#range_inclusive",
        _ => unreachable!("operator {}", op),
    }
}
pub fn binary(x: &mut dyn Exec, op: &str, a: V, b: V) -> R<V> {
    use V::*;
    Ok(match (op, &a, &b) {
        ("*", Int(p), Int(q)) => Int(p.wrapping_mul(*q)),
        ("+", Int(p), Int(q)) => Int(p.wrapping_add(*q)),
        ("-", Int(p), Int(q)) => Int(p.wrapping_sub(*q)),
        ("/" | "%", Int(_), Int(0)) => return Err(Exc::Err("E3200")),
        ("/", Int(p), Int(q)) => Int(p.wrapping_div(*q)),
        ("%", Int(p), Int(q)) => Int(p.wrapping_rem(*q)),
        ("*", Float(p), Float(q)) => Float(p * q),
        ("+", Float(p), Float(q)) => Float(p + q),
        ("-", Float(p), Float(q)) => Float(p - q),
        ("/", Float(p), Float(q)) => Float(p / q),
        ("%", Float(p), Float(q)) => Float(p % q),
        (">", Int(p), Int(q)) => Bool(p > q),
        ("<", Int(p), Int(q)) => Bool(p < q),
        (">=", Int(p), Int(q)) => Bool(p >= q),
        ("<=", Int(p), Int(q)) => Bool(p <= q),
        (">", Float(p), Float(q)) => Bool(p > q),
        ("<", Float(p), Float(q)) => Bool(p < q),
        (">=", Float(p), Float(q)) => Bool(p >= q),
        ("<=", Float(p), Float(q)) => Bool(p <= q),
        (">", Bool(p), Bool(q)) => Bool(p > q),
        ("<", Bool(p), Bool(q)) => Bool(p < q),
        (">=", Bool(p), Bool(q)) => Bool(p >= q),
        ("<=", Bool(p), Bool(q)) => Bool(p <= q),
        ("==" | "!=", Null, Null) | ("==" | "!=", Unit, Unit) => Bool(op == "=="),
        ("==" | "!=", Null, _) | ("==" | "!=", _, Null) => Bool(op == "!="),
        ("==" | "!=", Unit, _) | ("==" | "!=", _, Unit) => Bool(op == "!="),
        ("==" | "!=", Bool(p), Bool(q)) => Bool((p == q) == (op == "==")),
        ("==" | "!=", Int(p), Int(q)) => Bool((p == q) == (op == "==")),
        ("==" | "!=", Float(p), Float(q)) => Bool((p == q) == (op == "==")),
        _ => {
            let name = op_name(op);
            let m = x.world().get_field(&a, name)?;
            if !matches!(m, Null) {
                return call(x, &m, vec![b]);
            }
            let g = x.world().globals.get(name).cloned();
            match g {
                Some(f) => return call(x, &f, vec![a, b]),
                None => return Err(Exc::Err("E3302")),
            }
        }
    })
}
pub fn negate(a: &V) -> R<V> {
    match a {
        V::Int(i) => Ok(V::Int(i.wrapping_neg())),
        V::Float(f) => Ok(V::Float(-f)),
        _ => Err(Exc::Err("E3103")),
    }
}
pub fn not(a: &V) -> R<V> {
    Ok(V::Bool(!truth(a, "E3102")?))
}

pub fn render(v: &V) -> String {
    let mut s = String::new();
    rend(v, 4, &mut s);
    s
}
fn rend(v: &V, d: usize, o: &mut String) {
    use std::fmt::Write;
    if o.len() > 4000 {
        o.push('~');
        return;
    }
    match v {
        V::Null => o.push_str("null"),
        V::Unit => o.push_str("unit"),
        V::Bool(b) => drop(write!(o, "{}", b)),
        V::Int(i) => drop(write!(o, "{}", i)),
        V::Float(f) => drop(write!(o, "{:?}f", if f.is_nan() { f64::NAN } else { *f })),
        V::Str(s) => drop(write!(o, "{:?}", s)),
        V::Fn(_) | V::Nat(_) => o.push_str("fn"),
        V::Bound(b) => {
            o.push_str("method of ");
            rend(&b.1, d.min(1), o)
        }
        V::Class(c) => {
            o.push_str("class ");
            o.push_str(&c.name);
            fields(&c.fields, d, o);
        }
        V::Arr(a) => {
            if d == 0 {
                o.push_str("[..]");
                return;
            }
            o.push('[');
            for (i, x) in a.borrow().iter().enumerate() {
                if i > 0 {
                    o.push_str(", ")
                }
                rend(x, d - 1, o);
            }
            o.push(']');
        }
        V::Obj(ob) => {
            o.push_str(&ob.class.name);
            fields(&ob.fields, d, o);
        }
    }
}
fn fields(f: &RefCell<BTreeMap<String, V>>, d: usize, o: &mut String) {
    if d == 0 {
        o.push_str("{..}");
        return;
    }
    o.push('{');
    for (i, (k, x)) in f.borrow().iter().enumerate() {
        if i > 0 {
            o.push_str(", ")
        }
        o.push_str(k);
        o.push_str(": ");
        rend(x, d - 1, o);
    }
    o.push('}');
}
