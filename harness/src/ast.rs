//! The harness's own syntax tree.
#[derive(Clone, Debug, PartialEq)]
pub struct Ty {
    pub name: String,
    pub null: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Param {
    pub name: String,
    pub ty: Option<Ty>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Pat {
    One(String),
    Many(Vec<String>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct FnD {
    pub name: String,
    pub params: Vec<Param>,
    pub ret: Option<Ty>,
    pub body: Vec<E>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct OpD {
    pub op: &'static str,
    pub params: Vec<Param>,
    pub ret: Option<Ty>,
    pub body: Vec<E>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Fn(FnD),
    Op(OpD),
}
#[derive(Clone, Debug, PartialEq)]
pub struct ClassD {
    pub name: String,
    pub base: Option<Box<E>>,
    pub items: Vec<Item>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Null,
    Unit,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Id(String),
    List(Vec<E>),
    Obj(Vec<(String, E)>),
    Lam(Vec<Param>, Box<E>),
    Field(Box<E>, String),
    SuperAcc(Option<String>, String),
    SuperCall(Vec<E>),
    Index(Box<E>, Box<E>),
    Neg(Box<E>),
    Not(Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Is(Box<E>, Ty),
    NullProp(Box<E>),
    ErrProp(Box<E>),
    Asg(&'static str, Box<E>, Box<E>),
    If(Box<E>, Vec<E>, Option<Box<E>>),
    Block(Vec<E>),
    OrErr(Box<E>, String, Vec<E>),
    Call(Box<E>, Vec<E>),
    Let(Pat, bool, Box<E>),
    Fn(FnD),
    Op(OpD),
    Class(ClassD),
    Import(Option<String>, Vec<String>, String),
    Export(Box<E>),
    Loop(Vec<E>),
    While(Box<E>, Vec<E>),
    For(String, Box<E>, Vec<E>),
    Break,
    Continue,
    Ret(Option<Box<E>>),
}

pub const BINOPS: &[&str] = &[
    "*", "/", "%", "+", "-", ">", "<", ">=", "<=", "==", "!=", "&&", "||", "..=", "..", "??", "|>",
];
pub const ASSIGNOPS: &[&str] = &["=", "*=", "/=", "+=", "-="];
pub const OVERLOADS: &[&str] = &["*", "/", "%", "+", "-", ">", "<", ">=", "<=", "==", "!=", "..", "..="];

/// Binding strength, loosest first.
pub mod prec {
    pub const ASSIGN: u8 = 1;
    pub const PIPE: u8 = 2;
    pub const COALESCE: u8 = 3;
    pub const RANGE: u8 = 4;
    pub const OR: u8 = 5;
    pub const AND: u8 = 6;
    pub const CMP: u8 = 7;
    pub const TERM: u8 = 8;
    pub const FACTOR: u8 = 9;
    pub const UNARY: u8 = 10;
    pub const PROP: u8 = 11;
    pub const CALL: u8 = 12;
    pub const PRIMARY: u8 = 14;
}
pub fn bin_prec(op: &str) -> u8 {
    use prec::*;
    match op {
        "|>" => PIPE,
        "??" => COALESCE,
        ".." | "..=" => RANGE,
        "||" => OR,
        "&&" => AND,
        ">" | "<" | ">=" | "<=" | "==" | "!=" => CMP,
        "+" | "-" => TERM,
        _ => FACTOR,
    }
}

pub fn id(s: &str) -> E {
    E::Id(s.to_string())
}
pub fn bx(e: E) -> Box<E> {
    Box::new(e)
}
pub fn call(f: &str, args: Vec<E>) -> E {
    E::Call(bx(id(f)), args)
}
pub fn bin(op: &'static str, a: E, b: E) -> E {
    E::Bin(op, bx(a), bx(b))
}
pub fn field(e: E, f: &str) -> E {
    E::Field(bx(e), f.to_string())
}
pub fn let_(n: &str, e: E) -> E {
    E::Let(Pat::One(n.to_string()), false, bx(e))
}
pub fn let_mut(n: &str, e: E) -> E {
    E::Let(Pat::One(n.to_string()), true, bx(e))
}
pub fn asg(t: E, e: E) -> E {
    E::Asg("=", bx(t), bx(e))
}

impl E {
    /// Calls `f` on every direct sub-expression (in source order).
    pub fn each_child<'a>(&'a self, f: &mut dyn FnMut(&'a E)) {
        match self {
            E::Null | E::Unit | E::Bool(_) | E::Int(_) | E::Float(_) | E::Str(_) | E::Id(_) => {}
            E::SuperAcc(..) | E::Import(..) | E::Break | E::Continue => {}
            E::List(v) | E::Block(v) | E::SuperCall(v) | E::Loop(v) => v.iter().for_each(|x| f(x)),
            E::Obj(v) => v.iter().for_each(|(_, x)| f(x)),
            E::Lam(_, b) | E::Field(b, _) | E::Neg(b) | E::Not(b) | E::Is(b, _) | E::NullProp(b) | E::ErrProp(b) => f(b),
            E::Let(_, _, b) | E::Export(b) => f(b),
            E::Index(a, b) | E::Bin(_, a, b) | E::Asg(_, a, b) => {
                f(a);
                f(b)
            }
            E::If(c, t, e) => {
                f(c);
                t.iter().for_each(|x| f(x));
                if let Some(e) = e {
                    f(e)
                }
            }
            E::OrErr(a, _, b) | E::While(a, b) | E::For(_, a, b) => {
                f(a);
                b.iter().for_each(|x| f(x))
            }
            E::Call(a, v) => {
                f(a);
                v.iter().for_each(|x| f(x))
            }
            E::Fn(d) => d.body.iter().for_each(|x| f(x)),
            E::Op(d) => d.body.iter().for_each(|x| f(x)),
            E::Class(c) => {
                if let Some(b) = &c.base {
                    f(b)
                }
                for i in &c.items {
                    match i {
                        Item::Fn(d) => d.body.iter().for_each(|x| f(x)),
                        Item::Op(d) => d.body.iter().for_each(|x| f(x)),
                    }
                }
            }
            E::Ret(r) => {
                if let Some(r) = r {
                    f(r)
                }
            }
        }
    }
    pub fn size(&self) -> usize {
        let mut n = 1;
        self.each_child(&mut |c| n += c.size());
        n
    }
    /// A short name of the node's kind, for coverage counts.
    pub fn kind(&self) -> &'static str {
        match self {
            E::Null => "null",
            E::Unit => "unit",
            E::Bool(_) => "bool",
            E::Int(_) => "int",
            E::Float(_) => "float",
            E::Str(_) => "string",
            E::Id(_) => "ident",
            E::List(_) => "list",
            E::Obj(_) => "object",
            E::Lam(..) => "lambda",
            E::Field(..) => "field",
            E::SuperAcc(..) => "super-access",
            E::SuperCall(_) => "super-call",
            E::Index(..) => "index",
            E::Neg(_) => "neg",
            E::Not(_) => "not",
            E::Bin(op, ..) => op,
            E::Is(..) => "is",
            E::NullProp(_) => "?",
            E::ErrProp(_) => "!!",
            E::Asg(op, ..) => op,
            E::If(..) => "if",
            E::Block(_) => "block",
            E::OrErr(..) => "or-else",
            E::Call(..) => "call",
            E::Let(..) => "let",
            E::Fn(_) => "fn",
            E::Op(_) => "op",
            E::Class(_) => "class",
            E::Import(..) => "import",
            E::Export(_) => "export",
            E::Loop(_) => "loop",
            E::While(..) => "while",
            E::For(..) => "for",
            E::Break => "break",
            E::Continue => "continue",
            E::Ret(_) => "return",
        }
    }
}

impl E {
    /// Calls `f` on every direct sub-expression (in source order).
    pub fn each_child_mut(&mut self, f: &mut dyn FnMut(&mut E)) {
        match self {
            E::Null | E::Unit | E::Bool(_) | E::Int(_) | E::Float(_) | E::Str(_) | E::Id(_) => {}
            E::SuperAcc(..) | E::Import(..) | E::Break | E::Continue => {}
            E::List(v) | E::Block(v) | E::SuperCall(v) | E::Loop(v) => v.iter_mut().for_each(|x| f(x)),
            E::Obj(v) => v.iter_mut().for_each(|(_, x)| f(x)),
            E::Lam(_, b) | E::Field(b, _) | E::Neg(b) | E::Not(b) | E::Is(b, _) | E::NullProp(b) | E::ErrProp(b) => f(b),
            E::Let(_, _, b) | E::Export(b) => f(b),
            E::Index(a, b) | E::Bin(_, a, b) | E::Asg(_, a, b) => {
                f(a);
                f(b)
            }
            E::If(c, t, e) => {
                f(c);
                t.iter_mut().for_each(|x| f(x));
                if let Some(e) = e {
                    f(e)
                }
            }
            E::OrErr(a, _, b) | E::While(a, b) | E::For(_, a, b) => {
                f(a);
                b.iter_mut().for_each(|x| f(x))
            }
            E::Call(a, v) => {
                f(a);
                v.iter_mut().for_each(|x| f(x))
            }
            E::Fn(d) => d.body.iter_mut().for_each(|x| f(x)),
            E::Op(d) => d.body.iter_mut().for_each(|x| f(x)),
            E::Class(c) => {
                if let Some(b) = &mut c.base {
                    f(b)
                }
                for i in &mut c.items {
                    match i {
                        Item::Fn(d) => d.body.iter_mut().for_each(|x| f(x)),
                        Item::Op(d) => d.body.iter_mut().for_each(|x| f(x)),
                    }
                }
            }
            E::Ret(r) => {
                if let Some(r) = r {
                    f(r)
                }
            }
        }
    }
    /// Calls `f` on every list of statements inside.
    pub fn each_body(&mut self, f: &mut dyn FnMut(&mut Vec<E>)) {
        match self {
            E::Block(v) | E::Loop(v) | E::If(_, v, _) | E::OrErr(_, _, v) | E::While(_, v) | E::For(_, _, v) => f(v),
            E::Fn(d) => f(&mut d.body),
            E::Op(d) => f(&mut d.body),
            E::Class(c) => {
                for i in &mut c.items {
                    match i {
                        Item::Fn(d) => f(&mut d.body),
                        Item::Op(d) => f(&mut d.body),
                    }
                }
            }
            _ => {}
        }
        self.each_child_mut(&mut |c| c.each_body(f));
    }
    /// Calls `f` on every expression that stands where any expression may.
    pub fn each_operand(&mut self, f: &mut dyn FnMut(&mut E)) {
        match self {
            E::List(v) | E::SuperCall(v) => v.iter_mut().for_each(|x| f(x)),
            E::Obj(v) => v.iter_mut().for_each(|x| f(&mut x.1)),
            E::Call(_, v) => v.iter_mut().for_each(|x| f(x)),
            E::Bin(_, a, b) => {
                f(a);
                f(b)
            }
            E::Neg(a) | E::Not(a) | E::If(a, ..) | E::While(a, _) | E::Asg(_, _, a) | E::Index(_, a) => f(a),
            E::Let(_, _, a) | E::Ret(Some(a)) => f(a),
            E::Lam(_, a) => f(a),
            _ => {}
        }
        self.each_child_mut(&mut |c| c.each_operand(f));
    }
}

/// The constructs directly inside each other, with the place they take: `outer.place>inner`.
pub fn nestings(items: &[E], deep: bool, f: &mut dyn FnMut(String)) {
    fn class_of(e: &E) -> &'static str {
        match e.kind() {
            "*" | "/" | "%" | "+" | "-" => "arith",
            "<" | ">" | "<=" | ">=" => "order",
            "==" | "!=" => "equal",
            ".." | "..=" => "range",
            "*=" | "/=" | "+=" | "-=" => "op-assign",
            k => k,
        }
    }
    fn places<'a>(e: &'a E, f: &mut dyn FnMut(&'static str, &'a E)) {
        fn body<'a>(v: &'a [E], f: &mut dyn FnMut(&'static str, &'a E)) {
            for (i, x) in v.iter().enumerate() {
                f(if i + 1 == v.len() { "last" } else { "statement" }, x);
            }
        }
        match e {
            E::Bin(_, a, b) | E::Index(a, b) => {
                f("left", a);
                f("right", b);
            }
            E::Asg(_, a, b) => {
                match &**a {
                    E::Index(x, y) => {
                        f("target list", x);
                        f("target index", y);
                    }
                    E::Field(x, _) => f("target object", x),
                    x => f("target", x),
                }
                f("value", b);
            }
            E::If(c, t, e) => {
                f("condition", c);
                body(t, f);
                if let Some(e) = e {
                    f("else", e);
                }
            }
            E::While(c, b) | E::For(_, c, b) | E::OrErr(c, _, b) => {
                f("head", c);
                body(b, f);
            }
            E::Loop(b) | E::Block(b) => body(b, f),
            E::Fn(d) => body(&d.body, f),
            E::Op(d) => body(&d.body, f),
            E::Call(a, v) => {
                f("callee", a);
                v.iter().enumerate().for_each(|(i, x)| f(if i == 0 { "first" } else { "rest" }, x));
            }
            E::List(v) | E::SuperCall(v) => v.iter().enumerate().for_each(|(i, x)| f(if i == 0 { "first" } else { "rest" }, x)),
            E::Obj(v) => v.iter().enumerate().for_each(|(i, x)| f(if i == 0 { "first" } else { "rest" }, &x.1)),
            E::Class(c) => {
                if let Some(b) = &c.base {
                    f("base", b);
                }
                for i in &c.items {
                    match i {
                        Item::Fn(d) => {
                            let what = if d.name == "new" {
                                "new"
                            } else if d.params.first().map_or(false, |p| p.name == "self") {
                                "method"
                            } else {
                                "static"
                            };
                            d.body.iter().for_each(|x| f(what, x));
                        }
                        Item::Op(d) => d.body.iter().for_each(|x| f("op", x)),
                    }
                }
            }
            e => e.each_child(&mut |x| f("of", x)),
        }
    }
    fn walk(e: &E, above: &str, deep: bool, f: &mut dyn FnMut(String)) {
        places(e, &mut |p, x| {
            let here = format!("{}.{}", class_of(e), p);
            f(format!("{}>{}", here, class_of(x)));
            if deep && !above.is_empty() {
                f(format!("{}>{}>{}", above, here, class_of(x)));
            }
            walk(x, &here, deep, f);
        });
    }
    for e in items {
        walk(e, "", deep, f);
    }
}
