//! Reads the real syntax tree into the harness's own.
use crate::ast::*;
use dice_core::span::Span;
use dice_syntax::{self as d, SyntaxNode as N, SyntaxNodeId, SyntaxTree};

pub struct Conv<'a> {
    t: &'a SyntaxTree,
    pub leaves: Vec<(usize, usize)>,
    pub bad: Option<String>,
    /// Every span met, for bounds checks.
    pub spans: Vec<(usize, usize)>,
    pub nodes: usize,
    /// Every node with its range, children first.
    pub ranges: Vec<(&'static str, usize, usize)>,
}

pub fn conv(t: &SyntaxTree) -> (Vec<E>, Conv<'_>) {
    let mut c = Conv { t, leaves: vec![], bad: None, spans: vec![], nodes: 0, ranges: vec![] };
    let items = c.seq(t.root());
    (items, c)
}

fn binop(o: &d::BinaryOperator) -> &'static str {
    use d::BinaryOperator::*;
    match o {
        Multiply => "*",
        Divide => "/",
        Remainder => "%",
        Add => "+",
        Subtract => "-",
        GreaterThan => ">",
        LessThan => "<",
        GreaterThanEquals => ">=",
        LessThanEquals => "<=",
        Equals => "==",
        NotEquals => "!=",
        LogicalAnd => "&&",
        LogicalOr => "||",
        RangeInclusive => "..=",
        RangeExclusive => "..",
        Coalesce => "??",
        Pipeline => "|>",
    }
}
fn asgop(o: &d::AssignmentOperator) -> &'static str {
    use d::AssignmentOperator::*;
    match o {
        Assignment => "=",
        MulAssignment => "*=",
        DivAssignment => "/=",
        AddAssignment => "+=",
        SubAssignment => "-=",
    }
}
fn overload(o: &d::OverloadedOperator) -> &'static str {
    use d::OverloadedOperator::*;
    match o {
        Multiply => "*",
        Divide => "/",
        Remainder => "%",
        Add => "+",
        Subtract => "-",
        GreaterThan => ">",
        LessThan => "<",
        GreaterThanEquals => ">=",
        LessThanEquals => "<=",
        Equals => "==",
        NotEquals => "!=",
        RangeInclusive => "..=",
        RangeExclusive => "..",
    }
}

impl<'a> Conv<'a> {
    fn overload(&mut self, o: &d::OverloadedOperator) -> &'static str {
        let s = overload(o);
        if o.to_string() != s {
            self.bad.get_or_insert(format!("the overloaded operator {} is shown as {}", s, o));
        }
        s
    }
    fn leaf(&mut self, s: Span) {
        self.leaves.push((s.start, s.end));
        self.spans.push((s.start, s.end));
    }
    fn ty(&mut self, t: &d::TypeAnnotation) -> Ty {
        self.leaf(t.name.span);
        self.leaf(t.span);
        Ty { name: t.name.identifier.clone(), null: t.is_nullable }
    }
    fn params(&mut self, ps: &[d::FnArg]) -> Vec<Param> {
        ps.iter()
            .map(|p| {
                self.leaf(p.span);
                Param { name: p.name.clone(), ty: p.type_.as_ref().map(|t| self.ty(t)) }
            })
            .collect()
    }
    fn seq(&mut self, id: SyntaxNodeId) -> Vec<E> {
        match self.t.get(id) {
            N::Block(b) => {
                self.nodes += 1;
                self.spans.push((b.span.start, b.span.end));
                if b.trailing_expression.is_none() && !b.expressions.is_empty() {
                    self.bad = Some("a block has expressions but no trailing one".into());
                }
                let mut v: Vec<E> = b.expressions.iter().map(|x| self.node(*x)).collect();
                if let Some(t) = b.trailing_expression {
                    v.push(self.node(t));
                }
                self.ranges.push(("body", b.span.start, b.span.end));
                v
            }
            n => {
                self.bad = Some(format!("expected a block, found {:?}", n));
                vec![]
            }
        }
    }
    fn vec(&mut self, v: &[SyntaxNodeId]) -> Vec<E> {
        v.iter().map(|x| self.node(*x)).collect()
    }
    fn b(&mut self, id: SyntaxNodeId) -> Box<E> {
        Box::new(self.node(id))
    }
    fn fnd(&mut self, f: &d::FnDecl) -> FnD {
        self.leaf(f.name.span);
        let params = self.params(&f.args);
        let ret = f.return_.as_ref().map(|t| self.ty(t));
        FnD { name: f.name.identifier.clone(), params, ret, body: self.seq(f.body) }
    }
    fn opd(&mut self, f: &d::OpDecl) -> OpD {
        let params = self.params(&f.args);
        let ret = f.return_.as_ref().map(|t| self.ty(t));
        OpD { op: self.overload(&f.operator), params, ret, body: self.seq(f.body) }
    }
    /// `x or e { .. }` comes as a block that binds the result to a name no program can write and tests it.
    fn or_err(&mut self, b: &d::Block) -> Option<E> {
        let first = *b.expressions.first()?;
        let (lhs, hidden) = match self.t.get(first) {
            N::VarDecl(v) => match &v.kind {
                d::VarDeclKind::Singular(n) if n.starts_with('#') => (v.expr, n.clone()),
                _ => return None,
            },
            _ => return None,
        };
        if b.expressions.len() != 1 {
            return None;
        }
        let iff = match self.t.get(b.trailing_expression?) {
            N::IfExpression(i) => i,
            _ => return None,
        };
        let is_field = |id: SyntaxNodeId, f: &str| match self.t.get(id) {
            N::FieldAccess(a) => {
                a.field == f && matches!(self.t.get(a.expression), N::LitIdent(i) if i.identifier == hidden)
            }
            _ => false,
        };
        if !is_field(iff.condition, "is_ok") || !is_field(iff.primary, "result") {
            return None;
        }
        let sec = match self.t.get(iff.secondary?) {
            N::Block(s) => s,
            _ => return None,
        };
        let (name, src) = match self.t.get(*sec.expressions.first()?) {
            N::VarDecl(v) => match &v.kind {
                d::VarDeclKind::Singular(n) => (n.clone(), v.expr),
                _ => return None,
            },
            _ => return None,
        };
        if sec.expressions.len() != 1 || !is_field(src, "result") {
            return None;
        }
        let body = sec.trailing_expression?;
        let lhs = self.node(lhs);
        let body = self.seq(body);
        Some(E::OrErr(Box::new(lhs), name, body))
    }
    fn node(&mut self, id: SyntaxNodeId) -> E {
        let n = self.t.get(id);
        self.nodes += 1;
        let sp = n.span();
        self.spans.push((sp.start, sp.end));
        let e = match n {
            N::LitIdent(x) => {
                self.leaf(sp);
                E::Id(x.identifier.clone())
            }
            N::LitNull(_) => {
                self.leaf(sp);
                E::Null
            }
            N::LitUnit(_) => E::Unit,
            N::LitInt(x) => {
                self.leaf(sp);
                E::Int(x.value)
            }
            N::LitFloat(x) => {
                self.leaf(sp);
                E::Float(x.value)
            }
            N::LitString(x) => {
                self.leaf(sp);
                E::Str(x.value.clone())
            }
            N::LitBool(x) => {
                self.leaf(sp);
                E::Bool(x.value)
            }
            N::LitList(x) => E::List(self.vec(&x.items)),
            N::LitObject(x) => E::Obj(x.items.iter().map(|(k, v)| (k.clone(), self.node(*v))).collect()),
            N::LitAnonymousFn(x) => {
                if x.return_.is_some() {
                    self.bad = Some("an anonymous function has a return type".into());
                }
                let ps = self.params(&x.args);
                E::Lam(ps, self.b(x.body))
            }
            N::FieldAccess(x) => E::Field(self.b(x.expression), x.field.clone()),
            N::SuperAccess(x) => E::SuperAcc(x.super_class.clone(), x.field.clone()),
            N::Index(x) => E::Index(self.b(x.expression), self.b(x.index_expression)),
            N::Prefix(x) => match x.operator {
                d::UnaryOperator::Negate => E::Neg(self.b(x.expression)),
                d::UnaryOperator::Not => E::Not(self.b(x.expression)),
            },
            N::Binary(x) => E::Bin(binop(&x.operator), self.b(x.lhs_expression), self.b(x.rhs_expression)),
            N::Is(x) => {
                let v = self.b(x.value);
                E::Is(v, self.ty(&x.type_))
            }
            N::NullPropagate(x) => E::NullProp(self.b(x.expression)),
            N::ErrorPropagate(x) => E::ErrProp(self.b(x.expression)),
            N::Assignment(x) => E::Asg(asgop(&x.operator), self.b(x.lhs_expression), self.b(x.rhs_expression)),
            N::VarDecl(x) => {
                if x.type_.is_some() {
                    self.bad = Some("a variable has a type".into());
                }
                let pat = match &x.kind {
                    d::VarDeclKind::Singular(n) => Pat::One(n.clone()),
                    d::VarDeclKind::Destructured(v) => Pat::Many(v.clone()),
                };
                E::Let(pat, x.is_mutable, self.b(x.expr))
            }
            N::FnDecl(x) => E::Fn(self.fnd(x)),
            N::OpDecl(x) => E::Op(self.opd(x)),
            N::ClassDecl(x) => {
                self.leaf(x.name.span);
                let base = x.base.map(|b| self.b(b));
                let items = x
                    .associated_items
                    .iter()
                    .filter_map(|i| match self.t.get(*i) {
                        N::FnDecl(f) => {
                            let i = Item::Fn(self.fnd(f));
                            self.ranges.push(("fn", f.span.start, f.span.end));
                            Some(i)
                        }
                        N::OpDecl(o) => {
                            let i = Item::Op(self.opd(o));
                            self.ranges.push(("op", o.span.start, o.span.end));
                            Some(i)
                        }
                        n => {
                            self.bad = Some(format!("a class contains {:?}", n));
                            None
                        }
                    })
                    .collect();
                E::Class(ClassD { name: x.name.identifier.clone(), base, items })
            }
            N::ImportDecl(x) => E::Import(x.module_import.clone(), x.item_imports.clone(), x.relative_path.clone()),
            N::ExportDecl(x) => E::Export(self.b(x.export)),
            N::IfExpression(x) => {
                let c = self.b(x.condition);
                let a = self.seq(x.primary);
                E::If(c, a, x.secondary.map(|s| self.b(s)))
            }
            N::Loop(x) => E::Loop(self.seq(x.body)),
            N::WhileLoop(x) => E::While(self.b(x.condition), self.seq(x.body)),
            N::ForLoop(x) => E::For(x.variable.clone(), self.b(x.source), self.seq(x.body)),
            N::Block(b) => match self.or_err(b) {
                Some(e) => e,
                None => E::Block(self.seq(id)),
            },
            N::Break(_) => E::Break,
            N::Continue(_) => E::Continue,
            N::Return(x) => E::Ret(x.result.map(|r| self.b(r))),
            N::FnCall(x) => E::Call(self.b(x.target), self.vec(&x.args)),
            N::SuperCall(x) => E::SuperCall(self.vec(&x.args)),
        };
        self.ranges.push((e.kind(), sp.start, sp.end));
        e
    }
}
