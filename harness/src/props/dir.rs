//! Programs made by crossing small lists: every construct in every context, for the semantic properties.
use std::sync::OnceLock;

type Progs = OnceLock<Vec<String>>;
macro_rules! directed {
    ($name:ident, $make:expr) => {
        pub fn $name() -> &'static [String] {
            static P: Progs = OnceLock::new();
            P.get_or_init($make)
        }
    };
}
fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
fn fill(t: &str, hole: &str) -> String {
    t.replace('@', hole)
}

/// Expressions with a half-evaluated rest around the hole. The hole may leave.
const AROUND: &[&str] = &[
    "@",
    "t(@)",
    "t([t(1), @, t(2)])",
    "t(t(1) + @)",
    "t(@ + t(1))",
    "t(t(1) + t(2) * @)",
    "t(#{ a: t(1), b: @, c: t(2) })",
    "t(t(true) && @)",
    "t(t(false) || @)",
    "t(t(null) ?? @)",
    "t(@ ?? t(4))",
    "t(t(1) == @)",
    "t(t(1) < @)",
    "t([t(1), [t(2), t(3) + @]])",
    "t(f3(t(1), @, t(2)))",
    "t(o.m(t(1), @))",
    "t(o.a.m(@, t(2)))",
    "t([t(5), t(6)][@])",
    "t([@, t(7)][t(1)])",
    "t(@ |> f1)",
    "t(t(1) |> f3(t(2), @, t(3)))",
    "t(-@)",
    "t(!@)",
    "let x = @ t(x)",
    "let mut x = 1 x = @ t(x)",
    "let mut x = t(1) x += @ t(x)",
    "o.a = @ t(o)",
    "o.n += @ t(o)",
    "l[t(0)] = @ t(l)",
    "l[@] = t(9) t(l)",
    "l[t(1)] -= @ t(l)",
    "let { p, q } = @ t(p) t(q)",
    "if @ { t(1) } else { t(2) }",
    "t(if t(true) { t(1) @ } else { t(3) })",
    "t(if t(false) { t(1) } else if t(true) { @ } else { t(3) })",
    "t([t(1), { let y = t(2) @ }, t(3)])",
    "t([t(1), { let y = t(2) let k = || y t(k()) @ }, t(3)])",
    "t(Ok(t(1)) or e { t(2) } + @)",
    "t(Err(t(1)) or e { t(e) @ })",
    "t([t(8), Err(t(1)) or e { let k = || e t(k()) @ }])",
    "t(null?(@))",
    "t([t(1), f1?(@)])",
    "t(o?.a?.m(t(1), @))",
    "t(@ is Int)",
    "t([t(1), @ is Int?])",
    "t(t(1)..@)",
    "t(@..=t(1))",
    "t((|z| { t(z) })(@))",
    "for i in t(0)..@ { t(i) }",
    "for i in @..t(2) { t(i) }",
    "for i in [t(1), @, t(2)] { t(i) }",
    "for i in @ { t(i) }",
    "let mut n = 0 while n < 2 { n += 1 t([n, @]) }",
    "{ { { t(1) @ } t(2) } t(3) }",
];
const HEAD: &str = "fn f1(a) { t([a]) }\nfn f3(a, b, c) { t([a, b, c]) }\nclass M { fn m(self, a, b) { t([a, b]) } }\n\
let o = #{ a: M(), n: 5 }\no.m = |a, b| t([b, a])\nlet l = [t(3), t(4), t(5)]\n";

directed!(k04, || {
    let mut v = vec![];
    // Every operator on every pair of values.
    let vals = [
        "null", "()", "true", "false", "0", "1", "-7", "9223372036854775807", "(-9223372036854775807 - 1)", "2.5", "-0.0", "0.0", "\"a\"", "\"b\"", "[1]", "#{ x: 1 }", "f1", "M", "M()", "P(4)",
    ];
    let ops = ["*", "/", "%", "+", "-", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "??", "|>", "..", "..="];
    let head = format!("{}class P {{ fn new(self, n) {{ self.n = n }} op +(self, x) {{ t([self.n, x]) }} op ==(self, x) {{ t([\"eq\", x]) }} op <(self, x) {{ t([\"lt\", x]) }} }}\n", HEAD);
    for a in vals {
        for b in vals {
            for op in ops {
                v.push(format!("{}t(t({}) {} t({}))", head, a, op, b));
            }
        }
        for op in ["-", "!"] {
            v.push(format!("{}t({}t({}))", head, op, a));
            v.push(format!("{}t({} {}t({}))", head, op, op, a));
        }
        v.push(format!("{}if t({}) {{ t(1) }} else {{ t(2) }}", head, a));
        v.push(format!("{}let mut n = 0 while t({}) {{ n += 1 if n > 3 {{ break }} }}", head, a));
        v.push(format!("{}for i in t({}) {{ t(i) }}", head, a));
        v.push(format!("{}t(t({}).x)", head, a));
        v.push(format!("{}t(t({})[t(0)])", head, a));
        v.push(format!("{}let z = t({}) z.x = t(1) t(z)", head, a));
        v.push(format!("{}let z = t({}) z[t(0)] = t(1) t(z)", head, a));
        v.push(format!("{}t(t({})(t(1)))", head, a));
    }
    // Compound and plain assignment to every kind of target.
    for op in ["=", "+=", "-=", "*=", "/="] {
        for (pre, tgt) in [
            ("let mut x = t(12)", "x"),
            ("let mut x = t(12) let g = || x", "x"),
            ("let x = #{ y: t(12) }", "x.y"),
            ("let x = #{ y: t(12) }", "t(x).y"),
            ("let x = [t(1), t(12), t(5)]", "x[1]"),
            ("let x = [t(1), t(12), t(5)]", "t(x)[t(1)]"),
            ("let x = #{ y: [t(1), #{ z: t(12) }] }", "x.y[t(1)].z"),
            ("let x = #{ y: [t(1), #{ z: t(12) }] } let h = || t(x)", "h().y[t(1)].z"),
            ("let x = P(3) x.q = t(12)", "x.q"),
            ("M.q = t(12) let x = M", "x.q"),
        ] {
            for (r, _) in [("t(4)", 0), ("t(0)", 0), ("t(2.5)", 0), ("{ t(1) t(2) }", 0), ("t(null) ?? t(3)", 0), ("if t(false) { 1 } else { t(6) }", 0)] {
                v.push(format!("{}{}\nlet w = {{ {} {} {} }}\nt(w)\nt(x)", head, pre, tgt, op, r));
                v.push(format!("{}fn run() {{ {}\n{} {} {}\nt(x) x }}\nt(run())", head, pre, tgt, op, r));
                v.push(format!("{}{}\nlet run = || {{ {} {} {} }}\nt(run())\nt(x)\nt(run())\nt(x)", head, pre, tgt, op, r));
            }
        }
    }
    // Three operands: order and grouping as evaluated.
    for a in ops {
        for b in ops {
            v.push(format!("{}t(t(f1) {} t(2) {} t(3))", head, a, b));
            v.push(format!("{}t(t(4) {} t(2) {} t(f1))", head, a, b));
            v.push(format!("{}t(t(true) {} t(false) {} t(true))", head, a, b));
            v.push(format!("{}t(t(null) {} (t(2) {} t(f1)))", head, a, b));
        }
    }
    for a in AROUND {
        for h in ["t(1)", "t(true)", "t(null)", "t([t(1), t(2)])", "{ t(1) t(0) }", "f1(t(1))", "(|x| t(x))(t(0))"] {
            v.push(format!("{}{}", HEAD, fill(a, h)));
            v.push(format!("{}fn run(u) {{ {} }} t(run(1))", HEAD, fill(a, h)));
        }
    }
    v
});

directed!(k06, || {
    let mut v = vec![];
    let loops = [
        "let mut i = 0 while i < 4 { i += 1 @ }",
        "let mut i = 0 while t(i < 4) { let j = i i += 1 @ t(j) }",
        "let mut i = 0 loop { i += 1 if i > 4 { break } @ }",
        "let mut i = 0 loop { i += 1 if i > 4 { break } let j = i let g = || j t(g()) @ }",
        "for i in 0..4 { @ }",
        "for i in 1..=4 { let j = i @ t(j) }",
        "for i in [1, 2, 3, 4] { @ }",
        "for i in [1, 2, 3] { let j = i * 2 let g = || [i, j] t(g()) @ }",
        "for i in It(4) { @ }",
        "for i in 0..3 { for j in [1, 2, 3] { t([i, j]) @ } t(i) }",
        "for k in [1, 2] { let mut i = 0 while i < 3 { i += 1 @ } t(k) }",
        "let mut i = 0 while { t(i) i < 4 } { i += 1 if i == 3 { @ } else { t(-i) } }",
        "let mut i = 0 loop { i += 1 if i > 3 { break } loop { t(i) @ break } t(i) }",
    ];
    let exits = ["break", "continue", "return t(7)", "return", "{ if i == 2 { break } t(i) }", "{ if i == 2 { continue } t(i) }", "{ if i == 2 { return t(i) } t(i) }", "Err(i)!!", "(if i == 3 { Err(i) } else { Ok(i) })!!", "t(i)"];
    let head = format!("{}class It {{ fn new(self, n) {{ self.n = n }} fn iter(self) {{ let mut c = 0 let n = self.n #{{ next: || {{ c += 1 t(c) if c > n {{ #{{ is_done: true }} }} else {{ #{{ is_done: false, value: c * 10 }} }} }} }} }} }}\n", HEAD);
    for l in loops {
        for x in exits {
            for (k, a) in AROUND.iter().enumerate() {
                // A loop in the context would catch the exit; that is a case too.
                let wrapped = format!("{{ {} }}", x);
                let bare = x.starts_with('{') || x.ends_with("!!") || !["break", "continue", "return"].iter().any(|k| x.contains(k));
                let body = fill(a, if *a == "@" || bare { x } else { &wrapped });
                v.push(format!("{}fn run(u) {{ let before = t(u) {} t(before) t(\"after\") u }} t(run(5))", head, fill(l, &body)));
                if k % 7 == 0 && !x.contains("return") && !x.contains("!!") {
                    v.push(format!("{}let before = t(1) {} t(before) t(\"after\")", head, fill(l, &body)));
                }
            }
        }
    }
    // Values of blocks, conditionals and loops.
    for b in [
        "{ }", "{ t(1) }", "{ t(1) t(2) }", "{ let a = t(1) }", "{ let a = t(1) a }", "{ fn a() { 1 } }", "{ class A { } }", "{ while false { } }", "{ t(1) for i in 0..2 { t(i) } }", "{ let mut a = 1 a = 2 }", "{ let mut a = 1 a += 2 }",
        "if t(true) { t(1) }", "if t(false) { t(1) }", "if t(true) { }", "if t(false) { 1 } else { }", "if t(false) { 1 } else if t(false) { 2 }", "if t(false) { 1 } else if t(true) { 2 } else { 3 }", "if t(false) { 1 } else if t(false) { 2 } else { t(3) }",
        "{ { { t(4) } } }", "{ { } }", "loop { break }", "{ loop { t(1) break } }", "{ if t(true) { let a = 1 } else { 2 } }", "{ let { x } = #{ x: 5 } }", "{ op %(a, b) { a } }", "{ null }", "{ () }",
        "{ let z = || { } z() }", "{ let z = || { let a = 5 } z() }", "{ fn z() { } z() }", "{ fn z() { return } z() }", "{ fn z() { return 4 } z() }", "{ fn z() { if t(true) { return 4 } 5 } z() }", "{ fn z() { { { return 4 } } 5 } z() }", "{ fn z() { t(1) return t(2) t(3) } z() }",
        "{ t(1) return 5 }", "{ class A { fn new(self) { return } } A() }", "{ class A { fn new(self) { self.a = 1 if t(true) { return } self.b = 2 } } A() }",
    ] {
        v.push(format!("fn run() {{ t([t(0), {}, t(9)]) }} t(run())", b));
        v.push(format!("fn run() {{ {} }} t(run())", b));
        v.push(format!("let run = || {} t(run())", b));
        v.push(format!("fn run() {{ let q = {} t(q) }} t(run())", b));
        v.push(format!("fn run() {{ for i in 0..3 {{ let w = i t({}) t(w) }} }} t(run())", b));
        v.push(format!("fn run() {{ t(if t(true) {{ {} }} else {{ 1 }}) }} t(run())", b));
        if !b.contains("return 5") {
            v.push(format!("t(0) {}", b));
            v.push(format!("t({})", b));
            v.push(format!("t([{}, {}])", b, b));
        }
    }
    // Ranges of every shape.
    for (a, b) in [(0, 0), (0, 1), (1, 0), (-2, 2), (3, 3), (5, -5), (-3, -1)] {
        for op in ["..", "..="] {
            v.push(format!("for i in t({}){}t({}) {{ t(i) }}", a, op, b));
            v.push(format!("let r = t({}){}t({}) for i in r {{ t(i) }} for i in r {{ t(i) break }}", a, op, b));
            v.push(format!("let mut s = [] for i in {}{}{} {{ s.push(|| i) }} for g in s {{ t(g()) }}", a, op, b));
            v.push(format!("let mut hi = {} for i in {}{}hi {{ hi -= 1 t([i, hi]) }}", b, a, op));
        }
    }
    v
});

directed!(k05, || {
    let mut v = vec![];
    // Three nested declarations of one or two names, by every pair of constructs.
    let decl = [
        ("let x = t(@)", ""),
        ("let mut x = t(@) x += 100", ""),
        ("let { x } = #{ x: t(@), y: 4 }", ""),
        ("let { y, x } = #{ x: t(@), y: 4 }", ""),
        ("fn x() { @ }", "()"),
        ("class x { fn v(self) { @ } }", "().v()"),
    ];
    let open = [
        ("{", "}"),
        ("if t(true) {", "}"),
        ("if t(false) { let x = 1 } else {", "}"),
        ("for z in 0..2 {", "}"),
        ("for z in [1, 2] {", "}"),
        ("let mut n = 0 while n < 2 { n += 1", "}"),
        ("let mut n = 0 loop { n += 1 if n > 2 { break }", "}"),
        ("let g = || {", "} t(g())"),
        ("fn h(z) {", "} t(h(1))"),
        ("t(Err(1) or x { t(x)", "})"),
        ("t({", "})"),
    ];
    for (d1, u1) in decl {
        for (d2, u2) in decl {
            for (o, c) in open {
                v.push(format!(
                    "let a = t(1)\n{}\nt(x{})\n{} let b = t(2) t(x{}) {} t(x{}) let c = t(3) t([a, b, c]) {}\nt(x{})\nlet d = t(4) t([a, d])",
                    fill(d1, "11"), u1, o, u1, fill(d2, "22"), u2, c, u1
                ));
                v.push(format!("fn run(x, y) {{ t(x) {} let b = t(2) {} t(x{}) t(b) {} t([x, y]) }} t(run(8, 9))", o, fill(d2, "22"), u2, c));
            }
        }
    }
    // Shadowing in one scope, loop variables, parameters.
    v.extend(strs(&[
        "let x = 1 let x = x + 1 let x = x + 1 t(x)",
        "let x = 1 let g = || x let x = 2 t(g()) t(x)",
        "let mut x = 1 let g = || { x += 1 x } let mut x = 10 t(g()) x += 1 t(x) t(g())",
        "for x in 0..2 { t(x) for x in 5..7 { t(x) } t(x) }",
        "for x in [1, 2] { let x = x + 1 t(x) }",
        "let x = 3 for x in 0..x { t(x) } t(x)",
        "let x = [1, 2] for x in x { t(x) } t(x)",
        "fn f(x) { let x = x + 1 t(x) x } t(f(1))",
        "fn f(x) { { let x = x + 1 t(x) } x } t(f(1))",
        "let f = |x| { let x = x + 1 t(x) x } t(f(1))",
        "let f = |x| |x| t(x) t(f(1)(2))",
        "let x = 1 { let y = 2 { let z = 3 t([x, y, z]) } { let z = 4 let w = 5 t([x, y, z, w]) } let q = 6 t([x, y, q]) } let r = 7 t([x, r])",
        "{ let a = 1 let b = 2 } { let c = 3 t(c) let d = 4 t([c, d]) } let e = 5 t(e)",
        "let a = { let b = 1 let c = 2 b + c } let d = 3 t([a, d])",
        "let a = t(1) + { let b = t(2) let c = t(3) b * c } t(a)",
        "t([{ let a = 1 a }, { let b = 2 b }, { let c = 3 let d = 4 c + d }])",
        "fn a() { b() } fn b() { 5 } t(a())",
        "{ fn even(n) { if n == 0 { true } else { odd(n - 1) } } fn odd(n) { if n == 0 { false } else { even(n - 1) } } t(even(6)) t(odd(6)) }",
        "class A { fn m(self) { B().n() } } class B { fn n(self) { 4 } } t(A().m())",
        "class A { fn m(self) { f() } } fn f() { A } t(A().m())",
        "fn f() { g() } let y = 3 fn g() { y } t(f())",
        "let y = 3 { fn f() { g() } let y = 4 fn g() { y } t(f()) } t(y)",
        "let mut x = 1 { x = 2 let x = 3 t(x) } t(x)",
        "let mut x = 1 { x += 2 let mut x = 3 x += 1 t(x) } t(x)",
        "fn f(a, b, c) { let d = 4 { let e = 5 { let g = 6 t([a, b, c, d, e, g]) } let h = 7 t([a, b, c, d, e, h]) } t([a, b, c, d]) } f(1, 2, 3)",
        "let t2 = t let t = 5 t2(t)",
        "{ let t = 4 let u = t } t(1)",
        "let Int = 5 t(Int) t(1 is Float)",
        "class Int { } t(1 is Int) { t(Int() is Int) }",
        "fn t2(x) { t(x) } t2(nothing)",
        "t(1) nothing t(2)",
        "let a = 1 let b = 2 let g = || { let c = 3 { let d = 4 let k = || [a, b, c, d] t(k()) } let e = 5 let k = || [a, b, c, e] t(k()) } g()",
        "class A { fn new(self, x) { self.x = x let x = 9 self.y = x } } t(A(1))",
        "class A { fn m(self, self2) { [self2, self.v] } } let a = A() a.v = 1 t(a.m(2))",
        "let self2 = 1 class A { fn s() { self2 } } t(A.s())",
        "let { a } = #{ a: 1 } let { a, b } = #{ a: a + 1, b: a } t([a, b])",
        "let { a, b, c } = #{ c: t(1), b: t(2), a: t(3) } t([a, b, c])",
        "let mut { a, b } = #{ a: 1, b: 2 } a += b b += a t([a, b])",
        "let { a, z } = #{ a: 1 } t([a, z])",
        "for i in 0..2 { let { a } = #{ a: i } let b = a * 2 t([a, b]) }",
        "let x = if t(true) { let x = 1 x } else { let x = 2 x } t(x)",
        "fn f() { let x = 1 fn g() { let y = 2 fn h() { let z = 3 [x, y, z] } h() } g() } t(f())",
        "fn f(n) { if n == 0 { return [] } let a = n let r = f(n - 1) r.push(a) r } t(f(4))",
        "let f = |n| { let m = n * 2 let g = || { let m = m + 1 m } [g(), m] } t(f(1)) t(f(5))",
    ]));
    v
});

directed!(k07, || {
    let mut v = vec![];
    let scopes = [
        ("for i in 0..3 { @ }", true),
        ("for i in [10, 20] { @ }", true),
        ("let mut n = 0 while n < 3 { let i = n n += 1 @ }", true),
        ("let mut n = 0 loop { let i = n n += 1 if n > 3 { break } @ }", true),
        ("{ let i = 5 @ }", false),
        ("if t(true) { let i = 5 @ }", false),
        ("if t(false) { } else { let i = 5 @ }", false),
        ("fn g(i) { @ } g(1) g(2)", false),
        ("let g = |i| { @ } g(1) g(2)", false),
        ("class A { fn new(self, i) { @ } fn m(self, i) { @ } } A(1).m(2)", false),
        ("class A { fn s(i) { @ } op +(self, i) { @ } } A.s(1) A() + 2", false),
        ("t(Err(4) or i { @ 1 })", false),
        ("for k in 0..2 { for i in 5..7 { @ } }", true),
        ("let { i } = #{ i: 3 } @", false),
        ("fn g(k) { if k > 0 { let i = k @ g(k - 1) } } g(2)", false),
    ];
    let bodies = [
        "out.push(|| i)",
        "let mut j = i out.push(|| { j += 1 j }) out.push(|| j)",
        "let mut j = i out.push(|| { j += 1 j }) j = 50 out.push(|| j)",
        "let mut j = i out.push(|| j) j += 1",
        "let mut j = i out.push(|| j) { j += 10 }",
        "let mut j = i let k = || { j += 1 j } t(k()) out.push(k) j += 5 t(k())",
        "let mut j = i out.push(|| (|| { j += 1 return [i, j] })()) j += 3",
        "let mut j = i out.push(|| { let k = || { j += 1 return [i, j] } k() k })",
        "fn k() { i } out.push(k)",
        "fn k() { [i, m2()] } fn m2() { i + 1 } out.push(k)",
        "let mut a = i let mut b = i + 1 let mut c = i + 2 out.push(|| { b += 1 return [b] }) out.push(|| [a, c]) c += 10 a += 20",
        "class K { fn m(self) { i } } out.push(|| K().m())",
        "class K { fn m(self) { || [i, self is K] } } out.push(K().m())",
        "let j = [i] out.push(|| { j.push(i) j })",
        "let mut j = 0 for q in 0..2 { out.push(|| { j += q return [i, j, q] }) }",
        "let mut j = i { let mut j2 = j out.push(|| { j2 += 1 j += 1 return [j, j2] }) } out.push(|| j)",
    ];
    let leave = ["", "if t(true) { break }", "if t(i) > 0 { continue }", "if t(true) { return 1 }", "Err(3)!!", "t([1, t(2) + { break }])", "t([1, { let z = i out.push(|| z) continue }])", "t([1, { let z = i out.push(|| z) return 5 }])"];
    for (s, looping) in scopes {
        for b in bodies {
            for l in leave {
                if !looping && (l.contains("break") || l.contains("continue")) {
                    continue;
                }
                if s.contains("fn new") && (l.contains("return 1") || l.contains("return 5") || l.contains("!!")) {
                    continue;
                }
                v.push(format!(
                    "let out = []\nfn run() {{ let w = t(1) {} let w2 = t(2) t([w, w2]) }}\nt(run())\nlet x1 = 77 let x2 = 78\nfor f in out {{ t(f()) }} for f in out {{ t(f()) }} t([x1, x2])",
                    fill(s, &format!("{} {}", b, l))
                ));
                if !l.contains("return") && !l.contains("!!") {
                    v.push(format!("let out = []\nlet w = t(1) {} let w2 = t(2) t([w, w2])\nlet x1 = 77 let x2 = 78\nfor f in out {{ t(f()) }} for f in out {{ t(f()) }} t([x1, x2])", fill(s, &format!("{} {}", b, l))));
                }
            }
        }
    }
    v.extend(strs(&[
        "fn counter() { let mut n = 0 #{ up: || { n += 1 n }, down: || { n -= 1 n }, get: || n } } let a = counter() let b = counter() t(a.up()) t(a.up()) t(b.down()) t(a.get()) t(b.get())",
        "fn f() { let mut x = 1 fn g() { fn h() { fn k() { x += 1 x } k } h } let k = g()() k() t(x) k } let k = f() t(k()) t(k())",
        "let mut x = 1 let g = || { let h = || { x += 1 let i = || { x *= 2 x } i } h } let i = g()() t(x) t(i()) x = 100 t(i()) t(x)",
        "fn compose(f, g) { |x| f(g(x)) } let add = |n| |x| x + n t(compose(add(1), add(10))(100))",
        "fn make(n) { let fs = [] for i in 0..n { let j = i * i fs.push(|d| { j + d }) } fs } for f in make(4) { t(f(1)) }",
        "fn f(a, b) { let g = |c| { a += c b += a return [a, b] } g }",
        "fn fib() { let mut a = 0 let mut b = 1 || { let r = a let c = a + b a = b b = c r } } let n = fib() for i in 0..10 { t(n()) }",
        "let mut log = [] let mut depth = 0 fn enter(f) { depth += 1 log.push(depth) let r = f() depth -= 1 r } t(enter(|| enter(|| enter(|| depth)))) t(depth) t(log)",
        "class C { fn new(self) { let mut n = 0 self.inc = || { n += 1 return [n, self is C] } } fn both(self) { [|| self.v, |x| { self.v = x }] } } let c = C() t(c.inc()) t(c.inc()) let d = C() t(d.inc()) let p = c.both() p[1](5) t(p[0]()) t(c.v)",
        "fn f(x) { let g = || x let x = 5 let h = || x [g(), h()] } t(f(1))",
        "let fs = [] let mut i = 0 while i < 3 { fs.push(|| i) i += 1 } for f in fs { t(f()) }",
        "let fs = [] for i in 0..3 { let mut k = i fs.push(|| { k += 10 k }) fs.push(|| k) k += 1 } for f in fs { t(f()) } for f in fs { t(f()) }",
        "fn f(n) { let me = n let r = if n > 0 { f(n - 1) } else { [] } r.push(|| me) r } for g in f(3) { t(g()) }",
        "fn outer() { let mut a = 1 let mut b = 2 let f = || { a += 1 a } let g = || { b += 1 b } let h = || [f(), g(), a, b] h } let h = outer() t(h()) t(h())",
    ]));
    v
});

directed!(k08, || {
    let mut v = vec![];
    // Hierarchies of one to four levels where each level may or may not define each member.
    for mask in 0u32..256 {
        let mut s = String::new();
        let names = ["A", "B", "C", "D"];
        for (i, n) in names.iter().enumerate() {
            let has_m = mask >> (2 * (i % 4)) & 1 == 1;
            let has_n = mask >> (2 * (i % 4) + 1) & 1 == 1;
            let base = if i > 0 { format!(" : {}", names[i - 1]) } else { String::new() };
            let ctor = if has_n {
                if i == 0 {
                    format!("fn new(self, x) {{ t(\"new {}\") self.{} = x }}", n, n.to_lowercase())
                } else {
                    format!("fn new(self, x) {{ super(x) t(\"new {}\") self.{} = x }}", n, n.to_lowercase())
                }
            } else {
                String::new()
            };
            let m = if has_m {
                if i == 0 {
                    format!("fn m(self, x) {{ t(\"m {}\") x }} fn s(x) {{ [\"s {}\", x] }} op +(self, x) {{ [\"+ {}\", x] }}", n, n, n)
                } else {
                    format!(
                        "fn m(self, x) {{ t(\"m {}\") t([super.m?(x), super[A].m?(x)]) }} fn s(x) {{ [\"s {}\", x] }} op +(self, x) {{ t(\"+ {}\") x }}",
                        n, n, n
                    )
                }
            } else {
                String::new()
            };
            s.push_str(&format!("class {}{} {{ {} {} }}\n", n, base, ctor, m));
        }
        for n in names {
            v.push(format!("{}let o = {}(t(7)) t(o) t(o.m?(t(1))) t({}.s) t({}.s?(2)) t(o + t(3))", s, n, n, n));
            v.push(format!("{}let o = {}(7) t(o is A) t(o is B) t(o is C) t(o is D) t(o is Any) let m = o.m t(m?(5)) o.m = |x| t([\"own\", x]) t(o.m(6))", s, n));
        }
    }
    let ops = ["*", "/", "%", "+", "-", "<", "<=", ">", ">=", "==", "!=", "..", "..="];
    for a in ops {
        for b in ops {
            v.push(format!("class A {{ fn new(self, n) {{ self.n = n }} op {}(self, x) {{ t([self.n, x]) }} op {}(self, x) {{ t([\"second\", self.n, x]) }} }} t(A(1) {} t(2)) t(A(3) {} A(4))", a, if a == b { continue } else { b }, a, b));
            v.push(format!("class A {{ op {}(self, x) {{ t([\"mine\", x]) }} }} class B {{ }} t(A() {} t(2)) t(B() {} t(2))", a, a, b));
        }
        let g = if a == ".." || a == "..=" { continue } else { a };
        v.push(format!("op {}(a, b) {{ t([\"global\", a, b]) }} class A {{ op {}(self, x) {{ t([\"mine\", x]) }} }} t(A() {} t(2)) t(#{{ x: 1 }} {} t(2)) t(t(1) {} t(2))", g, g, g, g, g));
        v.push(format!("op {}(a, b) {{ t([\"global\", a, b]) }} op {}(a, b) {{ 2 }}", g, g));
        v.push(format!("class A {{ op {}(self, x) {{ t([\"A\", x]) }} }} class B : A {{ op {}(self, x) {{ t([\"B\", x]) super.nothing }} }} class C : B {{ }} t(C() {} 1) t(B() {} 2) t(A() {} 3) t(1 {} A())", g, g, g, g, g, g));
        v.push(format!("class A {{ op {}(self, x) {{ self.k = x self }} }} let mut a = A() let b = a {} 5 t(b.k) t(a.k)", g, g));
    }
    // Every access inside a derived class, by every route.
    for acc in ["self.m(1)", "super.m(1)", "super[A].m(1)", "super[B].m(1)", "super.nothing", "super[A].m", "(|| super.m(1))()", "(|| self.m(1))()", "(|| (|| super[A].m(t(2)))())()", "self.only(1)", "C.s(1)", "self.s", "super.s", "{ let k = super.m k(4) }", "{ let k = self.m k(4) }", "[super.m(1), super[A].m(2), self.m(3)]", "{ fn inner(x) { super.m(x) } inner(5) }", "super.m({ t(1) super.m(2) })", "super?.m(1)", "super.none?.m(1)"] {
        for (kind, usage) in [
            ("fn go(self) { t(@) }", "C(0).go()"),
            ("fn go(self) { if t(true) { for i in 0..2 { t(@) } } }", "C(0).go()"),
            ("op +(self, x) { t(@) }", "C(0) + 1"),
            ("fn go(self, a, b) { let c = t(a) t(@) t([a, b, c]) }", "C(0).go(1, 2)"),
        ] {
            v.push(format!(
                "class A {{ fn new(self, x) {{ self.x = x t([\"A\", x]) }} fn m(self, x) {{ t([\"A.m\", self.x, x]) }} fn only(self, x) {{ t([\"only\", x]) }} fn s(x) {{ t([\"A.s\", x]) }} }}\n\
                 class B : A {{ fn new(self, x) {{ super(x + 1) self.y = x }} fn m(self, x) {{ t([\"B.m\", self.x, self.y, x]) }} }}\n\
                 class C : B {{ fn new(self, x) {{ super(x + 10) self.z = x }} fn m(self, x) {{ t([\"C.m\", self.z, x]) }} {} }}\n t({})",
                fill(kind, acc), usage
            ));
        }
        v.push(format!(
            "class A {{ fn new(self, x) {{ self.x = x }} fn m(self, x) {{ t([\"A.m\", self.x, x]) }} fn s(x) {{ x }} fn only(self, x) {{ x }} }}\nclass B : A {{ fn new(self, x) {{ super(x + 1) }} fn m(self, x) {{ t([\"B.m\", self.x, x]) }} }}\n\
             class C : B {{ fn new(self, x) {{ super(x + 10) t({}) self.z = x }} fn m(self, x) {{ t([\"C.m\", self.z, x]) }} }}\n t(C(1))", acc
        ));
    }
    v.extend(strs(&[
        "class A { } let a = A() t(a) a.x = 1 t(a) let b = A() t(b)",
        "class A { fn new(self) { } } t(A())",
        "class A { fn new(self, a, b, c) { self.l = [a, b, c] self.n = self.l.length() } } t(A(1, 2, 3)) t(A(1, 2, 3).n)",
        "class A { fn new(self) { self.f = || self.x self.x = 4 } } let a = A() t(a.f()) a.x = 5 t(a.f())",
        "class A { fn m(self) { || self } } let a = A() let b = A() a.n = 1 b.n = 2 let f = a.m() let g = b.m() t(f().n) t(g().n)",
        "class A { fn set(self, v) { self.v = v self } fn get(self) { self.v } } t(A().set(1).set(2).get())",
        "class A { fn s() { 5 } fn r() { A } } t(A.s()) t(A.r()()) let a = A() t(a.s)",
        "class A { } A.v = 1 class B : A { } t(B.v) B.v = 2 t(A.v) t(B.v)",
        "class A { fn m(self) { 1 } } let m = A().m t(m()) class B : A { fn m(self) { super.m() + 1 } } class C : B { fn m(self) { super.m() * 10 } } t(C().m())",
        "class A { fn a(self) { self.b() } fn b(self) { \"A.b\" } } class B : A { fn b(self) { [\"B.b\", super.b()] } } t(A().a()) t(B().a())",
        "class A : Any { } t(A()) class B : Object { }",
        "class A : Int { }",
        "let x = 5 class A : x { }",
        "class A { fn new(self, x) { self.x = x } } class B : A { } t(B(1))",
        "class A { fn new(self) { self.x = 1 } } class B : A { } t(B())",
        "class A { } class B : A { fn new(self) { super() self.x = 1 } } t(B())",
        "let base = #{ k: null } class A { fn m(self) { 1 } } base.k = A class B : A { } t(B().m())",
        "fn mk(n) { class K { fn v(self) { n } fn s() { n * 2 } } K } let a = mk(1) let b = mk(2) t(a().v()) t(b().v()) t(a.s()) t(b.s()) t(a() is Any)",
        "fn mk(base) { class K : base { fn v(self) { [1, super.v()] } } K } class Z { fn v(self) { 0 } } t(mk(mk(Z))().v())",
        "for i in 0..3 { class K { fn v(self) { i } } t(K().v()) }",
        "class A { fn new(self) { fn helper(o) { o.x = 3 } helper(self) } } t(A().x)",
        "class A { fn new(self) { self.add(1) self.add(2) } fn add(self, x) { if self.l == null { self.l = [] } self.l.push(x) } } t(A().l)",
        "class A { op +(self, o) { A2(self.v + o.v) } } fn A2(v) { let a = A() a.v = v a } t((A2(1) + A2(2) + A2(3)).v)",
        "class A { op ==(self, o) { true } op !=(self, o) { true } } t(A() == 1) t(A() != 1) t(A() == null) t(A() != null) t(null == A())",
        "class A { op <(self, o) { 5 } } t(A() < 3) if A() < 3 { t(1) }",
        "class V { fn new(self, x) { self.x = x } op +(self, o) { V(self.x + o.x) } op -(self, o) { V(self.x - o.x) } op *(self, k) { V(self.x * k) } } t(V(1) + V(2) * 3 - V(4))",
        "class V { fn new(self, x) { self.x = x } op +(self, o) { V(self.x + o) } } let mut v = V(1) v += 5 t(v) let w = #{ v: v } w.v += 6 t(w) let l = [v] l[0] += 7 t(l) t(v)",
        "class R { op ..(self, e) { t([\"range\", e]) [1, 2] } } for i in (R()..5) { t(i) } t(R()..4)",
        "class A { fn iter(self) { let mut n = 0 #{ next: || { n += 1 #{ is_done: n > 3, value: n } } } } } for i in A() { t(i) } for i in A() { for j in A() { t([i, j]) } }",
        "class A { fn m(self) { 1 } fn m(self) { 2 } } t(A().m())",
        "class A { fn m(self) { 1 } fn m() { 2 } } t(A().m()) t(A.m())",
        "class A { fn new(self) { self.a = 1 return } } t(A())",
        "class A { fn new(self, x) { if x { return } self.a = 1 } } t(A(true)) t(A(false))",
        "class A { fn new(self, x) { for i in 0..3 { if i == x { return } self.a = i } } } t(A(2)) t(A(9))",
        "class A { fn new(self, x) { let y = [x, { if x > 1 { return } x }] self.a = y } } t(A(2)) t(A(1))",
        "class A { fn new(self, x) { let y = x self.f = || y } } class B : A { fn new(self, x) { super(x * 2) let y = x self.g = || y } } let b = B(4) t(b.f()) t(b.g())",
        "class A { fn new(self, x) { self.x = x } } class B : A { fn new(self, x) { super({ let y = x + 1 t(y) }) self.y = x } } t(B(1))",
        "class A { fn new(self, x, y) { self.x = [x, y] } } class B : A { fn new(self) { super(t(1), t(2)) t(self.x) } } t(B())",
        "class A { fn m(self, ) { 3 } } t(A().m())",
    ]));
    v
});

directed!(k09, || {
    let mut v = vec![];
    let chains = [
        "n?.a", "n?.a.b", "n?.a.b(t(1))", "n?.m(t(1))", "n?(t(1))", "n?[t(0)]", "n?.a[t(0)](t(1))", "o?.a", "o?.n", "o?.n?.b", "o.n?.b.c(t(1))", "o.a?.b", "o.m(t(1))?.x", "o.z(t(1))?.x", "o.m(n?.q)", "o.m(n?.q(t(1)))", "o.m(t(1), n?.b)?.c", "n?.m(o.m(t(1)))", "n?.m(n?.m(t(2)))", "o?.l[t(0)]", "o.l?[t(1)]", "o.l[t(5)]?.z", "o.l[n?.k ?? t(1)]", "o.l[n?.k ?? t(1)]?.z", "n?.a?.b?.c", "(n?.a).b", "(n?.a)?.b", "(n?.a) ?? t(3)", "n?.a ?? n?.b ?? t(4)", "o?.a ?? t(4)", "f(t(1))?.x", "f?(t(1))", "f?(n?.y)", "nf?(t(1))", "t(n)?.a(t(2))", "t(o)?.m(t(2))", "o.self2?.self2?.a", "o.self2?.n?.self2.a", "o.m?(t(1))", "o.z?(t(1))", "o?.m(t(1))", "[n?.a, o?.a]", "n?.a == null", "n?.a + t(1)", "t(1) + o?.a", "-o?.a", "!n?.a", "n?.a |> f", "t(1) |> n?.f", "t(1) |> o?.m", "#{ k: n?.a(t(1)), j: o?.a }", "f(n?.a(t(9)))", "f(o.n?.a(t(9)), t(1))", "o.l.map(|x| x?.q)", "o?.l?.map(|x| t(x))", "(|x| x?.a(t(1)))(n)",
        "n?.a is Int", "n?.a(t(1)) is Int?", "o.l[t(0)]?", "n?", "o?", "n??.a", "o.a?", "n?.a..t(3)",
    ];
    let around = [
        "t(@)", "t([t(1), @, t(2)])", "t(t(\"x\") == @)", "let x = @ t(x)", "if @ == null { t(1) } else { t(2) }", "t(f(@))", "t(f2(t(1), @, t(2)))", "t(#{ a: t(1), b: @ })", "let mut z = t(1) z = @ t(z)", "o.w = @ t(o.w)", "t({ let y = t(1) @ })", "for i in 0..2 { let q = i t(@) t(q) }", "let g = || @ t(g())", "fn g(u) { return @ } t(g(1))", "fn g(u) { t([t(1), @]) } t(g(1))", "t((@) ?? t(8))", "t(t(null) ?? @)", "let mut k = 0 while k < 2 { k += 1 t([k, @]) }", "@",
    ];
    let head = "let n = null\nfn f(x) { t([\"f\", x]) x }\nfn f2(a, b, c) { t([a, b, c]) }\nlet nf = null\nlet o = #{ a: 1, n: null, l: [t(3), null] }\no.self2 = o\no.m = |x| t([\"m\", x])\no.z = |x| { t(x) null }\n";
    for c in chains {
        for a in around {
            v.push(format!("{}{}", head, fill(a, c)));
        }
    }
    // A chain in an operand of another chain, in every kind of function.
    let inner = ["n?.a", "n?.a(t(6)).b", "o?.a", "o.n?.b.c(t(4))", "o.n?[t(0)]", "f(n?.a)", "o.m(n?.a(t(6)))?.q", "(n?.a)", "{ n?.a }", "|| n?.a", "[n?.a]", "n?"];
    let outer = ["super(#).x", "super(#)?.n?.q", "super(#).n?.q.r(t(3))", "super(t(1))?.m(#)?.y", "super.m(#)?.y", "super.m(#)?.a(t(1))", "super[A].m(#)?.a.b", "super.m(super.m(#)?.y)?.z", "super.m(super(#).n?.z)?.z", "self.m(#)?.y(t(1))", "self.n?.m(#)", "o.m(#)?.y(t(1)).z", "o.m(#).y", "o.l[#]?.z", "o.l[{ # t(0) }]?.z", "f(#)?.y", "f2(t(1), #, t(2))?.y(t(3))", "o.n?.m(#)", "o.z(t(1))?.m(#)", "t(#)?.y", "#{ k: # }.k?.y(t(1))", "[#][0]?.y"];
    for o in outer {
        for i in inner {
            let c = o.replace('#', i);
            for a in ["t(@)", "t([t(1), @, t(2)])", "let x = @ t(x)", "return @"] {
                let body = a.replace('@', &c);
                v.push(format!("{}class A {{ fn new(self, x) {{ self.x = t(x) self.n = null }} fn m(self, x) {{ t([\"m\", x]) x }} }}\nclass B : A {{ fn new(self) {{ super(1) }} fn go(self) {{ {} }} }}\nt(B().go())", head, body));
                if !a.contains("return") {
                    v.push(format!("{}class A {{ fn new(self, x) {{ self.x = t(x) self.n = null }} fn m(self, x) {{ t([\"m\", x]) x }} }}\nclass B : A {{ fn new(self) {{ super({}) {} }} }}\nt(B().x)", head, i, body));
                }
                if !o.contains("super") && !o.contains("self") {
                    v.push(format!("{}fn go() {{ {} }}\nt(go())", head, body));
                }
            }
        }
    }
    // Error propagation.
    let errs = ["r!!", "f(r)!!", "o.r!!", "o.f(t(1))!!", "t(r)!!", "o.l[t(0)]!!", "r!! + t(1)", "t(1) + r!!", "[t(1), r!!, t(2)]", "f(r!!)", "o.f(r!!, t(2))", "(|x| x)(r!!)", "r!!.x", "(r!!)", "r!! ?? t(1)", "t(null) ?? r!!", "n?.a(r!!)", "f?(r!!)", "r!!?.x", "{ let y = t(1) r!! }", "if t(true) { r!! } else { 1 }", "r or e { t(e) }", "r or e { t(e) r!! }", "r or e { return t(e) }", "f(r) or e { [t(e)] } ", "(r or e { t(e) 5 }) + t(1)", "rr!!!!", "(|| { r!! })()", "(|| { let a = t(1) let b = || a t([a, r!!]) })()", "r.map(|x| t(x))!!", "r.map(|x| t(x)) or e { t(e) }", "r or e { Err(e)!! }", "rr!! or e { t(e) }", "[r or e { 1 }, r!!]", "r or e { r or e { t([e]) } }", "(r or r { r })", "5!!", "null!!", "5 or e { t(e) }", "null or e { t(e) }", "#{ is_ok: true, result: 4 }!!", "#{ is_ok: true, result: 4 } or e { 1 }", "for i in [r!!, t(1)] { t(i) }", "for i in 0..3 { t(i) if i == 1 { r!! } }", "for i in [1, 2] { let k = i let g = || k t(g()) t([t(1), r!!]) }", "while r!! { t(1) break }", "let mut z = 0 loop { z += 1 if z > 2 { break } t([z, r!!]) }"];
    for e in errs {
        for r in ["Ok(t(7))", "Err(t(8))", "Ok(null)", "Err(null)", "Ok(Err(1))", "Err(Ok(1))"] {
            v.push(format!("{}fn run(r) {{ let rr = Ok(r) let o = #{{ r: r, l: [r], f: |x| {{ t(x) r }} }} let before = t(1) let res = {{ {} }} t([before, res]) res }}\nt(run({}))\nt(\"after\")", head, e, r));
            v.push(format!("{}fn run(r) {{ let rr = Ok(r) let o = #{{ r: r, l: [r], f: |x| {{ t(x) r }} }} t([t(1), {{ {} }}, t(2)]) }}\nt(run({}))\nt([t(5), run({})])", head, e, r, r));
            v.push(format!("{}class K {{ fn go(self, r) {{ let rr = Ok(r) let o = #{{ r: r, l: [r], f: |x| {{ t(x) r }} }} let q = {{ {} }} t(self is K) q }} }}\nt(K().go({}))", head, e, r));
        }
    }
    v
});

directed!(k11, || {
    let mut v = vec![];
    let vals = ["null", "()", "true", "1", "2.5", "\"s\"", "[1]", "#{ }", "|| 1", "f0", "Int", "A", "A()", "B()", "C()", "Z()", "Ok(1)", "Err(1)", "0..1"];
    let types = ["Any", "Int", "Float", "Bool", "String", "Array", "Function", "Class", "Null", "Unit", "A", "B", "C", "Z", "Result", "Ok", "Module"];
    let head = "fn f0() { 1 }\nclass A { }\nclass B : A { }\nclass C : B { }\nclass Z { }\n";
    let places = [
        "fn g(x: @) { t(1) x } t(g(#))",
        "fn g(a, x: @, b) { t([a, b]) x } t(g(1, #, 2))",
        "let g = |x: @| { t(1) x } t(g(#))",
        "class K { fn new(self, x: @) { self.x = x } } t(K(#))",
        "class P { } class K : P { fn new(self, x: @) { super() self.x = x } } t(K(#))",
        "class P { fn new(self, x: @) { self.x = x } } class K : P { fn new(self, y) { super(y) t(2) } } t(K(#))",
        "class P { fn m(self, x: @) { x } } class K : P { fn m(self, x) { t([1, super.m(x)]) } } t(K().m(#))",
        "class P { fn m(self, x) -> @ { x } } class K : P { } t(K().m(#))",
        "class K { fn m(self, x: @) { t(1) x } } t(K().m(#))",
        "class K { fn s(x: @) { t(1) x } } t(K.s(#))",
        "class K { op +(self, x: @) { t(1) x } } t(K() + #)",
        "fn g(x) -> @ { t(1) x } t(g(#))",
        "fn g(x) -> @ { t(1) return x t(2) } t(g(#))",
        "fn g(x) -> @ { for i in [1, 2] { let k = i let h = || k if i == 2 { return x } t(h()) } 1 } t(g(#))",
        "fn g(x) -> @ { t([1, { return x }]) } t(g(#))",
        "class K { fn m(self, x) -> @ { t(1) x } } t(K().m(#))",
        "class K { op +(self, x) -> @ { t(1) x } } t(K() + #)",
        "op %(x, y: @) -> @ { t(x) y } t(A() % #)",
        "t(# is @)",
        "t(t(#) is @)",
        "if t(#) is @ { t(1) } else { t(2) }",
        "let x = # t([x is @, x is Any])",
        "fn g(x) -> @ { t(1) let y = || { return x } y() } t(g(#))",
        "let r = [#, #] for x in r { t(x is @) }",
    ];
    for p in places {
        for ty in types {
            for q in ["", "?"] {
                for x in vals {
                    // Some combinations stand for many.
                    let ty = format!("{}{}", ty, q);
                    v.push(format!("{}{}", head, p.replace('@', &ty).replace('#', x)));
                }
            }
        }
    }
    for ty in ["Result", "Ok", "Err", "Int", "Any", "Ok?", "Err?", "Null"] {
        for x in ["Ok(1)", "Err(1)", "Err(null)", "Ok(null)"] {
            v.push(format!("fn g(r) -> {} {{ t(1) t([1, r!!]) Ok(2) }} t(g({}))", ty, x));
            v.push(format!("fn g(r: {}) -> Result {{ let v = r!! t(v) Ok(v) }} t(g({}))", ty, x));
        }
    }
    for s in [
        "fn g(x: Nothing) { x } t(1) t(g(1))",
        "fn g(x: y) { x } let y = 5 t(1) t(g(1))",
        "let y = Int fn g(x: y) { x } t(g(1)) t(g(2.5))",
        "t(1 is Nothing)",
        "let y = 5 t(1 is y)",
        "let y = Int t(1 is y) t(2.5 is y)",
        "fn g(a: Int, b: Float?, c: String) -> Array { [a, b, c] } t(g(1, null, \"x\")) t(g(1, 2.5, \"x\")) t(g(1, 2, \"x\"))",
        "fn g(a: Int) -> Int { if a > 0 { g(a - 1) } else { a } } t(g(5))",
        "fn g(a: Int) -> Int { if a > 0 { g(a - 1) } else { null } } t(g(5))",
        "fn g(a: Int) { a += 1 a }",
        "fn g(mut_x: Int, f: Function) -> Any? { f(mut_x) } t(g(1, |x| null)) t(g(1, |x| x)) t(g(1, 2))",
        "class A { } fn f() { class A { } fn g(x: A) { 1 } [A, g] } let r = f() t(r[1](r[0]())) t(r[1](A()))",
        "fn g(T, x: T) { x } t(g(Int, 1)) t(g(Float, 1))",
        "fn g(x: Int?) -> Int { x ?? 4 } t(g(null)) t(g(3)) t(g(\"s\"))",
        "class A { fn same(self, o: A) -> A { o } } class B : A { } t(A().same(B())) t(B().same(A())) t(A().same(1))",
        "class A { fn s() -> A { A() } } t(A.s())",
    ] {
        v.push(s.to_string());
    }
    v
});
