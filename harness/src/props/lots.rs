//! A lot of one thing: programs of every size of each of many kinds. Small programs never have more than a
//! few of anything, and counts have limits, thresholds and fast paths of their own.
use crate::props::big::seq;
use crate::lex::lex;
use crate::rng::Rng;
use std::collections::HashMap;
use std::sync::OnceLock;

fn list(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect::<Vec<_>>().join(", ")
}
fn rep(n: usize, s: &str) -> String {
    s.repeat(n)
}
fn join(n: usize, sep: &str, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect::<Vec<_>>().join(sep)
}
/// `f(0) f(1) ... f(n-1) mid g(n-1) ... g(0)`
fn nest(n: usize, f: impl Fn(usize) -> String, mid: String, g: impl Fn(usize) -> String) -> String {
    format!("{} {} {}", (0..n).map(f).collect::<Vec<_>>().join(" "), mid, (0..n).rev().map(g).collect::<Vec<_>>().join(" "))
}
/// Names that differ in one character only, at place k.
fn alike(n: usize, k: usize, c: char) -> String {
    let mut s: Vec<char> = vec!['n'; n.max(2)];
    let k = k.min(s.len() - 1);
    s[k] = c;
    s.into_iter().collect()
}
type Kind = (&'static str, usize, fn(usize) -> String);
static KINDS: &[Kind] = &[
    // ---- K04: operands and assignments
    ("K04", 255, |n| format!("t([{}])", list(n, |i| format!("t({})", i)))),
    ("K04", 255, |n| format!("let l = [{}] t(l[{}]) t(l[0]) l[{}] = 7 l[0] += 2 t(l)", list(n, |i| (i * 3).to_string()), n - 1, n / 2)),
    ("K04", 120, |n| format!("let o = #{{ {} }} t(o.a0) t(o.a{}) t(o)", list(n, |i| format!("a{}: t({})", i, i * 7)), n - 1)),
    ("K04", 60, |n| format!("let o = #{{ {} }} o.a{} = 3 o.a0 += 5 t(o.a{}) t(o.a0)", list(n, |i| format!("a{}: {}", i, i)), n - 1, n - 1)),
    ("K04", 255, |n| format!("t({})", join(n, " - ", |i| format!("t({})", i)))),
    ("K04", 120, |n| format!("t({})", join(n, " ", |i| format!("{}t({})", if i == 0 { "" } else if i % 3 == 1 { "+ " } else if i % 3 == 2 { "* " } else { "- " }, i % 5 + 1)))),
    ("K04", 100, |n| format!("t({}1{})", join(n, "", |i| format!("(t({}) - ", i)), rep(n, ")"))),
    ("K04", 100, |n| format!("t({}1{})", rep(n, "-("), rep(n, ")"))),
    ("K04", 100, |n| format!("t({}true{})", rep(n, "!("), rep(n, ")"))),
    ("K04", 255, |n| format!("t({})", join(n, " && ", |i| format!("t({})", i + 1 < n || n % 2 == 0)))),
    ("K04", 255, |n| format!("t({})", join(n, " || ", |i| format!("t({})", i + 1 == n && n % 2 == 0)))),
    ("K04", 255, |n| format!("t({})", join(n, " && ", |i| format!("t({})", i != n / 2)))),
    ("K04", 255, |n| format!("let mut x = 1 {} t(x)", seq(n, |i| format!("x {}= t({})", ["+", "-", "*"][i % 3], i % 4 + 1)))),
    ("K04", 60, |n| format!("{} t(v0) t(v{})", seq(n, |i| if i == 0 { "let mut v0 = 1".into() } else { format!("let mut v{} = v{} = {} t(v{})", i, i - 1, i * 2, i) }), n - 1)),
    ("K04", 100, |n| format!("let a = {}5{} t(a{}) a{} = 6 t(a{})", rep(n, "["), rep(n, "]"), rep(n, "[0]"), rep(n, "[0]"), rep(n, "[0]"))),
    ("K04", 100, |n| format!("let a = {}5{} t(a{}) a{} = 6 a{} += 3 t(a{})", rep(n, "#{ f: "), rep(n, " }"), rep(n, ".f"), rep(n, ".f"), rep(n, ".f"), rep(n, ".f"))),
    ("K04", 100, |n| format!("fn f(x) {{ t(x) x + 1 }} t(0{})", rep(n, " |> f"))),
    ("K04", 100, |n| format!("fn f(x) {{ t(x) x + 1 }} t({}0{})", rep(n, "f("), rep(n, ")"))),
    ("K04", 250, |n| format!("fn f({}) {{ t(p0) t(p{}) p{} }} t(f({}))", list(n, |i| format!("p{}", i)), n - 1, n / 2, list(n, |i| format!("t({})", i)))),
    ("K04", 250, |n| format!("fn f() {{ {} }} f()", seq(n, |i| format!("t(\"s{}\")", i)))),
    ("K04", 250, |n| format!("fn f() {{ {} }} f()", seq(n, |i| format!("t({}.5)", i)))),
    ("K04", 250, |n| format!("fn f() {{ {} }} f()", seq(n, |i| format!("t({})", 1000 + i)))),
    ("K04", 250, |n| format!("t(\"{}\") t(\"{}\") t(\"{}\")", alike(n, n - 1, 'a'), alike(n, n - 1, 'b'), alike(n, n / 2, 'a'))),
    ("K04", 60, |n| format!("fn f() {{ |x| {{ t(x) f() }} }} let g = f(){} g(7)", rep(n, "(2)"))),
    ("K04", 100, |n| format!("let mut x = 0 fn b(y) {{ x += y x }} t([{}])", list(n, |_| "x + b(1) * x".into()))),
    ("K04", 60, |n| format!("let o = #{{ }} {} {}", seq(n, |i| format!("o.a{} = t({})", i, i)), seq(n, |i| format!("t(o.a{})", n - 1 - i)))),
    // ---- K05: scopes
    ("K05", 120, |n| nest(n, |i| format!("{{ let v{} = {}", i, i), format!("t(v0) t(v{}) t(v{})", n / 2, n - 1), |i| format!("t(v{}) t(v0) }}", i))),
    ("K05", 120, |n| nest(n, |i| format!("{{ let x = {}", i), "t(x)".into(), |_| "t(x) }".into())),
    ("K05", 120, |n| format!("let mut x = 0 {} t(x)", nest(n, |_| "{".into(), "x += 1 t(x)".into(), |_| "x += 1 }".into()))),
    ("K05", 120, |n| format!("let x = 5 {} t(x)", nest(n, |_| "if true {".into(), "let y = x t(y)".into(), |_| "t(x) }".into()))),
    ("K05", 120, |n| format!("let x = 5 {} t(x)", nest(n, |i| format!("if x == {} {{ 1 }} else {{", i + 10), "let y = x t(y)".into(), |_| "}".into()))),
    ("K05", 40, |n| format!("let x = 5 {} t(x)", nest(n, |i| format!("for i{} in {}..{} {{", i, i, i + 1), format!("t(x) t(i0) t(i{})", n - 1), |i| format!("t(i{}) }}", i)))),
    ("K05", 60, |n| format!("let x = 5 {} t(x)", nest(n, |i| format!("loop {{ let y{} = {}", i, i), "t(x) t(y0)".into(), |i| format!("t(y{}) break }}", i)))),
    ("K05", 60, |n| format!("let mut x = 5 {} t(x)", nest(n, |i| format!("let mut g{} = true while g{} {{ g{} = false let y{} = {}", i, i, i, i, i), "t(x) t(y0) x = 6".into(), |i| format!("t(y{}) }}", i)))),
    ("K05", 250, |n| format!("let k = 9 {} t(k)", seq(n, |i| format!("{{ let a = {} let b = a + 1 t(b) }}", i)))),
    ("K05", 240, |n| format!("{} {}", seq(n, |i| format!("let v{} = {}", i, i)), seq(n, |i| format!("t(v{})", n - 1 - i)))),
    ("K05", 240, |n| format!("fn f(a) {{ {} {} t(a) }} f(3)", seq(n, |i| format!("let mut v{} = {}", i, i)), seq(n, |i| format!("v{} += 1 t(v{})", n - 1 - i, (i * 7) % n)))),
    ("K05", 240, |n| format!("{} t(x)", seq(n, |i| format!("let x = {} t(x)", i)))),
    ("K05", 120, |n| format!("let {{ {} }} = #{{ {} }} t(a0) t(a{}) t(a{})", list(n, |i| format!("a{}", i)), list(n, |i| format!("a{}: {}", i, i)), n - 1, n / 2)),
    ("K05", 120, |n| format!("{} t(f0(1))", seq(n, |i| if i + 1 == n { format!("fn f{}(x) {{ t(x) x }}", i) } else { format!("fn f{}(x) {{ f{}(x + 1) }}", i, i + 1) }))),
    ("K05", 120, |n| format!("t(f{}(1)) {}", n - 1, seq(n, |i| if i == 0 { "fn f0(x) { t(x) x }".into() } else { format!("fn f{}(x) {{ f{}(x + 1) }}", i, i - 1) })).replacen(&format!("t(f{}(1)) ", n - 1), "", 1) + &format!(" t(f{}(1))", n - 1)),
    ("K05", 250, |n| format!("let {} = 1 let {} = 2 let {} = 3 t({}) t({}) t({})", alike(n, n - 1, 'a'), alike(n, n - 1, 'b'), alike(n, 0, 'b'), alike(n, n - 1, 'a'), alike(n, n - 1, 'b'), alike(n, 0, 'b'))),
    ("K05", 250, |n| format!("let {} = 1 {{ let {} = 2 t({}) t({}) {{ let {} = 3 t({}) }} }} t({})", alike(n, n / 2, 'a'), alike(n, n / 2, 'b'), alike(n, n / 2, 'a'), alike(n, n / 2, 'b'), alike(n + 1, n / 2, 'a'), alike(n, n / 2, 'a'), alike(n, n / 2, 'a'))),
    ("K05", 60, |n| format!("let x = 1 {} t(x)", nest(n, |_| "{ let x = 2 } {".into(), "t(x)".into(), |_| "}".into()))),
    ("K05", 100, |n| format!("let x = 1 t({})", nest(n, |_| "{ let y = 3".into(), "x".into(), |_| "}".into()))),
    ("K05", 100, |n| format!("fn f(x) {{ {} }} t(f(1))", nest(n, |i| format!("{{ let mut x{} = x", i), "t(x) x".into(), |_| "}".into()))),
    // ---- K06: control flow
    ("K06", 40, |n| nest(n, |i| format!("loop {{ t({})", i), "t(100)".into(), |i| format!("t({}) break }}", i + 1000))),
    ("K06", 12, |n| nest(n, |i| format!("for i{} in 0..2 {{", i), format!("if i0 == 1 {{ break }} t(i{}) break", n - 1), |i| format!("t(i{}) continue }}", i))),
    ("K06", 40, |n| format!("fn f() {{ {} 0 }} t(f())", nest(n, |i| format!("for i{} in 0..3 {{", i), format!("return i0 + i{} + 7", n - 1), |_| "}".into()))),
    ("K06", 100, |n| format!("for k in 0..={} {{ {} t(k) }}", n, seq(n, |i| format!("if k == {} {{ continue }}", i * 2)))),
    ("K06", 100, |n| format!("for k in 0..={} {{ {} t(k) }}", n, seq(n, |i| format!("if k == {} {{ break }}", i + n / 2)))),
    ("K06", 100, |n| format!("let mut k = 0 while k < {} {{ k += 1 {} t(k) }}", n, seq(n, |i| format!("if k == {} {{ {} }}", i * 3 + 1, if i * 3 + 3 >= n { "break" } else { "continue" })))),
    ("K06", 100, |n| format!("let mut k = 0 loop {{ k += 1 {} t(k) }} t(k)", seq(n, |i| format!("if k == {} {{ {} }}", i * 2 + 1, if i + 1 >= n { "break" } else { "continue" })))),
    ("K06", 100, |n| format!("for k in 0..{} {{ t({} else {{ -1 }}) }}", n + 1, join(n, " else ", |i| format!("if k == {} {{ {} }}", i, i * 2)))),
    ("K06", 100, |n| format!("t({})", nest(n, |i| format!("if t(true) {{ {}", i), "5".into(), |_| "} else { 6 }".into()))),
    ("K06", 100, |n| format!("t({})", nest(n, |i| format!("if t(false) {{ {} }} else {{", i), "5".into(), |_| "}".into()))),
    ("K06", 250, |n| format!("let mut s = 0 for i in 0..{} {{ s += i }} t(s) for i in 0..={} {{ s -= i }} t(s)", n, n)),
    ("K06", 250, |n| format!("let mut s = 0 while s < {} {{ s += 1 }} t(s)", n)),
    ("K06", 250, |n| format!("fn f(x) {{ {} 0 }} t(f({})) t(f({})) t(f(-1))", seq(n, |i| format!("if x == {} {{ return {} }}", i, i * 2)), n - 1, n / 2)),
    ("K06", 100, |n| format!("for i in 0..3 {{ {} t(i) }}", nest(n, |i| format!("{{ let v{} = i", i), "if i == 1 { continue } t(v0)".into(), |i| format!("t(v{}) }}", i)))),
    ("K06", 100, |n| format!("loop {{ {} t(1) }} t(2)", nest(n, |i| format!("{{ let v{} = {}", i, i), "if t(true) { break }".into(), |_| "}".into()))),
    ("K06", 100, |n| format!("for i in 0..3 {{ t([{}]) }}", list(n, |k| if k == n / 2 { "if i == 1 { continue } else { i }".into() } else { format!("t({})", k) }))),
    ("K06", 100, |n| format!("for i in 0..3 {{ t([{}]) }}", list(n, |k| if k + 1 == n { "if i == 1 { break } else { i }".into() } else { k.to_string() }))),
    ("K06", 60, |n| format!("fn f() {{ t({}return 4{}) }} t(f())", rep(n, "1 + (if true { "), rep(n, " } else { 2 })"))),
    ("K06", 30, |n| format!("let mut c = 0 {} t(c)", seq(n, |i| format!("for i in 0..{} {{ c += i for j in i..{} {{ if j > i {{ break }} c += 1 }} }}", i % 4 + 1, i % 3 + 2)))),
    ("K06", 250, |n| format!("t({{ {} 7 }}) {}", seq(n, |i| format!("let v{} = {}", i, i)), "t(8)")),
    ("K06", 120, |n| format!("for i in 0..2 {{ {} }}", seq(n, |i| format!("t(i + {})", i)))),
    // ---- K07: captures
    ("K07", 200, |n| format!("fn f() {{ {} return || {{ t(v0) t(v{}) {} }} }} t(f()())", seq(n, |i| format!("let v{} = {}", i, i)), n - 1, join(n, " + ", |i| format!("v{}", i)))),
    ("K07", 200, |n| format!("fn f() {{ {} let r = [|| {{ {} }}, || {{ t(v0) t(v{}) }}] r }} let g = f() g[0]() g[1]()", seq(n, |i| format!("let mut v{} = {}", i, i)), seq(n, |i| format!("v{} += {}", i, i + 1)), n - 1)),
    ("K07", 120, |n| format!("fn f() {{ let mut x = 0 let r = [{}] r }} let l = f() t(l[0]()) t(l[{}]()) t(l[{}]())", list(n, |i| format!("|| {{ x += {} x }}", i + 1)), n - 1, n / 2)),
    ("K07", 40, |n| format!("let mut x = 1 let g = {} t(x) t(x)", format!("{}x += 1 t(x) x{} t(g{})", rep(n, "|| { "), rep(n, " }"), rep(n, "()")))),
    ("K07", 40, |n| format!("let g = {}{}{} t(g{})", seq(n, |i| format!("|p{}| {{", i)), list(1, |_| join(n, " + ", |i| format!("p{}", i))), rep(n, " }"), seq(n, |i| format!("({})", i + 1)).replace(' ', ""))),
    ("K07", 40, |n| format!("{} t(f0())", nest(n, |i| format!("fn f{}() {{ let mut v{} = {}", i, i, i), format!("v0 += 1 t(v0) t(v{}) {}", n - 1, join(n, " + ", |i| format!("v{}", i))), |i| format!("}} {}", if i + 1 < n + 1 && i > 0 { format!("t(v{}) let r{} = f{}() t(v{}) r{}", i - 1, i, i, i - 1, i) } else { String::new() })))),
    ("K07", 120, |n| format!("let r = [{}] t(r[0]()) t(r[{}]())", list(n, |i| format!("{{ let mut c = {} let g = || {{ c += 1 t(c) c }} g }}", i * 10)), n - 1)),
    ("K07", 120, |n| format!("let mut k = null for i in 0..{} {{ let v = i * 2 if i == {} {{ k = || {{ t(v) t(i) }} }} }} k()", n, n / 2)),
    ("K07", 100, |n| format!("let mut k = null loop {{ {} }} k()", nest(n, |i| format!("{{ let mut v{} = {}", i, i), format!("k = || {{ v0 += 1 t(v0) t(v{}) }} break", n - 1), |_| "}".into()))),
    ("K07", 100, |n| format!("fn f() {{ {} }} let k = f() k() k()", nest(n, |i| format!("if true {{ let mut v{} = {}", i, i), format!("return || {{ v{} += 1 t(v{}) t(v0) }}", n - 1, n - 1), |_| "}".into()))),
    ("K07", 200, |n| format!("fn f({}) {{ || {{ t(p0) t(p{}) t(p{}) }} }} f({})()", list(n, |i| format!("p{}", i)), n - 1, n / 2, list(n, |i| i.to_string()))),
    ("K07", 100, |n| format!("fn c() {{ let mut x = 0 return || {{ x += 1 x }} }} let a = c() let b = c() {} t(b())", seq(n, |i| format!("t({}())", if i % 3 == 0 { "b" } else { "a" })))),
    ("K07", 100, |n| format!("let mut x = 0 let g = || {{ x += 1 t(x) }} {} t(x)", seq(n, |i| if i % 2 == 0 { "g()".into() } else { "x += 10".into() }))),
    ("K07", 60, |n| format!("fn f(a, b) {{ {} }} t(f(1, 2)(3))", nest(n, |_| "{".into(), "let g = |c| { let h = || { t(c) t(a) t(b) c + a } h() } return g".into(), |_| "}".into()))),
    ("K07", 60, |n| format!("fn f() {{ {} {} }} f()", seq(n, |i| format!("let mut v{} = {} let g{} = || {{ v{} += 1 v{} }}", i, i, i, i, i)), seq(n, |i| format!("t(g{}()) t(v{})", n - 1 - i, i)))),
    // ---- K08: classes
    ("K08", 120, |n| format!("class A {{ {} }} let o = A() t(o.m0(1)) t(o.m{}(2)) t(o.m{}(3))", seq(n, |i| format!("fn m{}(self, x) {{ t(x) x + {} }}", i, i)), n - 1, n / 2)),
    ("K08", 120, |n| format!("class A {{ {} }} t(A.s0(1)) t(A.s{}(2)) t(A.s{}(3))", seq(n, |i| format!("fn s{}(x) {{ t(x) x + {} }}", i, i)), n - 1, n / 2)),
    ("K08", 80, |n| format!("class A {{ {} op +(self, o) {{ t(o) 5 }} fn z(self) {{ self.m0() }} }} let o = A() t(o.m{}()) t(o + 1) t(o.z()) t(A.s1)", seq(n, |i| if i % 2 == 0 { format!("fn m{}(self) {{ {} }}", i, i) } else { format!("fn s{}() {{ {} }}", i, i) }), (n - 1) / 2 * 2)),
    ("K08", 80, |n| format!("class A {{ fn new(self) {{ {} }} }} let o = A() t(o.f0) t(o.f{}) t(o)", seq(n, |i| format!("self.f{} = t({})", i, i)), n - 1)),
    ("K08", 120, |n| format!("class A {{ fn new(self, {}) {{ self.x = p0 self.y = p{} }} }} let o = A({}) t(o.x) t(o.y)", list(n, |i| format!("p{}", i)), n - 1, list(n, |i| i.to_string()))),
    ("K08", 120, |n| format!("class A {{ fn new(self, {}) {{ self.x = p0 self.y = p{} }} }} class B : A {{ fn new(self) {{ super({}) t(self.y) }} }} t(B().x)", list(n, |i| format!("p{}", i)), n - 1, list(n, |i| format!("t({})", i)))),
    ("K08", 60, |n| format!("{} let o = C{}() t(o.m(0)) t(o.k0()) t(o is C0) t(o is C{})", seq(n, |i| if i == 0 { "class C0 { fn m(self, x) { t(x) x } fn k0(self) { self.m(100) } }".into() } else { format!("class C{} : C{} {{ fn m(self, x) {{ super.m(x + {}) + 1 }} }}", i, i - 1, i) }), n - 1, n / 2)),
    ("K08", 60, |n| format!("{} let o = C{}(1) t(o.x0) t(o.x{}) t(o)", seq(n, |i| if i == 0 { "class C0 { fn new(self, a) { t(a) self.x0 = a } }".into() } else { format!("class C{} : C{} {{ fn new(self, a) {{ super(a + 1) self.x{} = a }} }}", i, i - 1, i) }), n - 1, n - 1)),
    ("K08", 60, |n| format!("{} let o = C{}() t(o.m()) t(o.n()) t(C{}.s)", seq(n, |i| if i == 0 { "class C0 { fn m(self) { 1 } fn n(self) { 2 } }".into() } else { format!("class C{} : C{} {{ {} }}", i, i - 1, if i % 4 == 0 { format!("fn n(self) {{ {} }}", i) } else { String::new() }) }), n - 1, n - 1)),
    ("K08", 40, |n| format!("{} class Z : C{} {{ fn k(self) {{ {} }} }} Z().k()", seq(n, |i| format!("class C{} {} {{ fn m(self) {{ {} }} }}", i, if i == 0 { String::new() } else { format!(": C{}", i - 1) }, i)), n - 1, seq(n, |i| format!("t(super[C{}].m())", i)))),
    ("K08", 60, |n| nest(n, |i| format!("{{ let v{} = {}", i, i), format!("class A {{ fn m(self) {{ v0 + v{} }} }} class B : A {{ fn m(self) {{ super.m() + 1 }} }} t(B().m())", n - 1), |_| "}".into())),
    ("K08", 60, |n| format!("{} {}", seq(n, |i| format!("class C{} {{ fn m(self) {{ {} }} fn s() {{ C{}() }} }}", i, i, (i * 7 + 1) % n)), seq(n, |i| format!("t(C{}.s().m())", i)))),
    ("K08", 100, |n| format!("class A {{ fn new(self) {{ self.c = 0 }} fn inc(self) {{ self.c += 1 self }} }} t(A(){}.c)", rep(n, ".inc()"))),
    ("K08", 60, |n| format!("class A {{ fn m(self) {{ {} }} fn g(self, x) {{ t(x) self }} }} t(A().m())", seq(n, |i| format!("self.g({})", i)))),
    ("K08", 30, |n| format!("class A {{ fn m(self, x) {{ x }} }} class B : A {{ fn k(self) {{ t({}1{}) }} }} B().k()", rep(n, "super.m(1 + "), rep(n, ")"))),
    ("K08", 60, |n| format!("fn f({}) {{ class A {{ fn m(self) {{ t(p0) p{} }} fn s() {{ p{} }} }} A }} let A = f({}) t(A().m()) t(A.s())", list(n, |i| format!("p{}", i)), n - 1, n / 2, list(n, |i| i.to_string()))),
    ("K08", 200, |n| format!("class A {{ fn {}(self) {{ 1 }} fn {}(self) {{ 2 }} fn {}(self) {{ 3 }} }} let o = A() t(o.{}()) t(o.{}()) t(o.{}())", alike(n, n - 1, 'a'), alike(n, n - 1, 'b'), alike(n, n / 2, 'c'), alike(n, n - 1, 'a'), alike(n, n - 1, 'b'), alike(n, n / 2, 'c'))),
    // ---- K09: null and errors
    ("K09", 100, |n| format!("let a = {}5{} t(a{}) t(a{}?.g)", rep(n, "#{ f: "), rep(n, " }"), rep(n, "?.f"), rep(n, "?.f")).replace("?.g)", "?.f ?? 0)").replace(" t(a?.f ?? 0)", "")),
    ("K09", 100, |n| format!("let a = {}null{} t(a{}) t((a{}).f)", rep(n, "#{ f: "), rep(n, " }"), rep(n + 3, "?.f"), rep(n - 1, "?.f"))),
    ("K09", 100, |n| format!("let a = null t(a{}) t([a{}, 1])", rep(n, "?.f"), rep(n, "?.f.g(t(1))"))),
    ("K09", 100, |n| format!("class A {{ fn m(self, x) {{ if t(x) == {} {{ null }} else {{ self }} }} }} t(A(){} is A)", n / 2, join(n, "", |i| format!("?.m({})", i)))),
    ("K09", 200, |n| format!("t({})", join(n, " ?? ", |i| format!("t({})", if i + 1 < n { "null" } else { "7" })))),
    ("K09", 200, |n| format!("t({})", join(n, " ?? ", |i| format!("t({})", if i == n / 2 { "7" } else { "null" })))),
    ("K09", 100, |n| format!("fn f(k) {{ {} 99 }} t(f({})) t(f({})) t(f(-1))", seq(n, |i| format!("t((if k == {} {{ Err({}) }} else {{ Ok({}) }})!!)", i, i, i)), n - 1, n / 2)),
    ("K09", 60, |n| format!("fn f(k) {{ [{}] }} t(f(-1)) t(f({}))", list(n, |i| format!("(if k == {} {{ Err({}) }} else {{ Ok({}) }})!!", i, i, i)), n - 1)),
    ("K09", 60, |n| format!("fn f() {{ ({}1{}){} }} t(f())", rep(n, "Ok("), rep(n, ")"), rep(n, "!!"))),
    ("K09", 60, |n| format!("fn f() {{ ({}Err(3){}){} }} t(f())", rep(n, "Ok("), rep(n, ")"), rep(n + 1, "!!"))),
    ("K09", 40, |n| format!("t({}Ok(1){})", nest(n, |i| format!("Err({}) or e{} {{ t(e{})", i, i, i), String::new(), |_| String::new()), rep(n, " }"))),
    ("K09", 100, |n| format!("let a = null let b = #{{ f: 1 }} fn g({}) {{ t(p0) t(p{}) }} g({})", list(n, |i| format!("p{}", i)), n - 1, list(n, |i| format!("{}?.f", if i % 3 == 0 { "a" } else { "b" })))),
    ("K09", 40, |n| format!("let a = null let b = #{{ f: 1 }} fn g(x, y) {{ t(x) y }} t({}a?.f{})", join(n, "", |i| format!("g({}?.f, ", if i % 2 == 0 { "a" } else { "b" })), rep(n, ")"))),
    ("K09", 100, |n| format!("let a = null let b = [1] t([{}])", list(n, |i| if i % 2 == 0 { format!("a?[t({})]", i) } else { format!("b?[0] ?? t({})", i) }))),
    ("K09", 60, |n| format!("let a = {}null{} t(a{}?[0])", rep(n, "["), rep(n, "]"), rep(n, "?[0]"))),
    // ---- K11: annotations
    ("K11", 120, |n| format!("fn f({}) -> Int {{ t(p0) p{} }} t(f({}))", list(n, |i| format!("p{}: {}", i, if i % 2 == 0 { "Int" } else { "Int?" })), n - 1, list(n, |i| if i % 2 == 0 || i + 1 == n { i.to_string() } else { "null".into() }))),
    ("K11", 120, |n| format!("fn f({}) {{ t(p0) }} t(1) f({})", list(n, |i| format!("p{}: Int", i)), list(n, |i| if i == n / 2 { "\"no\"".into() } else { i.to_string() }))),
    ("K11", 120, |n| format!("fn f({}) {{ t(p0) }} t(1) f({})", list(n, |i| if i + 1 == n { format!("p{}: String", i) } else { format!("p{}", i) }), list(n, |i| i.to_string()))),
    ("K11", 60, |n| format!("{} let o = C{}() fn f(x: C0) -> C{} {{ x }} t(f(o) is C{}) fn g(x: C{}) {{ 1 }} t(g(o)) t(g(C0()))", seq(n, |i| format!("class C{} {} {{ }}", i, if i == 0 { String::new() } else { format!(": C{}", i - 1) })), n - 1, n / 2, n - 1, n - 1)),
    ("K11", 120, |n| format!("fn f(x) -> Int {{ {} \"z\" }} t(f({})) t(f({})) f(-1)", seq(n, |i| format!("if x == {} {{ return {} }}", i, i)), n - 1, n / 2)),
    ("K11", 120, |n| format!("fn f(x) -> Int? {{ {} 1 }} t(f(-1)) t(f({}))  f({})", seq(n, |i| format!("if x == {} {{ return {} }}", i, if i + 1 == n { "\"no\"".into() } else { "null".to_string() })), n / 2, n - 1)),
    ("K11", 100, |n| format!("let x = 5 {}", seq(n, |i| format!("t(x is {})", ["Int", "String", "Int?", "Float", "Any"][i % 5])))),
    ("K11", 40, |n| format!("fn f0(x: Int) -> Int {{ {} }} t(f0(3))", nest(n, |i| format!("fn g{}(y: Int) -> Int {{", i), "x".into(), |i| format!("}} g{}(x)", i)))),
    ("K11", 60, |n| format!("fn f(a: Int) -> Int {{ {} }} t(f(4)) t(1) f(5)", nest(n, |i| format!("{{ let v{} = a", i), "if a == 5 { return \"x\" } a".into(), |_| "}".into()))),
    ("K11", 60, |n| format!("class A {{ {} }} let o = A() t(o.m0(1)) t(o.m{}(2)) o.m{}(\"s\")", seq(n, |i| format!("fn m{}(self, x: Int) -> Int {{ x + {} }}", i, i)), n - 1, n / 2)),
    ("K11", 200, |n| format!("class {} {{ }} class {} {{ }} let o = {}() t(o is {}) t(o is {}) fn f(x: {}) {{ 1 }} t(f({}()))", alike(n, n - 1, 'a'), alike(n, n - 1, 'b'), alike(n, n - 1, 'a'), alike(n, n - 1, 'a'), alike(n, n - 1, 'b'), alike(n, n - 1, 'b'), alike(n, n - 1, 'b'))),
];
fn sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=34).collect();
    v.extend([36, 40, 41, 48, 50, 51, 60, 63, 64, 65, 66, 80, 96, 99, 100, 101, 120, 127, 128, 129, 130, 160, 200, 240, 250, 253, 254, 255, 256, 257, 300]);
    v.retain(|n| *n <= max);
    v
}
/// The programs of a property; those of all with "".
pub fn programs(id: &str) -> Vec<String> {
    let mut v: Vec<String> = KINDS.iter().filter(|k| id.is_empty() || k.0 == id).flat_map(|k| sizes(k.1).into_iter().map(|n| (k.2)(n))).collect();
    if id == "K04" || id.is_empty() {
        for (i, p) in PATHS.iter().enumerate() {
            let q = PATHS[(i * 7 + 3) % PATHS.len()];
            v.push(format!("t(\"{}\") t(\"{}\" + \"{}\") let o = #{{ a: \"{}\" }} t(o.a == \"{}\") t([\"{}\", \"{}\"])", p, p, q, p, p, q, p));
        }
        let all = join(PATHS.len(), ", ", |i| format!("\"{}\"", PATHS[i]));
        v.push(format!("t([{}])", all));
        v.push(format!("let l = [{}] for i in 0..{} {{ t(l[i]) for j in 0..{} {{ if i != j && l[i] == l[j] {{ t(i) }} }} }}", all, PATHS.len(), PATHS.len()));
    }
    v
}
/// A directed list and these.
pub fn with(id: &'static str, first: &'static [String]) -> &'static [String] {
    static ALL: OnceLock<std::sync::Mutex<HashMap<&'static str, &'static [String]>>> = OnceLock::new();
    let mut m = ALL.get_or_init(Default::default).lock().unwrap();
    m.entry(id).or_insert_with(|| {
        let mut v = programs(id);
        v.extend(first.iter().cloned());
        v.leak()
    })
}

/// Modules: the main text, whether it is a module, and the others by path.
type Mods = (String, bool, Vec<(String, String)>);
static MODULES: &[(usize, fn(usize) -> Mods)] = &[
    // n names from one module, in declaration order, backwards, one by one.
    (120, |n| {
        let e = seq(n, |i| format!("export let x{} = t({})", i, i));
        (format!("import {{ {} }} from \"a\" t([{}]) t(x0) t(x{})", list(n, |i| format!("x{}", i)), list(n, |i| format!("x{}", i)), n - 1), false, vec![("a".into(), e)])
    }),
    (120, |n| {
        let e = seq(n, |i| format!("let x{} = t({})", i, i)) + " " + &seq(n, |i| format!("export x{}", n - 1 - i));
        (format!("import * as m, {{ {} }} from \"a\" t([{}]) t(m.x0) t(m.x{}) t(m)", list(n, |i| format!("x{}", n - 1 - i)), list(n, |i| format!("x{}", i)), n - 1), false, vec![("a".into(), e)])
    }),
    (120, |n| {
        let e = seq(n, |i| format!("export fn f{}(y) {{ t(y) y + {} }}", i, i));
        (seq(n, |i| format!("import {{ f{} }} from \"a\" t(f{}({}))", i, i, i)) + &format!(" t(f0(1)) t(f{}(2))", n / 2), false, vec![("a".into(), e)])
    }),
    (60, |n| {
        let e = seq(n, |i| format!("export class C{} {{ fn m(self) {{ t({}) {} }} }}", i, i, i * 3));
        (format!("import * as m from \"a\" {}", seq(n, |i| format!("t(m.C{}().m())", n - 1 - i))), false, vec![("a".into(), e)])
    }),
    // The same module many times.
    (100, |n| (format!("{} t(9)", seq(n, |i| format!("import * as m{} from \"a\" t(m{}.x())", i, i))), false, vec![("a".into(), "t(\"once\") let mut c = 0 export fn x() { c += 1 c }".into())])),
    (60, |n| (format!("{} t(9)", seq(n, |i| format!("{{ let k = {} import {{ x }} from \"a\" t(x() + k) }}", i * 100))), false, vec![("a".into(), "t(\"once\") let mut c = 0 export fn x() { c += 1 c }".into())])),
    (60, |n| (format!("let l = [{}] t(l[0]()) t(l[{}]())", list(n, |i| format!("|| {{ import {{ x }} from \"a\" x + {} }}", i)), n - 1), false, vec![("a".into(), "t(\"once\") export let x = 4".into())])),
    // n modules: side by side, in a chain, in a ring.
    (80, |n| (format!("{} t([{}])", seq(n, |i| format!("import {{ x as_{} }} from \"m{}\"", i, i)).replace("x as_", "x"), list(n, |i| format!("x{}", i))), false, (0..n).map(|i| (format!("m{}", i), format!("t({}) export let x{} = {}", i, i, i * 5))).collect())),
    (60, |n| {
        ("import { x, f } from \"m0\" t(x) t(f(1))".into(), false, (0..n).map(|i| (format!("m{}", i), if i + 1 == n { "t(\"last\") export let x = 1 export fn f(y) { t(y) y }".into() } else { format!("t({}) import * as n, {{ x, f }} from \"m{}\" t(n) export x export fn g(y) {{ f(y + 1) + x }} let h = f export f", i, i + 1) })).collect())
    }),
    (40, |n| (format!("import * as m from \"m0\" t(m.x) t(m.y)"), false, (0..n).map(|i| (format!("m{}", i), format!("export let x = t({}) import * as n from \"m{}\" t(n.x) export let y = n.x + 1", i, (i + 1) % n))).collect())),
    // The path itself.
    (200, |n| (format!("import {{ x }} from \"{}\" import * as m from \"{}\" t(x) t(m.x)", alike(n, n - 1, 'a'), alike(n, n - 1, 'b')), false, vec![(alike(n, n - 1, 'a'), "t(1) export let x = 1".into()), (alike(n, n - 1, 'b'), "t(2) export let x = 2".into())])),
    (200, |n| (format!("import {{ {}, {} }} from \"a\" t({}) t({})", alike(n, n - 1, 'a'), alike(n, n / 2, 'b'), alike(n, n - 1, 'a'), alike(n, n / 2, 'b')), false, vec![("a".into(), format!("export let {} = 1 export let {} = 2", alike(n, n - 1, 'a'), alike(n, n / 2, 'b')))])),
    // The main text a module.
    (120, |n| (seq(n, |i| format!("export let x{} = t({})", i, i)), true, vec![])),
    (120, |n| (seq(n, |i| format!("let x{} = t({})", i, i)) + &seq(n, |i| format!(" export x{}", (i * 7) % n)), true, vec![])),
    (120, |n| (format!("let mut x = 0 {} t(x)", seq(n, |i| format!("x += {} export x", i))), true, vec![])),
    (100, |n| (format!("export fn f() {{ 1 }} {} export let done = t(f())", seq(n, |i| format!("{{ let a = {} t(a) }}", i))), true, vec![])),
    // Imports below many locals, deep in blocks, in every branch.
    (100, |n| (format!("{} import * as m, {{ x }} from \"a\" t(x) t(m.x) t(v0) t(v{})", seq(n, |i| format!("let v{} = {}", i, i)), n - 1), false, vec![("a".into(), "export let x = t(7)".into())])),
    (100, |n| (nest(n, |i| format!("{{ let v{} = {}", i, i), format!("import {{ x, y }} from \"a\" let g = || x + v0 t(g()) t(y) t(v{})", n - 1), |i| format!("t(v{}) }}", i)), false, vec![("a".into(), "export let y = t(8) export let x = t(7)".into())])),
    (60, |n| (format!("for i in 0..{} {{ {} }}", n, seq(n, |i| format!("if i == {} {{ import {{ x{} }} from \"a\" t(x{} + i) }}", i, i, i))), false, vec![("a".into(), seq(n, |i| format!("export let x{} = {}", i, i * 2)))])),
];
/// Texts that name modules of their own, each.
const PATHS: &[&str] = &[
    "a", "A", "./a", "../a", "a/", "/a", "//a", "a//b", "a/b", "a/./b", "a/../b", "a.dm", "a.DM", "a.dm.dm", ".dm", "./a.dm", " a", "a ", "a  b", "a b", "a\tb",
    "a\nb", "a\r\nb", "é", "e\u{301}", "日/𝕏.dm", "a\\\\b", "a\\nb", "a\\\"b", "a?b", "a#b", "a%20b", "file:///a", "~/a", "$a", "*", "a:b", "C:/a", "std", "prelude", "prelude.dm",
    "#export", "self", "null", "0", "-1", "import", "'", "`a`", "a,b", "a;b", "(a)", "{ a }", "", ".", "..", "/", "…", "\u{feff}a", "a\u{200b}",
];
pub fn modules() -> Vec<Mods> {
    let mut v = vec![];
    let all: Vec<(String, String)> = PATHS.iter().enumerate().map(|(i, p)| (p.to_string(), format!("t({}) export let x = {}", i, i))).collect();
    for p in PATHS {
        v.push((format!("import {{ x }} from \"{}\" t(x)", p), false, all.clone()));
        v.push((format!("import * as m from \"{}\" t(m.x) t(\"{}\")", p, p), false, all.clone()));
    }
    let two = |f: fn(usize) -> usize| join(PATHS.len(), " ", |i| format!("import * as m{} from \"{}\" t(m{}.x)", i, PATHS[f(i)], i));
    v.push((two(|i| i), false, all.clone()));
    v.push((two(|i| PATHS.len() - 1 - i), true, all.clone()));
    v.extend(many_modules());
    v
}
fn many_modules() -> Vec<Mods> {
    MODULES.iter().flat_map(|k| sizes(k.0).into_iter().map(|n| (k.1)(n))).collect()
}

const OPERATORS: &[&str] = &["*", "/", "%", "+", "-", ">", "<", ">=", "<=", "==", "!=", "&&", "||", "..=", "..", "??", "|>"];
/// Texts to read, whether or not they mean anything.
static READ: &[(usize, fn(usize) -> String)] = &[
    (300, |n| format!("import {{ {} }} from \"a\"", list(n, |i| format!("x{}", i)))),
    (300, |n| format!("import * as m, {{ {} , }} from \"a\" x", list(n, |i| format!("x{}", i)))),
    (257, |n| format!("fn f({}) {{ }} x", list(n, |i| format!("p{}: T{}{}", i, i, if i % 3 == 0 { "?" } else { "" })))),
    (257, |n| format!("let f = |{}| p0 x", list(n, |i| format!("p{}", i)))),
    (257, |n| format!("class A {{ op #({}) {{ }} fn new(self{}) {{ }} }}", list(n, |i| format!("p{}", i)).replacen("p0", "self", 1), rep(n.min(250) - 1, ", q")).replace("op #", "fn m")),
    (300, |n| format!("f({}) x", list(n, |i| format!("a{}", i)))),
    (300, |n| format!("o.m({}).k", list(n, |i| i.to_string()))),
    (300, |n| format!("x |> f({}) |> g", list(n, |i| format!("\"{}\"", i)))),
    (300, |n| format!("super.m({})", list(n, |i| format!("{}.5", i)))),
    (300, |n| format!("super({},)", list(n, |i| format!("a{}", i)))),
    (300, |n| format!("[{}]", list(n, |i| format!("a{}", i)))),
    (300, |n| format!("[{},] x", list(n, |i| format!("[{}]", i)))),
    (300, |n| format!("let o = #{{ {} }} x", list(n, |i| format!("a{}: {}", i, i)))),
    (300, |n| format!("#{{ {}, }}", list(n, |i| format!("a{}: #{{ }}", i)))),
    (300, |n| format!("let {{ {} }} = z", list(n, |i| format!("a{}", i)))),
    (300, |n| format!("let {{ {}, }} = z x", list(n, |i| format!("{}a{}", if i % 2 == 0 { "mut " } else { "" }, i)))),
    (300, |n| format!("class A {{ {} }}", seq(n, |i| format!("fn m{}(self) {{ {} }}", i, i)))),
    (300, |n| format!("class A : B {{ {} }} x", seq(n, |i| format!("fn s{}() -> T{} {{ }}", i, i)))),
    (100, |n| format!("class A {{ {} }} x", seq(n, |i| format!("op {}(self, o) {{ {} }}", ["+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "..", "..="][i % 13], i)))),
    (300, |n| seq(n, |i| format!("class C{} {{ }}", i))),
    (300, |n| seq(n, |i| format!("fn f{}() {{ }}", i))),
    (300, |n| seq(n, |i| format!("let v{} = {}", i, i))),
    (300, |n| seq(n, |i| format!("v{}", i))),
    (300, |n| format!("if a {{ {} }} else {{ {} }}", seq(n, |i| format!("let v{} = {}", i, i)), seq(n, |i| format!("w{}", i)))),
    (300, |n| format!("{} else {{ z }}", join(n, " else ", |i| format!("if a{} {{ b{} }}", i, i)))),
    (300, |n| join(n, " else ", |i| format!("if a{} {{ b{} }}", i, i))),
    (300, |n| format!("a{}", join(n, "", |i| format!(".f{}", i)))),
    (300, |n| format!("a{}", join(n, "", |i| format!("?.f{}", i)))),
    (300, |n| format!("a{}", join(n, "", |i| format!("[{}]", i)))),
    (300, |n| format!("a{}", join(n, "", |i| format!("({})", i)))),
    (300, |n| format!("a{} x", join(n, "", |i| ["!!", ".f", "?.g", "(b)", "[c]", "!!", " is T", " is U?"][i % 8].to_string()))),
    (300, |n| format!("a{} = 3 x", join(n, "", |i| format!(".f{}", i)))),
    (300, |n| format!("a{}[2] += 3", join(n, "", |i| format!("[{}]", i)))),
    (120, |n| format!("{}0", join(n, "", |i| format!("a{} = ", i)))),
    (120, |n| format!("{}0 x", join(n, "", |i| format!("a{} {}= ", i, ["+", "-", "*", "/"][i % 4])))),
    (120, |n| format!("{}x y", rep(n, "- "))),
    (120, |n| format!("{}x", rep(n, "!"))),
    (120, |n| format!("{}x{}", rep(n, "("), rep(n, ")"))),
    (120, |n| format!("{}x{} y", rep(n, "["), rep(n, "]"))),
    (120, |n| format!("{}x{}", rep(n, "{ "), rep(n, " }"))),
    (120, |n| format!("{}x{}", rep(n, "#{ a: "), rep(n, " }"))),
    (120, |n| format!("{}x", rep(n, "|a| "))),
    (120, |n| format!("{}x", rep(n, "|| "))),
    (120, |n| format!("{}x{}", rep(n, "f("), rep(n, ")"))),
    (120, |n| format!("{}x{}", rep(n, "if a { "), rep(n, " }"))),
    (120, |n| format!("{}x{}", rep(n, "while a { "), rep(n, " }"))),
    (120, |n| format!("{}x{} y", rep(n, "loop { "), rep(n, " }"))),
    (120, |n| format!("{}x{}", rep(n, "for i in a { "), rep(n, " }"))),
    (120, |n| format!("{}x{}", rep(n, "fn f() { "), rep(n, " }"))),
    (120, |n| format!("{}x{} y", rep(n, "class A { fn m(self) { "), rep(n, " } }"))),
    (120, |n| format!("a{}", rep(n, " or e { b }"))),
    (120, |n| format!("a{}x{}", rep(n, " or e { "), rep(n, " }"))),
    (120, |n| format!("{}x", rep(n, "return "))),
    (300, |n| format!("a{}", rep(n, "!!"))),
    (300, |n| join(n + 1, " ", |i| format!("{}a{}", if i == 0 { String::new() } else { format!("{} ", OPERATORS[n % 17]) }, i))),
    (300, |n| join(n + 1, " ", |i| format!("{}a{}", if i == 0 { String::new() } else { format!("{} ", OPERATORS[(i * 7 + n) % 17]) }, i))),
    (300, |n| join(n + 1, " ", |i| format!("{}a{}", if i == 0 { String::new() } else { format!("{} ", OPERATORS[i % 2 * 3 + n % 14]) }, i))),
    (300, |n| format!("{} y", alike(n, n - 1, 'm'))),
    (300, |n| format!("let {} = \"{}\" \\{}\\", alike(n, n / 2, '_'), rep(n, "é"), rep(n, "q"))),
    (18, |n| format!("a {} b", rep(n, "9"))),
    (300, |n| format!("a 0.{} {}.5 b", rep(n, "3"), rep(n, "7"))),
    (300, |n| format!("a 00{} b", rep(n, "0"))),
    (300, |n| format!("a \"{}\" b", rep(n, "\\n"))),
    (300, |n| format!("a \"{}\" b", rep(n, "\\\""))),
    (300, |n| format!("a \"{}\" b", rep(n, "\n"))),
    (300, |n| format!("a //{}\n b", rep(n, "/"))),
    (300, |n| format!("a //{}\n b", rep(n, "𝕏"))),
    (300, |n| format!("{}a{}b", rep(n, "// c\n"), rep(n, "\n"))),
    (300, |n| format!("a{}b{}", rep(n, " "), rep(n, "\t"))),
    (300, |n| format!("fn f() -> {} {{ a }} fn g(x: {}?) {{ }} a is {}", alike(n, 0, 'T'), alike(n, n - 1, 'T'), alike(n, n / 2, 'U'))),
];
/// A long stretch without tokens.
fn far(r: &mut Rng) -> String {
    let n = 65_500 + r.below(100);
    match r.below(4) {
        0 => " ".repeat(n),
        1 => "\n".repeat(n),
        2 => format!("//{}\n", "é".repeat(n)),
        _ => "// 𝕏\n".repeat(n),
    }
}
/// Texts to read, now and then: every size of every kind, as it is or with its tokens or characters disturbed.
pub fn read(r: &mut Rng, idx: u64, disturb: usize) -> Option<String> {
    if idx % 4001 == 4000 {
        let all = reading();
        let s = r.pick(all).clone();
        return Some(far(r) + &disturbed(r, s, disturb));
    }
    if idx % 20 != 13 {
        return None;
    }
    let s = reading().get((idx / 20) as usize)?.clone();
    Some(disturbed(r, s, disturb))
}
pub fn disturbed(r: &mut Rng, s: String, pct: usize) -> String {
    if !r.pct(pct) {
        return s;
    }
    let mut toks: Vec<String> = lex(&s).iter().filter(|t| t.e > t.s).map(|t| s[t.s..t.e].to_string()).collect();
    match r.below(4) {
        // At the end, where all of it has been read.
        0 => {
            let n = toks.len() - r.below(toks.len().min(4));
            toks.truncate(n);
            if r.pct(50) {
                toks.push(r.pick(crate::synth::SOUP).to_string());
            }
        }
        1 => toks.truncate(r.below(toks.len() + 1)),
        _ => crate::synth::mutate(&mut toks, r),
    }
    let style = r.below(4) as u8;
    crate::print::layout(&toks, style, r)
}
pub fn reading() -> &'static [String] {
    static ALL: OnceLock<Vec<String>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut v: Vec<String> = READ.iter().flat_map(|k| sizes(k.0).into_iter().map(|n| (k.1)(n))).collect();
        v.extend(programs("").into_iter().enumerate().filter(|x| x.1.len() < 3000 || x.0 % 4 == 0).map(|x| x.1));
        v
    })
}
