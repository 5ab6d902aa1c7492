//! Expressions put into the places of other expressions, a few deep, inside every kind of body.
//! A generator of whole programs hardly ever makes most of these pairs.
use crate::rng::Rng;

/// What goes in, what comes out and the text: i(nt), b(ool), l(ist), o(bject), f(unction of one),
/// r(esult), n(ull or unit), s(tring), k (class instance), ? (anything).
type Place = (char, char, &'static str);

const PLACES: &[Place] = &[
    // Operators.
    ('i', 'i', "(@ + t(1))"),
    ('i', 'i', "(t(2) - @)"),
    ('i', 'i', "@ * t(3)"),
    ('i', 'i', "t(7) + @ * t(2)"),
    ('i', 'i', "(t(7) - @) - t(2)"),
    ('i', 'i', "t(9) - (@ - t(2))"),
    ('i', 'i', "-@"),
    ('i', 'i', "-(@ + 1)"),
    ('i', 'b', "@ < t(3)"),
    ('i', 'b', "t(3) >= @"),
    ('?', 'b', "@ == t(1)"),
    ('?', 'b', "t(null) != @"),
    ('?', 'b', "(@) != (@)"),
    ('b', 'b', "!@"),
    ('b', 'b', "@ && t(true)"),
    ('b', 'b', "t(true) && @"),
    ('b', 'b', "@ || t(false)"),
    ('b', 'b', "t(false) || @"),
    ('b', 'b', "(t(true) && @) || t(true)"),
    ('?', '?', "@ ?? t(5)"),
    ('?', '?', "t(null) ?? @"),
    ('?', '?', "null ?? (@ ?? null)"),
    ('?', 'b', "@ is Int"),
    ('?', 'b', "@ is A?"),
    ('?', '?', "@ |> id"),
    ('?', '?', "@ |> two(id, t(4))"),
    ('?', '?', "t(3) |> two(id, @)"),
    ('?', '?', "t(1) |> { @ id }"),
    ('f', '?', "t(6) |> @"),
    ('i', 'l', "list(@..4)"),
    ('i', 'l', "list(0..@)"),
    ('i', 'l', "list(@..=(@))"),
    // Lists, objects, calls.
    ('?', 'l', "[@]"),
    ('?', 'l', "[t(1), @, t(2)]"),
    ('?', 'l', "[@, @]"),
    ('?', 'o', "#{ a: 1, n: @ }"),
    ('i', 'o', "#{ a: @, n: t(null), l: [1] }"),
    ('l', 'i', "@[0]"),
    ('l', 'i', "(@)[t(0)]"),
    ('i', '?', "[t(4), t(5), t(6)][@]"),
    ('o', 'i', "@.a"),
    ('o', '?', "@?.a"),
    ('o', '?', "(@).n?.a.b(t(1))"),
    ('o', '?', "@[t(\"a\")]"),
    ('?', '?', "id(@)"),
    ('?', '?', "two(@, t(1))"),
    ('?', '?', "two(t(1), @)"),
    ('?', '?', "two(@, t(1))(t(8))"),
    ('f', '?', "@(t(2))"),
    ('f', '?', "(@)(t(2))"),
    ('?', '?', "id?(@)"),
    ('?', '?', "(null)?(@)"),
    ('?', '?', "ob.m(@)"),
    ('?', '?', "ob.id?.x(@)"),
    ('?', '?', "A(@).x"),
    ('?', 'k', "A(@)"),
    ('?', 'k', "B(@, t(1))"),
    ('?', '?', "A(t(1)).m(@)"),
    ('?', '?', "A.s(@)"),
    ('?', '?', "A(t(1)) + @"),
    ('?', '?', "A(@) + t(2)"),
    ('k', '?', "(@).m(t(3))"),
    ('k', '?', "(@) + t(3)"),
    ('k', '?', "(@).x"),
    ('i', 'i', "tint(@)"),
    // Blocks, conditions and loops.
    ('?', '?', "{ @ }"),
    ('?', '?', "{ t(1) @ }"),
    ('?', '?', "{ @ t(1) }"),
    ('?', '?', "{ let v = @ v }"),
    ('?', '?', "{ let mut v = t(1) v = @ v }"),
    ('?', '?', "{ let v = @ let g = || v g() }"),
    ('?', '?', "{ let mut v = t(0) let g = || { v = @ v } t(g()) v }"),
    ('?', '?', "{ let { a } = #{ a: @ } a }"),
    ('o', 'i', "{ let { a } = @ a }"),
    ('o', '?', "{ let { l, a } = @ let z = [l, a] z[1] }"),
    ('i', 'i', "{ let mut v = t(1) v += @ v }"),
    ('i', 'i', "{ let mut v = t(9) v -= (@ * 2) v }"),
    ('b', '?', "if @ { t(1) } else { t(2) }"),
    ('b', '?', "if !@ { t(1) } else if @ { t(2) } else { t(3) }"),
    ('b', '?', "if t(false) { t(1) } else if @ { t(2) } else { t(3) }"),
    ('?', '?', "if t(true) { @ } else { t(2) }"),
    ('?', '?', "if t(false) { t(1) } else { @ }"),
    ('?', '?', "if t(false) { t(1) } else if t(true) { @ } else { t(1) }"),
    ('?', 'n', "if t(false) { @ }"),
    ('b', 'i', "{ let mut c = 0 while c < 3 && @ { c += 1 } c }"),
    ('b', 'i', "{ let mut c = 0 while !(c > 2 || @) { c += 1 } c }"),
    ('b', 'i', "{ let mut c = 0 while @ { c += 1 if c > 2 { break } } c }"),
    ('b', 'i', "{ let mut c = 0 while c < 4 { c += 1 if @ { continue } t(c) } c }"),
    ('b', 'i', "{ let mut c = 0 loop { c += 1 if @ { break } if c > 3 { break } t([c]) } c }"),
    ('?', 'i', "{ let mut c = 0 while c < 2 { c += 1 t(@) } c }"),
    ('?', 'i', "{ let mut c = 0 loop { c += 1 @ if c == 2 { break } } c }"),
    ('l', 'l', "{ let out = [] for i in @ { out.push(i) } out }"),
    ('l', 'i', "{ let mut c = 0 for i in @ { let j = i let g = || j t(g()) c += 1 } c }"),
    ('i', 'i', "{ let mut c = 0 for i in 0..@ { c += i } c }"),
    ('?', 'l', "{ let out = [] for i in 0..2 { out.push(@) } out }"),
    ('?', 'l', "{ let out = [] for i in [1, 2] { out.push(|| [i, @]) } out.map(|g| g()) }"),
    // Functions and classes.
    ('?', 'f', "|x| [x, @]"),
    ('?', 'f', "|x| { t(x) return @ }"),
    ('?', '?', "(|| @)()"),
    ('?', '?', "(|x| { x })(@)"),
    ('?', '?', "(|x, y| { y })(t(1), @)"),
    ('?', '?', "{ fn h() { @ } h() }"),
    ('?', '?', "{ fn h(p) { return @ } h(t(1)) }"),
    ('?', '?', "{ fn h(p, q) { if t(p) { return @ } t(q) } two(h(true, 1), h(false, 2)) }"),
    ('?', '?', "{ fn h(p) { for i in 0..3 { let j = i let g = || j if i == p { return @ } t(g()) } p } h(1) }"),
    ('i', 'i', "{ fn h(p: Int) -> Int { t(p) @ } h(t(1)) }"),
    ('i', 'i', "{ fn h(p: Int?) -> Any { p } h(@) }"),
    ('?', '?', "{ class W { fn new(self) { self.x = @ } } W().x }"),
    ('?', '?', "{ class W { fn m(self, a) { @ } } W().m(t(1)) }"),
    ('?', '?', "{ class W { fn m(self) { || @ } } W().m()() }"),
    ('?', '?', "{ class W { fn s() { @ } } W.s() }"),
    ('?', '?', "{ class W { op *(self, o) { @ } } W() * t(2) }"),
    ('?', '?', "{ class W : A { fn new(self, a) { super(@) self.y = a } } W(t(1)).x }"),
    ('?', '?', "{ class W : A { fn m(self, a) { super.m(@) } } W(t(1)).m(t(2)) }"),
    ('?', '?', "{ class W : B { fn m(self, a) { super[A].m(@) } } W(t(1), t(2)).m(t(3)) }"),
    // Assignment.
    ('?', '?', "{ let q = #{ } q.z = @ q.z }"),
    ('i', 'i', "{ let q = #{ z: 3 } q.z += @ q.z }"),
    ('i', 'i', "{ let q = [t(1), t(2)] q[1] = @ q[1] }"),
    ('i', 'i', "{ let q = [t(8), t(2)] q[0] -= @ q[0] }"),
    ('i', 'l', "{ let q = [t(8), t(2), t(3)] q[if (@) > 1 { 1 } else { 0 }] *= 5 q }"),
    ('o', 'i', "{ (@).a = t(5) ob.a }"),
    ('o', 'i', "{ let q = @ q.a *= t(2) q.a }"),
    ('l', 'l', "{ let q = @ q[0] = t(7) q }"),
    ('k', '?', "{ let q = @ q.x = t(7) q.x }"),
    ('?', '?', "(vm = @)"),
    ('i', '?', "(vm += @)"),
    ('?', '?', "(ob.q = @)"),
    ('i', '?', "(ob.a *= @)"),
    ('i', '?', "(li[t(0)] = @)"),
    ('i', '?', "(li[1] -= @)"),
    ('i', '?', "{ vm = @ }"),
    ('i', '?', "{ li[1] += @ }"),
    ('l', '?', "{ (@)[t(0)] += t(2) }"),
    ('l', '?', "{ (@)[t(0)] = t(2) li }"),
    ('o', '?', "{ (@).a -= t(2) ob.a }"),
    ('i', 'l', "{ let q = [1, 2, 3, 4, 5, 6, 7, 8] q[@] = t(9) q }"),
    ('i', 'l', "{ let q = [1, 2, 3, 4, 5, 6, 7, 8] q[@] += t(9) q }"),
    ('s', 'o', "{ let q = #{ a: 1 } q[@] = t(9) q }"),
    // A value nobody takes.
    ('?', '?', "{ fn h() { @ t(1) } h() }"),
    ('?', '?', "{ fn h() { @ } h() }"),
    ('?', '?', "(|| { @ return t(1) })()"),
    ('?', 'i', "{ for i in 0..2 { @ t(i) } 1 }"),
    ('?', 'i', "{ for i in [1, 2] { @ } 1 }"),
    ('?', 'i', "{ let mut c = 0 while c < 2 { @ c += 1 } c }"),
    ('?', 'i', "{ let mut c = 0 while c < 2 { c += 1 @ } c }"),
    ('?', 'i', "{ let mut c = 0 loop { @ c += 1 if c == 2 { break } t(c) } c }"),
    ('?', '?', "if t(true) { @ t(1) } else { @ }"),
    ('?', '?', "if t(false) { t(1) @ } else { @ t(2) }"),
    ('?', '?', "Err(t(1)) or e { @ t(e) }"),
    ('?', '?', "{ class W { fn new(self) { @ self.x = t(1) } fn m(self) { @ t(2) } fn s() { @ t(3) } op -(self, o) { @ t(4) } } t(W.s()) t(W() - 1) W().m() }"),
    ('?', '?', "{ class W { fn new(self) { self.x = t(1) @ } fn s() { @ } op -(self, o) { @ } } t(W.s()) t(W() - 1) W().x }"),
    // Null and error propagation.
    ('?', '?', "(@)?.zz"),
    ('?', '?', "t(@)?.zz ?? t(4)"),
    ('r', '?', "@ or e { t(e) }"),
    ('?', '?', "Ok(@) or e { t(e) }"),
    ('?', '?', "Err(@) or e { [e, t(1)] }"),
    ('?', '?', "Err(t(1)) or e { @ }"),
    ('?', '?', "Err(t(1)) or e { let k = || [e, @] k() }"),
    ('?', 'r', "Ok(@)"),
    ('?', 'r', "Err(@)"),
    ('r', '?', "(|| (@)!!)()"),
    ('r', '?', "{ fn h() { let a = t(1) let b = [a, (@)!!] t(b) } h() }"),
    ('r', '?', "{ fn h() { for i in 0..2 { let j = i let g = || j t([g(), (@)!!]) } } h() }"),
    ('?', '?', "(|| Ok(@)!!)()"),
];

const LEAVES: &[(char, &str)] = &[
    ('i', "t(1)"),
    ('i', "2"),
    ('i', "v1"),
    ('i', "vm"),
    ('i', "ob.a"),
    ('i', "li[t(1)]"),
    ('i', "{ vm += 1 vm }"),
    ('i', "{ v1 }"),
    ('i', "cap()"),
    ('i', "id(t(0))"),
    ('i', "li.length()"),
    ('b', "t(true)"),
    ('b', "t(false)"),
    ('b', "true"),
    ('b', "vm > t(1)"),
    ('b', "li is Array"),
    ('l', "[t(1), t(2)]"),
    ('l', "li"),
    ('l', "[]"),
    ('l', "{ li.push(t(5)) li }"),
    ('o', "ob"),
    ('o', "#{ a: t(1), n: null, l: [2] }"),
    ('o', "t(ob)"),
    ('f', "id"),
    ('f', "ob.m"),
    ('f', "|x| t([x])"),
    ('f', "A.s"),
    ('f', "A(t(2)).m"),
    ('k', "A(t(1))"),
    ('k', "B(t(1), t(2))"),
    ('r', "Ok(t(1))"),
    ('r', "Err(t(2))"),
    ('n', "null"),
    ('n', "t(null)"),
    ('n', "()"),
    ('n', "{ }"),
    ('n', "ob.n"),
    ('n', "ob.n?.a"),
    ('s', "\"s\""),
    ('s', "t(\"a\")"),
    ('?', "2.5"),
    ('?', "A"),
    ('?', "v1..vm"),
];
/// What a body adds: only there.
const OWN: &[(&str, char, &str)] = &[
    ("self", 'k', "self"),
    ("self", '?', "self.x"),
    ("self", '?', "self.m(t(1))"),
    ("self", 'f', "self.m"),
    ("self", '?', "{ self.x = t(4) self.x }"),
    ("super", '?', "super.m(t(1))"),
    ("super", 'f', "super.m"),
    ("super", '?', "super[A].m(t(2))"),
    ("super", 'f', "super[A].m"),
    ("super", '?', "super.x"),
    ("new", '?', "super(t(1))"),
    ("new", '?', "super(t(1), t(2))"),
    ("fn", 'i', "p1"),
    ("fn", 'i', "{ let w = p1 let g = || w + p2 g() }"),
    ("fn", '?', "{ return t(3) }"),
    ("fn", '?', "{ if p1 > 0 { return t(3) } t(p1) }"),
    ("fn", '?', "Err(t(2))!!"),
    ("fn", '?', "Ok(t(2))!!"),
    ("loop", '?', "{ break }"),
    ("loop", '?', "{ continue }"),
    ("loop", '?', "{ if it == 1 { continue } it }"),
    ("loop", '?', "{ let z = it keep.push(|| z) break }"),
    ("loop", 'i', "it"),
    ("loop", '?', "{ keep.push(|| it) it }"),
];
/// Bodies: what they offer and the text around.
const HOSTS: &[(&str, &str)] = &[
    ("", "let w0 = t(0) @ t([w0, v1])"),
    ("", "t([t(0), @, t(9)])"),
    ("fn", "fn run(p1, p2) { let w0 = t(0) let w1 = @ t([w0, w1, p1, p2]) } t(run(1, 2))"),
    ("fn", "fn run(p1, p2) { @ } t(run(1, 2))"),
    ("fn", "fn run(p1, p2) { return @ } t(run(1, 2))"),
    ("fn", "let run = |p1, p2| @ t(run(1, 2))"),
    ("fn", "let run = |p1, p2| { let w0 = t(0) t([w0, @]) } t(run(1, 2))"),
    ("fn", "fn outer(p1) { let mut w0 = t(0) fn inner(p2) { w0 += 1 @ } t(inner(2)) w0 } t(outer(1))"),
    ("fn self", "class H : A { fn go(self, p1, p2) { let w0 = t(0) t([w0, @, p1]) } } t(H(4).go(1, 2))"),
    ("fn self super", "class H : B { fn go(self, p1, p2) { @ } } t(H(4, 5).go(1, 2))"),
    ("fn self super", "class H : B { fn go(self, p1, p2) { let w0 = t(0) let g = || { let w1 = t(1) return [w0, w1, @] } t(g()) w0 } } t(H(4, 5).go(1, 2))"),
    ("fn self super", "class H : B { op -(self, p1) { let p2 = t(2) t([p2, @]) } } t(H(4, 5) - 3)"),
    ("fn self super", "class H : B { fn m(self, x) { let p1 = x let p2 = 2 let deep = |x| [x, @] if x > 8 { return x } t(deep(x)) } } t(H(4, 5).m(1))"),
    ("fn", "class H { fn st(p1, p2) { t([t(0), @]) } } t(H.st(1, 2))"),
    ("new self super", "class H : A { fn new(self, q) { super(q) let w0 = t(0) self.r = @ t(w0) } } let h = H(4) t(h.r)"),
    ("new self super", "class H : B { fn new(self, q) { super(q, @) t(self.x) } } let h = H(4)"),
    ("loop", "for it in 0..3 { let w0 = it t([w0, @]) t(w0) }"),
    ("loop", "for it in [0, 1, 2] { @ t(it) }"),
    ("loop", "let mut it = 0 while it < 3 { it += 1 let w0 = it let w1 = @ t([w0, w1]) }"),
    ("loop", "let mut it = 0 loop { it += 1 if it > 3 { break } let w0 = t(it) t([w0, @]) }"),
    ("loop fn", "fn run(p1, p2) { for it in 0..3 { let w0 = it keep.push(|| w0) t([w0, @]) } p1 } t(run(1, 2))"),
    ("loop fn self super", "class H : B { fn go(self, p1, p2) { for it in [1, 2] { let w0 = it t([w0, @]) } self.x } } t(H(4, 5).go(1, 2))"),
    ("", "t(Err(t(3)) or e { let w0 = e t([w0, @]) })"),
    ("", "if t(true) { let w0 = t(0) t([w0, @]) t(w0) }"),
    ("", "if @ == t(1) { t(2) } else { t(3) }"),
    ("", "{ let w0 = t(0) { let w1 = t(1) t([w0, w1, @]) } t(w0) }"),
    ("", "export let ex = @ t(ex)"),
];
const HEAD: &str = "class A { fn new(self, x) { self.x = x } fn m(self, x) { t([self.x, x]) x } fn s(x) { t([x]) x } op +(self, o) { t([self.x, o]) o } }\n\
class B : A { fn new(self, x, y) { super(x) self.y = y } fn m(self, x) { t([self.y, x]) } }\n\
fn id(x) { t([x]) x }\nfn two(a, b) { t([a, b]) a }\nfn tint(a: Int) -> Int { a }\nfn list(r) { let out = [] for i in r { if out.length() > 5 { break } out.push(i) } out }\n\
let v1 = 1\nlet mut vm = 2\nlet li = [t(3), t(4), t(5)]\nlet ob = #{ a: 7, n: null, l: [1] }\nob.m = |x| t([x, 1])\nob.id = #{ x: id }\nlet keep = []\nfn cap() { vm += 1 vm }\n";
const TAIL: &str = "\nfor k in keep { t(k()) }\nt([v1, vm, li, ob.a])";

fn suits(want: char, is: char) -> bool {
    want == '?' || is == '?' || want == is
}
/// An expression of a kind (nearly always).
fn make(rng: &mut Rng, want: char, host: &str, depth: usize) -> String {
    if rng.pct(6) {
        return make(rng, '?', host, depth);
    }
    if depth == 0 {
        let own: Vec<&str> = OWN.iter().filter(|(h, k, _)| host.split(' ').any(|x| x == *h) && suits(want, *k)).map(|x| x.2).collect();
        if !own.is_empty() && rng.pct(45) {
            return rng.pick(&own).to_string();
        }
        let any: Vec<&str> = LEAVES.iter().filter(|(k, _)| suits(want, *k)).map(|x| x.1).collect();
        return rng.pick(&any).to_string();
    }
    let p: Vec<&Place> = PLACES.iter().filter(|p| suits(want, p.1)).collect();
    let p = *rng.pick(&p);
    // What is inside a function of its own is not where the body's statements would be.
    let inside = if p.2.contains("fn ") || p.2.contains('|') && !p.2.contains("||") && !p.2.contains("|>") || p.2.contains("|| @") || p.2.contains("|| [") || p.2.contains("|| (") || p.2.contains("|| {") {
        match (host.contains("super"), p.2.contains("class")) {
            (true, false) => "fn self super".to_string(),
            _ => "".to_string(),
        }
    } else if p.2.contains("while") || p.2.contains("loop {") || p.2.contains("for i") {
        host.replace("loop", "")
    } else {
        host.to_string()
    };
    // A parameter of the host is still to be seen from inside.
    let inside = if inside.contains("fn") && !host.contains("fn") { inside.replace("fn", "") } else { inside };
    let mut s = String::new();
    for (i, part) in p.2.split('@').enumerate() {
        if i > 0 {
            // `part` is what follows the hole.
            let deeper = if i == 1 { depth - 1 } else { 0 };
            let x = make(rng, p.0, &inside, deeper);
            let x = if rng.pct(30) && !x.starts_with('(') { format!("({})", x) } else { x };
            let x = if s.is_empty() && (x.starts_with('{') || x.starts_with("if ") || x.starts_with('|')) && !part.is_empty() { format!("({})", x) } else { x };
            s.push_str(&apart(&s, x));
        }
        s.push_str(part);
    }
    s
}

/// Nothing that would go on from the statement before it.
fn apart(before: &str, x: String) -> String {
    let after = before.ends_with(") ") || before.ends_with("} ") || before.ends_with("0 ") || before.ends_with("1 ");
    if after && x.starts_with(|c| "([-|.".contains(c)) {
        format!("{{ {} }}", x)
    } else {
        x
    }
}

/// A program: one body with expressions a few deep inside it.
pub fn program(rng: &mut Rng, export: bool) -> String {
    let mut s = HEAD.to_string();
    let one = rng.pct(60);
    for _ in 0..if one { 1 } else { rng.range(2, 3) } {
        let depth = *rng.pick(&[0, 1, 1, 2, 2, 2, 3, 3, 4]);
        let (offers, text) = *rng.pick(HOSTS);
        let x = make(rng, '?', offers, depth);
        let text = text.replace("export ", if one && export { "export " } else { "" });
        let (before, after) = text.split_once('@').unwrap();
        let x = apart(before, x);
        // Only one of each name.
        s.push_str(&if one { format!("{}{}{}\n", before, x, after) } else { format!("{{ {}{}{} }}\n", before, x, after) });
    }
    s + TAIL
}
/// The names in these programs that could be any others.
pub fn free(n: &str) -> bool {
    const FREE: &str = " v1 vm ob li keep cap id two tint list A B H W w0 w1 p1 p2 it x m s q y g v c i j h z out run k a b l n o go deep st ex outer inner ";
    FREE.contains(&format!(" {} ", n))
}
