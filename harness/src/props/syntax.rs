//! Reading programs: tokens, structure, acceptance.
use crate::ast::*;
use crate::conv::conv;
use crate::fw::*;
use crate::lex::K;
use crate::parse::{parse, Node, PErr, Parsed};
use crate::print;
use crate::props::lots;
use crate::props::text::ref_position;
use crate::rng::Rng;
use crate::synth::{mutate, Syn, SOUP};
use dice_core::error::Error;
use dice_core::source::{Source, SourceKind};
use dice_syntax::Parser;

/// Code, 1-based line and column of a report.
pub fn located(e: &Error) -> Result<(String, usize, usize), String> {
    let long = format!("{}", e);
    let loc = long
        .lines()
        .find_map(|l| l.trim().strip_prefix("--> ").map(|x| x.to_string()))
        .ok_or_else(|| format!("the report has no location:\n{}", long))?;
    let mut it = loc.rsplitn(3, ':');
    let col = it.next().and_then(|x| x.parse().ok());
    let line = it.next().and_then(|x| x.parse().ok());
    match (line, col) {
        (Some(l), Some(c)) => Ok((e.error_code().to_string(), l, c)),
        _ => Err(format!("the location is {:?}", loc)),
    }
}

pub enum Seen {
    Tree { items: Vec<E>, leaves: Vec<(usize, usize)>, nodes: usize, ranges: Vec<(&'static str, usize, usize)> },
    Error { code: String, line: usize, col: usize, text: String },
}
pub fn observe(src: &str, kind: SourceKind) -> Result<Seen, String> {
    let source = Source::new(src.to_string(), kind);
    match Parser::new(&source).parse() {
        Ok(t) => {
            let (items, c) = conv(&t);
            if let Some(b) = c.bad {
                return Err(b);
            }
            for (a, b) in &c.spans {
                if a > b || *b > src.len() || !src.is_char_boundary(*a) || !src.is_char_boundary(*b) {
                    return Err(format!("a node has the span {}..{}, which is no stretch of the text", a, b));
                }
            }
            Ok(Seen::Tree { items, leaves: c.leaves, nodes: c.nodes, ranges: c.ranges })
        }
        Err(e) => {
            let (code, line, col) = located(&e)?;
            Ok(Seen::Error { code, line, col, text: format!("{}", e) })
        }
    }
}

fn first_diff(a: &[E], b: &[E]) -> String {
    fn short(e: &E) -> String {
        let s = format!("{:?}", e);
        s.chars().take(400).collect()
    }
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x == y => {}
            (x, y) => {
                return format!(
                    "item {}: read as {}, expected {}",
                    i,
                    x.map(short).unwrap_or("nothing".into()),
                    y.map(short).unwrap_or("nothing".into())
                )
            }
        }
    }
    "no difference".into()
}

#[derive(Clone, Copy, PartialEq)]
pub enum Look {
    Structure,
    Leaves,
    Everything,
}

/// The first node whose range is not that of its text.
fn spans_differ(src: &str, seen: &[(&'static str, usize, usize)], want: &[Node]) -> Option<String> {
    let i = (0..seen.len().max(want.len())).find(|i| match (seen.get(*i), want.get(*i)) {
        (Some((k, a, b)), Some(n)) => n.kind != *k || (*a != n.s && *a != n.s2) || (*b != n.e && *b != n.e2),
        _ => true,
    })?;
    let (seen, want) = (seen.get(i), want.get(i));
    Some(format!(
        "node {} of the tree is {:?} with the text {:?}, but should be {:?} with the text {:?}",
        i,
        seen,
        seen.and_then(|s| src.get(s.1..s.2)),
        want,
        want.and_then(|s| src.get(s.s..s.e))
    ))
}

/// Compares what the parser does with what the grammar says.
pub fn agree(c: &mut Ctx, src: &str, want: &Result<Parsed, PErr>, look: Look) -> Res {
    let kind = if c.rng.pct(50) { SourceKind::Script } else { SourceKind::Module };
    let seen = match observe(src, kind) {
        Ok(s) => s,
        Err(m) => return viol(m, src),
    };
    match (seen, want) {
        (Seen::Tree { items, leaves, nodes, ranges }, Ok(p)) => {
            if items != p.items {
                return viol(format!("the text is read with the wrong structure: {}", first_diff(&items, &p.items)), src);
            }
            if look != Look::Structure && leaves != p.leaves {
                let i = leaves.iter().zip(&p.leaves).position(|(a, b)| a != b).unwrap_or(0);
                return viol(
                    format!("name or literal {} of the tree is placed at {:?}, but is at {:?}", i, leaves.get(i), p.leaves.get(i)),
                    src,
                );
            }
            if look == Look::Everything {
                if let Some(m) = spans_differ(src, &ranges, &p.nodes) {
                    return viol(m, src);
                }
                c.count("ranges compared", (ranges.len() + leaves.len()) as u64);
                for n in &p.nodes {
                    c.count(&format!("range of {}", n.kind), 1);
                }
            }
            c.count("accepted texts", 1);
            c.count("tree nodes compared", nodes as u64);
            c.count("tokens of accepted texts", p.tokens as u64);
        }
        (Seen::Error { code, line, col, text }, Err(w)) => {
            let (l, k) = ref_position(src, w.s);
            if (line, col) != (l + 1, k + 1) {
                return viol(
                    format!(
                        "the text stops being a program at {}:{} ({:?}), but the error is reported at {}:{}\n{}",
                        l + 1,
                        k + 1,
                        src.get(w.s..w.e).unwrap_or(""),
                        line,
                        col,
                        text
                    ),
                    src,
                );
            }
            if !w.codes.contains(&code.as_str()) {
                return viol(format!("the error has code {}, expected one of {:?}\n{}", code, w.codes, text), src);
            }
            c.count("rejected texts", 1);
            c.count(&format!("rejected with {}", code), 1);
        }
        (Seen::Tree { .. }, Err(w)) => {
            let (l, k) = ref_position(src, w.s);
            return viol(
                format!("the text is accepted, but is no program from {}:{} on ({:?}, {:?})", l + 1, k + 1, src.get(w.s..w.e), w.codes),
                src,
            );
        }
        (Seen::Error { code, line, col, text }, Ok(_)) => {
            return viol(format!("a program of the language is rejected with {} at {}:{}\n{}", code, line, col, text), src)
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- S01

const CHARS: &[&str] = &[
    " ", "\n", "\t", "\r", "\u{c}", "//", "// c\n", "//\n", "//\r\n", "///", "/", "//é\n", "a", "_", "if", "in", "is", "or", "x1",
    "fn", "let", "await", "1", "0", "12", ".", "..", "..=", "=", "==", "!", "!=", "!!", "?", "??", "-", "->", "-=", "+", "*", "%",
    ">", ">=", "<", "<=", "&&", "&", "|", "|>", "||", ":", ",", "#", "(", ")", "[", "]", "{", "}", "\"", "\"s\"", "\"\\\"\"",
    "\"\\n\"", "\\", "\\a\\", "\\q", "é", "𝕏", "@", "$", "'", "`", "~", "^", ";", "\u{b}", "\u{a0}", "\u{0}", "1.5", "3.", ".5",
    "1.x", "nulls", "trues", "super", "orx", "\"é日𝕏\"", "\"a\nb\"", "\"\\\\\"", "\\é\n\\",
];
/// Pieces that read as a whole item each, so that a run of them is a program and every one shows in the tree.
fn atom(r: &mut Rng) -> String {
    match r.below(9) {
        0 => {
            let n = *r.pick(&["0", "7", "42", "007", "9223372036854775807", "1000000", "00"]);
            n.to_string()
        }
        1 => r.pick(&["0.5", "1.0", "3.25", "00.10", "123456789.987654321", "0.1"]).to_string(),
        2 | 3 => {
            let mut s = String::from("\"");
            for _ in 0..r.below(5) {
                s.push_str(r.pick(&["a", " ", "\\n", "\\\\", "\\\"", "\\t", "\\r", "é", "𝕏", "//", "\n", "'", "{", "\u{0}", "日本"]));
            }
            s.push('"');
            s
        }
        4 => r.pick(&["true", "false", "null"]).to_string(),
        5 => {
            // Words built on keywords and reserved words.
            let all: Vec<&str> = crate::lex::KEYWORDS.iter().chain(crate::lex::RESERVED).copied().collect();
            let k = *r.pick(&all);
            match r.below(5) {
                0 => format!("{}{}", k, r.pick(&["s", "_", "1", "A"])),
                1 => format!("{}{}", r.pick(&["_", "a", "Z"]), k),
                2 => k.to_uppercase(),
                3 => format!("{}{}", k, r.pick(&all)),
                _ => format!("{}{}", &k[..k.len() - 1], "_"),
            }
        }
        _ => {
            let mut s = String::new();
            s.push(*r.pick(&['a', 'z', 'A', 'Z', '_', 'm']));
            for _ in 0..r.below(6) {
                s.push(*r.pick(&['a', 'z', 'A', 'Z', '_', '0', '9', 'q']));
            }
            s
        }
    }
}
fn trivia(r: &mut Rng, must: bool) -> String {
    let mut s = String::new();
    let n = r.below(4);
    for _ in 0..n {
        s.push_str(r.pick(&[
            " ", "\n", "\t", "\r", "\r\n", "\u{c}", "//\n", "//\r", "// x\n", "//// 1 \"\n", "// é𝕏 \\ \" '\r\n", "//\u{0}\n", "  ",
        ]));
    }
    if must && s.is_empty() {
        s.push(' ');
    }
    s
}
/// A text that tries the lexer.
pub fn lexical(c: &mut Ctx) -> String {
    let pairs = (SOUP.len() * SOUP.len()) as u64;
    let src;
    if let Some(s) = lots::read(&mut c.rng, c.idx, 40) {
        c.count("texts with a lot of one thing", 1);
        return s;
    }
    if c.idx < pairs {
        let (a, b) = (SOUP[c.idx as usize / SOUP.len()], SOUP[c.idx as usize % SOUP.len()]);
        src = match c.rng.below(3) {
            0 => format!("{}{}", a, b),
            1 => format!("x {}{}", a, b),
            _ => format!("x{}{}x", a, b),
        };
        c.count("glued pairs", 1);
    } else {
        match c.rng.below(3) {
            0 => {
                // A run of literals and names with trivia between them.
                let n = c.rng.range(1, 12);
                let mut s = trivia(&mut c.rng, false);
                for i in 0..n {
                    let a = atom(&mut c.rng);
                    let glue = s.is_empty() || !s.ends_with(|x: char| x.is_ascii_alphanumeric() || x == '_');
                    if i > 0 && !(glue && c.rng.pct(30)) {
                        let t = trivia(&mut c.rng, true);
                        s.push_str(&t);
                    }
                    s.push_str(&a);
                }
                s.push_str(&trivia(&mut c.rng, false));
                if c.rng.pct(10) {
                    s.push_str("// the end");
                }
                src = s;
                c.count("runs of atoms", 1);
            }
            1 => {
                let n = c.rng.range(1, 14);
                let k = c.rng.range(2, 12);
                let pool: Vec<&str> = (0..k).map(|_| *c.rng.pick(CHARS)).collect();
                let mut s = String::new();
                for _ in 0..n {
                    s.push_str(c.rng.pick(&pool));
                }
                src = s;
                c.count("character soups", 1);
            }
            _ => {
                // A valid program with one lexical disturbance.
                let budget = c.rng.range(3, 30) as i64;
                let items = Syn::new(&mut c.rng, budget, 6).program();
                let st = print::random_style(&mut c.rng);
                let mut s = print::program(&items, st, &mut c.rng);
                let b: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
                let at = *c.rng.pick(&b);
                match c.rng.below(3) {
                    0 => s.insert_str(at, c.rng.pick(CHARS)),
                    1 if at < s.len() => {
                        s.remove(at);
                    }
                    _ => s.truncate(at),
                }
                src = s;
                c.count("disturbed programs", 1);
            }
        }
    }
    src
}
/// Now and then, a text that stands far into its source.
pub fn far(c: &mut Ctx, src: String, items: bool) -> String {
    if c.idx % 2503 != 2502 {
        return src;
    }
    let r = &mut c.rng;
    // Often so that the text lies across a power of two.
    let to = match r.below(4) {
        0 => 65_536 - r.below(src.len() + 3),
        1 => 131_072 - r.below(src.len() + 3),
        2 => 65_536,
        _ => 65_500 + r.below(80_000),
    };
    let unit = *r.pick(&["\n", " ", "// a\n", "// é𝕏\n", "\r\n", "x\n", "1 ", "//long"]);
    let unit = if !items && ["x\n", "1 "].contains(&unit) { "\t" } else { unit };
    let mut s = String::new();
    if unit == "//long" {
        s = format!("//{}\n", "é".repeat(to / 2 - 2));
    } else {
        s.push_str(&unit.repeat(to / unit.len()));
    }
    while s.len() < to {
        s.push(' ');
    }
    s.push_str(&src);
    c.count("texts far into a source", 1);
    s
}
fn s01(c: &mut Ctx) -> Res {
    let src = lexical(c);
    let src = far(c, src, true);
    current(&src);
    let want = parse(&src);
    agree(c, &src, &want, Look::Leaves)?;
    if src.len() > 2 {
        c.distinct(hash(&src));
    }
    c.sample(|| src.clone());
    Ok(())
}
pub static S01: Prop = Prop {
    id: "S01",
    rule: "texts: every pair of tokens glued together, runs of literals and names with arbitrary trivia, character soups, and programs with one lexical disturbance; non-trivial when longer than two bytes, distinct by text. The tree (with the byte range of every name and literal) or the error's code and place is compared with a reference lexer and grammar.",
    quick: 1_500_000,
    thorough: 12_000_000,
    case: s01,
    need: &["glued pairs", "texts with a lot of one thing", "texts far into a source", "runs of atoms", "character soups", "disturbed programs", "accepted texts", "rejected with E1001", "rejected with E1002", "rejected with E1003", "rejected with E1009"],
    assumptions: &["tokens are observed through the parser: by the tree's names, literals and their ranges, or by the error's code and place", "a reserved word or unrecognised input may be reported as such or as an unexpected token"],
    extra: None,
    stack_mb: 256,
};

// ---------------------------------------------------------------- P02

const OPS2: &[&str] = &[
    "*", "/", "%", "+", "-", ">", "<", ">=", "<=", "==", "!=", "&&", "| |", "..=", "..", "??", "|>", "=", "*=", "/=", "+=", "-=",
];
const PRE: &[&str] = &["", "-", "!", "- -", "!-", "|x| ", "|| "];
const POST: &[&str] = &["", "?", "!!", ".f", "[i]", "(z)", " is T", " is T?", " or e { r }", "\\s\\", ".f = v", "[i] += v"];
fn table(i: u64) -> Option<String> {
    let (o, p, q) = (OPS2.len() as u64, PRE.len() as u64, POST.len() as u64);
    let mut i = i;
    // Triples of operators.
    if i < o * o * o {
        return Some(format!("a {} b {} c {} d", OPS2[(i % o) as usize], OPS2[(i / o % o) as usize], OPS2[(i / o / o) as usize]));
    }
    i -= o * o * o;
    // Prefixes and suffixes around one operator, and suffix pairs.
    if i < p * q * o * p {
        let (a, b, c, d) = (i % p, i / p % q, i / p / q % o, i / p / q / o);
        return Some(format!("{}a{} {} {}b", PRE[a as usize], POST[b as usize], OPS2[c as usize], PRE[d as usize]));
    }
    i -= p * q * o * p;
    if i < p * q * q * q {
        let (a, b, c, d) = (i % p, i / p % q, i / p / q % q, i / p / q / q);
        return Some(format!("{}a{}{}{}", PRE[a as usize], POST[b as usize], POST[c as usize], POST[d as usize]));
    }
    i -= p * q * q * q;
    if i < o * p * q {
        let (c, a, b) = (i % o, i / o % p, i / o / p);
        return Some(format!("x {} {}a{}", OPS2[c as usize], PRE[a as usize], POST[b as usize]));
    }
    None
}
fn kinds(v: &[E], c: &mut Ctx) {
    for e in v {
        c.count(&format!("kind {}", e.kind()), 1);
        let mut ch = vec![];
        e.each_child(&mut |x| ch.push(x));
        for x in ch {
            kinds(std::slice::from_ref(x), c);
        }
    }
}
fn p02(c: &mut Ctx) -> Res {
    if let Some(src) = lots::read(&mut c.rng, c.idx, 0) {
        current(&src);
        let want = parse(&src);
        agree(c, &src, &want, Look::Structure)?;
        c.count("texts with a lot of one thing", 1);
        c.distinct(hash(&src));
        return Ok(());
    }
    if let Some(src) = table(c.idx) {
        current(&src);
        let want = parse(&src);
        agree(c, &src, &want, Look::Structure)?;
        c.count("operator tables", 1);
        c.distinct(hash(&src));
        return Ok(());
    }
    let budget = *c.rng.pick(&[5, 15, 40, 120, 400]);
    let depth = *c.rng.pick(&[3, 6, 12, 40]);
    let items = Syn::new(&mut c.rng, budget, depth).program();
    let mut seen = false;
    for k in 0..3 {
        let st = if k == 0 { print::PLAIN } else { print::random_style(&mut c.rng) };
        let src = print::program(&items, st, &mut c.rng);
        current(&src);
        let want = parse(&src);
        match &want {
            Ok(p) => assert_eq!(p.items, items, "the reference grammar does not read back what was printed:\n{}", src),
            Err(e) => panic!("the reference grammar rejects what was printed ({:?}):\n{}", e, src),
        }
        agree(c, &src, &want, Look::Structure)?;
        if !seen {
            c.distinct(hash(&src));
            seen = true;
        }
        c.count("layouts", 1);
        c.sample(|| src.clone());
    }
    if c.idx % 8 == 0 {
        kinds(&items, c);
    }
    c.max("program size", items.iter().map(|e| e.size()).sum::<usize>() as u64);
    Ok(())
}
pub static P02: Prop = Prop {
    id: "P02",
    rule: "every combination of up to three operators, prefixes and suffixes, then random trees over the whole grammar, each printed plainly and in two random layouts (redundant parentheses, trailing commas, spacing, comments) and read back; distinct by plain text.",
    quick: 400_000,
    thorough: 3_000_000,
    case: p02,
    need: &["operator tables", "texts with a lot of one thing", "layouts", "tree nodes compared", "kind class", "kind or-else", "kind import", "kind lambda"],
    assumptions: &["nesting is bounded (40 levels); deeper programs belong to P01"],
    extra: None,
    stack_mb: 256,
};

// ---------------------------------------------------------------- P04

fn p04(c: &mut Ctx) -> Res {
    if let Some(src) = lots::read(&mut c.rng, c.idx, 0) {
        current(&src);
        let want = parse(&src);
        agree(c, &src, &want, Look::Everything)?;
        c.count("texts with a lot of one thing", 1);
        c.distinct(hash(&src));
        return Ok(());
    }
    if let Some(src) = if c.idx % 4 == 0 { table(c.idx / 4) } else { None } {
        current(&src);
        let want = parse(&src);
        agree(c, &src, &want, Look::Everything)?;
        c.count("operator tables", 1);
        c.distinct(hash(&src));
        return Ok(());
    }
    let items = if c.rng.pct(20) {
        crate::props::code::tree(&mut c.rng).0
    } else {
        let budget = *c.rng.pick(&[5, 15, 40, 120, 400]);
        let depth = *c.rng.pick(&[3, 6, 12, 40]);
        Syn::new(&mut c.rng, budget, depth).program()
    };
    for k in 0..2 {
        let st = if k == 0 && c.rng.pct(50) { print::PLAIN } else { print::random_style(&mut c.rng) };
        let src = print::program(&items, st, &mut c.rng);
        let src = far(c, src, true);
        current(&src);
        let want = parse(&src);
        agree(c, &src, &want, Look::Everything)?;
        c.distinct(hash(&src));
        c.count("layouts", 1);
        c.sample(|| src.clone());
    }
    Ok(())
}
pub static P04: Prop = Prop {
    id: "P04",
    rule: "the operator tables, then random trees over the whole grammar and generated programs, each in two layouts (spacing, comments, wide characters, parentheses, trailing commas); the range of every node, body, name, parameter, type and literal of the tree is compared with the range of its text; distinct by text.",
    quick: 250_000,
    thorough: 3_000_000,
    case: p04,
    need: &["operator tables", "texts with a lot of one thing", "texts far into a source", "layouts", "ranges compared", "range of body", "range of class", "range of op", "range of or-else", "range of ||", "range of call", "range of import", "range of lambda", "range of neg", "range of super-call", "range of index", "range of is", "range of unit"],
    assumptions: &["an operation may be taken to end with its operator or with its operand, and a block to start at its brace or inside it"],
    extra: None,
    stack_mb: 256,
};

// ---------------------------------------------------------------- P03

/// A text that may or may not be a program.
pub fn candidate(c: &mut Ctx) -> String {
    if let Some(s) = lots::read(&mut c.rng, c.idx, 80) {
        c.count("texts with a lot of one thing", 1);
        return s;
    }
    let src = match c.rng.below(10) {
        0 | 1 => {
            // Token soup.
            let n = c.rng.range(1, 20);
            let k = c.rng.range(3, 25);
            let pool: Vec<&str> = (0..k).map(|_| *c.rng.pick(SOUP)).collect();
            let toks: Vec<String> = (0..n).map(|_| c.rng.pick(&pool).to_string()).collect();
            c.count("token soups", 1);
            print::layout(&toks, c.rng.clone().below(4) as u8, &mut c.rng)
        }
        2 => {
            // Every truncation point of a valid program is a candidate.
            let budget = c.rng.range(4, 60) as i64;
            let items = Syn::new(&mut c.rng, budget, 8).program();
            let st = print::random_style(&mut c.rng);
            let mut t = print::tokens(&items, st, &mut c.rng);
            let n = c.rng.below(t.len() + 1);
            t.truncate(n);
            if c.rng.pct(50) {
                t.push(c.rng.pick(SOUP).to_string());
            }
            c.count("truncated programs", 1);
            print::layout(&t, st.layout, &mut c.rng)
        }
        _ => {
            let budget = *c.rng.pick(&[5, 15, 40, 100]);
            let items = Syn::new(&mut c.rng, budget, 10).program();
            let st = print::random_style(&mut c.rng);
            let mut t = print::tokens(&items, st, &mut c.rng);
            let n = *c.rng.pick(&[0, 1, 1, 1, 2, 3]);
            for _ in 0..n {
                mutate(&mut t, &mut c.rng);
            }
            c.count("mutated programs", 1);
            print::layout(&t, st.layout, &mut c.rng)
        }
    };
    // A long parameter list now and then.
    if c.rng.pct(1) && c.idx % 5 == 0 {
        let n = c.rng.range(250, 260);
        let ps: Vec<String> = (0..n).map(|i| format!("p{}", i)).collect();
        match c.rng.below(3) {
            0 => format!("let y = 1\n fn f({}) {{ {} }}", ps.join(","), src),
            1 => format!("x |{}| 1", ps.join(",")),
            _ => format!("let q = |{}| 1", ps.join(", ")),
        }
    } else {
        src
    }
}
fn p03(c: &mut Ctx) -> Res {
    let src = candidate(c);
    let src = far(c, src, true);
    current(&src);
    let want = parse(&src);
    agree(c, &src, &want, Look::Structure)?;
    if src.len() > 4 {
        c.distinct(hash(&src));
    }
    c.sample(|| src.clone());
    Ok(())
}
pub static P03: Prop = Prop {
    id: "P03",
    rule: "token soups, truncated programs and programs with up to three random token edits; non-trivial when longer than four bytes, distinct by text. Acceptance, the tree, and the rejection's code and place are compared with a reference grammar.",
    quick: 1_200_000,
    thorough: 8_000_000,
    case: p03,
    need: &["token soups", "texts with a lot of one thing", "texts far into a source", "truncated programs", "mutated programs", "accepted texts", "rejected texts", "rejected with E1000", "rejected with E1004", "rejected with E1007", "rejected with E1005", "rejected with E2505"],
    assumptions: &["an import of nothing and too many parameters are reported at the declaration's first token", "nesting is bounded; deeper programs belong to P01"],
    extra: None,
    stack_mb: 256,
};

// ---------------------------------------------------------------- P05

/// How a report calls a token.
fn called(k: K) -> &'static str {
    match k {
        K::P(x) => x,
        K::Ident => "identifier",
        K::Int => "integer",
        K::Float => "float",
        K::Str => "string",
        K::Bs => "backslash arg",
        K::Reserved => "reserved",
        K::Bad | K::Err(_) => "error",
        K::Eoi => "EOI",
    }
}
/// A token that a report calls by this name.
fn sample_of(name: &str) -> Option<&'static str> {
    Some(match name {
        "identifier" => "x",
        "integer" => "1",
        "float" => "1.5",
        "string" => "\"s\"",
        "backslash arg" => "\\a\\",
        "EOI" => "",
        n => crate::lex::SYMBOLS.iter().chain(crate::lex::KEYWORDS).find(|x| **x == n)?,
    })
}
/// Splits the list of a report; a comma may be one of its items.
fn listed(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut rest = s;
    while !rest.is_empty() {
        let n = rest.char_indices().skip(1).find(|(i, _)| rest[*i..].starts_with(", ")).map_or(rest.len(), |x| x.0);
        out.push(rest[..n].to_string());
        rest = rest.get(n + 2..).unwrap_or("");
    }
    out
}
fn p05(c: &mut Ctx) -> Res {
    let src = candidate(c);
    let src = far(c, src, false);
    current(&src);
    let want = match parse(&src) {
        Err(w) => w,
        Ok(_) => {
            c.count("accepted texts", 1);
            return Ok(());
        }
    };
    let kind = if c.rng.pct(50) { SourceKind::Script } else { SourceKind::Module };
    let (code, text) = match observe(&src, kind) {
        Ok(Seen::Error { code, text, .. }) => (code, text),
        Ok(_) => return viol("a text that is no program is accepted".to_string(), &src),
        Err(m) => return viol(m, &src),
    };
    c.distinct(hash(&src));
    let head = text.lines().next().unwrap_or("").to_string();
    // A message can show a token that contains a line break.
    let at = &src[want.s..];
    match code.as_str() {
        "E1000" => {
            let (found, list) = match head.split_once(" Found: ").and_then(|x| x.1.split_once(", Expected: ")) {
                Some(x) => x,
                None => return viol(format!("the message does not say what was found and what was expected: {}", head), &src),
            };
            if found != called(want.k) {
                return viol(format!("the message says {:?} was found, but it is {:?}\n{}", found, called(want.k), text), &src);
            }
            let list = listed(list);
            let mut seen: Vec<&str> = vec![];
            if list.is_empty() {
                return viol(format!("nothing is expected\n{}", text), &src);
            }
            let before = if want.k == K::Eoi { &src[..] } else { &src[..want.s] };
            for name in &list {
                if seen.contains(&name.as_str()) {
                    return viol(format!("{:?} is listed twice\n{}", name, text), &src);
                }
                seen.push(name);
                let tok = match sample_of(name) {
                    Some(t) => t,
                    None => return viol(format!("{:?} is said to be expected, but is no token\n{}", name, text), &src),
                };
                let tried = format!("{}\n{}", before, tok);
                let fits = match parse(&tried) {
                    Ok(_) => true,
                    // A bare return before a stray brace could end the program but for its missing value.
                    Err(w) => w.k == K::Eoi && (!tok.is_empty() || src[w.s..w.e] == *"return"),
                };
                if !fits {
                    return viol(format!("{:?} is said to be expected, but cannot stand there\n{}", name, text), &src);
                }
                c.count(&format!("expected {}", name), 1);
            }
            c.count(&format!("found {}", found), 1);
            c.count("expectations tried", list.len() as u64);
            // Where an expression could begin, or an operator be named, nothing that could is left out.
            for (what, sign, before) in [("beginnings of an expression", "true", "let x ="), ("operators to overload", "..=", "class A { op")] {
                if !seen.contains(&sign) {
                    continue;
                }
                let others = ["identifier", "integer", "float", "string", "backslash arg"];
                for name in others.iter().chain(crate::lex::SYMBOLS).chain(crate::lex::KEYWORDS) {
                    let fits = match parse(&format!("{} {}", before, sample_of(name).unwrap_or(""))) {
                        Ok(_) => true,
                        Err(w) => w.k == K::Eoi,
                    };
                    if fits && !seen.contains(name) {
                        return viol(format!("{:?} could stand there as well as {}, but is not listed\n{}", name, sign, text), &src);
                    }
                }
                c.count(&format!("full lists of {}", what), 1);
            }
        }
        "E1001" => {
            // The first escape of the string that is none.
            let mut it = at.char_indices().skip(1);
            let mut esc = None;
            while let Some((i, ch)) = it.next() {
                if ch == '\\' {
                    match it.next() {
                        Some((_, '"' | '\\' | 'n' | 'r' | 't')) => {}
                        Some((j, x)) => {
                            esc = Some(&at[i..j + x.len_utf8()]);
                            break;
                        }
                        None => break,
                    }
                }
            }
            let esc = esc.unwrap_or("");
            if !text.contains(&format!("'{}'", esc)) {
                return viol(format!("the message does not show the escape {:?}\n{}", esc, text), &src);
            }
            c.count("escapes shown", 1);
        }
        "E1003" | "E1004" => {
            let shown = match head.split_once(if code == "E1003" { "invalid token: " } else { "reserved keyword: " }) {
                Some(x) => x.1,
                None => return viol(format!("the message does not show the text: {}", head), &src),
            };
            let whole = src.get(want.s..want.e).unwrap_or("");
            let fits = if want.k == K::Bad { !shown.is_empty() && at.starts_with(shown) } else { shown == whole };
            if !fits && !at.starts_with('\r') {
                return viol(format!("the message shows {:?}, but the text there is {:?}\n{}", shown, at.chars().take(20).collect::<String>(), text), &src);
            }
            c.count(&format!("texts shown by {}", code), 1);
        }
        _ => c.count("other errors", 1),
    }
    c.sample(|| format!("{}\n=> {}", src, head));
    Ok(())
}
pub static P05: Prop = Prop {
    id: "P05",
    rule: "token soups, truncated programs and programs with random token edits that are rejected; distinct by text. The report's message is taken apart: the token it says was found is the one the reference grammar stops at, every token it lists as expected is put there in turn and must be read by the grammar, and escapes, invalid tokens and reserved words are shown as written.",
    quick: 1_200_000,
    thorough: 16_000_000,
    case: p05,
    need: &["full lists of beginnings of an expression", "full lists of operators to overload", "expectations tried", "escapes shown", "texts shown by E1003", "texts shown by E1004", "found EOI", "found identifier", "found reserved", "found error", "expected identifier", "expected string", "expected )", "expected EOI", "expected from", "expected op", "expected :"],
    assumptions: &["the list of expected tokens need not be complete", "the end of the program may be listed after a bare return"],
    extra: None,
    stack_mb: 256,
};
