//! C04: diagnostics are complete. P01: every text gets an answer.
use crate::ast::*;
use crate::fw::*;
use crate::lex::{self, K};
use crate::parse::parse;
use crate::props::code;
use crate::props::rules;
use crate::props::syntax::{candidate, lexical, located};
use crate::props::text::{all_codes, all_notes, tags_of, value};
use crate::rng::Rng;
use crate::synth::{Syn, SOUP};
use crate::{exec, print};
use dice_core::error::context::{Context, ContextKind};
use dice_core::error::Error;
use dice_core::source::{Source, SourceKind};
use dice_core::span::Span;


/// Reads the values out of a message, given the code's message with marks in their place.
fn values(pattern: &str, n: usize, message: &str) -> Option<Vec<(usize, String)>> {
    let mut lits: Vec<&str> = vec![];
    let mut order = vec![];
    let mut rest = pattern;
    loop {
        let next = (0..n).filter_map(|i| rest.find(&mark(i)).map(|p| (p, i))).min();
        match next {
            Some((p, i)) => {
                lits.push(&rest[..p]);
                order.push(i);
                rest = &rest[p + mark(i).len()..];
            }
            None => {
                lits.push(rest);
                break;
            }
        }
    }
    let mut m = message.strip_prefix(lits[0])?;
    let mut out = vec![];
    for (k, i) in order.iter().enumerate() {
        let lit = lits[k + 1];
        let p = if k + 1 == order.len() && lit.is_empty() { m.len() } else { m.rfind(lit).filter(|_| k + 1 == order.len()).or_else(|| m.find(lit))? };
        out.push((*i, m[..p].to_string()));
        m = &m[p + lit.len()..];
    }
    if m.is_empty() {
        Some(out)
    } else {
        None
    }
}
fn mark(i: usize) -> String {
    format!("\u{2}{}\u{2}", i)
}
fn head_of(e: &Error) -> String {
    let s = format!("{}", e);
    // Everything before the location.
    let cut = s.split('\n').take_while(|l| !l.trim_start().starts_with("--> ")).collect::<Vec<_>>().join("\n");
    cut.trim_matches('\n').to_string()
}
/// An error on its own, with its report.
fn static_case(c: &mut Ctx, i: usize) -> Res {
    let codes = all_codes();
    let notes = all_notes();
    if i == 0 {
        // Codes and notes are told apart.
        for (k, (n, code, _)) in codes.iter().enumerate() {
            for (m, other, _) in &codes[..k] {
                if code == other {
                    return viol(format!("{} and {} share the code {}", n, m, code), "");
                }
            }
            for (m, id, _) in &notes {
                if code == id {
                    return viol(format!("{} and {} share the name {}", n, m, id), "");
                }
            }
            let ok = code.len() == 5 && code.starts_with('E') && code[1..].bytes().all(|b| b.is_ascii_digit());
            if !ok {
                return viol(format!("{} has the code {:?}", n, code), "");
            }
        }
        for (k, (n, id, _)) in notes.iter().enumerate() {
            for (m, other, _) in &notes[..k] {
                if id == other {
                    return viol(format!("{} and {} share the note {}", n, m, id), "");
                }
            }
        }
        c.count("codes told apart", codes.len() as u64);
        return Ok(());
    }
    let i = i - 1;
    let vals: Vec<String> = (0..4).map(|_| value(&mut c.rng)).collect();
    let src = Source::new("let x = 1".to_string(), SourceKind::Script);
    if i < codes.len() {
        let (name, code, tags) = codes[i];
        let desc = format!("{} with {:?}", name, &vals[..tags.len()]);
        current(&desc);
        let e = Error::new(code).with_tags(tags_of(tags, &vals)).with_source(src).with_span(Span::new(4..5));
        if e.error_code() != code {
            return viol(format!("the error's code is {} and not {}", e.error_code(), code), desc);
        }
        for (what, text) in [("report", format!("{}", e)), ("short report", format!("{:?}", e))] {
            let first = text.trim().lines().next().unwrap_or("").to_string();
            let want = format!("error[{}]: ", code);
            if !first.starts_with(&want) || first.len() <= want.len() || first[want.len()..].trim().is_empty() {
                return viol(format!("the {} starts with {:?}", what, first), desc);
            }
            complete(&text, &vals).or_else(|m| viol(format!("the {} {}", what, m), desc.clone()))?;
            for v in &vals[..tags.len()] {
                if !text.contains(v.as_str()) {
                    return viol(format!("the {} does not show the value {:?}: {}", what, v, text), desc);
                }
            }
        }
        c.count("messages with values", 1);
    } else {
        let (name, id, tags) = notes[(i - codes.len()) % notes.len()];
        let desc = format!("note {} with {:?}", name, &vals[..tags.len()]);
        current(&desc);
        for kind in [ContextKind::Note, ContextKind::Help] {
            let e = Error::new(codes[0].1)
                .with_tags(tags_of(codes[0].2, &["1".into(), "2".into()]))
                .with_source(src.clone())
                .with_span(Span::new(0..3))
                .push_context(Context::new(id, kind).with_tags(tags_of(tags, &vals)));
            let text = format!("{}", e);
            let line = text.lines().find(|l| l.starts_with("note:") || l.starts_with("help:"));
            match line {
                Some(l) if l[5..].trim().is_empty() => return viol(format!("the note has no text: {}", text), desc),
                None => return viol(format!("the note is not shown: {}", text), desc),
                _ => {}
            }
            complete(&text, &vals).or_else(|m| viol(format!("the report {}", m), desc.clone()))?;
            for v in &vals[..tags.len()] {
                if !text.contains(v.as_str()) {
                    return viol(format!("the note does not show the value {:?}: {}", v, text), desc);
                }
            }
        }
        c.count("notes with values", 1);
    }
    c.distinct(hash(&format!("{} {:?}", i, vals)));
    Ok(())
}
/// No placeholder is left over in a report.
fn complete(text: &str, vals: &[String]) -> Result<(), String> {
    let mut t = text.to_string();
    let mut vals: Vec<&String> = vals.iter().collect();
    vals.sort_by_key(|v| std::cmp::Reverse(v.len()));
    for v in vals {
        if v.len() > 2 || v.contains("{$") {
            t = t.replace(v.as_str(), "");
        }
    }
    for bad in ["{$", "{ $", "Unknown localization", "Unknown localisation"] {
        if t.contains(bad) {
            return Err(format!("has {:?} in it: {}", bad, text));
        }
    }
    Ok(())
}

/// The byte offset of a 1-based line and UTF-16 column.
pub fn offset(src: &str, line: usize, col: usize) -> Option<usize> {
    let mut at = 0;
    for _ in 1..line {
        at += src[at..].find('\n')? + 1;
    }
    let mut n = 1;
    for (i, ch) in src[at..].char_indices() {
        if n == col {
            return Some(at + i);
        }
        if ch == '\n' {
            return None;
        }
        n += ch.len_utf16();
    }
    if n == col {
        Some(src.len())
    } else {
        None
    }
}

fn rejected(c: &mut Ctx, src: &str, module: bool, e: &Error) -> Res {
    let (code, line, col) = match located(e) {
        Ok(x) => x,
        Err(m) => return viol(m, src),
    };
    let report = format!("{}", e);
    let fail = |m: String| viol(format!("{}\n{}", m, report), src);
    let at = match offset(src, line, col) {
        Some(a) => a,
        None => return fail(format!("the error is placed at {}:{}, which is not in the text", line, col)),
    };
    let syntax = parse(src).is_err();
    let family = if syntax { code.starts_with("E1") || code == "E2505" } else { code.starts_with("E2") && code != "E2000" || code == "E1005" && src.matches(',').count() >= 253 };
    if !family {
        return fail(format!("a {} has the code {}", if syntax { "text that is no program" } else { "program that breaks a rule" }, code));
    }
    let codes = all_codes();
    let (_, known, tags) = match codes.iter().find(|x| x.1 == code) {
        Some(k) => *k,
        None => return fail(format!("the code {} is unknown", code)),
    };
    let head = head_of(e);
    let marks: Vec<String> = (0..tags.len()).map(mark).collect();
    let pattern = format!("{}", Error::new(known).with_tags(tags_of(tags, &marks)));
    let vals = match values(pattern.trim_matches('\n'), tags.len(), &head) {
        Some(v) => v,
        None => return fail(format!("the message is {:?}, not {:?} with values", head, pattern.trim())),
    };
    let get = |n: &str| tags.iter().position(|t| *t == n).and_then(|i| vals.iter().find(|v| v.0 == i)).map(|v| v.1.clone());
    for (i, v) in &vals {
        if v.is_empty() {
            return fail(format!("the value of {} is empty", tags[*i]));
        }
    }
    c.count("values in messages", vals.len() as u64);
    let toks = lex::lex(src);
    // Names given in an error are names the program uses, from the reported place on.
    if let Some(n) = get("name") {
        let here = toks.iter().any(|t| t.s >= at && t.k == K::Ident && src[t.s..t.e] == n);
        // Names a construct uses without writing them.
        let hidden = ["Any", "Result", "self", "super"].contains(&n.as_str());
        if !here && !hidden {
            return fail(format!("the name {:?} does not occur at the reported place", n));
        }
        c.count("names compared with the text", 1);
    }
    let tok = toks.iter().find(|t| t.s == at);
    if let (Some(t), Some(v)) = (tok, get("actual").or_else(|| get("input"))) {
        if let K::P(s) = t.k {
            // The end of the text is reported at the last token.
            let last = toks.iter().filter(|x| x.k != K::Eoi).last().map_or(true, |x| x.s == t.s);
            if v != s && !last {
                return fail(format!("the token at the place is {:?}, but the message says {:?}", s, v));
            }
            c.count("tokens compared with the text", 1);
        }
        if code == "E1003" || code == "E1004" {
            if !src[t.s..].starts_with(&v) {
                return fail(format!("the input there is {:?}, but the message says {:?}", &src[t.s..t.e], v));
            }
            c.count("inputs compared with the text", 1);
        }
    }
    if let Some(v) = get("sequence") {
        if !src[at..].contains(&v) {
            return fail(format!("the escape sequence {:?} is not in the text", v));
        }
        c.count("escapes compared with the text", 1);
    }
    // Notes.
    let mut notes = 0;
    for l in report.lines() {
        if l.starts_with("note:") || l.starts_with("help:") {
            notes += 1;
            if l[5..].trim().is_empty() {
                return fail("a note has no text".into());
            }
        }
    }
    c.count("notes shown", notes);
    // Both notes and source text may hold braces; only the message is looked at.
    complete(&head, &[]).or_else(|m| if src.contains("{$") || src.contains("{ $") { Ok(()) } else { fail(format!("the message {}", m)) })?;
    let _ = module;
    c.count("rejections", 1);
    c.count(&format!("rejected with {}", code), 1);
    Ok(())
}

fn c04(c: &mut Ctx) -> Res {
    let fixed = 1 + all_codes().len() + all_notes().len() * 4;
    let i = c.idx as usize;
    if i < fixed * 6 || i % 20 == 13 {
        return { let k = if i < fixed * 6 { i % fixed } else { 1 + c.rng.below(fixed - 1) }; static_case(c, k) };
    }
    let (src, module) = match c.rng.weighted(&[3, 1, 4]) {
        0 => (candidate(c), c.rng.pct(50)),
        1 => (lexical(c), c.rng.pct(50)),
        _ => match rules::sample(c, 70) {
            Some((s, m, _)) => (s, m),
            None => return Ok(()),
        },
    };
    current(&src);
    if let Err(e) = exec::compile(&src, module) {
        rejected(c, &src, module, &e)?;
        c.distinct(hash(&src));
        c.sample(|| format!("{}\n{}", src, e));
    } else {
        c.count("accepted", 1);
    }
    Ok(())
}
pub static C04: Prop = Prop {
    id: "C04",
    rule: "every code and note with random values; then texts the parser rejects and programs that break a rule: each report's code, family, place, message and values are looked at. Non-trivial: a rejected text, distinct by text.",
    quick: 600_000,
    thorough: 12_000_000,
    case: c04,
    need: &["codes told apart", "messages with values", "notes with values", "rejections", "names compared with the text", "tokens compared with the text", "inputs compared with the text", "escapes compared with the text", "notes shown"],
    assumptions: &["the codes are the named constants at the time of writing; a new one has to be added to the list", "an empty import has a compile code although the parser rejects it"],
    extra: None,
    stack_mb: 512,
};

// ---------------------------------------------------------------- P01

/// Ways of nesting: what opens a level, the core, what closes it.
pub const NESTS: &[(&str, &str, &str, &str)] = &[
    ("parentheses", "(", "1", ")"),
    ("lists", "[", "1", "]"),
    ("objects", "#{ a: ", "1", " }"),
    ("blocks", "{ ", "1", " }"),
    ("negations", "- ", "1", ""),
    ("nots", "!", "true", ""),
    ("lambdas", "|a| ", "1", ""),
    ("lambda blocks", "|a| { ", "1", " }"),
    ("calls", "f(", "1", ")"),
    ("indexes", "a[", "1", "]"),
    ("ifs", "if true { ", "1", " }"),
    ("conditions", "if ", "true", " { 1 }"),
    ("elses", "if true { 1 } else { ", "1", " }"),
    ("else ifs", "if true { 1 } else ", "{ 1 }", ""),
    ("loops", "loop { ", "break", " }"),
    ("whiles", "while true { ", "break", " }"),
    ("while conditions", "while { ", "true", " } { 1 }"),
    ("fors", "for i in 0..1 { ", "1", " }"),
    ("for iterators", "for i in [ ", "1", " ] { 1 }"),
    ("functions", "fn f(a) { ", "1", " }"),
    ("classes", "class A { fn m(self) { ", "1", " } }"),
    ("operators", "op +(a, b) { ", "1", " }"),
    ("error blocks", "a or e { ", "1", " }"),
    ("sums", "1 + ", "1", ""),
    ("sums of sums", "(1 + ", "1", ") + 2"),
    ("products", "1 * ", "1", ""),
    ("comparisons", "1 < ", "1", ""),
    ("coalescings", "null ?? ", "1", ""),
    ("ands", "true && ", "true", ""),
    ("ors", "true || ", "true", ""),
    ("pipelines", "1 |> ", "f", ""),
    ("ranges", "1 .. ", "2", ""),
    ("assignments", "a.b = ", "1", ""),
    ("compound assignments", "a.b += ", "1", ""),
    ("fields", "", "a", ".b"),
    ("calls in a row", "", "f", "()"),
    ("indexes in a row", "", "a", "[0]"),
    ("null propagations", "", "a", "?.b"),
    ("error propagations", "", "a", "!!"),
    ("type tests", "", "1", " is Int"),
    ("lets", "let a = { ", "1", " }"),
    ("returns", "fn f() { return { ", "1", " } }"),
    ("super calls", "class A { fn new(self) { ", "1", " } }"),
    ("string arguments", "", "a", "\\x\\"),
    ("exports", "export let a = { ", "1", " }"),
];
pub fn nest(k: usize, n: usize) -> String {
    let (_, a, b, z) = NESTS[k];
    let mut s = String::with_capacity((a.len() + z.len()) * n + 8);
    for _ in 0..n {
        s.push_str(a);
    }
    s.push_str(b);
    for _ in 0..n {
        s.push_str(z);
    }
    s
}
/// The same around names from the outside, and with something declared at every level.
fn nest_names(k: usize, n: usize) -> String {
    let (_, a, b, z) = NESTS[k];
    let core = if b == "1" { "q = q + 1" } else { b };
    let own = a.ends_with("{ ") && n % 2 == 1;
    let a = if own { format!("{}let r = q ", a) } else { a.to_string() };
    format!("let mut q = 1\nlet a = q\nlet f = q\n{}{}{}", a.repeat(n), core, z.repeat(n))
}
/// Long, but flat.
const FLAT: &[(&str, &str, &str)] = &[
    ("", "let a = 1 ", ""),
    ("", "1 ", ""),
    ("", "a ", ""),
    ("", "{ } ", ""),
    ("", "fn f() { } ", ""),
    ("", "if true { 1 } ", ""),
    ("", "// comment\n", "1"),
    ("", "\n", "1"),
    ("", " ", "1"),
    ("\"", "a", "\""),
    ("\"", "\\n", "\""),
    ("\"", "é", "\""),
    ("\"", "\n", ""),
    ("\\", "x", "\\"),
    ("", "1", ""),
    ("1.", "0", ""),
    ("", "x", ""),
    ("", "é", ""),
    ("", "(", ""),
    ("", ")", ""),
    ("", "{", ""),
    ("", "}", ""),
    ("", "[", ""),
    ("", "]", ""),
    ("", "|", ""),
    ("", "/", ""),
    ("", "\"", ""),
    ("", "\\", ""),
    ("", "!", ""),
    ("", "?", ""),
    ("", ".", ""),
    ("", "-", ""),
    ("", "=", ""),
    ("", "#", ""),
    ("", "# {", ""),
    ("[", "1, ", "]"),
    ("f(", "1, ", ")"),
    ("#{ ", "a: 1, ", "}"),
    ("fn f(", "a, ", ") { }"),
    ("let { ", "a, ", "} = b"),
    ("import { ", "a, ", "} from \"m\""),
    ("class A { ", "fn m(self) { } ", "}"),
    ("class A { ", "fn m() { } ", "}"),
    ("", "op +(a, b) { } ", ""),
    ("", "class A { } ", ""),
    ("", "if ", ""),
    ("", "fn ", ""),
    ("", "let ", ""),
    ("", "class ", ""),
    ("", "or ", ""),
    ("", "for i in ", ""),
    ("", "import ", ""),
    ("", "export ", ""),
    ("", "\u{0}", ""),
    ("", "\u{feff}", ""),
];
fn cut(s: &str, at: usize) -> usize {
    let mut at = at.min(s.len());
    while !s.is_char_boundary(at) {
        at -= 1;
    }
    at
}
fn seeds() -> Vec<String> {
    let mut v = vec![];
    for d in ["/repo/fuzz/in", "/repo/data/scripts"] {
        if let Ok(r) = std::fs::read_dir(d) {
            let mut names: Vec<_> = r.filter_map(|e| e.ok()).map(|e| e.path()).collect();
            names.sort();
            for p in names {
                if let Ok(b) = std::fs::read(&p) {
                    v.push(String::from_utf8_lossy(&b).into_owned());
                }
            }
        }
    }
    v.push(exec::PRELUDE.to_string());
    v
}
pub fn hostile(c: &mut Ctx) -> (String, &'static str) {
    let r = &mut c.rng;
    match r.weighted(&[4, 6, 3, 4, 3, 5, 5, 3]) {
        0 => {
            // Any characters.
            let n = *r.pick(&[0, 1, 2, 5, 20, 200]);
            let mut s = String::new();
            for _ in 0..n {
                let ch = match r.below(6) {
                    0 => char::from_u32(r.next() as u32 % 0x110000),
                    1 => char::from_u32(r.next() as u32 % 0x800),
                    2 => char::from_u32(0x2000 + r.next() as u32 % 0x100),
                    3 => Some(*r.pick(&['\u{0}', '\u{7f}', '\u{85}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{ffff}', '\u{10ffff}', '\u{301}', '\u{200d}'])),
                    _ => char::from_u32(r.next() as u32 % 0x80),
                };
                s.extend(ch);
            }
            (s, "random characters")
        }
        1 => {
            // A program with bytes changed.
            let mut s = if r.pct(25) {
                let v = seeds();
                r.pick(&v).clone()
            } else {
                let budget = *r.pick(&[5, 20, 80, 200]);
                let items = Syn::new(r, budget, 10).program();
                let st = print::random_style(r);
                print::program(&items, st, r)
            };
            for _ in 0..r.range(1, 6) {
                if s.is_empty() {
                    break;
                }
                let p = cut(&s, r.below(s.len() + 1));
                let q = cut(&s, p + r.below(12));
                match r.below(6) {
                    0 => s.replace_range(p..q, ""),
                    1 => s.insert_str(p, r.pick(SOUP)),
                    2 => {
                        let t = s[p..q].to_string();
                        s.insert_str(p, &t)
                    }
                    3 => s.truncate(p),
                    4 => s = s[p..].to_string(),
                    _ => {
                        let t = s[p..q].to_string();
                        let w = cut(&s, r.below(s.len() + 1));
                        s.insert_str(w, &t)
                    }
                }
            }
            (s, "edited programs")
        }
        2 => {
            // Programs spliced into each other.
            let mut s = String::new();
            for _ in 0..r.range(2, 4) {
                let budget = *r.pick(&[5, 20, 60]);
                let items = Syn::new(r, budget, 8).program();
                let t = print::program(&items, print::PLAIN, r);
                let p = cut(&s, r.below(s.len() + 1));
                s.insert_str(p, &t);
            }
            (s, "spliced programs")
        }
        3 => {
            // Deep nests of mixed kinds, possibly unfinished.
            let n = *r.pick(&[3, 10, 30, 100, 250, 450]);
            let kinds: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(NESTS.len())).collect();
            let (mut a, mut z) = (String::new(), vec![]);
            let mut core = "1";
            for _ in 0..n {
                let k = NESTS[*r.pick(&kinds)];
                a.push_str(k.1);
                z.push(k.3);
                core = k.2;
            }
            z.reverse();
            let mut s = format!("{}{}{}", a, core, z.concat());
            if core == "1" && r.pct(50) {
                s = format!("let mut q = 1\nlet a = q let f = q\n{}q{}", a, z.concat());
            }
            match r.below(4) {
                0 => s.truncate(cut(&s, r.below(s.len() + 1))),
                1 => {
                    let p = cut(&s, r.below(s.len() + 1));
                    s.insert_str(p, r.pick(SOUP));
                }
                _ => {}
            }
            (s, "nests")
        }
        4 => {
            let (a, b, z) = *r.pick(FLAT);
            let n = *r.pick(&[1, 10, 255, 256, 257, 1000, 4000]);
            (format!("{}{}{}", a, b.repeat(n), z), "long texts")
        }
        5 => {
            let n = r.range(1, 60);
            let k = r.range(2, 20);
            let pool: Vec<&str> = (0..k).map(|_| *r.pick(SOUP)).collect();
            let toks: Vec<String> = (0..n).map(|_| r.pick(&pool).to_string()).collect();
            let l = r.below(4) as u8;
            (print::layout(&toks, l, r), "token soups")
        }
        6 => {
            let items: Vec<E> = code::tree(r).0;
            let st = print::random_style(r);
            (print::program(&items, st, r), "programs")
        }
        _ => {
            let n = r.range(1, 12);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(r.pick(&["\"", "\\", "//", "\n", "é", "1.", ".", "\\\"", "\"\"", "0x", "1e5", "'", "/*", "*/", "#!", "\r", "\u{2028}", "𝕏", "_", "-", "99999999999999999999", "1.7976931348623157e309", "\\u{41}", "\\x41"]));
            }
            (s, "lexical oddities")
        }
    }
}
/// Compiles a text and renders what comes of it.
pub fn total(src: &str, module: bool) -> Result<bool, String> {
    match exec::compile(src, module) {
        Ok(b) => {
            let _ = b.slot_count();
            let s = format!("{}", b);
            if s.len() > 1 << 28 {
                return Err("an enormous listing".into());
            }
            Ok(true)
        }
        Err(e) => {
            let (s, t) = (format!("{}", e), format!("{:?}", e));
            if e.error_code() == "E2000" {
                return Err(format!("an internal compiler error is reported:\n{}", s));
            }
            if s.is_empty() || t.is_empty() {
                return Err("the report is empty".into());
            }
            Ok(false)
        }
    }
}
fn p01(c: &mut Ctx) -> Res {
    let fixed = NESTS.len() * 5 + FLAT.len() * 3;
    let named = fixed + NESTS.len() * 4;
    let i = c.idx as usize;
    let (src, what) = if i < NESTS.len() * 5 {
        (nest(i / 5, [1, 7, 50, 200, 500][i % 5]), "pure nests")
    } else if i < fixed {
        let (a, b, z) = FLAT[(i - NESTS.len() * 5) / 3];
        (format!("{}{}{}", a, b.repeat([300, 3000, 20_000][(i - NESTS.len() * 5) % 3]), z), "very long texts")
    } else if i < named {
        (nest_names((i - fixed) / 4, [9, 40, 121, 300][(i - fixed) % 4]), "nests around names")
    } else {
        hostile(c)
    };
    current(&src);
    for module in [false, true] {
        match total(&src, module) {
            Ok(true) => c.count("accepted", 1),
            Ok(false) => c.count("rejected", 1),
            Err(m) => return viol(format!("{} (as a {})", m, if module { "module" } else { "script" }), src),
        }
    }
    c.count(what, 1);
    c.max("text length", src.len() as u64);
    if src.len() > 3 {
        c.distinct(hash(&src));
    }
    c.sample(|| src.chars().take(600).collect());
    Ok(())
}
/// Texts nested deeper than the native stack: recorded as known, shown again on every run.
fn deep(st: &mut Stats, _: Tier) -> Result<Vec<String>, Viol> {
    let exe = std::env::current_exe().unwrap();
    let known = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    let mut out = vec![];
    for (k, (name, ..)) in NESTS.iter().enumerate() {
        let run = |n: usize| {
            std::process::Command::new("/bin/sh")
                .args(["-c", &format!("ulimit -c 0; ulimit -v 8000000; exec timeout 100 {} deep {} {}", exe.display(), k, n)])
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status()
                .ok()
        };
        use std::os::unix::process::ExitStatusExt;
        let died = |s: Option<std::process::ExitStatus>| matches!(s.and_then(|s| s.signal().or(s.code().filter(|c| *c > 128).map(|c| c - 128))), Some(6 | 11 | 7));
        // On an ordinary main thread's 8 MiB, this depth is unremarkable.
        if died(run(60)) {
            return viol(format!("60 nested {} overflow a stack of 8 MiB", name), nest(k, 60)).map(|_: ()| vec![]);
        }
        *st.counts.entry("nests on an 8 MiB stack".into()).or_insert(0) += 1;
        if died(run(50_000)) {
            let line = format!("known: property=P01 family={:?} depth=50000", name);
            if !known.lines().any(|l| l.trim() == line) {
                return viol(format!("50000 nested {} overflow the native stack, which is not recorded in known_findings.txt", name), nest(k, 60)).map(|_: ()| vec![]);
            }
            *st.counts.entry("known findings shown".into()).or_insert(0) += 1;
            out.push(format!("KNOWN-FINDING: property=P01 50000 nested {} overflow the native stack", name));
        }
    }
    Ok(out)
}
pub fn deep_run(k: usize, n: usize) -> i32 {
    let src = nest(k, n);
    let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || total(&src, false)).unwrap().join();
    match r {
        Ok(Ok(_)) => 0,
        Ok(Err(_)) => 3,
        Err(_) => 4,
    }
}
pub static P01: Prop = Prop {
    id: "P01",
    rule: "every way of nesting up to 500 deep, around names of the outside too, and long flat texts of every kind, then random characters, edited and spliced programs, unfinished nests, token soups and valid programs, each compiled as a script and as a module and its result rendered. Non-trivial: longer than three bytes; distinct by text.",
    quick: 300_000,
    thorough: 12_000_000,
    case: p01,
    need: &["accepted", "rejected", "pure nests", "nests around names", "very long texts", "random characters", "edited programs", "spliced programs", "nests", "long texts", "token soups", "programs", "lexical oddities", "nests on an 8 MiB stack"],
    assumptions: &[
        "a case that does not end within 40 s, and alone within 150 s, does not end",
        "nesting up to 500 is compiled on a large stack and 60 on one of 8 MiB; much deeper nesting overflows the native stack, which is a recorded finding",
    ],
    extra: Some(deep),
    stack_mb: 2048,
};
