//! Gives the variables, fields and exports of programs unusual names.
use crate::lex::{lex, K, KEYWORDS, RESERVED};
use crate::rng::Rng;
use std::collections::{HashMap, HashSet};

/// A name one of the generators made up.
pub fn ours(n: &str) -> bool {
    let b = n.as_bytes();
    if n == "t" || n == "e" {
        return false;
    }
    let letters = b.iter().take_while(|c| c.is_ascii_alphabetic()).count();
    (n.len() == 1 && (b'a'..=b'h').contains(&b[0])) || ((1..=3).contains(&letters) && letters < b.len() && b[letters..].iter().all(|c| c.is_ascii_digit()))
}

/// Renames consistently over all texts. Texts that cannot be renamed safely stay as they are.
pub fn unusual(texts: &mut [&mut String], r: &mut Rng) -> bool {
    renamed(texts, &ours, r)
}
/// Names that mean something to the compiler, the prelude or the machine.
const SPECIAL: &[&str] = &[
    "new", "self", "super", "Any", "Module", "next", "value", "is_done", "iter", "to_string", "is_ok", "result", "Int", "Ok", "Err", "Result", "Null", "export", "add", "eq", "range_inclusive", "anonymous_fn", "t", "main", "is",
];
/// The same for whichever names are said to be free.
pub fn renamed(texts: &mut [&mut String], free: &dyn Fn(&str) -> bool, r: &mut Rng) -> bool {
    let mut found: Vec<String> = vec![];
    let mut all: HashSet<String> = KEYWORDS.iter().chain(RESERVED).map(|s| s.to_string()).collect();
    for t in texts.iter() {
        for k in lex(t) {
            let s = match k.k {
                K::Ident => &t[k.s..k.e],
                K::Str | K::Bs => &t[k.s + 1..k.e - 1],
                _ => continue,
            };
            if all.insert(s.to_string()) && free(s) {
                found.push(s.to_string());
            }
        }
    }
    for i in (1..found.len()).rev() {
        let j = r.below(i + 1);
        found.swap(i, j);
    }
    let style = r.below(16);
    let mut map: HashMap<String, String> = HashMap::new();
    for (i, n) in found.iter().enumerate() {
        let new = match style {
            0 => format!("_{}", n),
            1 => format!("__{}_", n),
            2 => "_".repeat(i % 80 + 1) + if i < 80 { "" } else { n },
            3 => format!("{}{}{}", r.pick(KEYWORDS), r.pick(&["_", "", "s", "X"]), n),
            4 => {
                // Names that share a long beginning or end.
                let k = *r.pick(&[15, 31, 62, 63, 64, 127, 254, 300]);
                if r.pct(50) { "x".repeat(k) + n } else { format!("{}_{}", n, "y".repeat(k)) }
            }
            5 => {
                let bits: String = format!("{:b}", i + 1).chars().map(|c| if c == '1' { 'l' } else { 'I' }).collect();
                format!("l{}", bits)
            }
            6 => n.to_uppercase() + "_Q",
            7 => format!("{}{}", r.pick(RESERVED), n),
            8 | 9 => {
                // Nearly a name that means something.
                let w = *r.pick(SPECIAL);
                let mut first = w.to_string();
                if w.starts_with(|c: char| c.is_ascii_uppercase()) {
                    first.make_ascii_lowercase();
                } else {
                    first[..1].make_ascii_uppercase();
                }
                match r.below(8) {
                    0 => format!("{}{}", w, n),
                    1 => format!("{}_{}", w, n),
                    2 => format!("{}{}", n, w),
                    3 => format!("_{}", w),
                    4 => w.to_uppercase(),
                    5 => first,
                    6 => format!("{}s", w),
                    _ => w[..w.len() - 1].to_string() + "_",
                }
            }
            10 | 11 => format!("{}{}", ["name", "nAme", "NAME", "Name"][i % 4], if i < 4 { String::new() } else { (i / 4).to_string() }),
            12 => format!("{}{}", "abcdefghijklm".get(..i % 13 + 2).unwrap_or("n"), if i < 13 { String::new() } else { (i / 13).to_string() }),
            13 => format!("{}{}", if i < 13 { String::new() } else { format!("q{}", i / 13) }, "abcdefghijklm".get(11 - i % 12..).unwrap_or("n")),
            14 => {
                // The same letters in another order.
                let mut b: Vec<char> = "abcd".chars().collect();
                b.rotate_left(i % 4);
                if i / 4 % 2 == 1 {
                    b.swap(0, 1);
                }
                b.into_iter().collect::<String>() + &if i < 8 { String::new() } else { (i / 8).to_string() }
            }
            _ => match r.below(4) {
                0 => format!("_{}", n),
                1 => format!("{}_", n),
                2 => format!("{}__{}", n, n),
                _ => n.clone(),
            },
        };
        let new = if (8..16).contains(&style) && (all.contains(&new) || map.values().any(|v| *v == new)) { format!("{}{}", new, n) } else { new };
        let known = new != *n && all.contains(&new);
        let l = lex(&new);
        if known || l.len() != 2 || !matches!(l[0].k, K::Ident) || map.values().any(|v| *v == new) {
            return false;
        }
        map.insert(n.clone(), new);
    }
    for t in texts.iter_mut() {
        let mut out = String::with_capacity(t.len());
        let mut at = 0;
        for k in lex(t) {
            let (s, e) = match k.k {
                K::Ident => (k.s, k.e),
                K::Str | K::Bs => (k.s + 1, k.e - 1),
                _ => continue,
            };
            if let Some(n) = map.get(&t[s..e]) {
                out.push_str(&t[at..s]);
                out.push_str(n);
                at = e;
            }
        }
        out.push_str(&t[at..]);
        **t = out;
    }
    true
}
