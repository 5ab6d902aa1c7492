//! Reference lexer, written from the language's lexical rules.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    /// A keyword or symbol.
    P(&'static str),
    Ident,
    Int,
    Float,
    Str,
    Bs,
    Reserved,
    /// Text that starts no token.
    Bad,
    /// A malformed token with its own error code.
    Err(&'static str),
    Eoi,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tok {
    pub k: K,
    pub s: usize,
    pub e: usize,
}

pub const KEYWORDS: &[&str] = &[
    "false", "true", "null", "if", "else", "while", "loop", "for", "break", "continue", "return", "fn", "let", "mut", "in",
    "op", "class", "is", "import", "as", "from", "export", "super", "or",
];
pub const RESERVED: &[&str] = &[
    "await", "async", "yield", "do", "const", "match", "enum", "trait", "type", "try", "when", "default", "switch",
];
/// Longest first.
pub const SYMBOLS: &[&str] = &[
    "..=", "..", "->", "=>", "!!", "??", "!=", "==", ">=", "<=", "*=", "/=", "+=", "-=", "&&", "|>", "(", ")", "{", "}", "[",
    "]", ":", ",", "|", ".", "?", "-", "+", "%", "*", "/", "!", ">", "<", "=", "#",
];

fn is_start(b: u8) -> bool {
    b == b'_' || b.is_ascii_alphabetic()
}
fn is_cont(b: u8) -> bool {
    b == b'_' || b.is_ascii_alphanumeric()
}

/// Splits the text into tokens, up to and including the first that is malformed; then an end-of-input token.
pub fn lex(src: &str) -> Vec<Tok> {
    let b = src.as_bytes();
    let n = b.len();
    let mut i = 0;
    let mut out = Vec::new();
    loop {
        // Trivia.
        loop {
            if i < n && matches!(b[i], b' ' | b'\t' | b'\r' | b'\n' | 0x0c) {
                i += 1;
            } else if i + 1 < n && b[i] == b'/' && b[i + 1] == b'/' {
                while i < n && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
            } else {
                break;
            }
        }
        if i >= n {
            break;
        }
        let s = i;
        let c = b[i];
        let k;
        if is_start(c) {
            while i < n && is_cont(b[i]) {
                i += 1;
            }
            let w = &src[s..i];
            k = if let Some(kw) = KEYWORDS.iter().find(|x| **x == w) {
                K::P(kw)
            } else if RESERVED.contains(&w) {
                K::Reserved
            } else {
                K::Ident
            };
        } else if c.is_ascii_digit() {
            while i < n && b[i].is_ascii_digit() {
                i += 1;
            }
            if i + 1 < n && b[i] == b'.' && b[i + 1].is_ascii_digit() {
                i += 1;
                while i < n && b[i].is_ascii_digit() {
                    i += 1;
                }
                k = K::Float;
            } else {
                k = K::Int;
            }
        } else if c == b'"' {
            i += 1;
            let mut r = None;
            while r.is_none() {
                match b.get(i) {
                    None => r = Some(K::Err("E1002")),
                    Some(b'"') => {
                        i += 1;
                        r = Some(K::Str);
                    }
                    Some(b'\\') => match b.get(i + 1) {
                        None => r = Some(K::Err("E1002")),
                        Some(b'"' | b'\\' | b'n' | b'r' | b't') => i += 2,
                        Some(_) => r = Some(K::Err("E1001")),
                    },
                    Some(_) => i += 1,
                }
            }
            k = r.unwrap();
        } else if c == b'\\' {
            i += 1;
            while i < n && b[i] != b'\\' {
                i += 1;
            }
            if i < n {
                i += 1;
                k = K::Bs;
            } else {
                k = K::Err("E1009");
            }
        } else if let Some(sym) = SYMBOLS.iter().find(|x| src[s..].starts_with(**x)) {
            i += sym.len();
            k = K::P(sym);
        } else {
            k = K::Bad;
        }
        if matches!(k, K::Bad | K::Err(_)) {
            out.push(Tok { k, s, e: s + 1 });
            return out;
        }
        out.push(Tok { k, s, e: i });
    }
    let e = out.last().map(|t| (t.s, t.e)).unwrap_or((0, 0));
    out.push(Tok { k: K::Eoi, s: e.0, e: e.1 });
    out
}
