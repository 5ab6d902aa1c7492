//! Source text bookkeeping: positions, lines and rendered reports.
use crate::fw::*;
use crate::rng::Rng;
use dice_core::error::context::{Context, ContextKind};
use dice_core::error::trace::ErrorTrace;
use dice_core::error::{codes, context, Error, ResultExt};
use dice_core::source::{LineIndex, Source, SourceKind};
use dice_core::span::Span;
use dice_core::tags;

const PIECES: &[&str] = &[
    "a", "bc", "\n", "\n", "\r\n", "\r", "é", "ß", "日", "♥", "𝕏", "😀", "\u{10ffff}", "\u{10000}", "\u{ffff}", "\u{800}", "\u{7ff}",
    "\u{80}", "\u{7f}", " ", "\t", "\u{2028}", "\u{feff}", "e\u{301}", "\0", "let x = 1", "\n\n\n", "𝕏𝕐", "|", "\u{85}", "\u{c}",
];
/// Texts in the order of a small exhaustive enumeration first, then random ones.
pub fn text(r: &mut Rng, idx: u64) -> String {
    const SMALL: &[&str] = &["a", "\n", "é", "日", "𝕏", "\r\n"];
    let mut i = idx;
    let mut len = 0u32;
    while len <= 5 {
        let n = (SMALL.len() as u64).pow(len);
        if i < n {
            let mut s = String::new();
            for _ in 0..len {
                s.push_str(SMALL[(i % SMALL.len() as u64) as usize]);
                i /= SMALL.len() as u64;
            }
            return s;
        }
        i -= n;
        len += 1;
    }
    let mut s = String::new();
    let n = *r.pick(&[3, 8, 20, 60, 200]);
    let n = r.below(n) + 1;
    let k = r.range(1, PIECES.len());
    let mut pool: Vec<String> = (0..k).map(|_| r.pick(PIECES).to_string()).collect();
    for _ in 0..r.below(5) {
        pool.push(match r.below(4) {
            0 | 1 => ((32 + r.below(95)) as u8 as char).to_string(),
            2 => r.pick(&["fn f(x) { x }", "// note", "\"text\";", "}", "});", "#{a: 1},", "{", "1 | 2", "--> a:1:1", "note: x", "12 | y"]).to_string(),
            _ => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}').to_string(),
        });
    }
    for _ in 0..n {
        s.push_str(r.pick(&pool));
    }
    if r.pct(30) {
        s.push('\n');
    }
    s
}
/// Every so many cases, a text with more than 65536 bytes, columns or lines.
fn is_huge(c: &Ctx, every: u64) -> bool {
    c.idx % every == every - 1
}
fn huge(r: &mut Rng) -> String {
    let n = 65_530 + r.below(70_000);
    let p = *r.pick(&["a", "é", "日", "𝕏", "ab é", "\t"]);
    let mut s = String::new();
    if r.pct(50) {
        s.push_str(r.pick(&["\n", "first\n", "é\n\n", "𝕏"]));
    }
    match r.below(5) {
        // One long line.
        0 => s.push_str(&p.repeat(n)),
        // Many lines.
        1 => s.push_str(&format!("{}\n", p).repeat(n)),
        2 => s.push_str(&"\n".repeat(n)),
        // A long line among others.
        3 => {
            s.push_str(&"x\n".repeat(r.below(400)));
            s.push_str(&p.repeat(n));
            s.push_str("\nlast line\n");
        }
        // Long lines.
        _ => {
            let k = r.range(200, 400);
            s.push_str(&format!("{}\r\n", p.repeat(k)).repeat(n / k + 1));
        }
    }
    s.push_str(r.pick(&["", "\n", "end", "é𝕏"]));
    s
}
/// Indices into the character boundaries of a huge text.
fn spots(r: &mut Rng, s: &str, b: &[usize]) -> Vec<usize> {
    let last = b.len() - 1;
    let mut v = vec![0, 1, last, last - 1, last / 2];
    for x in [255, 256, 257, 65_535, 65_536, 65_537] {
        v.push(x.min(last));
        // Where the line of that number starts.
        if let Some((i, _)) = s.bytes().enumerate().filter(|x| x.1 == b'\n').nth(x - 1) {
            let k = b.partition_point(|o| *o < i);
            v.extend([k.saturating_sub(1), k, (k + 1).min(last), (k + 2).min(last)]);
        }
    }
    for _ in 0..12 {
        v.push(r.below(last));
    }
    v
}
pub fn ref_position(s: &str, off: usize) -> (usize, usize) {
    let before = &s[..off];
    let line = before.bytes().filter(|b| *b == b'\n').count();
    let start = before.rfind('\n').map(|i| i + 1).unwrap_or(0);
    (line, before[start..].encode_utf16().count())
}
/// Byte ranges of the lines that share a byte with the span, each with its newline.
pub fn ref_lines(s: &str, a: usize, b: usize) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut st = 0;
    for l in s.split_inclusive('\n') {
        let e = st + l.len();
        if st < b && a < e {
            out.push((st, e));
        }
        st = e;
    }
    out
}
fn bounds(s: &str) -> Vec<usize> {
    (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect()
}

fn c01(c: &mut Ctx) -> Res {
    let big = is_huge(c, 5000);
    let s = if big { huge(&mut c.rng) } else { text(&mut c.rng, c.idx) };
    current(&format!("{:?}", s));
    let li = LineIndex::new(&s);
    let src = Source::new(s.clone(), SourceKind::Script);
    let mut offsets = bounds(&s);
    if big {
        c.count("texts of more than 65530 characters", 1);
        offsets = spots(&mut c.rng, &s, &offsets).into_iter().map(|i| offsets[i]).collect();
    }
    for o in offsets {
        let want = ref_position(&s, o);
        for (who, got) in [("LineIndex", li.position_of(o)), ("Source", src.line_index().position_of(o))] {
            if (got.line, got.column_utf16) != want {
                return viol(
                    format!("{}: offset {} is reported at line {} column {}, but is at {:?}", who, o, got.line, got.column_utf16, want),
                    format!("{:?}", s),
                );
            }
        }
        c.count("positions", 1);
        c.max("line", want.0 as u64);
        c.max("column", want.1 as u64);
    }
    if !s.is_ascii() {
        c.count("texts with wide characters", 1);
    }
    if s.chars().any(|x| x.len_utf8() == 4) {
        c.count("texts with astral characters", 1);
    }
    if s.contains("\n\n") {
        c.count("texts with empty lines", 1);
    }
    if s.contains("\r\n") {
        c.count("texts with CRLF", 1);
    }
    if s.len() > 2 && s.contains('\n') {
        c.distinct(hash(&s));
    }
    c.sample(|| format!("{:?}", s));
    Ok(())
}
pub static C01: Prop = Prop {
    id: "C01",
    rule: "a case is non-trivial when its text has more than two bytes and at least one newline; two cases are distinct when their texts differ. Every character-boundary offset of every text is checked.",
    quick: 1_000_000,
    thorough: 6_000_000,
    case: c01,
    need: &["positions", "texts of more than 65530 characters", "texts with astral characters", "texts with empty lines", "texts with CRLF"],
    assumptions: &["offsets inside a character are outside the property"],
    extra: None,
    stack_mb: 64,
};

fn c02(c: &mut Ctx) -> Res {
    let big = is_huge(c, 5000);
    let s = if big { huge(&mut c.rng) } else { text(&mut c.rng, c.idx) };
    current(&format!("{:?}", s));
    let li = LineIndex::new(&s);
    let b = bounds(&s);
    let n = b.len();
    let all = n <= 24;
    let pairs: Vec<(usize, usize)> = if big {
        c.count("texts of more than 65530 characters", 1);
        let v = spots(&mut c.rng, &s, &b);
        let mut w: Vec<(usize, usize)> = v.iter().map(|i| (*i, (*i + c.rng.range(1, 6)).min(n - 1))).filter(|(i, j)| i < j).collect();
        w.extend([(0, n - 1), (0, n / 2), (n / 3, n - 1)]);
        w
    } else if all {
        (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect()
    } else {
        (0..60)
            .map(|k| {
                let i = c.rng.below(n - 1);
                let far = c.rng.range(i + 1, n - 1);
                let near = (i + c.rng.range(1, 4)).min(n - 1);
                match k % 4 {
                    0 => (i, n - 1),
                    1 => (0, i + 1),
                    2 => (i, near),
                    _ => (i, far),
                }
            })
            .collect()
    };
    for (i, j) in pairs {
        let (x, y) = (b[i], b[j]);
        let got: Vec<(usize, usize)> = li.lines(Span::new(x..y)).map(|s| (s.start, s.end)).collect();
        let want = ref_lines(&s, x, y);
        if got != want {
            return viol(format!("the lines of {}..{} are reported as {:?}, but are {:?}", x, y, got, want), format!("{:?}", s));
        }
        c.count("spans", 1);
        c.max("lines of a span", want.len() as u64);
        if want.len() > 1 {
            c.count("multi-line spans", 1);
        }
        if y == s.len() {
            c.count("spans that reach the end", 1);
        }
        if s[..y].ends_with('\n') {
            c.count("spans that end at a line break", 1);
        }
    }
    if s.len() > 2 && s.contains('\n') {
        c.distinct(hash(&s));
    }
    c.sample(|| format!("{:?}", s));
    Ok(())
}
pub static C02: Prop = Prop {
    id: "C02",
    rule: "a case is non-trivial when its text has more than two bytes and at least one newline; distinct by text. All spans of short texts and 60 spans of each longer one are checked.",
    quick: 1_000_000,
    thorough: 5_000_000,
    case: c02,
    need: &["multi-line spans", "texts of more than 65530 characters", "spans that reach the end", "spans that end at a line break"],
    assumptions: &["empty spans are outside the property"],
    extra: None,
    stack_mb: 64,
};

/// Every error code a constant exists for, with the values the toolchain supplies with it.
pub fn all_codes() -> Vec<(&'static str, &'static str, &'static [&'static str])> {
    use codes::*;
    vec![
        ("UNEXPECTED_TOKEN", UNEXPECTED_TOKEN, &["actual", "expected"]),
        ("INVALID_ESCAPE_SEQUENCE", INVALID_ESCAPE_SEQUENCE, &["sequence"]),
        ("UNTERMINATED_STRING", UNTERMINATED_STRING, &[]),
        ("UNRECOGNIZED_INPUT", UNRECOGNIZED_INPUT, &["input"]),
        ("RESERVED_KEYWORD", RESERVED_KEYWORD, &["input"]),
        ("FUNCTION_HAS_TOO_MANY_ARGUMENTS", FUNCTION_HAS_TOO_MANY_ARGUMENTS, &[]),
        ("OPERATOR_HAS_INCORRECT_ARGUMENT_COUNT", OPERATOR_HAS_INCORRECT_ARGUMENT_COUNT, &[]),
        ("INVALID_INTEGER_VALUE", INVALID_INTEGER_VALUE, &["message"]),
        ("INVALID_FLOAT_VALUE", INVALID_FLOAT_VALUE, &["message"]),
        ("UNTERMINATED_BACKSLASH_ARG", UNTERMINATED_BACKSLASH_ARG, &[]),
        ("INTERNAL_COMPILER_ERROR", INTERNAL_COMPILER_ERROR, &[]),
        ("TOO_MANY_UPVALUES", TOO_MANY_UPVALUES, &[]),
        ("TOO_MANY_CONSTANTS", TOO_MANY_CONSTANTS, &[]),
        ("LIST_HAS_TOO_MANY_ITEMS", LIST_HAS_TOO_MANY_ITEMS, &[]),
        ("TOO_MANY_LOCALS", TOO_MANY_LOCALS, &[]),
        ("JUMP_TOO_LARGE", JUMP_TOO_LARGE, &[]),
        ("NEW_METHOD_CANNOT_HAVE_RETURN_TYPE", NEW_METHOD_CANNOT_HAVE_RETURN_TYPE, &[]),
        ("NEW_METHOD_MUST_HAVE_RECEIVER", NEW_METHOD_MUST_HAVE_RECEIVER, &[]),
        ("OPERATOR_MUST_HAVE_RECEIVER", OPERATOR_MUST_HAVE_RECEIVER, &[]),
        ("NEW_MUST_CALL_SUPER_FROM_SUBCLASS", NEW_MUST_CALL_SUPER_FROM_SUBCLASS, &[]),
        ("NEW_RETURN_CANNOT_HAVE_EXPRESSION", NEW_RETURN_CANNOT_HAVE_EXPRESSION, &[]),
        ("INVALID_SUPER_CALL", INVALID_SUPER_CALL, &[]),
        ("METHOD_RECEIVER_CANNOT_HAVE_TYPE", METHOD_RECEIVER_CANNOT_HAVE_TYPE, &[]),
        ("FUNCTION_CANNOT_HAVE_DUPLICATE_ARGS", FUNCTION_CANNOT_HAVE_DUPLICATE_ARGS, &[]),
        ("CLASS_ALREADY_DECLARED", CLASS_ALREADY_DECLARED, &["name"]),
        ("FUNCTION_ALREADY_DECLARED", FUNCTION_ALREADY_DECLARED, &["name"]),
        ("INVALID_ASSIGNMENT_TARGET", INVALID_ASSIGNMENT_TARGET, &[]),
        ("VARIABLE_NOT_DECLARED", VARIABLE_NOT_DECLARED, &["name"]),
        ("VARIABLE_NOT_INITIALIZED", VARIABLE_NOT_INITIALIZED, &["name"]),
        ("CANNOT_REASSIGN_IMMUTABLE_VARIABLE", CANNOT_REASSIGN_IMMUTABLE_VARIABLE, &["name"]),
        ("INVALID_RETURN_USAGE", INVALID_RETURN_USAGE, &[]),
        ("INVALID_BREAK_USAGE", INVALID_BREAK_USAGE, &[]),
        ("INVALID_CONTINUE_USAGE", INVALID_CONTINUE_USAGE, &[]),
        ("INVALID_ERROR_PROPAGATE_USAGE", INVALID_ERROR_PROPAGATE_USAGE, &[]),
        ("INVALID_EXPORT_USAGE", INVALID_EXPORT_USAGE, &[]),
        ("INVALID_IMPORT_USAGE", INVALID_IMPORT_USAGE, &[]),
        ("INVALID_BOOL_CONVERSION", INVALID_BOOL_CONVERSION, &[]),
        ("INVALID_INT_CONVERSION", INVALID_INT_CONVERSION, &[]),
        ("INVALID_FLOAT_CONVERSION", INVALID_FLOAT_CONVERSION, &[]),
        ("INVALID_ARRAY_CONVERSION", INVALID_ARRAY_CONVERSION, &[]),
        ("INVALID_STRING_CONVERSION", INVALID_STRING_CONVERSION, &[]),
        ("INVALID_SYMBOL_CONVERSION", INVALID_SYMBOL_CONVERSION, &[]),
        ("INVALID_OBJECT_CONVERSION", INVALID_OBJECT_CONVERSION, &[]),
        ("INVALID_CLASS_CONVERSION", INVALID_CLASS_CONVERSION, &[]),
        ("TYPE_ASSERTION_FAILURE", TYPE_ASSERTION_FAILURE, &[]),
        ("TYPE_ASSERTION_NULLABILITY_FAILURE", TYPE_ASSERTION_NULLABILITY_FAILURE, &[]),
        ("TYPE_ASSERTION_BOOL_FAILURE", TYPE_ASSERTION_BOOL_FAILURE, &[]),
        ("TYPE_ASSERTION_NUMBER_FAILURE", TYPE_ASSERTION_NUMBER_FAILURE, &[]),
        ("TYPE_ASSERTION_FUNCTION_FAILURE", TYPE_ASSERTION_FUNCTION_FAILURE, &[]),
        ("TYPE_ASSERTION_SUPER_FAILURE", TYPE_ASSERTION_SUPER_FAILURE, &[]),
        ("DIVIDE_BY_ZERO", DIVIDE_BY_ZERO, &[]),
        ("GLOBAL_VARIABLE_ALREADY_DEFINED", GLOBAL_VARIABLE_ALREADY_DEFINED, &["name"]),
        ("GLOBAL_VARIABLE_UNDEFINED", GLOBAL_VARIABLE_UNDEFINED, &["name"]),
        ("GLOBAL_OPERATOR_UNDEFINED", GLOBAL_OPERATOR_UNDEFINED, &["name"]),
        ("NEW_FUNCTION_CANNOT_BE_ACCESS_DIRECTLY", NEW_FUNCTION_CANNOT_BE_ACCESS_DIRECTLY, &[]),
        ("CLASS_MUST_HAVE_NEW_IF_SUPER_HAS_NEW", CLASS_MUST_HAVE_NEW_IF_SUPER_HAS_NEW, &[]),
        ("CLASS_CANNOT_INHERIT_VALUE_TYPE", CLASS_CANNOT_INHERIT_VALUE_TYPE, &[]),
        ("PANIC", PANIC, &["message"]),
        ("IO_ERROR", IO_ERROR, &["message"]),
        ("INVALID_SCRIPT_LOCATION", INVALID_SCRIPT_LOCATION, &["directory"]),
        ("MODULE_ALREADY_EXISTS", MODULE_ALREADY_EXISTS, &["name"]),
        ("GLOBAL_ALREADY_EXISTS", GLOBAL_ALREADY_EXISTS, &["name"]),
    ]
}
pub fn all_notes() -> Vec<(&'static str, &'static str, &'static [&'static str])> {
    use context::*;
    vec![
        ("INVALID_INDEX_TYPES", INVALID_INDEX_TYPES, &[]),
        ("MODULE_LOAD_ERROR", MODULE_LOAD_ERROR, &["module"]),
        ("EXPORT_ONLY_ALLOWED_IN_MODULES", EXPORT_ONLY_ALLOWED_IN_MODULES, &["kind"]),
        ("EXPORT_ONLY_ALLOWED_IN_TOP_LEVEL_SCOPE", EXPORT_ONLY_ALLOWED_IN_TOP_LEVEL_SCOPE, &[]),
        ("IMPORT_REQUIRES_ITEMS_TO_BE_IMPORTED", IMPORT_REQUIRES_ITEMS_TO_BE_IMPORTED, &[]),
        ("IMPORT_REQUIRES_ITEMS_TO_BE_IMPORTED_HELP", IMPORT_REQUIRES_ITEMS_TO_BE_IMPORTED_HELP, &[]),
        ("MISMATCHED_TYPE_ASSERTIONS", MISMATCHED_TYPE_ASSERTIONS, &["expected", "actual"]),
    ]
}
pub fn tags_of(names: &[&'static str], vals: &[String]) -> dice_core::error::tag::Tags {
    let mut t = tags!();
    for (n, v) in names.iter().zip(vals) {
        t.push(n, v.clone());
    }
    t
}

const VALUES: &[&str] = &[
    "x", "é𝕏", "some words", "{", "}", "$name", "{$name}", "\"q\"", "'s'", "a\\b", "0", "-1.5", "007", "1.50", "1e3", "12345678901234567890", "Foo[bar]", "<T>",
    "#add", "日本", "%s", "\\u{1}", "a\nb", "a\tb", " x", "x ", "a  b", "E1000", "error[E1000]: x", "TRUE", "null", "[0m", "-", "\u{2068}x\u{2069}",
];
/// A value as a diagnostic may have it: a name, a token, a message of the system, a path.
pub fn value(r: &mut Rng) -> String {
    const BITS: &[&str] = &[
        "a", "Z", "0", "7", "_", " ", ".", "-", "{", "}", "$", "\"", "'", "\\", "/", "é", "日", "𝕏", "\n", "\t", "name", "{ $name }", "e\u{301}", "<", "|", "#", ":", "ß", "İ", "\u{200b}",
    ];
    let n = match r.below(20) {
        0..=11 => return r.pick(VALUES).to_string(),
        12..=15 => r.range(1, 6),
        16..=18 => r.range(6, 60),
        _ => *r.pick(&[100, 127, 128, 255, 256, 300, 1000, 2000]) + r.below(3),
    };
    if r.pct(30) {
        return r.pick(&["a", "é", "word ", "0", "x/"]).repeat(n);
    }
    let k = r.range(1, BITS.len());
    let pool: Vec<&str> = (0..k).map(|_| *r.pick(BITS)).collect();
    let s: String = (0..n).map(|_| *r.pick(&pool)).collect();
    if s.trim().is_empty() { format!("{}v", s) } else { s }
}

/// A line of a report, without regard for its indentation; numbered source lines as "N | text".
fn norm_line(l: &str) -> Option<String> {
    let t = l.trim();
    if t.is_empty() || t == "|" {
        return None;
    }
    let d = t.bytes().take_while(|b| b.is_ascii_digit()).count();
    if d > 0 {
        if let Some(rest) = t[d..].trim_start().strip_prefix('|') {
            return Some(format!("{} | {}", &t[..d], rest.trim()));
        }
    }
    Some(t.to_string())
}
fn norm_report(s: &str) -> Vec<String> {
    s.split('\n').filter_map(norm_line).collect()
}
fn loc(path: Option<&str>, s: &str, at: usize) -> String {
    let (l, c) = ref_position(s, at);
    format!("{}:{}:{}", path.unwrap_or("<Script>"), l + 1, c + 1)
}
fn shown(s: &str, a: usize, b: usize, out: &mut Vec<String>) {
    let first = ref_position(s, a).0 + 1;
    for (i, (x, y)) in ref_lines(s, a, b).into_iter().enumerate() {
        out.push(format!("{} | {}", first + i, s[x..y].trim()));
    }
}

fn c03(c: &mut Ctx) -> Res {
    let codes = all_codes();
    let notes = all_notes();
    let mk = |c: &mut Ctx| {
        let i = 60 + c.rng.next() % 100_000;
        let big = is_huge(c, 3000) && c.idx % 400 != 399;
        let mut s = if big { huge(&mut c.rng) } else { text(&mut c.rng, i) };
        if big {
            c.count("sources of more than 65530 characters", 1);
        } else if c.rng.pct(20) {
            // Many lines, for line numbers of several digits.
            let n = c.rng.range(8, 1200);
            let fill = *c.rng.pick(&["\n", "x\n", "é\r\n"]);
            s = format!("{}{}", fill.repeat(n), s);
        }
        if s.is_empty() {
            s.push('x');
        }
        let b = bounds(&s);
        let lo = if c.rng.pct(50) { b.len().saturating_sub(30) } else { 0 };
        let i = c.rng.range(lo, b.len() - 1);
        let i = if big { let v = spots(&mut c.rng, &s, &b); *c.rng.pick(&v) } else { i };
        let j = match c.rng.below(4) {
            0 if big && c.rng.pct(40) => b.len() - 1,
            _ if big => (i + c.rng.range(0, 9)).min(b.len() - 1),
            0 => b.len() - 1,
            1 => c.rng.range(i, b.len() - 1),
            _ => (i + c.rng.range(0, 6)).min(b.len() - 1),
        };
        let path = if c.rng.pct(50) { Some(c.rng.pick(&["main.dm", "/a b/é.dm", "x", "C:\\p\\q.dm"]).to_string()) } else { None };
        let kind = if c.rng.pct(50) { SourceKind::Script } else { SourceKind::Module };
        let src = match &path {
            Some(p) => Source::with_path(s.clone(), p.clone(), kind),
            None => Source::new(s.clone(), kind),
        };
        (s, b[i], b[j], path, src)
    };
    let (_, code, names) = *c.rng.pick(&codes);
    let names0 = names;
    let vals: Vec<String> = names.iter().map(|_| value(&mut c.rng)).collect();
    let vals0 = vals.clone();
    let bare = Error::new(code).with_tags(tags_of(names, &vals)).to_string();
    let message = bare.trim().to_string();
    let (s, a, b, path, src) = mk(c);
    let mut e = Error::new(code);
    let early = c.rng.pct(50);
    let own = (s.clone(), a, b, path.clone(), src.clone());
    if early {
        e = e.with_tags(tags_of(names, &vals)).with_source(src).with_span(Span::new(a..b));
    } else {
        e = e.with_span(Span::new(a..b)).with_source(src).with_tags(tags_of(names, &vals));
    }
    let mut want = norm_report(&message);
    let head = want.clone();
    let arrow = format!("--> {}", loc(path.as_deref(), &s, a));
    want.push(arrow.clone());
    shown(&s, a, b, &mut want);
    let mut desc = format!("code {} tags {:?} source {:?} path {:?} span {}..{}", code, vals, s, path, a, b);
    let mut tail = vec![];
    let many = c.rng.pct(3);
    let lots = c.idx % 400 == 399;
    let nn = if lots { c.rng.range(40, 600) } else if many && c.rng.pct(50) { c.rng.range(5, 40) } else { c.rng.below(5) };
    for _ in 0..nn {
        let (_, id, names) = *c.rng.pick(&notes);
        let vals: Vec<String> = names.iter().map(|_| value(&mut c.rng)).collect();
        let help = c.rng.pct(50);
        let kind = if help { ContextKind::Help } else { ContextKind::Note };
        e = e.push_context(Context::new(id, kind).with_tags(tags_of(names, &vals)));
        // The note's own text, seen on an error of its own.
        let alone = Error::new(code)
            .with_tags(tags_of(names0, &vals0))
            .push_context(Context::new(id, kind).with_tags(tags_of(names, &vals)))
            .to_string();
        let label = if help { "help: " } else { "note: " };
        let text = match alone.find(&format!("\n{}", label)) {
            Some(p) => alone[p + 1 + label.len()..].trim().to_string(),
            None => return viol(format!("a {:?} is not shown as such", kind), alone),
        };
        if text.is_empty() {
            return viol(format!("the note {} has no text", id), alone);
        }
        for v in &vals {
            if !alone.contains(v.as_str()) {
                return viol(format!("the note {} does not show its value {:?}", id, v), alone);
            }
        }
        tail.push(format!("{}{}", label, text));
        desc.push_str(&format!("\nnote {} {:?} help={}", id, vals, help));
    }
    for t in &tail {
        want.extend(norm_report(t));
    }
    let nt = if lots { c.rng.range(70, 700) } else if many { c.rng.range(4, 70) } else { c.rng.below(4) };
    let mut frames = vec![];
    let mut seen: Vec<(String, usize, usize, Option<String>, Source)> = if c.rng.pct(50) && own.0.len() < 20_000 { vec![own] } else { vec![] };
    for _ in 0..nt {
        // Recursion: frames that were there before.
        let old = !seen.is_empty() && c.rng.pct(if lots { 95 } else { 25 });
        let at = if c.rng.pct(60) { seen.len().saturating_sub(1) } else { c.rng.below(seen.len().max(1)) };
        let frame = if old { seen[at].clone() } else { mk(c) };
        if old {
            c.count("frames like an earlier one", 1);
        } else if frame.0.len() < 20_000 {
            seen.push(frame.clone());
        }
        let (s, a, b, path, src) = frame;
        e = e.push_trace(ErrorTrace { source: src, span: Span::new(a..b) });
        let mut f = vec![format!("Location: {}", loc(path.as_deref(), &s, a))];
        shown(&s, a, b, &mut f);
        // An empty span may or may not show the line it is in.
        frames.push((f, a == b));
        desc.push_str(&format!("\nframe source {:?} path {:?} span {}..{}", s, path, a, b));
        c.count("trace frames", 1);
        c.max("trace frames of one report", nt as u64);
    }
    current(&desc);
    let empties = a == b || frames.iter().any(|f| f.1);
    if nt > 0 {
        want.push("Trace:".into());
        for (f, _) in frames.iter().rev() {
            want.extend(f.iter().cloned());
        }
    }
    let long = format!("{}", e);
    let short = format!("{:?}", e);
    if !message.starts_with(&format!("error[{}]: ", code)) || message.len() <= code.len() + 9 {
        return viol(format!("the message is {:?}", message), desc);
    }
    for v in &vals0 {
        if !long.contains(v.as_str()) {
            return viol(format!("the value {:?} is not shown in {}", v, long), desc);
        }
    }
    let mut got = norm_report(&long);
    let mut want2 = want.clone();
    if empties {
        let keep = |l: &String| {
            let d = l.bytes().take_while(|b| b.is_ascii_digit()).count();
            !(d > 0 && l[d..].starts_with(" | "))
        };
        got.retain(keep);
        want2.retain(keep);
    } else {
        c.count("reports compared line by line", 1);
    }
    if got != want2 {
        let k = got.iter().zip(&want2).position(|(x, y)| x != y).unwrap_or(got.len().min(want2.len()));
        return viol(
            format!("the report differs at its line {}: it has {:?}, expected {:?}\nfull report:\n{}", k, got.get(k), want2.get(k), long),
            desc,
        );
    }
    let mut ws = head;
    ws.push(arrow);
    if norm_report(&short) != ws {
        return viol(format!("the short report is {:?}, expected {:?}", short, ws), desc);
    }
    c.count("reports", 1);
    c.count("notes", tail.len() as u64);
    if ref_lines(&s, a, b).len() > 1 {
        c.count("multi-line reports", 1);
    }
    c.max("line number shown", ref_position(&s, b).0 as u64 + 1);
    if a != b && (nt > 0 || nn > 0) {
        c.distinct(hash(&desc));
    }
    c.sample(|| long.clone());
    Ok(())
}
pub static C03: Prop = Prop {
    id: "C03",
    rule: "a case is one error with random code, values, source, span, notes and trace frames; non-trivial when its span is not empty and it has a note or a frame; distinct by all of these.",
    quick: 300_000,
    thorough: 3_000_000,
    case: c03,
    need: &["reports compared line by line", "frames like an earlier one", "notes", "trace frames", "multi-line reports"],
    assumptions: &[
        "the message text itself is taken from a bare error with the same code and values (C04 decides it)",
        "indentation and blank or gutter-only lines of the report are not compared",
        "reports are rendered without colour (NO_COLOR)",
    ],
    extra: None,
    stack_mb: 64,
};

/// What was attached to an error, apart from the error.
#[derive(Clone)]
struct Kept {
    code: &'static str,
    source: Option<Source>,
    span: Option<(usize, usize)>,
    tags: Vec<(&'static str, String)>,
    notes: Vec<Context>,
    frames: Vec<ErrorTrace>,
}
impl Kept {
    /// The same error, built in one plain way.
    fn plain(&self) -> Error {
        let mut e = Error::new(self.code);
        if let Some((a, b)) = self.span {
            e = e.with_span(Span::new(a..b));
        }
        let mut t = tags!();
        for (n, v) in &self.tags {
            t.push(n, v.clone());
        }
        e = e.with_tags(t);
        if let Some(s) = &self.source {
            e = e.with_source(s.clone());
        }
        for n in &self.notes {
            e = e.push_context(n.clone());
        }
        for f in &self.frames {
            e = e.push_trace(f.clone());
        }
        e
    }
    /// What the error shows, put together from what it shows with one note or frame at a time.
    fn pieces(&self) -> Result<String, String> {
        let mut bare = self.clone();
        bare.notes.clear();
        bare.frames.clear();
        let bare = bare.plain();
        let mut all = bare.to_string();
        let head = all.len();
        let more = |e: Error| match e.to_string() {
            s if s.starts_with(&all[..head]) => Ok(s[head..].to_string()),
            s => Err(format!("a note or a frame changes what comes before it: {:?}", s)),
        };
        let notes: Result<Vec<_>, _> = self.notes.iter().map(|n| more(bare.clone().push_context(n.clone()))).collect();
        let frames: Result<Vec<_>, _> = self.frames.iter().rev().map(|f| more(bare.clone().push_trace(f.clone()))).collect();
        all.push_str(&notes?.concat());
        for (i, f) in frames?.iter().enumerate() {
            let title = "\nTrace:\n";
            match f.strip_prefix(title) {
                Some(rest) if i > 0 => all.push_str(rest),
                Some(_) => all.push_str(f),
                None => return Err(format!("a frame is shown as {:?}", f)),
            }
        }
        Ok(all)
    }
}
fn spans(c: &mut Ctx) -> Res {
    let big = c.rng.pct(10);
    let n = if big { usize::MAX } else { 40 };
    let mk = |r: &mut Rng| {
        let a = r.next() as usize % n;
        let b = r.next() as usize % n;
        match r.below(6) {
            0 => (a, a),
            1 => (0, b),
            2 => (a.min(b), n),
            _ => (a.min(b), a.max(b)),
        }
    };
    let (p, q, w) = (mk(&mut c.rng), mk(&mut c.rng), mk(&mut c.rng));
    let desc = format!("spans {:?} {:?} {:?}", p, q, w);
    let sp = |x: (usize, usize)| Span::new(x.0..x.1);
    let hull = |x: (usize, usize), y: (usize, usize)| (x.0.min(y.0), x.1.max(y.1));
    let raw = |s: Span| (s.start, s.end);
    for (x, y) in [(p, q), (q, p), (p, p), (q, w), (w, q)] {
        let want = hull(x, y);
        for (form, got) in [("values", sp(x) + sp(y)), ("a value and a reference", sp(x) + &sp(y)), ("references", &sp(x) + &sp(y))] {
            if raw(got) != want {
                return viol(format!("{:?} and {:?} joined as {} give {:?}", x, y, form, got), desc);
            }
        }
        if (sp(x) == sp(y)) != (x == y) {
            return viol(format!("comparing {:?} with {:?}", x, y), desc);
        }
    }
    if raw(sp(p) + sp(q) + sp(w)) != hull(hull(p, q), w) || raw(sp(p) + &(sp(q) + sp(w))) != hull(p, hull(q, w)) {
        return viol("joining three spans depends on the grouping".to_string(), desc);
    }
    for x in [p, q, w] {
        let s = sp(x);
        if s.len() != x.1 - x.0 || s.is_empty() != (x.0 == x.1) || s.range() != (x.0..x.1) || Span::new(s.range()) != s {
            return viol(format!("{:?} has the length {}, the range {:?}, empty {}", s, s.len(), s.range(), s.is_empty()), desc);
        }
    }
    if raw(Span::empty()) != (0, 0) || !Span::empty().is_empty() {
        return viol("the empty span is not empty".to_string(), desc);
    }
    c.count("spans joined", 5);
    c.distinct(hash(&desc));
    Ok(())
}
fn c05(c: &mut Ctx) -> Res {
    if c.idx % 4 == 3 {
        return spans(c);
    }
    let codes = all_codes();
    let notes = all_notes();
    let source = |c: &mut Ctx| {
        let i = 60 + c.rng.next() % 100_000;
        let s = format!("{}x", text(&mut c.rng, i));
        let path = c.rng.pct(50).then(|| c.rng.pick(&["main.dm", "/a b/é.dm", "", "x"]).to_string());
        let kind = if c.rng.pct(50) { SourceKind::Script } else { SourceKind::Module };
        let src = match &path {
            Some(p) => Source::with_path(s.clone(), p.clone(), kind),
            None => Source::new(s.clone(), kind),
        };
        let again = src.clone();
        for x in [&src, &again] {
            if x.source() != s || x.path() != path.as_deref() || x.kind() != kind {
                return Err(Viol { msg: format!("a source gives back {:?} {:?} {:?}", x.source(), x.path(), x.kind()), input: format!("{:?} {:?} {:?}", s, path, kind) });
            }
        }
        c.count("sources", 1);
        Ok((s, src))
    };
    let values = |c: &mut Ctx, names: &[&'static str]| -> Vec<(&'static str, String)> {
        names.iter().map(|n| (*n, value(&mut c.rng))).collect()
    };
    let list = |v: &[(&'static str, String)]| {
        let mut t = tags!();
        for (n, x) in v {
            t.push(n, x.clone());
        }
        t
    };
    // A few errors that live side by side, each with a record of what it was given.
    let mut log = String::new();
    let mut all: Vec<(Error, Kept)> = vec![];
    let mut texts: Vec<(String, Source)> = vec![];
    for _ in 0..c.rng.range(1, 3) {
        texts.push(source(c)?);
    }
    let blank = |code: &'static str| Kept { code, source: None, span: None, tags: vec![], notes: vec![], frames: vec![] };
    if c.rng.pct(15) {
        let m = value(&mut c.rng);
        let e: Error = std::io::Error::new(std::io::ErrorKind::Other, m.clone()).into();
        let mut k = blank(codes::IO_ERROR);
        k.tags.push(("message", m.clone()));
        let shown = e.to_string();
        if e.error_code() != codes::IO_ERROR || !shown.contains(&m) {
            return viol(format!("an i/o error is shown as {}", shown), m);
        }
        log.push_str(&format!("io {:?}\n", m));
        all.push((e, k));
        c.count("i/o errors", 1);
    } else {
        let (_, code, names) = *c.rng.pick(&codes);
        let v = values(c, names);
        let mut k = blank(code);
        k.tags = v.clone();
        log.push_str(&format!("new {} {:?}\n", code, v));
        all.push((Error::new(code).with_tags(list(&v)), k));
    }
    let steps = c.rng.range(1, 14);
    for _ in 0..steps {
        let i = c.rng.below(all.len());
        let through = c.rng.pct(50);
        let (e, mut k) = all[i].clone();
        let before = (e.to_string(), format!("{:?}", e));
        // Spans only make sense inside the source the error has.
        let fits = |k: &Kept, s: &str| k.span.map_or(true, |(a, b)| b <= s.len() && s.is_char_boundary(a) && s.is_char_boundary(b));
        let what = c.rng.below(7);
        let done: Error = match what {
            0 => {
                let (s, src) = c.rng.pick(&texts).clone();
                if !fits(&k, &s) {
                    continue;
                }
                k.source = Some(src.clone());
                log.push_str(&format!("{} source {:?} through={}\n", i, s, through));
                if through { ext(e, |r| r.with_source(|| src.clone())) } else { e.with_source(src) }
            }
            1 => {
                let s = match &k.source {
                    Some(s) => s.source().to_string(),
                    None => c.rng.pick(&texts).0.clone(),
                };
                let b = bounds(&s);
                let (x, y) = (c.rng.below(b.len()), c.rng.below(b.len()));
                let (a, z) = (b[x.min(y)], b[x.max(y)]);
                k.span = Some((a, z));
                log.push_str(&format!("{} span {}..{} through={}\n", i, a, z, through));
                if through { ext(e, |r| r.with_span(|| Span::new(a..z))) } else { e.with_span(Span::new(a..z)) }
            }
            2 => {
                let names = codes.iter().find(|x| x.1 == k.code).unwrap().2;
                let v = values(c, names);
                k.tags = v.clone();
                log.push_str(&format!("{} tags {:?} through={}\n", i, v, through));
                if through { ext(e, |r| r.with_tags(|| list(&v))) } else { e.with_tags(list(&v)) }
            }
            3 | 4 => {
                let again = k.notes.last().filter(|_| c.rng.pct(30)).map(|n| *notes.iter().find(|x| x.1 == n.msg_id).unwrap());
                let (_, id, names) = again.unwrap_or_else(|| *c.rng.pick(&notes));
                let v = values(c, names);
                if again.is_some() {
                    c.count("notes attached twice", 1);
                }
                let kind = if c.rng.pct(50) { ContextKind::Help } else { ContextKind::Note };
                let n = Context::new(id, kind).with_tags(list(&v));
                k.notes.push(n.clone());
                log.push_str(&format!("{} note {} {:?} {:?} through={}\n", i, id, kind, v, through));
                if through { ext(e, |r| r.push_context(|| n.clone())) } else { e.push_context(n) }
            }
            5 => {
                let (s, src) = c.rng.pick(&texts).clone();
                let b = bounds(&s);
                let (x, y) = (c.rng.below(b.len()), c.rng.below(b.len()));
                let f = match k.frames.last() {
                    Some(f) if c.rng.pct(20) => {
                        c.count("frames attached twice", 1);
                        f.clone()
                    }
                    _ => ErrorTrace { source: src, span: Span::new(b[x.min(y)]..b[x.max(y)]) },
                };
                k.frames.push(f.clone());
                log.push_str(&format!("{} frame {:?} {:?} through={}\n", i, s, f.span, through));
                if through { ext(e, |r| r.push_trace(|| f.clone())) } else { e.push_trace(f) }
            }
            _ => {
                log.push_str(&format!("{} cloned\n", i));
                c.count("clones", 1);
                e
            }
        };
        if through {
            c.count("attached through a result", 1);
        }
        // What the other copy shows has not changed.
        let after = (all[i].0.to_string(), format!("{:?}", all[i].0));
        if after != before {
            return viol(format!("changing a copy changed the original from {} to {}", before.0, after.0), log);
        }
        if c.rng.pct(70) || all.len() > 4 {
            all[i] = (done, k);
        } else {
            all.push((done, k));
        }
    }
    current(&log);
    for (i, (e, k)) in all.iter().enumerate() {
        let p = k.plain();
        if e.error_code() != k.code {
            return viol(format!("error {} has the code {}", i, e.error_code()), log);
        }
        let (g, w) = ((e.to_string(), format!("{:?}", e)), (p.to_string(), format!("{:?}", p)));
        if g != w {
            return viol(format!("error {} is shown as\n{}\n{}\nbut the same attachments in one go as\n{}\n{}", i, g.0, g.1, w.0, w.1), log);
        }
        match k.pieces() {
            Ok(w) if w == g.0 => {}
            Ok(w) => return viol(format!("error {} is shown as\n{}\nbut its parts as\n{}", i, g.0, w), log),
            Err(m) => return viol(format!("error {}: {}", i, m), log),
        }
        for (_, v) in &k.tags {
            if !g.0.contains(v.as_str()) {
                return viol(format!("error {} does not show its value {:?}:\n{}", i, v, g.0), log);
            }
        }
        let arrow = k.source.as_ref().map(|s| format!("--> {}", loc(s.path(), s.source(), k.span.map_or(0, |x| x.0))));
        let has = g.1.lines().find(|l| l.trim_start().starts_with("--> "));
        if k.tags.iter().all(|t| !t.1.contains("-->")) && has.map(|l| l.trim().to_string()) != arrow {
            return viol(format!("error {} is placed at {:?} and not {:?}", i, has, arrow), log);
        }
        c.count("errors shown", 1);
        c.max("notes and frames of one error", (k.notes.len() + k.frames.len()) as u64);
    }
    // A success is left alone, and nothing is computed for it.
    let asked = std::cell::Cell::new(0);
    let (_, src) = texts[0].clone();
    let ask = || asked.set(asked.get() + 1);
    let r: Result<u64, Error> = Ok(c.idx);
    let r = r
        .with_source(|| {
            ask();
            src.clone()
        })
        .with_span(|| {
            ask();
            Span::empty()
        })
        .with_tags(|| {
            ask();
            tags!()
        })
        .push_trace(|| {
            ask();
            ErrorTrace { source: src.clone(), span: Span::empty() }
        })
        .push_context(|| {
            ask();
            Context::new(notes[0].1, ContextKind::Note)
        });
    match r {
        Ok(x) if x == c.idx && asked.get() == 0 => c.count("successes left alone", 1),
        _ => return viol(format!("attaching to a success gave {:?} and asked {} times", r, asked.get()), log),
    }
    if steps > 1 {
        c.distinct(hash(&log));
    }
    c.sample(|| log.clone());
    Ok(())
}
fn ext(e: Error, f: impl FnOnce(Result<(), Error>) -> Result<(), Error>) -> Error {
    f(Err(e)).expect_err("an error stays an error")
}
pub static C05: Prop = Prop {
    id: "C05",
    rule: "three cases in four: a few errors that copy each other and are given sources, spans, values, notes and frames in random order, directly or through a Result, each compared with one built plainly from a record of what it was given; one in four: spans joined in every form. Non-trivial: more than one attachment; distinct by the whole history.",
    quick: 600_000,
    thorough: 10_000_000,
    case: c05,
    need: &["spans joined", "sources", "i/o errors", "clones", "attached through a result", "notes attached twice", "frames attached twice", "errors shown", "successes left alone"],
    assumptions: &["how an error with given attachments is laid out is decided by C03; here two ways of attaching the same are compared, and place and values looked for"],
    extra: None,
    stack_mb: 64,
};
