//! Looks for an input on which the crate does not do what a property says; replays such an input.
//!   harness find PROP SEED SECONDS OUT     exit 1 and the input in OUT when one is found
//!   harness replay FILE                    exit 1 when the input still fails
mod formula;
mod gen;
mod model;

use gen::{Case, Rng};
use model::{Out, E, H, M, U};
use poreader::{error::Error, unit::Unit, CatalogueReader, Message, Origin, PoParser, State};
use std::io::Read;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---- the crate, observed through its public interface

struct Src { case: Case, at: usize, r: Rng, after: usize, failed: bool }
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let end = if self.failed { self.case.bytes.len() } else { self.case.fail.as_ref().map_or(self.case.bytes.len(), |f| f.0.min(self.case.bytes.len())) };
        let left = end - self.at;
        if left == 0 {
            if let (Some((_, k)), false) = (&self.case.fail, self.failed) {
                use std::io::ErrorKind::*;
                // a `+`: the source goes on after its error
                let (k, once) = k.strip_suffix('+').map_or((k.as_str(), false), |k| (k, true));
                self.failed = once;
                let k = gen::KINDS.iter().position(|x| *x == k).map_or(Other, |i| [Other, UnexpectedEof, BrokenPipe, PermissionDenied, WouldBlock, TimedOut, InvalidData, InvalidInput, ConnectionReset, NotFound][i]);
                return Err(std::io::Error::new(k, "planned"));
            }
            self.after += 1;
            return Ok(0);
        }
        let n = match self.case.chunk {
            0 => left,
            1 => 1,
            _ => { if self.r.one(6) { return Err(std::io::ErrorKind::Interrupted.into()); } 1 + self.r.below(40) }
        };
        let n = n.min(left).min(buf.len());
        buf[..n].copy_from_slice(&self.case.bytes[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn err(e: &Error) -> E {
    match e {
        Error::Io(n, e) => E::Io(*n, format!("{:?}", e.kind())),
        Error::Parse(n, a, b) => E::Parse(*n, a.clone(), b.clone()),
        Error::Unexpected(n, s) => E::Unexpected(*n, Some(s.clone())),
        Error::PluralForms(s) => E::Forms(Some(s.clone())),
    }
}
/// the text of an error
fn error_text(e: &Error, debug: bool) -> String {
    match e {
        Error::Io(n, e) => { let t = if debug { format!("{e:?}") } else { e.to_string() }; if *n == 0 { t } else { t + " at line " + &n.to_string() } }
        Error::Unexpected(0, m) => format!("Unexpected error: {m}"),
        Error::Unexpected(n, m) => format!("Unexpected error at line {n}: {m}"),
        Error::PluralForms(m) => String::from("Error in plurals forms: ") + m,
        Error::Parse(n, got, want) => {
            let mut t = format!("Parse error at line {n}");
            if !want.is_empty() { t += &format!(" expected \u{2018}{want}\u{2019}"); }
            if !got.is_empty() { t += &format!(", got \u{2018}{got}\u{2019}"); }
            t
        }
    }
}
/// what is wrong with the text of an error, if anything
fn printed(e: &Error) -> String {
    let mut w = String::new();
    let (a, b) = (format!("{e}"), format!("{e:?}"));
    if a != error_text(e, false) { w += &format!("printed {a:?}, expected {:?}; ", error_text(e, false)); }
    if b != error_text(e, true) { w += &format!("printed for debugging {b:?}, expected {:?}; ", error_text(e, true)); }
    // the alternate forms say the same; the system's own debugging text may be laid out
    let (c, d) = (format!("{e:#}"), format!("{e:#?}"));
    if c != error_text(e, false) { w += &format!("printed {c:?} in the alternate form, expected {:?}; ", error_text(e, false)); }
    if !matches!(e, Error::Io(..)) && d != error_text(e, true) { w += &format!("printed for debugging {d:?} in the alternate form, expected {:?}; ", error_text(e, true)); }
    if e.to_string() != a { w += "to_string differs; "; }
    let s = std::error::Error::source(e).map(|x| x.to_string());
    let t = if let Error::Io(_, e) = e { Some(e.to_string()) } else { None };
    if s != t { w += &format!("source {s:?}, expected {t:?}; "); }
    w
}
/// an error written as kind, line and two texts, between zero bytes
fn error_case(k: usize, n: usize, a: &str, b: &str) -> Case { Case { bytes: format!("{k}\0{n}\0{a}\0{b}").into_bytes(), fail: None, chunk: 0 } }
fn error_check(case: &Case) -> Option<String> {
    let t = String::from_utf8_lossy(&case.bytes).into_owned();
    let f: Vec<&str> = t.splitn(4, '\0').collect();
    if f.len() < 4 { return None; }
    let (k, n, a, b) = (f[0].parse::<usize>().unwrap_or(0), f[1].parse::<usize>().unwrap_or(0), f[2], f[3]);
    let make = || match k {
        0 => Error::Parse(n, a.into(), b.into()),
        1 => Error::Unexpected(n, a.into()),
        2 => Error::PluralForms(a.into()),
        3 => Error::Io(n, std::io::ErrorKind::NotFound.into()),
        4 => Error::Io(n, std::io::Error::from_raw_os_error(2)),
        5 => Error::Io(n, std::io::Error::new(std::io::ErrorKind::InvalidData, b.to_string())),
        _ => Error::Io(n, std::io::Error::new(std::io::ErrorKind::Other, a.to_string())),
    };
    let mut w = printed(&make());
    let e: std::io::Error = make().into();
    if e.kind() != std::io::ErrorKind::Other { w += &format!("as a system error its kind is {:?}; ", e.kind()); }
    if e.to_string() != error_text(&make(), false) { w += &format!("as a system error it prints {:?}; ", e.to_string()); }
    match e.get_ref().and_then(|x| x.downcast_ref::<Error>()) {
        None => w += "as a system error it does not hold the error; ",
        Some(x) => if format!("{:?}", err(x)) != format!("{:?}", err(&make())) { w += "as a system error it holds another error; " },
    }
    if w.is_empty() { None } else { Some(w) }
}
/// counts at which plural forms are looked at
pub const COUNTS: [usize; 34] = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 19, 20, 21, 22, 25, 99, 100, 101, 102, 111, 112, 121, 1000, 1001, 65536, 2147483648, 4294967295, 4294967296, 4294967301, 9223372036854775806, 9223372036854775807];

#[derive(Clone, Debug, PartialEq, Eq)]
struct Eval { forms: Option<(usize, String, String)>, values: Vec<Option<usize>>, texts: Vec<Option<String>> }
/// one unit, with what its accessors say
#[derive(Clone, Debug, PartialEq, Eq)]
struct Seen { unit: U, translated: bool, eval: Option<Eval>, prev_eval: Option<Eval>, bits: String }

/// with those that the source mentions, and two of the input's own
fn counts() -> Vec<usize> {
    static D: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    let d = D.get_or_init(|| { let mut d = gen::dict().nums.clone(); d.retain(|n| *n < 1 << 63 && !COUNTS.contains(&(*n as usize))); d.truncate(24); d.iter().map(|n| *n as usize).chain(COUNTS).collect() });
    let mut v = d.clone();
    let s = SALT.with(|s| s.get());
    v.extend([(s % 200) as usize, (s >> 1 >> (s % 61)) as usize]);
    v
}
thread_local! { static SALT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
fn bits(simple: bool, plural: bool, blank: bool, id: &str, text: &str, pid: Option<&str>) -> String { format!("{simple} {plural} {blank} {id:?} {text:?} {pid:?}") }
fn note(o: bool, s: &str) -> (bool, String) { (o, s.to_string()) }
fn msg(m: &Message) -> (M, Option<Eval>, String) {
    let b = bits(m.is_simple(), m.is_plural(), m.is_blank(), m.get_id(), m.get_text(), m.get_plural_id());
    match m {
        Message::Simple { id, text } => {
            assert!(m.plural().is_none());
            let t: Vec<_> = [0, 1, 2, 1 << 40, usize::MAX].iter().map(|n| m.get_plural_text(*n).map(String::from)).collect();
            (M::Simple(id.clone(), text.clone()), Some(Eval { forms: None, values: vec![], texts: t }), b)
        }
        Message::Plural(p) => {
            assert_eq!(p.is_blank(), m.is_blank());
            assert_eq!(p.first(), m.get_text());
            assert!(m.plural().is_some());
            let forms = p.get_forms().map(|f| (f.get_count(), f.get_definition().to_string(), f.get_formula().to_string()));
            let values = p.get_forms().map_or(vec![], |f| counts().iter().map(|n| f.get_value(*n)).collect());
            let texts = counts().iter().map(|n| { assert_eq!(m.get_plural_text(*n), p.get(*n)); p.get(*n).map(String::from) }).collect();
            (M::Plural(p.singular().into(), p.plural().into(), p.values().clone(), None), Some(Eval { forms, values, texts }), b)
        }
    }
}
fn unit(u: &Unit) -> Seen {
    let (message, eval, b1) = msg(u.message());
    let (prev_message, prev_eval, b2) = msg(u.prev_message());
    let state = match u.state() { State::NeedsWork => 'W', State::Final => 'F', State::Empty => 'E' };
    Seen {
        unit: U {
            context: u.context().map(String::from), message, prev_context: u.prev_context().map(String::from), prev_message,
            flags: u.flags().iter().cloned().collect(), notes: u.notes().iter().map(|n| note(*n.origin() == Origin::Developer, n.value())).collect(),
            locations: u.locations().clone(), comments: u.comments().iter().map(|c| (c.kind(), c.comment().to_string())).collect(), state, obsolete: u.is_obsolete(),
        },
        translated: u.is_translated(), eval, prev_eval, bits: format!("{b1} | {b2}"),
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
enum Got { Failed(E), Read(H, Vec<Result<Seen, E>>, String) }

fn msg_eq(a: &M, b: &M) -> bool {
    match (a, b) {
        (M::Simple(i, t), M::Simple(j, u)) => i == j && t.clone().unwrap_or_default() == u.clone().unwrap_or_default(),
        (M::Plural(i, t, ..), M::Plural(j, u, ..)) => i == j && t == u,
        _ => false,
    }
}
fn header<R: Read>(reader: &poreader::PoReader<R>) -> H {
    H {
        language: reader.target_language().to_string(),
        notes: reader.header_notes().iter().map(|n| note(*n.origin() == Origin::Developer, n.value())).collect(),
        comments: reader.header_comments().iter().map(|c| (c.kind(), c.comment().to_string())).collect(),
        props: reader.header_properties().iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
    }
}
fn source(case: &Case) -> Src { Src { case: case.clone(), at: 0, r: Rng::new(case.chunk), after: 0, failed: false } }
/// another catalogue, read by the same parser in turn with the one that is looked at
const OTHER: &str = "#. other\nmsgid \"\"\nmsgstr \"Language: de\\nPlural-Forms: nplurals=3; plural=n%3;\\nX: y\\n\"\n\n#, fuzzy\n# n\nmsgctxt \"c\"\nmsgid \"o1\"\nmsgstr \"\"\n\"O1\"\n\n#: l\n#| msgid \"o0\"\nmsgid \"o2\"\nmsgid_plural \"o2s\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\nmsgstr[2] \"z\"\n\n#~ msgid \"o3\"\n#~ msgstr \"\"\n";
type Part = Result<(U, Option<(usize, String, String)>), E>;
fn part(s: Result<Seen, E>) -> Part { s.map(|s| (s.unit, s.eval.and_then(|e| e.forms))) }
fn other_units() -> &'static Vec<Part> {
    static O: std::sync::OnceLock<Vec<Part>> = std::sync::OnceLock::new();
    O.get_or_init(|| match expected(&Case { bytes: OTHER.into(), fail: None, chunk: 0 }) { Got::Read(_, u, _) => u.into_iter().map(part).collect(), Got::Failed(_) => vec![] })
}
/// the same catalogue, by the other ways to go through an iterator
fn other_ways(case: &Case, parser: &PoParser, out: &[Result<Seen, E>]) -> String {
    let mut w = String::new();
    let see = |u: Result<Unit, Error>| u.map(|u| unit(&u)).map_err(|e| err(&e));
    let open = || parser.parse(source(case)).ok();
    let same = |a: &[Result<Seen, E>], b: &[Result<Seen, E>]| format!("{a:?}") == format!("{b:?}");
    let most = out.len() + 2;
    match open() { None => w += "not opened again; ", Some(r) => {
        let (lo, hi) = r.size_hint();
        if lo > out.len() || hi.map_or(false, |h| h < out.len()) { w += &format!("size hint {lo} {hi:?} for {} items; ", out.len()); }
        let v: Vec<_> = r.take(most).map(see).collect();
        if !same(&v, out) { w += &format!("collected: {v:?}; "); }
    } }
    for k in [0, 1, 2] {
        if let Some(mut r) = open() {
            let x: Vec<_> = r.nth(k).map(see).into_iter().collect();
            if !same(&x, &out.iter().skip(k).take(1).cloned().collect::<Vec<_>>()) { w += &format!("nth({k}): {x:?}; "); }
            let x: Vec<_> = r.next().map(see).into_iter().collect();
            if !same(&x, &out.iter().skip(k + 1).take(1).cloned().collect::<Vec<_>>()) { w += &format!("after nth({k}): {x:?}; "); }
        }
    }
    if let Some(r) = open() { let n = r.count(); if n != out.len() { w += &format!("count {n}; "); } }
    if let Some(r) = open() { let x: Vec<_> = r.last().map(see).into_iter().collect(); if !same(&x, &out.iter().rev().take(1).cloned().collect::<Vec<_>>()) { w += &format!("last: {x:?}; "); } }
    if let Some(r) = open() { let mut v = vec![]; r.for_each(|u| v.push(see(u))); if !same(&v, out) { w += &format!("for_each: {v:?}; "); } }
    w
}
fn actual(case: &Case, parser: &PoParser, prop: &str) -> Got {
    let equality = prop == "C17";
    let src = source(case);
    let mut reader = match parser.parse(src) {
        Err(e) => { let w = printed(&e); return if w.is_empty() { Got::Failed(err(&e)) } else { Got::Failed(E::Unexpected(0, Some(w))) }; }
        Ok(r) => r,
    };
    let h = header(&reader);
    let both = prop == "C13" && case.bytes.len() < 5000;
    let mut other = if both { match parser.parse(OTHER.as_bytes()) { Ok(o) => Some((o, 0)), Err(e) => return Got::Failed(E::Unexpected(0, Some(format!("another catalogue fails: {e}")))) } } else { None };
    let mut out = vec![];
    let mut trouble = String::new();
    let mut msgs: Vec<Message> = vec![];
    loop {
        if let Some((o, i)) = &mut other {
            let got = o.next().map(|u| part(u.map(|u| unit(&u)).map_err(|e| err(&e))));
            if got != other_units().get(*i).cloned() { trouble += &format!("of another catalogue, read in turn: {got:?}; "); }
            *i += 1;
        }
        match reader.next() {
            None => break,
            Some(Ok(u)) => {
                let c = u.clone();
                let _ = format!("{c:?}");
                if equality { for m in [u.message(), u.prev_message()] { msgs.push(m.clone()); } }
                // a copy of a unit reads the same
                out.push(Ok(unit(if SALT.with(|s| s.get() % 3 == 0) { &c } else { &u })));
            }
            Some(Err(e)) => { trouble += &printed(&e); out.push(Err(err(&e))); if out.iter().filter(|x| x.is_err()).count() > 3 { break; } }
        }
        if out.len() > case.bytes.len() + 10 { trouble.push_str("more units than the input has bytes; "); break; }
    }
    for _ in 0..3 { if let Some(x) = reader.next() { trouble.push_str(&format!("after the end: {:?}; ", x.map(|u| unit(&u)).map_err(|e| err(&e)))); } }
    let h2 = header(&reader);
    if h2 != h { trouble.push_str(&format!("the header changed: {h2:?}; ")); }
    if both && trouble.is_empty() && SALT.with(|s| s.get() % 4 == 0) { trouble += &other_ways(case, parser, &out); }
    if equality {
        for id in ["", "a", "id"] { for t in [None, Some(""), Some("a"), Some("b")] { msgs.push(Message::Simple { id: id.into(), text: t.map(String::from) }); } }
        msgs.truncate(60);
        for a in &msgs { for b in &msgs {
            let (x, y) = (msg(a).0, msg(b).0);
            if (a == b) != msg_eq(&x, &y) || (a != b) == (a == b) { trouble.push_str(&format!("{x:?} == {y:?} gives {}; ", a == b)); }
        } }
    }
    Got::Read(h, out, trouble)
}

// ---- what is expected, in the same terms

fn expect_msg(m: &M) -> (M, Option<Eval>, String) {
    let b = |m: &M| bits(matches!(m, M::Simple(i, _) if !i.is_empty()), matches!(m, M::Plural(..)), model::blank(m), match m { M::Simple(i, _) | M::Plural(i, ..) => i }, &model::text(m), match m { M::Plural(_, p, ..) => Some(p), _ => None });
    match m {
        M::Simple(_, t) => (m.clone(), Some(Eval { forms: None, values: vec![], texts: vec![t.clone(); 5] }), b(m)),
        M::Plural(i, p, v, f) => {
            let values: Vec<Option<usize>> = f.as_ref().map_or(vec![], |f| counts().iter().map(|n| { let v = formula::eval(&f.expr, *n as i64); if v >= 0 && (v as u64) < f.count as u64 { Some(v as usize) } else { None } }).collect());
            let texts = counts().iter().enumerate().map(|(k, _)| values.get(k).copied().flatten().and_then(|i| v.get(i).cloned())).collect();
            (M::Plural(i.clone(), p.clone(), v.clone(), None), Some(Eval { forms: f.as_ref().map(|f| (f.count, f.definition.clone(), f.formula.clone())), values, texts }), b(m))
        }
    }
}
fn expected(case: &Case) -> Got {
    match model::read(&model::raw_lines(&case.bytes, case.fail.clone())) {
        Out::Failed(e) => Got::Failed(e),
        Out::Read(h, u) => Got::Read(h, u.into_iter().map(|u| u.map(|u| {
            let (m, e, b1) = expect_msg(&u.message);
            let (p, pe, b2) = expect_msg(&u.prev_message);
            Seen { translated: u.state == 'F', eval: e, prev_eval: pe, bits: format!("{b1} | {b2}"), unit: U { message: m, prev_message: p, ..u } }
        })).collect(), String::new()),
    }
}

// ---- what of it a property speaks about

fn kind(e: &E) -> E { match e { E::Io(..) => E::Io(0, String::new()), E::Parse(..) => E::Parse(0, String::new(), String::new()), E::Unexpected(..) => E::Unexpected(0, None), E::Forms(_) => E::Forms(None) } }
fn exact(e: &E) -> E { match e { E::Unexpected(n, _) => E::Unexpected(*n, None), E::Forms(_) => E::Forms(None), e => e.clone() } }
/// the parts of an outcome that the property is about
fn view(g: &Got, prop: &str) -> Vec<String> {
    let (h, units, trouble) = match g {
        Got::Failed(e) => return vec![format!("opening: {:?}", match prop { "C16" | "C05" => exact(e), _ => kind(e) })],
        Got::Read(h, u, t) => (h, u, t),
    };
    let mut out = vec![];
    match prop {
        "C12" | "C05" | "C18" => out.push(format!("{h:?}")),
        "C10" => out.push(format!("header {:?} {:?}", h.notes, h.comments)),
        _ => {}
    }
    for u in units {
        out.push(match u {
            Err(e) => format!("{:?}", match prop { "C16" | "C05" => exact(e), _ => kind(e) }),
            Ok(s) => {
                let u = &s.unit;
                match prop {
                    "C01" | "C03" => format!("{:?} {:?}", s.eval.as_ref().map(|e| &e.values), s.prev_eval.as_ref().map(|e| &e.values)),
                    "C02" => format!("{:?} {:?} {:?}", s.eval, s.prev_eval, s.bits),
                    "C04" => format!("{:?}", s.eval),
                    "C06" | "C07" => format!("{:?} {:?} {:?} {:?} {:?} {:?}", u.context, u.message, u.prev_context, u.prev_message, u.obsolete, u.comments.len()),
                    "C08" => format!("{:?} {:?} {:?} {:?} {:?} {}", u.context, u.message, u.prev_context, u.prev_message, u.obsolete, s.bits),
                    "C09" => format!("{:?} {}", u.message, s.bits),
                    "C10" => format!("{:?} {:?} {:?} {:?}", u.flags, u.notes, u.locations, u.comments),
                    "C11" => format!("{} {} {} {}", u.state, s.translated, s.bits, u.flags.contains("fuzzy")),
                    "C12" => format!("{:?} {:?} {:?}", u.message, u.context, s.eval.as_ref().map(|e| &e.forms)),
                    "C14" | "C16" => format!("{:?} {:?}", u.context, u.message),
                    "C15" => "unit".into(),
                    "C17" => String::new(),
                    _ => format!("{s:?}"),
                }
            }
        });
    }
    match prop { "C14" | "C12" | "C13" | "C15" | "C16" | "C17" | "C05" | "C18" => out.push(trouble.clone()), _ => {} }
    out
}
/// What is wrong with this input, if anything
fn check(case: &Case, prop: &str, parser: &PoParser) -> Option<String> {
    if prop == "C19" {
        return match std::panic::catch_unwind(|| error_check(case)) { Ok(w) => w, Err(_) => Some("panic".into()) };
    }
    SALT.with(|s| s.set(case.bytes.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3))));
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| actual(case, parser, prop)));
    let got = match got { Ok(g) => g, Err(p) => return Some(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) };
    if prop == "C15" { return None; }
    let a = view(&got, prop);
    let mut why = None;
    for accept in [false, true] {
        formula::ACCEPT_KNOWN.with(|k| k.set(accept));
        let want = expected(case);
        formula::ACCEPT_KNOWN.with(|k| k.set(false));
        if prop == "C01" { if let (Got::Failed(_), Got::Read(..)) | (Got::Read(..), Got::Failed(_)) = (&got, &want) { return None; } }
        let b = view(&want, prop);
        if a == b { return None; }
        if why.is_none() {
            let i = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap_or(0);
            let cut = |x: Option<&String>| x.map_or("nothing more".to_string(), |s| s.chars().take(1500).collect());
            why = Some(format!("item {i}\n  expected: {}\n  found:    {}", cut(b.get(i)), cut(a.get(i))));
        }
    }
    why
}

// ---- small catalogues, all of them

/// lines of which every short sequence is tried
fn alphabet(prop: &str) -> (Vec<&'static str>, usize) {
    let base = vec!["msgid \"a\"", "msgstr \"b\"", "msgid \"\"", "msgstr \"\"", "\"c\"", "msgctxt \"d\"", "# e", "#, fuzzy", "junk", "msgid_plural \"f\"", "msgstr[0] \"g\"", "msgstr[1] \"h\"", "#| msgid \"i\"", "#~ msgid \"j\"", "#~ msgstr \"k\""];
    match prop {
        "C07" => (vec!["msgid \"a\"", "\"b\"", "\"\"", "#| \"c\"", "#~ \"d\"", "#| msgid \"e\"", "#~ msgid \"f\"", "#~ msgstr \"g\"", "msgstr \"h\"", "", "#~| \"i\"", "#~| msgid \"j\""], 5),
        "C09" | "C02" => (vec!["msgid \"a\"", "msgid_plural \"b\"", "msgstr[0] \"c\"", "msgstr[0] \"\"", "msgstr[1] \"d\"", "msgstr[2] \"e\"", "msgstr \"f\"", "\"g\"", "#~ msgid \"h\"", "#~ msgid_plural \"i\"", "#~ msgstr[0] \"j\"", "# x"], 5),
        "C10" | "C11" => (vec!["# a", "#. b", "#, fuzzy,c", "#: d e", "#! f", "msgid \"a\"", "msgstr \"b\"", "msgstr \"\"", "#", "#,", "msgid \"\"", "\"t\""], 5),
        "C08" => (vec!["msgctxt \"a\"", "msgid \"b\"", "msgid_plural \"c\"", "msgstr \"d\"", "msgstr[0] \"e\"", "#| msgctxt \"f\"", "#| msgid \"g\"", "#| msgid_plural \"h\"", "#~ msgid \"i\"", "#~ msgstr \"j\"", "#~| msgid \"k\"", "#~ msgctxt \"l\""], 5),
        "C12" => (vec!["msgid \"\"", "msgstr \"\"", "\"A: b\\n\"", "\"A: c\\n\"", "\"Language: fr\\n\"", "\"Plural-Forms: nplurals=1; plural=0;\\n\"", "msgid \"a\"", "msgstr \"b\"", "# n", "#, fuzzy", "msgctxt \"x\"", "\"Plural-Forms: x\\n\"", "msgid_plural \"y\"", "msgstr[0] \"z\""], 5),
        _ => (base, 5),
    }
}
/// pieces of which every short line is tried
const PIECES: [&str; 20] = ["#", "~", "|", " ", "\"", "\"", "msgid", "msgstr", "[", "]", "0", "1", "a", "\\", "\t", "msgctxt", "_plural", "n", ",", "é"];
const ESC: [&str; 9] = ["\\", "n", "t", "r", "\"", "a", "\t", "é", " "];

fn line_case(line: &str, k: usize) -> Case {
    let s = match k {
        0 => line.to_string(),
        1 => format!("{line}\nmsgid \"p\"\nmsgstr \"q\"\n"),
        2 => format!("msgid \"p\"\nmsgstr \"q\"\n{line}\nmsgid \"r\"\nmsgstr \"s\"\n"),
        _ => format!("msgid \"p\"\n{line}\nmsgstr \"q\"\n"),
    };
    Case { bytes: s.into_bytes(), fail: None, chunk: 0 }
}
/// number i in the given basis, as indices
fn digits(mut i: u64, base: u64, len: usize) -> Vec<usize> { (0..len).map(|_| { let d = i % base; i /= base; d as usize }).collect() }
/// number of small cases, and the i-th
fn small(prop: &str, depth: usize) -> (u64, Box<dyn Fn(u64) -> Case + Send + Sync>) {
    match prop {
        "C19" => {
            const T: [&str; 12] = ["", "a", "msgid", "\"", "\n", " ", "\u{2018}", "\u{2019}", "0", "{}", "\u{0}", "a long text, of more than sixty-four bytes, with spaces and a comma or two in it"];
            const L: [usize; 10] = [0, 1, 2, 9, 10, 100, 65535, 4294967296, usize::MAX - 1, usize::MAX];
            (7 * 10 * 144, Box::new(move |i| { let i = i as usize; error_case(i % 7, L[i / 7 % 10], T[i / 70 % 12], T[i / 840]) }))
        }
        "C05" | "C06" | "C16" => {
            let pieces: Vec<&'static str> = if prop == "C06" { ESC.to_vec() } else { PIECES.to_vec() };
            let len = if prop == "C06" { depth + 1 } else { depth - 1 };
            let base = pieces.len() as u64 + 1; // one for nothing
            let esc = prop == "C06";
            (base.pow(len as u32) * 4, Box::new(move |i| {
                let l: String = digits(i / 4, base, len).into_iter().filter(|d| *d > 0).map(|d| pieces[d - 1]).collect();
                if esc { let k = (i % 4) as usize; Case { bytes: format!("{}\"{l}\"\n{}", ["msgid ", "msgid \"p\"\nmsgstr ", "msgctxt ", "msgid \"p\"\n"][k], ["msgstr \"q\"\n", "", "msgid \"p\"\nmsgstr \"q\"\n", "msgstr \"q\"\n"][k]).into_bytes(), fail: None, chunk: 0 } } else { line_case(&l, (i % 4) as usize) }
            }))
        }
        "C01" | "C03" => {
            // all formulas of few tokens
            const T: [&str; 20] = ["n", "1", "2", "(", ")", "!", "-", "+", "*", "/", "%", "<", ">=", "==", "!=", "&&", "||", "?", ":", "0"];
            let len = depth - 1;
            let base = T.len() as u64 + 1;
            // and one or two characters anywhere in some formulas
            const B: [&str; 12] = ["", "n", "n+1", "n==1", "n ? 1 : 2", "(n)", "!n", "-n", "10", "n or 1", "n>=2&&n<=4", "1 and not n"];
            let mut odd: Vec<String> = vec![];
            let mut put = |x: String| for b in B { let c: Vec<char> = b.chars().collect(); for k in 0..=c.len() { odd.push(c[..k].iter().collect::<String>() + &x + &c[k..].iter().collect::<String>()); } };
            for c in (1u32..0x180).chain([0x660, 0x0966, 0x1680, 0x180e, 0x2000, 0x200b, 0x2028, 0x2029, 0x202f, 0x3000, 0x205f, 0xfeff, 0xff10, 0x221e, 0x2260, 0x2264, 0x00d7, 0x1f600]).filter_map(char::from_u32) { put(c.to_string()); }
            for a in "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~n01x eE\t\n".chars() { for b in "!&'()*+,-./:<=>?@[\\]^|~n0x \n".chars() { put(format!("{a}{b}")); } }
            let m = odd.len() as u64;
            (m + base.pow(len as u32), Box::new(move |i| {
                let f: String = if i < m { model::escape(&odd[i as usize]) } else { digits(i - m, base, len).into_iter().filter(|d| *d > 0).map(|d| T[d - 1]).collect::<Vec<_>>().join(" ") };
                Case { bytes: format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=4294967296; plural={f};\"\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\n").into_bytes(), fail: None, chunk: 0 }
            }))
        }
        "C04" => {
            const T: [&str; 10] = ["nplurals", "plural", "=", "=", ";", ";", " ", "1", "n", "3"];
            let len = depth;
            let base = T.len() as u64 + 1;
            (base.pow(len as u32), Box::new(move |i| {
                let f: String = digits(i, base, len).into_iter().filter(|d| *d > 0).map(|d| T[d - 1]).collect();
                Case { bytes: format!("msgid \"\"\nmsgstr \"Plural-Forms: {f}\"\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\nmsgstr[1] \"d\"\nmsgstr[2] \"e\"\n").into_bytes(), fail: None, chunk: 0 }
            }))
        }
        _ => {
            let (a, len) = alphabet(prop);
            let len = len + depth - 5;
            let base = a.len() as u64 + 1;
            let head = matches!(prop, "C02" | "C09");
            (base.pow(len as u32), Box::new(move |i| {
                let mut s = if head && i % 2 == 1 { "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=3; plural=n;\"\n".to_string() } else { String::new() };
                for d in digits(i, base, len) { if d > 0 { s.push_str(a[d - 1]); s.push('\n'); } }
                Case { bytes: s.into_bytes(), fail: None, chunk: 0 }
            }))
        }
    }
}

/// long inputs: more lines, longer texts, more of everything than a narrow counter holds
fn long(i: usize) -> Case {
    let mut fail = None;
    let n = [300, 70_000][i % 2];
    let e = "msgid \"a\"\nmsgstr \"b\"\n";
    let s = match i / 2 {
        0 => format!("{e}{}msgid \"\"\nmsgstr \"x\"\n", "\n".repeat(n)),
        1 => format!("{e}{}junk\n", "\n".repeat(n)),
        2 => format!("{e}{}msgid \"c\"\nmsgctxt \"d\"\n", "\n".repeat(n)),
        3 => { let s = format!("{e}{}msgid \"c\"\nmsgstr \"d\"\n", "\n".repeat(n)); fail = Some((s.len() - 3, "Other".to_string())); s }
        4 => format!("msgid \"a\"\n{}msgstr \"\"\n{}{e}", "\"b\"\n".repeat(n), "\"cd\"\n".repeat(n)),
        5 => format!("{}{}#, fuzzy\n{}{e}{e}", "# c\n".repeat(n), "#. d\n".repeat(n), "#: e f\n".repeat(n)),
        6 => format!("#: {}\n#, {}\n{e}{e}", "a:1 ".repeat(n), "x,".repeat(n)),
        7 => format!("msgid \"{}\"\nmsgstr \"{}\"\n{e}", "é".repeat(n), "\\n".repeat(n)),
        8 => format!("{}{e}{}", " ".repeat(n), e.replace("\" ", &" ".repeat(n))),
        9 => e.repeat(n / 10),
        10 => format!("msgid \"\"\nmsgstr \"\"\n{}{e}", "\"X: y\\n\"\n".repeat(n)),
        _ => { let k = n.min(3000); format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals={k}; plural=n;\"\nmsgid \"a\"\nmsgid_plural \"b\"\n{}{e}", (0..k).map(|i| format!("msgstr[{i}] \"{i}\"\n")).collect::<String>()) }
    };
    Case { bytes: s.into_bytes(), fail, chunk: 0 }
}
const LONG: usize = 24;

fn random(r: &mut Rng, prop: &str) -> Case {
    // now and then what another property looks at
    let prop = if prop != "C19" && r.one(6) { ["C02", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C17", "C18"][r.below(13)] } else { prop };
    if prop == "C19" {
        let n = [r.below(3), r.below(1000), usize::MAX - r.below(3), 1 << r.below(63)][r.below(4)];
        let (a, b) = (if r.one(4) { String::new() } else { gen::word(r) }, if r.one(4) { String::new() } else { gen::word(r) });
        return error_case(r.below(7), n, &a, &b);
    }
    if matches!(prop, "C05" | "C15" | "C14" | "C16") && r.one(5) { return gen::garbage(r); }
    if matches!(prop, "C05" | "C06") && r.one(3) {
        let n = r.below(12);
        let l: String = (0..n).map(|_| if prop == "C06" { ESC[r.below(9)].to_string() } else if r.one(6) { gen::word(r).replace('\n', "") } else { PIECES[r.below(20)].to_string() }).collect();
        return if prop == "C06" { Case { bytes: format!("msgid \"{l}\"\nmsgstr \"{l}\"").into_bytes(), fail: None, chunk: 0 } } else { line_case(&l, r.below(4)) };
    }
    gen::catalogue(r, prop)
}

// ---- memory

/// what the thread works on; an allocation out of proportion to it is reported
thread_local! { static WORK: std::cell::RefCell<Option<(String, Case, String)>> = const { std::cell::RefCell::new(None) }; }
struct Guard;
const TOO_MUCH: usize = 256 << 20;
fn too_much(n: usize) {
    let w = WORK.try_with(|w| w.try_borrow_mut().ok().and_then(|mut w| w.take())).ok().flatten();
    if let Some((prop, case, out)) = w {
        let why = format!("an allocation of {n} bytes for an input of {} bytes", case.bytes.len());
        let _ = std::fs::write(&out, report(&prop, &case, &why));
        println!("{{\"found\": true, \"why\": \"{why}\"}}");
        std::process::exit(1);
    }
}
unsafe impl std::alloc::GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { if l.size() > TOO_MUCH { too_much(l.size()); } std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { if l.size() > TOO_MUCH { too_much(l.size()); } std::alloc::System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { if n > TOO_MUCH { too_much(n); } std::alloc::System.realloc(p, l, n) }
}
#[global_allocator]
static GUARD: Guard = Guard;

// ---- running

fn show(case: &Case) -> String {
    let hex: String = case.bytes.iter().map(|b| format!("{b:02x}")).collect();
    format!("bytes {hex}\nfail {}\nchunk {}\n", case.fail.as_ref().map_or("-".into(), |f| format!("{} {}", f.0, f.1)), case.chunk)
}
fn load(s: &str) -> Option<(String, Case)> {
    let mut prop = String::new();
    let mut c = Case::default();
    for l in s.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => prop = v.trim().into(),
            "bytes" => c.bytes = (0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).ok()).collect::<Option<_>>()?,
            "fail" => c.fail = v.split_once(' ').map(|(n, k)| (n.parse().unwrap_or(0), k.to_string())),
            "chunk" => c.chunk = v.parse().ok()?,
            _ => {}
        }
    }
    if prop.is_empty() { None } else { Some((prop, c)) }
}
fn report(prop: &str, case: &Case, why: &str) -> String {
    format!("property {prop}\n{}input:\n{}\nwhy: {why}\nreplay: build/harness/release/harness replay THIS_FILE\n", show(case), String::from_utf8_lossy(&case.bytes).lines().map(|l| format!("  | {l}\n")).collect::<String>())
}
/// fewer lines and bytes, the failure staying
fn shrink(case: &Case, prop: &str, parser: &PoParser) -> Case {
    let mut best = case.clone();
    let t = Instant::now();
    let over = || t.elapsed() > Duration::from_secs(3);
    let fails = |c: &Case| check(c, prop, parser).is_some();
    if best.chunk != 0 { let c = Case { chunk: 0, ..best.clone() }; if fails(&c) { best = c; } }
    if best.fail.is_some() { let c = Case { fail: None, ..best.clone() }; if fails(&c) { best = c; } }
    // lines, many at a time first; then bytes
    loop {
        let before = best.bytes.len();
        let n = best.bytes.split_inclusive(|b| *b == b'\n').count();
        let mut g = (n / 2).max(1);
        loop {
            let mut i = 0;
            while !over() {
                let lines: Vec<&[u8]> = best.bytes.split_inclusive(|b| *b == b'\n').collect();
                if i >= lines.len() { break; }
                let c = Case { bytes: lines.iter().enumerate().filter(|x| x.0 < i || x.0 >= i + g).flat_map(|x| x.1.iter().copied()).collect(), ..best.clone() };
                if fails(&c) { best = c; } else { i += g; }
            }
            if g == 1 || over() { break; }
            g /= 2;
        }
        if best.bytes.len() < 400 {
            let mut i = 0;
            while i < best.bytes.len() && !over() {
                let mut b = best.bytes.clone();
                b.remove(i);
                let c = Case { bytes: b, ..best.clone() };
                if fails(&c) { best = c; } else { i += 1; }
            }
        }
        if best.bytes.len() == before || over() { break; }
    }
    best
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("SHOW").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let (prop, case) = load(&std::fs::read_to_string(&a[2]).unwrap()).expect("no input in this file");
            let out = std::thread::Builder::new().stack_size(64 << 20).spawn(move || (check(&case, &prop, &PoParser::new()), prop)).unwrap().join().unwrap();
            let prop = out.1;
            match out.0 { Some(w) => { println!("{prop} fails: {w}"); std::process::exit(1) } None => println!("{prop} holds on this input") }
        }
        // the known findings that still show
        Some("known") => {
            let open = |f: &str| PoParser::new().parse(format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural={f};\"\n").as_bytes()).is_ok();
            if a[2] == "C03" && !open("1+!n") && open("1+(!n)") { println!("1+!n"); }
            // a formula nested a million deep, in a process of its own: it dies of a signal
            if a[2] == "C15" || a[2] == "C01" {
                let died = std::process::Command::new(std::env::current_exe().unwrap()).arg("deep").stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().map(|s| s.code().is_none());
                if died.unwrap_or(false) && open(&("-".repeat(1000) + "n")) { println!("deep formula"); }
            }
        }
        Some("deep") => {
            let text = format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural={}n;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n", "-".repeat(1_000_000));
            let p = PoParser::new();
            for u in p.parse(text.as_bytes()).unwrap() { println!("{:?}", u.unwrap().message().get_plural_text(1)); }
        }
        Some("find") => find(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]),
        _ => { eprintln!("usage: harness find PROP SEED SECONDS OUT | replay FILE"); std::process::exit(2) }
    }
}

fn find(prop: &str, seed: u64, secs: f64, out: &str) {
    let start = Instant::now();
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get());
    let found: Arc<Mutex<Option<(Case, String)>>> = Arc::default();
    let stop = Arc::new(AtomicBool::new(false));
    let (evals, nontrivial, smalls) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    // the input each thread works on, and since when
    let current: Arc<Vec<Mutex<Option<(Instant, Case)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let depth = if secs > 60.0 { 6 } else { 5 };
    let (total, make) = small(prop, depth);
    let make: Arc<dyn Fn(u64) -> Case + Send + Sync> = make.into();
    let samples: Arc<Mutex<Vec<String>>> = Arc::default();
    let mut hs = vec![];
    for w in 0..threads {
        let (found, stop, evals, nontrivial, smalls, current, make, samples) = (found.clone(), stop.clone(), evals.clone(), nontrivial.clone(), smalls.clone(), current.clone(), make.clone(), samples.clone());
        let prop = prop.to_string();
        let out = out.to_string();
        let trace = std::env::var("TRACE").ok();
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let parser = PoParser::new();
            let mut r = Rng::new(seed.wrapping_mul(1000) + w as u64);
            let mut i = w as u64;
            let mut turn = 0u64;
            let mut l = if prop == "C19" { LONG } else { w };
            // a different order of the small cases for every seed, all of them in the end
            let mul = { let mut m = 0x9e37_79b1u64 | 1; while gcd(m, total) != 1 { m += 2; } m };
            while !stop.load(SeqCst) && start.elapsed().as_secs_f64() < secs {
                turn += 1;
                let case = if l < LONG && start.elapsed().as_secs_f64() > secs * 0.2 { l += threads; long(l - threads) } else if turn % 2 == 0 && i < total { let k = ((i as u128 * mul as u128 + seed as u128) % total as u128) as u64; i += threads as u64; smalls.fetch_add(1, SeqCst); make(k) } else { random(&mut r, &prop) };
                *current[w].lock().unwrap() = Some((Instant::now(), case.clone()));
                if let Some(d) = &trace { let _ = std::fs::write(format!("{d}/{w}"), report(&prop, &case, "the process dies")); }
                WORK.with(|x| *x.borrow_mut() = Some((prop.clone(), case.clone(), out.clone())));
                let why = check(&case, &prop, &parser);
                *current[w].lock().unwrap() = None;
                evals.fetch_add(1, SeqCst);
                if prop == "C19" || case.bytes.windows(5).any(|x| x == b"msgid") { nontrivial.fetch_add(1, SeqCst); }
                if turn == 7 && w < 3 { samples.lock().unwrap().push(String::from_utf8_lossy(&case.bytes).chars().take(300).collect()); }
                if let Some(why) = why {
                    if !stop.swap(true, SeqCst) {
                        let c = shrink(&case, &prop, &parser);
                        let why = check(&c, &prop, &parser).unwrap_or(why);
                        *found.lock().unwrap() = Some((c, why));
                    }
                }
            }
        }).unwrap());
    }
    // inputs that never end
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if hs.iter().all(|h| h.is_finished()) { break; }
        for c in current.iter() {
            if let Some((t, c)) = &*c.lock().unwrap() {
                if t.elapsed() > Duration::from_secs(8 + c.bytes.len() as u64 / 50_000) {
                    std::fs::write(out, report(prop, c, "no end after 8 seconds")).unwrap();
                    println!("{{\"found\": true, \"why\": \"no end after 8 seconds\"}}");
                    std::process::exit(1);
                }
            }
        }
    }
    let panicked = hs.into_iter().any(|h| h.join().is_err());
    let f = found.lock().unwrap().take();
    let q = |s: &str| { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o };
    println!("{{\"found\": {}, \"evaluations\": {}, \"nontrivial\": {}, \"small_done\": {}, \"small_total\": {}, \"seconds\": {:.1}, \"samples\": [{}], \"why\": {}}}", f.is_some(), evals.load(SeqCst), nontrivial.load(SeqCst), smalls.load(SeqCst), total, start.elapsed().as_secs_f64(),
        samples.lock().unwrap().iter().map(|s| q(s)).collect::<Vec<_>>().join(", "), q(f.as_ref().map_or("", |f| &f.1)));
    if panicked { eprintln!("the reference panicked"); std::process::exit(2); }
    if let Some((c, why)) = f { std::fs::write(out, report(prop, &c, &why)).unwrap(); std::process::exit(1); }
}
fn gcd(a: u64, b: u64) -> u64 { if b == 0 { a } else { gcd(b, a % b) } }
