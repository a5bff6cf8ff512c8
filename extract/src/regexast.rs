//! Regular expressions of the crate, parsed by the parser that the `regex` crate itself uses,
//! and written as terms of the specification type `Re`.
use regex_syntax::hir::{Class, Hir, HirKind, Look};
use std::collections::BTreeSet;

type Ranges = Vec<(u32, u32)>;
const MAX: u32 = 0x10ffff;
/// the White_Space property as `sp_ws` writes it
const WS: &[(u32, u32)] = &[
    (9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000),
];

fn norm(mut r: Ranges) -> Ranges {
    r.sort();
    let mut o: Ranges = vec![];
    for (a, b) in r {
        match o.last_mut() {
            Some(l) if a <= l.1 + 1 => l.1 = l.1.max(b),
            _ => o.push((a, b)),
        }
    }
    // the surrogates are no characters
    let mut p: Ranges = vec![];
    for (a, b) in o {
        if a < 0xd800 { p.push((a, b.min(0xd7ff))) }
        if b > 0xdfff { p.push((a.max(0xe000), b)) }
    }
    p
}
fn neg(r: &Ranges) -> Ranges {
    let mut o = vec![];
    let mut n = 0;
    for &(a, b) in r {
        if a > n { o.push((n, a - 1)) }
        n = b + 1;
    }
    if n <= MAX { o.push((n, MAX)) }
    norm(o)
}
fn minus(a: &Ranges, b: &Ranges) -> Ranges {
    let mut x = neg(a);
    x.extend(b.iter().cloned());
    neg(&norm(x))
}
fn ranges(h: &Hir) -> Option<Ranges> {
    match h.kind() {
        HirKind::Class(Class::Unicode(c)) => Some(norm(c.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect())),
        _ => None,
    }
}
fn of(pat: &str) -> Ranges { ranges(&regex_syntax::parse(pat).unwrap()).unwrap() }

fn pos(r: &Ranges) -> String {
    let ws = of(r"\s");
    let dg = of(r"\d");
    if r.len() > 3 && minus(&ws, r).is_empty() {
        let rest = minus(r, &ws);
        return if rest.is_empty() { "Cls::Space".into() } else { format!("Cls::Or(Box::new(Cls::Space), Box::new({}))", pos(&rest)) };
    }
    if r.len() > 3 && minus(&dg, r).is_empty() {
        let rest = minus(r, &dg);
        return if rest.is_empty() { "Cls::Digit".into() } else { format!("Cls::Or(Box::new(Cls::Digit), Box::new({}))", pos(&rest)) };
    }
    let mut s = String::new();
    for (i, (a, b)) in r.iter().enumerate() {
        let x = format!("Cls::Range({}, {})", a, b);
        if i + 1 == r.len() { s += &x } else { s += &format!("Cls::Or(Box::new({}), Box::new(", x) }
    }
    if r.is_empty() { s = "Cls::None".into() }
    s + &"))".repeat(r.len().saturating_sub(1))
}
fn cls(r: &Ranges) -> String {
    let n = neg(r);
    if n.len() <= r.len() && r.len() > 1 && !(n.len() > 3 && r.len() <= 3) && r.last() == Some(&(0xe000.max(r.last().unwrap().0), MAX)) {
        format!("Cls::Not(Box::new({}))", pos(&n))
    } else {
        pos(r)
    }
}
fn nullable(h: &Hir) -> bool { h.properties().minimum_len() == Some(0) }
fn cat(v: Vec<String>) -> String {
    let n = v.len();
    let mut s = String::new();
    for (i, x) in v.into_iter().enumerate() {
        if i + 1 == n { s += &x } else { s += &format!("Re::Cat(Box::new({}), Box::new(", x) }
    }
    if n == 0 { s = "Re::Empty".into() }
    s + &"))".repeat(n.saturating_sub(1))
}
fn re(h: &Hir) -> Result<String, String> {
    Ok(match h.kind() {
        HirKind::Empty => "Re::Empty".into(),
        HirKind::Literal(l) => {
            let s = std::str::from_utf8(&l.0).map_err(|_| "bytes")?;
            if s.chars().count() > 1 { return Ok(format!("Re::Lit({:?}@)", s)) }
            cat(s.chars().map(|c| format!("Re::Cls(Cls::Range({}, {}))", c as u32, c as u32)).collect())
        }
        HirKind::Class(_) => format!("Re::Cls({})", cls(&ranges(h).ok_or("byte class")?)),
        HirKind::Look(Look::Start) => "Re::Start".into(),
        HirKind::Look(Look::End) => "Re::End".into(),
        HirKind::Look(l) => return Err(format!("look {:?}", l)),
        HirKind::Repetition(r) => {
            if nullable(&r.sub) && r.max != Some(1) { return Err("repetition of an empty match".into()) }
            let s = re(&r.sub)?;
            let g = r.greedy;
            let mut v = vec![s.clone(); r.min as usize];
            match r.max {
                None => v.push(format!("Re::Star({}, Box::new({}))", g, s)),
                Some(m) => {
                    let mut o = String::new();
                    for _ in r.min..m {
                        o = if o.is_empty() { format!("Re::Opt({}, Box::new({}))", g, s) } else { format!("Re::Opt({}, Box::new(Re::Cat(Box::new({}), Box::new({}))))", g, s, o) };
                    }
                    if !o.is_empty() { v.push(o) }
                }
            }
            if v.len() > 50 { return Err("large repetition".into()) }
            cat(v)
        }
        HirKind::Capture(c) => format!("Re::Cap({}, Box::new({}))", c.index, re(&c.sub)?),
        HirKind::Concat(v) => cat(v.iter().map(re).collect::<Result<Vec<_>, _>>()?),
        HirKind::Alternation(v) => {
            let v = v.iter().map(re).collect::<Result<Vec<_>, _>>()?;
            let n = v.len();
            let mut s = String::new();
            for (i, x) in v.into_iter().enumerate() {
                if i + 1 == n { s += &x } else { s += &format!("Re::Alt(Box::new({}), Box::new(", x) }
            }
            s + &"))".repeat(n - 1)
        }
    })
}

pub fn emit(r: &[(String, String)]) -> String {
    let mut s = String::new();
    let ws: Ranges = WS.to_vec();
    let same = of(r"\s") == ws && (0..=MAX).filter_map(char::from_u32).all(|c| c.is_whitespace() == ws.iter().any(|&(a, b)| a <= c as u32 && c as u32 <= b));
    if !same { eprintln!("the White_Space property of this toolchain is not the one of sp_ws"); std::process::exit(3) }
    s += "/// the Unicode decimal digits (general category Nd), as the regex crate knows them\npub open spec fn sp_udigit(c: char) -> bool { let u = c as u32; ";
    s += &of(r"\d").iter().map(|(a, b)| format!("{} <= u <= {}", a, b)).collect::<Vec<_>>().join(" || ");
    s += " }\n";
    let set: BTreeSet<String> = r.iter().map(|x| x.1.clone()).collect();
    let mut names = vec![];
    for (i, p) in set.iter().enumerate() {
        let term = match regex_syntax::parse(p) {
            Err(e) => { s += &format!("// not a regular expression: {:?}: {}\n", p, e.to_string().lines().last().unwrap_or("")); continue }
            Ok(h) => {
                let n = h.properties().explicit_captures_len() + 1;
                match re(&h) {
                    Ok(t) => format!("Some(ReAst {{ re: {}, groups: {} }})", t, n),
                    Err(e) => { s += &format!("// outside the semantics: {:?}: {}\n", p, e); continue }
                }
            }
        };
        s += &format!("pub broadcast axiom fn ax_re_{i}() ensures #[trigger] sp_re_ast({p:?}@) == {term};\n");
        names.push(format!("ax_re_{i}"));
    }
    s += &format!("pub broadcast group regexes {{ {} }}\n", names.join(", "));
    s
}
