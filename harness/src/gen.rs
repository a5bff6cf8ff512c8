//! Inputs: catalogues made from the structure of the format, laid out and then possibly damaged.
use crate::formula::{self, F, BIN};
use crate::model::escape;

#[derive(Clone)]
pub struct Rng(u64, pub bool);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1, false) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % n.max(1) as u64) as usize }
    pub fn one(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

#[derive(Clone, Debug, Default)]
pub struct Case {
    pub bytes: Vec<u8>,
    /// reading fails at this byte
    pub fail: Option<(usize, String)>,
    /// sizes of the reads: 0 all at once, 1 one byte at a time, else random
    pub chunk: u64,
}

const WORDS: [&str; 44] = [
    "a", "b", "Hello, world!", "x y", "%d file", "%s", "n", "\n", "\t", "\r", "\"", "\\", "\\n", "\\\\", "#", "msgid", "msgstr \"x\"", "é", "日本語", "\u{1f600}", " ", "  ", ";", ":", "=", ",",
    "fuzzy", "\u{a0}", "\u{0}", "\u{7f}", "{}", "\u{301}", "\\x", "\\\"", "r", "t", "nn\\", "“quoted”", "\u{feff}", "\u{2028}", "~|", "[0]", "\u{85}", "\u{b}",
];
/// the texts and numbers that the source of the crate mentions: what it treats specially is likely among them
#[derive(Default)]
pub struct Dict { pub words: Vec<String>, pub nums: Vec<u64> }
/// `\u{..}` at i, and what follows it
fn unicode(c: &[char], i: usize) -> (char, usize) {
    let mut j = i + 3;
    let mut v = 0u32;
    while j < c.len() && c[j] != '}' { v = v.wrapping_mul(16).wrapping_add(c[j].to_digit(16).unwrap_or(0)); j += 1; }
    (char::from_u32(v).unwrap_or('?'), j + 1)
}
fn scan(src: &str, d: &mut Dict) {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    while i < c.len() {
        match c[i] {
            '/' if at(i + 1) == '/' => { while i < c.len() && c[i] != '\n' { i += 1; } }
            'r' if (at(i + 1) == '"' || at(i + 1) == '#' && at(i + 2) == '"') && (i == 0 || !c[i - 1].is_alphanumeric()) => {
                let h = at(i + 1) == '#';
                i += if h { 3 } else { 2 };
                let b = i;
                while i < c.len() && !(c[i] == '"' && (!h || at(i + 1) == '#')) { i += 1; }
                d.words.push(c[b..i.min(c.len())].iter().collect());
                i += 1;
            }
            '"' => {
                let mut w = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' && at(i + 1) == 'u' { let (x, j) = unicode(&c, i); w.push(x); i = j; continue; }
                    if c[i] == '\\' { i += 1; w.push(match at(i) { 'n' => '\n', 'r' => '\r', 't' => '\t', '0' => '\0', x => x }); } else { w.push(c[i]); }
                    i += 1;
                }
                i += 1;
                d.words.push(w);
            }
            '\'' if at(i + 1) == '\\' && at(i + 2) == 'u' => { let (x, j) = unicode(&c, i + 1); d.words.push(x.to_string()); i = j + 1; }
            '\'' if at(i + 2) == '\'' => { d.words.push(c[i + 1].to_string()); i += 3; }
            x if x.is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) => {
                let b = i;
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { i += 1; }
                let w: String = c[b..i].iter().filter(|x| **x != '_').collect();
                let v = if let Some(h) = w.strip_prefix("0x") { u64::from_str_radix(h, 16).ok() } else { let k: String = w.chars().take_while(|x| x.is_ascii_digit()).collect(); k.parse().ok() };
                if let Some(v) = v { d.nums.extend([v, v.wrapping_add(1), v.wrapping_sub(1)]); }
            }
            _ => i += 1,
        }
    }
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        let mut dirs = vec![std::path::PathBuf::from(std::env::var("REPO").unwrap_or("/repo".into())).join("src")];
        let mut files = vec![];
        while let Some(p) = dirs.pop() {
            for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
                if e.path().is_dir() { dirs.push(e.path()) } else if e.path().extension().map_or(false, |x| x == "rs" || x == "lalrpop") { files.push(e.path()) }
            }
        }
        files.sort();
        for f in files {
            let s = std::fs::read_to_string(f).unwrap_or_default();
            scan(s.split("#[cfg(test)]").next().unwrap(), &mut d);
        }
        let parts: Vec<String> = d.words.iter().flat_map(|w| w.split(|c: char| !(c.is_alphanumeric() || c == '-' || c == '_')).map(|x| x.to_string()).collect::<Vec<_>>()).collect();
        d.words.extend(parts);
        d.words.retain(|w| w.chars().count() < 60 && !w.is_empty());
        d.words.sort();
        d.words.dedup();
        d.nums.sort();
        d.nums.dedup();
        if d.words.is_empty() { d.words.push("x".into()); }
        if d.nums.is_empty() { d.nums.push(1); }
        d
    })
}
pub fn lit(r: &mut Rng) -> String { r.pick(&dict().words).clone() }
pub fn num(r: &mut Rng) -> u64 { *r.pick(&dict().nums) }
/// a number of things: small, or now and then one that the source mentions
pub fn many(r: &mut Rng, n: usize) -> usize { if r.one(25) { let k = num(r); if k <= 300 { return k as usize; } } n }
pub fn word(r: &mut Rng) -> String { if r.one(12) { lit(r) } else { r.pick(&WORDS).to_string() } }
/// a character that ends in the bits of one that matters, or any other
pub fn cousin(r: &mut Rng) -> char {
    let c = ['n', 'r', 't', '"', '\\', 'n', '"', ' ', '\t', '\r', ':', ',', ';', '#', '~', '|', '.', '0', 'u', 'x'][r.below(20)] as u32;
    let k = match r.below(4) { 0 => 0x80, 1 => 0x100 * (1 + r.below(40) as u32), 2 => 0x10000 * (1 + r.below(16) as u32), _ => r.below(0x10ffff) as u32 };
    char::from_u32(c + k).filter(|c| *c != '\u{85}').unwrap_or('\u{fffd}')
}
pub fn text(r: &mut Rng) -> String {
    if r.1 { return r.pick(&["", "a", "b", "c", "a"]).to_string(); }
    match r.below(40) {
        0 | 1 => String::new(),
        2 => { let n = r.below(40) + 20; (0..n).map(|_| word(r)).collect() }
        3 if r.one(12) => { let w = word(r); w.repeat(9000 / w.len().max(1)) }
        4 => { let n = 1 + r.below(4); (0..n).map(|_| ['\\', '"', 'n', 'r', 't', '\n', '\r', '\t'][r.below(8)]).collect() }
        8 => { let n = 1 + r.below(3); (0..n).map(|_| { let c = cousin(r); match r.below(3) { 0 => format!("\\{c}"), 1 => format!("{c}"), _ => format!("{}{c}", word(r)) } }).collect() }
        5 => format!("{}\n", word(r)),
        6 => lit(r),
        7 => { let k = num(r); if k < 5000 || (k < 80000 && r.one(3)) { let s: String = word(r).chars().cycle().take(k as usize).collect(); if r.one(2) { s + &word(r) } else { s } } else { k.to_string() } }
        _ => { let n = 1 + r.below(4); (0..n).map(|_| word(r)).collect() }
    }
}
/// the text as written between quotes: escapes needed for quotes are not, in fact, always written
fn written(r: &mut Rng, s: &str) -> String {
    if r.one(8) { return s.replace('\n', "\\n"); }
    let e = escape(s);
    if r.one(6) { e.replace("\\t", "\t") } else { e }
}
const KEYS: [&str; 5] = ["msgctxt", "msgid", "msgid_plural", "msgstr", "msgstr[0]"];

/// what a source can fail with
pub const KINDS: [&str; 10] = ["Other", "UnexpectedEof", "BrokenPipe", "PermissionDenied", "WouldBlock", "TimedOut", "InvalidData", "InvalidInput", "ConnectionReset", "NotFound"];

pub struct Gen<'a> { pub r: &'a mut Rng, pub prop: &'a str, pub out: Vec<String> }

impl<'a> Gen<'a> {
    fn field(&mut self, marker: &str, key: &str, s: &str) {
        let r = &mut *self.r;
        let chars: Vec<char> = s.chars().collect();
        let pieces = match r.below(8) { 0..=3 => 1, 4 => 2, 5 => 1 + r.below(4), 6 => 2 + r.below(8), _ => if r.one(20) { 300 + r.below(100) } else { 1 } };
        let pieces = if self.prop == "C07" { pieces + r.below(3) } else { pieces };
        let pieces = many(r, pieces).max(1);
        let mut cuts: Vec<usize> = (1..pieces).map(|_| r.below(chars.len() + 1)).collect();
        cuts.sort();
        if r.one(3) && pieces > 1 { cuts[0] = 0; }
        let mut from = 0;
        let mark = if marker.is_empty() { String::new() } else { format!("#{marker}{}", ["", " ", " ", "\t "][r.below(4)]) };
        for (i, to) in cuts.iter().copied().chain([chars.len()]).enumerate() {
            let part: String = chars[from..to.max(from)].iter().collect();
            from = to.max(from);
            let w = written(r, &part);
            if i == 0 { self.out.push(format!("{mark}{key}{}\"{w}\"", [" ", " ", " ", "  ", "\t", "", "\u{3000}"][r.below(7)])); }
            else { self.out.push(format!("{mark}\"{w}\"")); }
        }
    }
    fn comments(&mut self) {
        let n = match self.prop { "C10" | "C11" => self.r.below(6), _ => if self.r.one(2) { 0 } else { self.r.below(4) } };
        let n = if self.r.one(60) { n + 40 } else { n };
        let n = if n > 0 { many(self.r, n) } else { n };
        for _ in 0..n {
            let r = &mut *self.r;
            let l = match r.below(if self.prop == "C11" { 3 } else { 11 }) {
                0 | 1 => { let k = r.below(4); let fl: Vec<String> = (0..=k).map(|_| { let f = if r.one(6) { lit(r).replace('\n', "") } else { ["fuzzy", "c-format", "no-wrap", "", "range: 0..10", "Fuzzy", "fuzzy2", "fuz zy", "python-format", "\u{a0}fuzzy\t", "no-fuzzy", "previous"][r.below(12)].to_string() }; format!("{}{}{}", ["", " ", "  ", "\t"][r.below(4)], f, ["", "", " ", "\t"][r.below(4)]) }).collect(); format!("#,{}{}", if r.one(3) { "" } else { " " }, fl.join(",")) }
                2 => "#, fuzzy".to_string(),
                3 | 4 => { let k = r.below(5); let v: Vec<String> = (0..k).map(|_| { let p = ["src/main.c:12", "a.c", "b:1", "\u{2068}x y\u{2069}", "é.rs:9", ":", "#", "c.c:3,4"][r.below(8)]; match r.below(9) { 0 => lit(r).replace('\n', ""), 1 => format!("{}{p}", lit(r)).replace('\n', ""), 2 => format!("{p}{}", lit(r)).replace('\n', ""), _ => p.to_string() } }).collect(); format!("#:{}{}", ["", " ", "  "][r.below(3)], v.join([" ", "  ", "\t", "\u{3000}", "\u{a0} "][r.below(5)])) }
                5 => format!("#.{}{}", ["", " ", "   "][r.below(3)], ctext(r)),
                6 => format!("# {}", ctext(r)),
                7 => "#".to_string(),
                8 => format!("#{}{}{}", ["!", "$", "&", "=", "é", "-", "\t", "1", ";", "~", "|", "\""][r.below(12)], ["", " "][r.below(2)], ctext(r)),
                9 if r.one(3) => format!("#{}{}", lit(r).replace('\n', ""), ctext(r)),
                _ => format!("# {}", ["msgid \"x\"", "\"quoted\"", "msgstr \"fuzzy\"", "~ msgid \"a\"", ", fuzzy", ": a b"][r.below(6)]),
            };
            self.out.push(l);
        }
    }
    pub fn entry(&mut self, nforms: usize) {
        self.comments();
        let obs = self.r.one(8);
        let (m, pm) = if obs { ("~", "~|") } else { ("", "|") };
        if self.r.one(4) {
            if self.r.one(2) { let t = text(self.r); self.field(pm, "msgctxt", &t); }
            if self.r.one(2) { let t = text(self.r); self.field(pm, "msgid", &t); if self.r.one(3) { let t = text(self.r); self.field(pm, "msgid_plural", &t); } }
        }
        if self.r.one(3) { let t = text(self.r); self.field(m, "msgctxt", &t); }
        let mut id = text(self.r);
        if id.is_empty() && !self.r.one(20) { id = "id".into(); }
        if self.out.is_empty() && self.r.one(4) { id.clear(); }
        self.field(m, "msgid", &id);
        let plural = match self.prop { "C02" | "C09" | "C01" => !self.r.one(4), _ => self.r.one(4) };
        if plural {
            let t = text(self.r);
            self.field(m, "msgid_plural", &t);
            let n = match self.r.below(8) { 0 => self.r.below(nforms + 3), 1 => nforms + self.r.below(3), 2 => nforms.saturating_sub(1), _ => nforms };
            let n = many(self.r, n);
            for i in 0..n.min(130) {
                let skip = self.r.one(25);
                if skip { continue; }
                let t = if self.r.one(5) { String::new() } else if self.r.one(2) { format!("form {i}") } else { text(self.r) };
                self.field(m, &format!("msgstr[{i}]"), &t);
            }
            if n == 0 && self.r.one(2) { self.field(m, "msgstr[0]", ""); }
        } else {
            let t = if self.r.one(4) { String::new() } else { text(self.r) };
            self.field(m, "msgstr", &t);
        }
    }
    pub fn header(&mut self, def: Option<&str>) {
        self.comments();
        let obs = if self.r.one(25) { "~" } else { "" };
        if self.r.one(20) { let t = text(self.r); self.field(if obs.is_empty() { "|" } else { "~|" }, "msgid", &t); }
        if self.r.one(8) { let t = text(self.r); self.field(obs, "msgctxt", &t); }
        let id = if self.r.one(40) { text(self.r) } else { String::new() };
        self.field(obs, "msgid", &id);
        if self.r.one(if self.prop == "C12" { 12 } else { 40 }) {
            let t = if self.r.one(3) { String::new() } else { text(self.r) };
            self.field(obs, "msgid_plural", &t);
            for i in 0..self.r.below(4) { let t = text(self.r); self.field(obs, &format!("msgstr[{i}]"), &t); }
            return;
        }
        let mut s = vec![];
        let n = if self.prop == "C12" { 1 + self.r.below(7) } else { self.r.below(4) };
        for _ in 0..n {
            let r = &mut *self.r;
            let k = ["Project-Id-Version", "Language", "X", " Y ", "x", "Content-Type", "Language", "a b", "", "\u{a0}Z", "Plural-Form", "é", "Language "][r.below(13)];
            let (k, v) = if r.one(15) { (lit(r), "v") } else { (k.to_string(), "") };
            let k = k.replace('\n', "");
            let v = if v == "v" { lit(r) } else if r.one(12) { text(r).replace('\n', " ") } else { String::new() };
            let v = if !v.is_empty() { v } else { ["fr", " 1.0 ", "text/plain; charset=UTF-8", "a:b", "", "  ", "de_DE", "pt-BR", "zz_ZZ@latin", "fr_FR.UTF-8", "sr@latin", "xx yy", "C", "\t tab", "en-US;q=1", "日本", "i-klingon", "::"][r.below(18)].to_string() };
            s.push(match r.below(12) { 0 => "no colon".to_string(), 1 => format!("{k}{v}"), 2 => String::new(), 3 => format!("{k} : {v}\r"), _ => format!("{k}:{}{v}", if r.one(3) { "" } else { " " }) });
        }
        if let Some(d) = def { let i = self.r.below(s.len() + 1); s.insert(i, format!("Plural-Forms:{}{d}", ["", " ", "\t"][self.r.below(3)])); if self.r.one(40) { s.push("Plural-Forms: ".into()); } }
        let mut t = s.join("\n");
        if !self.r.one(4) { t.push('\n'); }
        // one line of text per string, or anyhow
        if self.r.one(2) {
            let m = if obs.is_empty() { "" } else { "#~ " };
            self.out.push(format!("{m}msgstr \"\""));
            for l in t.split_inclusive('\n') { let e = escape(l); self.out.push(format!("{m}\"{e}\"")); }
        } else { self.field(obs, "msgstr", &t); }
    }
}
fn ctext(r: &mut Rng) -> String { let t: String = (0..r.below(4)).map(|_| word(r)).collect(); t.replace('\n', " ") }

// ---- formulas

const NUMS: [i64; 22] = [0, 0, 1, 1, 2, 3, 4, 5, 7, 10, 11, 12, 14, 19, 20, 100, 127, 4294967296, 2147483648, i64::MAX, i64::MAX - 1, 1 << 62];
pub fn formula(r: &mut Rng, depth: usize) -> F {
    if depth == 0 || r.one(6) {
        return if r.one(2) { F::N } else if r.one(8) { F::Num((r.u64() >> (1 + r.below(62))) as i64) } else if r.one(6) { F::Num((num(r) >> 1) as i64 | (num(r) & 1) as i64) } else if r.one(6) { F::Num(num(r).min(i64::MAX as u64) as i64) } else { F::Num(*r.pick(&NUMS)) };
    }
    match r.below(10) {
        0 => F::Un('-', Box::new(formula(r, depth - 1))),
        1 => F::Un('!', Box::new(formula(r, depth - 1))),
        2 => F::Cond(Box::new(formula(r, depth - 1)), Box::new(formula(r, depth - 1)), Box::new(formula(r, depth - 1))),
        _ => { let op = r.pick(&BIN).0; F::Bin(op, Box::new(formula(r, depth - 1)), Box::new(formula(r, depth - 1))) }
    }
}
pub const REAL: [&str; 12] = [
    "0", "n != 1", "n>1", "n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2", "n==1 ? 0 : n==2 ? 1 : 2", "n==1 ? 0 : (n==0 || (n%100 > 0 && n%100 < 20)) ? 1 : 2",
    "n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2", "(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2", "n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2",
    "n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5", "n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3", "n<7 ? n : 7",
];
pub fn formula_text(r: &mut Rng, prop: &str) -> String {
    match (prop, r.below(10)) {
        ("C01" | "C03", 0) | (_, 0..=6) if prop != "C01" || r.one(4) => {
            if prop == "C03" && r.one(2) { return token_soup(r); }
            r.pick(&REAL).to_string()
        }
        _ => {
            let d = 1 + r.below(4);
            let d = if r.one(30) { 7 } else { d };
            let f = formula(r, d);
            let mut q = r.clone();
            r.u64();
            let plain = r.one(3);
            let s = formula::print(&f, &mut |n| if plain { if n == 8 { 2 } else { n - 1 } } else { q.below(n) });
            if prop == "C01" && r.one(2) { format!("-({s})") } else { s }
        }
    }
}
const SOUP: [&str; 30] = ["n", "n", "0", "1", "2", "10", "!", "!", "-", "-", "+", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "and", "or", "not", "?", ":", "(", ")", " "];
fn token_soup(r: &mut Rng) -> String {
    // operands and operators alternate often enough to be accepted now and then
    let n = 1 + r.below(7);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 { s.push_str(["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "&&", "||", " and ", " or ", "?", ":", "-", "?"][r.below(19)]); if r.one(2) { s.push(' '); } }
        for _ in 0..r.below(3) { if r.one(3) { s.push_str(["!", "-", "not ", "("][r.below(4)]); } }
        let k = if r.one(6) { 10 } else { 6 };
        s.push_str(["n", "n", "1", "2", "0", "(n", "9223372036854775807", "9223372036854775808", "00012", "99999999999999999999"][r.below(k)]);
        if r.one(5) { s.push(')'); }
    }
    let (mut o, mut c) = (0, 0);
    for x in s.chars() { if x == '(' { o += 1 } if x == ')' { if c < o { c += 1 } } }
    while c < o && !r.one(10) { s.push(')'); c += 1; }
    if r.one(4) { let t = *r.pick(&SOUP); let k = r.below(s.len() + 1); s.insert_str(k, t); }
    s
}
/// a definition list
pub fn definition(r: &mut Rng, prop: &str) -> (String, usize) {
    let f = formula_text(r, prop);
    let n = match r.below(14) { 12 => num(r) as usize, 13 => [usize::MAX, usize::MAX / 2, 1 << 40, 1 << 33, 1 << 24, 65536, 1 << 62, 256, 255, 1000][r.below(10)], 0 => 0, 1 => 1, 2 => 7 + r.below(110), 3 => 10 + r.below(6), _ => 1 + r.below(6) };
    if prop == "C01" || prop == "C03" { return (format!("nplurals={}; plural={f};", if r.one(3) { n.to_string() } else { "18446744073709551615".into() }), n.min(3)); }
    let sp = |r: &mut Rng| ["", "", "", " ", "  ", "\t", "\u{a0}"][r.below(7)];
    if prop != "C04" || r.one(3) {
        return match r.below(10) { 0 => (format!("nplurals={n};"), n), 1 => (format!("plural={f};"), 2), 2 => (format!("plural={f}; nplurals={n};"), n), 3 => (format!("  nplurals = {n} ;\tplural  =  {f}  ; "), n), _ => (format!("nplurals={n}; plural={f};"), n) };
    }
    let mut s = String::new();
    for _ in 0..r.below(5) {
        let k = if r.one(15) { lit(r).replace('\n', "") } else { ["nplurals", "plural", "x", "nplurals", "plural", "Plural", "", "a b", "é", "n"][r.below(10)].to_string() };
        let v = match k.as_str() {
            "nplurals" => match r.below(10) { 8 | 9 => ["++2", "2.", "2u", "0x2", "2L", "\"2\"", "1_0", "\u{ff12}", "2 3", "2,", "-0", "+", "+0", "2.0", "2e0", "\u{660}", "--2", "002", "1 000", "(2)", "= 2", "2=", "+-2", "two"][r.below(24)].into(), 0 => "x".into(), 1 => format!("+{n}"), 2 => format!("0{n}"), 3 => "18446744073709551616".into(), 4 => "-1".into(), 5 => String::new(), 6 => "18446744073709551615".into(), _ => n.to_string() },
            "plural" => if r.one(5) { ["", "n", "n==1 ? 0 : 1", "m", "1+"][r.below(5)].to_string() } else { f.clone() },
            _ => ["", "1", "= =", "a b", "x=y"][r.below(5)].to_string(),
        };
        s.push_str(&format!("{}{k}{}={}{v}{};", sp(r), sp(r), sp(r), sp(r)));
    }
    match r.below(12) {
        0 => { s.pop(); }
        1 => { let i = r.below(s.chars().count() + 1); s = s.chars().take(i).chain("; =x".chars().skip(r.below(4)).take(1)).chain(s.chars().skip(i)).collect(); }
        2 => { let i = r.below(s.chars().count() + 1); s = s.chars().enumerate().filter(|(j, _)| *j != i).map(|x| x.1).collect(); }
        3 => s.push_str(" \t"),
        _ => {}
    }
    (s, n)
}

// ---- catalogues

const JUNK: [&str; 40] = [
    "junk", "msgid", "msgid \"", "msgid x", "msgid \"a\" b", "\"cont\"", "#~ \"cont\"", "#| \"cont\"", "#~| \"cont\"", "msgstr[0] \"z\"", "msgstr[1] \"z\"", "msgstr[01] \"z\"", "msgstr[] \"z\"", "msgstr[2] \"z\"",
    "msgstr \"z\"", "msgid \"z\"", "msgid_plural \"z\"", "msgctxt \"z\"", "#| msgid \"p\"", "#~ msgid \"p\"", "#~| msgid \"p\"", "#~ msgstr \"q\"", "#| msgctxt \"k\"", "#, fuzzy", "# note", "#~", "#|", "#", "#~ x", "\"", "\"\"",
    "msgid \"\"", "msgstr \"\"", "  msgid   \"y\"  ", "MSGID \"x\"", "msgid_plural\"x\"", "domain \"x\"", "msgstr[\u{661}] \"z\"", "msgstr[1\u{662}] \"z\"", "#\"x\"",
];
pub fn catalogue(r: &mut Rng, prop: &str) -> Case {
    r.1 = if prop == "C17" { r.one(2) } else { r.one(10) };
    let c = catalogue_of(r, prop);
    r.1 = false;
    c
}
fn catalogue_of(r: &mut Rng, prop: &str) -> Case {
    let header = match prop { "C01" | "C02" | "C03" | "C04" | "C12" | "C17" => true, _ => !r.one(3) };
    let (def, nforms) = if header && (matches!(prop, "C01" | "C02" | "C03" | "C04") || r.one(2)) { let (d, n) = definition(r, prop); (Some(d), n.min(1000)) } else { (None, 2) };
    let mut g = Gen { r, prop, out: vec![] };
    let mut starts = vec![];
    if header { g.header(def.as_deref()); }
    let n = match prop {
        "C01" | "C03" => 0,
        "C13" | "C14" => if g.r.one(50) { 200 } else { g.r.below(8) },
        "C17" => 3 + g.r.below(5),
        _ => if g.r.one(150) { 150 } else { g.r.below(5) },
    };
    if matches!(prop, "C01" | "C03" | "C04") { g.out.extend(["msgid \"one\"".into(), "msgid_plural \"many\"".into(), "msgstr[0] \"zero\"".into(), "msgstr[1] \"un\"".into(), "msgstr[2] \"deux\"".into()]); }
    for _ in 0..n { starts.push(g.out.len()); g.entry(nforms.max(1)); }
    let mut out = std::mem::take(&mut g.out);
    // damage
    let damage = match prop { "C14" | "C16" => !r.one(4), "C05" | "C15" => r.one(2), "C09" | "C08" | "C07" => r.one(4), _ => r.one(8) };
    if damage && !out.is_empty() {
        for _ in 0..1 + r.below(2) {
            // mostly late
            let n = out.len();
            if n == 0 { break; }
            let i = if r.one(2) { n - 1 - r.below(n.min(8)) } else { r.below(n) };
            match r.below(9) {
                0 => { out.remove(i); }
                1 => { let l = out[i].clone(); out.insert(i, l); }
                2 => { let j = r.below(out.len()); out.swap(i, j); }
                3 | 4 | 5 => { let j = if r.one(8) { format!("{}{}", lit(r), lit(r)).replace('\n', "") } else { r.pick(&JUNK).to_string() }; out.insert(i, j); }
                6 => { let k = r.pick(&KEYS).to_string(); let m = ["", "#~ ", "#| ", "#~| "][r.below(4)]; let t = escape(&text(r)); out.insert(i, format!("{m}{k} \"{t}\"")); }
                7 => { let c: Vec<char> = out[i].chars().collect(); if !c.is_empty() { let j = r.below(c.len()); out[i] = c.iter().enumerate().filter(|x| x.0 != j).map(|x| *x.1).collect(); } }
                _ => { out.truncate(i); }
            }
        }
    }
    // now and then more text than fits any buffer
    if !matches!(prop, "C01" | "C02" | "C03" | "C04") && r.one(4000) {
        let i = if out.is_empty() { 0 } else { r.below(out.len() + 1) };
        let size = 1usize << (16 + r.below(6));
        match r.below(3) {
            0 => { let l = format!("# {}", "note ".repeat(1 + r.below(200))); let k = size / l.len(); out.splice(i..i, std::iter::repeat(l).take(k)); }
            1 => { let (mut k, mut v) = (0, vec![]); while k < size { let t = format!("{}{}", k, "word ".repeat(1 + r.below(3000))); v.extend([String::new(), format!("msgid \"{t}\""), "msgstr \"\"".to_string()]); k += t.len(); } out.splice(i..i, v); }
            _ => { let t = "word ".repeat(size / 5); out.splice(i..i, [String::new(), format!("msgid \"{t}\""), format!("msgstr \"{t}\"")]); }
        }
    }
    lay_out(r, prop, &out)
}
/// the lines as bytes
pub fn lay_out(r: &mut Rng, prop: &str, lines: &[String]) -> Case {
    let fancy = prop == "C18" || r.one(4);
    let crlf = r.one(5);
    let mut b = String::new();
    for (i, l) in lines.iter().enumerate() {
        let msg = l.trim_start().starts_with('"') || l.contains("msg") && !l.starts_with("# ");
        if fancy && r.one(4) { for _ in 0..1 + r.below(2) { let k = if r.one(6) { [20, 40, 100, 300][r.below(4)] } else { many(r, 1) }; b.push_str(&["", " ", "\t", "\u{3000}", " \r", "\u{a0}\u{b}"][r.below(6)].repeat(k)); b.push_str(if r.one(3) { "\r\n" } else { "\n" }); } }
        if fancy && r.one(5) { let k = many(r, 1); b.push_str(&[" ", "\t", "   ", "\u{a0}", "\u{c}"][r.below(5)].repeat(k)); }
        b.push_str(l);
        if fancy && msg && r.one(5) { let k = many(r, 1); b.push_str(&[" ", "\t", "   ", "\u{2003}"][r.below(4)].repeat(k)); }
        if i + 1 < lines.len() || !r.one(3) { b.push_str(if crlf || (fancy && r.one(6)) { "\r\n" } else { "\n" }); }
        if !fancy && (i + 1 < lines.len()) && l.trim_start().starts_with("msgstr") && r.one(3) { b.push('\n'); }
    }
    let mut bytes = b.into_bytes();
    let mut fail = None;
    let io = match prop { "C14" | "C15" | "C16" => 4, _ => 25 };
    if r.one(io) { fail = Some((r.below(bytes.len() + 1), format!("{}{}", KINDS[r.below(KINDS.len())], ["", "+"][r.below(2)]))); }
    if r.one(io) && !bytes.is_empty() {
        for _ in 0..1 + r.below(2) {
            let i = if r.one(2) { bytes.len() - 1 - r.below(bytes.len().min(60)) } else { r.below(bytes.len()) };
            match r.below(3) { 0 => bytes[i] = [0x80, 0xff, 0xc3, 0xf0, 0][r.below(5)], 1 => { bytes.remove(i); } _ => bytes.truncate(i) }
            if bytes.is_empty() { break; }
        }
    }
    let chunk = match r.below(if prop == "C18" { 3 } else { 8 }) { 0 => 1, 1 => r.u64() | 2, _ => 0 };
    Case { bytes, fail, chunk }
}
pub fn garbage(r: &mut Rng) -> Case {
    let n = r.below(60);
    let toks = ["msgid", "msgstr", "msgctxt", "_plural", "[", "]", "0", "1", "\"", "\"", " ", "\n", "\n", "#", "~", "|", ",", ":", ".", "\\", "n", "é", "\r", "fuzzy", "Plural-Forms: ", "nplurals=", ";", "plural=", "\u{2028}"];
    let mut b = vec![];
    for _ in 0..n { if r.one(20) { b.push(r.u64() as u8) } else { b.extend(r.pick(&toks).as_bytes()) } }
    Case { bytes: b, fail: None, chunk: 0 }
}
