//! Reference: what a catalogue means, written from the properties, independently of the crate.
use crate::formula::{self, F};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum E {
    Io(usize, String),
    Parse(usize, String, String),
    Unexpected(usize, Option<String>),
    Forms(Option<String>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum L {
    Blank,
    Comment(usize, char, String),
    Msg(usize, String, String, String),
    Cont(usize, String, String),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum M {
    Simple(String, Option<String>),
    Plural(String, String, Vec<String>, Option<Forms>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Forms {
    pub count: usize,
    pub definition: String,
    pub formula: String,
    pub expr: F,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct U {
    pub context: Option<String>,
    pub message: M,
    pub prev_context: Option<String>,
    pub prev_message: M,
    pub flags: BTreeSet<String>,
    pub notes: Vec<(bool, String)>,
    pub locations: Vec<String>,
    pub comments: Vec<(char, String)>,
    pub state: char,
    pub obsolete: bool,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct H {
    pub language: String,
    pub notes: Vec<(bool, String)>,
    pub comments: Vec<(char, String)>,
    pub props: BTreeMap<String, String>,
}
/// Outcome of opening and iterating
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Failed(E),
    Read(H, Vec<Result<U, E>>),
}

// ---- text

fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\\' {
            let r = match it.peek() { Some('n') => '\n', Some('r') => '\r', Some('t') => '\t', Some('"') => '"', Some('\\') => '\\', _ => { out.push('\\'); continue; } };
            it.next();
            out.push(r);
        } else { out.push(c); }
    }
    out
}
pub fn escape(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        match c { '\n' => out.push_str("\\n"), '\r' => out.push_str("\\r"), '\t' => out.push_str("\\t"), '"' => out.push_str("\\\""), '\\' => out.push_str("\\\\"), c => out.push(c) }
    }
    out
}
fn keyword(k: &str) -> bool {
    if matches!(k, "msgctxt" | "msgid" | "msgid_plural" | "msgstr") { return true; }
    match k.strip_prefix("msgstr[").and_then(|k| k.strip_suffix(']')) {
        None => false,
        Some("0") => true,
        Some(d) => d.starts_with(|c| ('1'..='9').contains(&c)) && d.chars().all(decimal),
    }
}
/// Unicode decimal digits: the ASCII ones and the ones the generators use
fn decimal(c: char) -> bool { c.is_ascii_digit() || ('\u{660}'..='\u{669}').contains(&c) || ('\u{966}'..='\u{96f}').contains(&c) || ('\u{ff10}'..='\u{ff19}').contains(&c) }
fn quoted(s: &str) -> Option<&str> {
    let t = s.trim();
    if t.len() >= 2 && t.starts_with('"') && t.ends_with('"') { Some(&t[1..t.len() - 1]) } else { None }
}
pub fn classify(line: &str, n: usize) -> Option<L> {
    let l = line.trim_start();
    if l.is_empty() { return Some(L::Blank); }
    let mut marker = String::new();
    let mut rest = l;
    for m in ["~|", "~", "|"] {
        if let Some(r) = l.strip_prefix('#').and_then(|x| x.strip_prefix(m)) { marker = m.to_string(); rest = r; break; }
    }
    let rest = rest.trim_start();
    let k = rest.find(|c: char| c.is_whitespace() || c == '"').unwrap_or(rest.len());
    if k == 0 {
        if let Some(s) = quoted(rest) { return Some(L::Cont(n, marker, unescape(s))); }
    } else if keyword(&rest[..k]) {
        if let Some(s) = quoted(&rest[k..]) {
            let bar = if marker.ends_with('|') { "|" } else { "" };
            return Some(L::Msg(n, marker.clone(), format!("{bar}{}", &rest[..k]), unescape(s)));
        }
    }
    let c = l.strip_prefix('#')?;
    match c.chars().next() {
        None => Some(L::Comment(n, ' ', String::new())),
        Some(x) => Some(L::Comment(n, x, c[x.len_utf8()..].trim_start().to_string())),
    }
}
/// The lines of a source: its bytes, and the place where reading it fails, if any
pub fn raw_lines(bytes: &[u8], fail: Option<(usize, String)>) -> Vec<Result<String, String>> {
    let end = fail.as_ref().map_or(bytes.len(), |f| f.0.min(bytes.len()));
    let mut out = vec![];
    let mut rest = &bytes[..end];
    loop {
        let (line, done) = match rest.iter().position(|b| *b == b'\n') {
            Some(i) => { let l = &rest[..i]; rest = &rest[i + 1..]; (l.strip_suffix(b"\r").unwrap_or(l), false) }
            None => { if rest.is_empty() || fail.is_some() { break; } (rest, true) }
        };
        match std::str::from_utf8(line) { Ok(s) => out.push(Ok(s.to_string())), Err(_) => out.push(Err("InvalidData".into())) }
        if done { break; }
    }
    if let Some((_, k)) = fail { out.push(Err(k.trim_end_matches('+').to_string())); }
    out
}
pub fn lines(raw: &[Result<String, String>]) -> Vec<Result<L, E>> {
    let mut out = vec![];
    for (i, l) in raw.iter().enumerate() {
        match l {
            Err(k) => { out.push(Err(E::Io(i + 1, k.clone()))); break; }
            Ok(s) => match classify(s, i + 1) {
                None => { out.push(Err(E::Parse(i + 2, s.clone(), String::new()))); break; }
                Some(L::Blank) => {}
                Some(x) => out.push(Ok(x)),
            },
        }
    }
    out
}

// ---- entries

struct R { rem: std::collections::VecDeque<Result<L, E>>, forms: Option<Forms> }
impl R {
    fn fail(&mut self) -> Result<(), E> {
        if let Some(Err(_)) = self.rem.front() { return Err(self.rem.pop_front().unwrap().unwrap_err()); }
        Ok(())
    }
    fn field(&mut self, tag: &str, obs: bool) -> Result<Option<String>, E> {
        self.fail()?;
        let (p, mut s) = match self.rem.front() {
            Some(Ok(L::Msg(_, p, t, s))) if t == tag && p.starts_with('~') == obs => (p.clone(), s.clone()),
            _ => return Ok(None),
        };
        self.rem.pop_front();
        loop {
            self.fail()?;
            match self.rem.front() {
                Some(Ok(L::Cont(_, q, x))) if *q == p => { s.push_str(x); }
                _ => return Ok(Some(s)),
            }
            self.rem.pop_front();
        }
    }
    fn expected(&mut self, exp: &str) -> Result<(), E> {
        self.fail()?;
        let exp = exp.to_string();
        match self.rem.front() {
            Some(Ok(L::Msg(n, p, ..))) => Err(E::Parse(*n, p.clone(), exp)),
            Some(Ok(L::Cont(n, ..))) => Err(E::Parse(*n, "\"".into(), exp)),
            Some(Ok(L::Comment(n, c, _))) => Err(E::Parse(*n, format!("#{c}"), exp)),
            _ => Ok(()),
        }
    }
    fn unit(&mut self, first: bool) -> Result<Option<U>, E> {
        let mut u = U { context: None, message: M::Simple(String::new(), None), prev_context: None, prev_message: M::Simple(String::new(), None), flags: BTreeSet::new(), notes: vec![], locations: vec![], comments: vec![], state: 'E', obsolete: false };
        while let Some(Ok(L::Comment(_, k, s))) = self.rem.front() {
            match k {
                ',' => for f in s.split(',') { u.flags.insert(f.trim().to_string()); },
                ':' => u.locations.extend(s.split_whitespace().map(String::from)),
                '.' => u.notes.push((true, s.clone())),
                ' ' => u.notes.push((false, s.clone())),
                k => u.comments.push((*k, s.clone())),
            }
            self.rem.pop_front();
        }
        self.fail()?;
        let line = match self.rem.front() {
            Some(Ok(L::Msg(n, p, ..))) => { u.obsolete = p.starts_with('~'); *n }
            Some(Ok(L::Cont(n, ..))) => *n,
            _ => return Ok(None),
        };
        let obs = u.obsolete;
        u.prev_context = self.field("|msgctxt", obs)?;
        let pid = self.field("|msgid", obs)?;
        let ppl = if pid.is_some() { self.field("|msgid_plural", obs)? } else { None };
        u.prev_message = match (pid, ppl) {
            (None, _) => M::Simple(String::new(), None),
            (Some(i), None) => M::Simple(i, None),
            (Some(i), Some(p)) => M::Plural(i, p, vec![], self.forms.clone()),
        };
        u.context = self.field("msgctxt", obs)?;
        let id = self.field("msgid", obs)?;
        if !first && id.is_none() { self.expected("msgid")?; return Ok(None); }
        let pl = self.field("msgid_plural", obs)?;
        u.message = match (id, pl) {
            (None, _) => M::Simple(String::new(), None),
            (Some(i), None) => match self.field("msgstr", obs)? {
                Some(t) => M::Simple(i, if t.is_empty() { None } else { Some(t) }),
                None => { self.expected("msgstr")?; return Ok(None); }
            },
            (Some(i), Some(p)) => {
                let mut v = vec![];
                let count = self.forms.as_ref().map_or(2, |f| f.count);
                while v.len() < count {
                    match self.field(&format!("msgstr[{}]", v.len()), obs)? { Some(x) => v.push(x), None => break }
                }
                if v.is_empty() { self.expected("msgstr[0]")?; return Ok(None); }
                M::Plural(i, p, v, self.forms.clone())
            }
        };
        if !first && is_empty(&u.message) { return Err(E::Unexpected(line, Some("Source should not be empty".into()))); }
        u.state = if u.flags.contains("fuzzy") { 'W' } else if blank(&u.message) { 'E' } else { 'F' };
        Ok(Some(u))
    }
}
pub fn is_empty(m: &M) -> bool { matches!(m, M::Simple(i, _) if i.is_empty()) }
pub fn blank(m: &M) -> bool { match m { M::Simple(_, t) => t.as_ref().map_or(true, |t| t.is_empty()), M::Plural(_, _, v, _) => v.iter().all(|x| x.is_empty()) } }
pub fn text(m: &M) -> String { match m { M::Simple(_, t) => t.clone().unwrap_or_default(), M::Plural(_, _, v, _) => v.first().cloned().unwrap_or_default() } }

/// definitions `key = value;`
pub fn definitions(s: &str) -> Option<BTreeMap<String, String>> {
    let mut out = BTreeMap::new();
    let mut parts: Vec<&str> = s.split(';').collect();
    if !parts.pop().unwrap().trim().is_empty() { return None; }
    for p in parts {
        if p.trim().is_empty() { continue; }
        let (k, v) = p.split_once('=')?;
        let k = k.trim();
        if k.is_empty() || k.contains(char::is_whitespace) { return None; }
        out.insert(k.to_string(), v.trim().to_string());
    }
    Some(out)
}
pub fn forms(def: &str) -> Result<Forms, E> {
    let d = definitions(def).ok_or(E::Unexpected(0, None))?;
    let formula = d.get("plural").cloned().unwrap_or_default();
    let expr = formula::parse(&formula).ok_or(E::Forms(None))?;
    let count = match d.get("nplurals") {
        None => 2,
        Some(s) => {
            let t = s.strip_prefix('+').unwrap_or(s);
            if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) { return Err(E::Forms(None)); }
            t.parse::<u64>().map_err(|_| E::Forms(None))? as usize
        }
    };
    Ok(Forms { count, definition: def.to_string(), formula, expr })
}
fn language(l: &str) -> String {
    use locale_config::LanguageRange as R;
    R::new(l).map(R::into_static).or_else(|_| R::from_unix(l)).unwrap_or_else(|_| R::invariant()).to_string()
}
pub fn read(raw: &[Result<String, String>]) -> Out {
    let mut r = R { rem: lines(raw).into(), forms: None };
    let mut h = H { language: locale_config::LanguageRange::invariant().to_string(), ..H::default() };
    let mut next = match r.unit(true) { Err(e) => return Out::Failed(e), Ok(u) => u.map(Ok) };
    if let Some(Ok(u)) = &next {
        if is_empty(&u.message) {
            let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
            for l in text(&u.message).split('\n') {
                if let Some((k, v)) = l.split_once(':') { m.entry(k.trim().into()).or_default().push(v.trim().into()); }
            }
            h.props = m.into_iter().map(|(k, v)| (k, v.join(" "))).collect();
            h.notes = u.notes.clone();
            h.comments = u.comments.clone();
            if let Some(l) = h.props.get("Language") { h.language = language(l); }
            if let Some(f) = h.props.get("Plural-Forms") {
                if !f.is_empty() { match forms(f) { Ok(f) => r.forms = Some(f), Err(e) => return Out::Failed(e) } }
            }
            next = r.unit(false).transpose();
        }
    }
    let mut out = vec![];
    while let Some(x) = next {
        let stop = x.is_err();
        out.push(x);
        if stop { break; }
        next = r.unit(false).transpose();
    }
    Out::Read(h, out)
}
