//! The formula grammar: its productions are written as derivation trees of the specification
//! language, and its actions as functions under contract. What the productions mean is said in
//! contracts/formula.rs, which has a function for every production with an action.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
enum Sym {
    Nt(String),
    Lit(String),
    Re(String),
}
#[derive(Clone, Debug)]
struct Alt {
    /// symbols, with their names when selected by `<..>`
    syms: Vec<(Sym, bool, Option<String>)>,
    action: Option<(usize, usize)>,
    fallible: bool,
}
struct Rule {
    name: String,
    ty: Option<String>,
    alts: Vec<Alt>,
}
pub struct Grammar {
    /// source of the module of the actions, laid out on the lines of the grammar
    pub actions: String,
    /// the Verus module
    pub module: String,
    pub productions: Vec<String>,
    /// the contracts of the actions
    pub contracts: Vec<(String, String)>,
}

type R<T> = std::result::Result<T, String>;

fn tok_name(l: &str) -> Option<&'static str> {
    Some(match l {
        "?" => "Question",
        ":" => "Colon",
        "||" => "OrOr",
        "or" => "OrW",
        "&&" => "AndAnd",
        "and" => "AndW",
        "==" => "EqEq",
        "!=" => "Ne",
        "<" => "Lt",
        "<=" => "Le",
        ">" => "Gt",
        ">=" => "Ge",
        "+" => "Plus",
        "-" => "Minus",
        "*" => "Star",
        "/" => "Slash",
        "%" => "Percent",
        "!" => "Bang",
        "not" => "NotW",
        "n" => "Var",
        "(" => "Open",
        ")" => "Close",
        _ => return None,
    })
}

struct P {
    t: Vec<TokenTree>,
    i: usize,
}
fn span(t: &TokenTree) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}
impl P {
    fn new(s: TokenStream) -> P { P { t: s.into_iter().collect(), i: 0 } }
    fn peek(&self) -> Option<&TokenTree> { self.t.get(self.i) }
    fn next(&mut self) -> Option<TokenTree> {
        self.i += 1;
        self.t.get(self.i - 1).cloned()
    }
    fn is(&self, c: char) -> bool { matches!(self.peek(), Some(TokenTree::Punct(p)) if p.as_char() == c) }
    fn eat(&mut self, c: char) -> bool {
        let r = self.is(c);
        if r { self.i += 1 }
        r
    }
    fn want(&mut self, c: char) -> R<()> { if self.eat(c) { Ok(()) } else { Err(format!("`{}` expected before {:?}", c, self.peek().map(|t| t.to_string()))) } }
    fn word(&self) -> Option<String> { match self.peek() { Some(TokenTree::Ident(i)) => Some(i.to_string()), _ => None } }
    fn arrow(&self) -> bool {
        matches!(self.peek(), Some(TokenTree::Punct(p)) if p.as_char() == '=' && p.spacing() == Spacing::Joint) && matches!(self.t.get(self.i + 1), Some(TokenTree::Punct(p)) if p.as_char() == '>')
    }
    fn sym(&mut self) -> R<Sym> {
        let s = match self.next() {
            Some(TokenTree::Ident(i)) => Sym::Nt(i.to_string()),
            Some(TokenTree::Literal(l)) => {
                let raw = l.to_string().starts_with('r');
                match syn::parse_str::<syn::LitStr>(&l.to_string()) {
                    Ok(s) if raw => Sym::Re(s.value()),
                    Ok(s) => Sym::Lit(s.value()),
                    Err(e) => return Err(e.to_string()),
                }
            }
            t => return Err(format!("symbol expected, not {:?}", t.map(|t| t.to_string()))),
        };
        for c in "*+?<@".chars() {
            if self.is(c) && !(c == '<' && matches!(self.peek(), Some(TokenTree::Punct(_))) && !matches!(s, Sym::Nt(_))) {
                // a repetition or a macro; `<` after a name may open the next selected symbol
                if c == '<' && self.gap() { continue }
                return Err(format!("`{}` after a symbol", c));
            }
        }
        Ok(s)
    }
    /// is there space before the next token?
    fn gap(&self) -> bool { self.i > 0 && self.peek().map_or(true, |t| span(t).0 > span(&self.t[self.i - 1]).1) }
    /// an alternative, up to (not including) `,` or `;`
    fn alt(&mut self) -> R<Alt> {
        let mut a = Alt { syms: vec![], action: None, fallible: false };
        loop {
            if self.peek().is_none() || self.is(',') || self.is(';') { return Ok(a) }
            if self.arrow() {
                self.i += 2;
                a.fallible = self.eat('?');
                if self.is('@') { return Err("position action".into()) }
                let from = self.i;
                while self.peek().is_some() && !self.is(',') && !self.is(';') { self.i += 1 }
                if from == self.i { return Err("empty action".into()) }
                a.action = Some((span(&self.t[from]).0, span(&self.t[self.i - 1]).1));
                return Ok(a);
            }
            if self.eat('<') {
                let mut name = None;
                if matches!(self.t.get(self.i + 1), Some(TokenTree::Punct(p)) if p.as_char() == ':') {
                    name = self.word();
                    if name.is_none() || name.as_deref() == Some("mut") { return Err("name of a symbol".into()) }
                    self.i += 2;
                }
                let s = self.sym()?;
                self.want('>')?;
                a.syms.push((s, true, name));
            } else {
                a.syms.push((self.sym()?, false, None));
            }
        }
    }
}

fn sname(s: &Sym) -> String {
    match s {
        Sym::Nt(n) => n.clone(),
        Sym::Lit(l) => tok_name(l).map(|x| x.to_string()).unwrap_or_else(|| format!("x{}", l.bytes().map(|b| format!("{:02x}", b)).collect::<String>())),
        Sym::Re(_) => "Digits".into(),
    }
}

pub fn read(src: &str, contracts: &str) -> R<Grammar> {
    let stream: TokenStream = src.parse().map_err(|e| format!("{:?}", e))?;
    let mut p = P::new(stream);
    let mut uses: Vec<(usize, usize)> = vec![];
    let mut rules: Vec<Rule> = vec![];
    while p.peek().is_some() {
        match p.word().as_deref() {
            Some("grammar") => {
                p.next();
                p.want(';')?;
                continue;
            }
            Some("use") => {
                let a = span(p.peek().unwrap()).0;
                while p.peek().is_some() && !p.is(';') { p.i += 1 }
                uses.push((a, p.peek().map_or(src.len(), |t| span(t).1)));
                p.want(';')?;
                continue;
            }
            Some("extern") => {
                p.next();
                match p.next() {
                    Some(TokenTree::Group(g)) => {
                        let t = g.stream().to_string().replace(' ', "");
                        if t != "typeError=String;" { return Err(format!("extern {}", t)) }
                    }
                    _ => return Err("extern".into()),
                }
                continue;
            }
            Some("pub") => {
                p.next();
                if matches!(p.peek(), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis) { p.next(); }
            }
            _ => (),
        }
        let name = p.word().ok_or(format!("name expected, not {:?}", p.peek().map(|t| t.to_string())))?;
        p.next();
        let mut ty = None;
        if p.eat(':') {
            let a = p.i;
            while p.peek().is_some() && !p.is('=') { p.i += 1 }
            if a == p.i || p.peek().is_none() { return Err("type".into()) }
            ty = Some(src[span(&p.t[a]).0..span(&p.t[p.i - 1]).1].to_string());
        }
        p.want('=')?;
        let mut alts = vec![];
        if let Some(TokenTree::Group(g)) = p.peek().cloned() {
            if g.delimiter() != Delimiter::Brace { return Err("group".into()) }
            p.next();
            let mut q = P::new(g.stream());
            while q.peek().is_some() {
                if q.is('#') { return Err("annotation".into()) }
                alts.push(q.alt()?);
                if !q.eat(',') && q.peek().is_some() { return Err("`,` expected".into()) }
            }
            p.eat(';');
        } else {
            alts.push(p.alt()?);
            p.want(';')?;
        }
        rules.push(Rule { name, ty, alts });
    }
    // every terminal
    let mut lits: BTreeSet<String> = BTreeSet::new();
    let mut runs: BTreeSet<String> = BTreeSet::new();
    for r in &rules {
        for a in &r.alts {
            for (s, _, _) in &a.syms {
                match s {
                    Sym::Lit(l) => { lits.insert(l.clone()); }
                    Sym::Re(x) => { runs.insert(x.clone()); }
                    Sym::Nt(n) => if !rules.iter().any(|r| r.name == *n) { return Err(format!("nonterminal {} is not defined", n)) },
                }
            }
        }
    }
    for l in &lits { tok_name(l).ok_or(format!("terminal {:?} is not under contract", l))?; }
    if runs.len() > 1 || runs.iter().any(|r| r != "[0-9]+") { return Err(format!("terminal {:?} is not under contract", runs)) }

    // types of the values
    let mut types: BTreeMap<String, String> = BTreeMap::new();
    for _ in 0..rules.len() + 1 {
        for r in &rules {
            if let Some(t) = &r.ty { types.insert(r.name.clone(), t.clone()); continue }
            if r.alts.len() == 1 && r.alts[0].action.is_none() {
                let v: Vec<_> = chosen(&r.alts[0]);
                if let [Sym::Nt(n)] = &v[..] { if let Some(t) = types.get(n).cloned() { types.insert(r.name.clone(), t); } }
            }
        }
    }
    for (n, t) in &types { if t != "Node" && t != "i64" { return Err(format!("type {} of {}", t, n)) } }
    if types.len() != rules.len() { return Err("a type is missing".into()) }

    // the actions
    let mut acts: Vec<(usize, String)> = vec![];
    let mut cons = vec![];
    let mut m = String::new();
    let mut names = vec![];
    let mut given: BTreeSet<String> = BTreeSet::new();
    m += "use vstd::prelude::*; use crate::spec::*; use crate::formula::*; use crate::plural::formula::node::Node;\n";
    // terminals: longest first, then in order
    let mut sorted: Vec<&String> = lits.iter().collect();
    sorted.sort_by_key(|l| (std::cmp::Reverse(l.chars().count()), (*l).clone()));
    m += "/// the terminals of the grammar\npub open spec fn terms() -> Seq<(Seq<char>, Tok)> { seq![";
    m += &sorted.iter().map(|l| format!("({:?}@, Tok::{})", l, tok_name(l).unwrap())).collect::<Vec<_>>().join(", ");
    m += "] }\n";
    m += &format!("pub open spec fn digits() -> bool {{ {} }}\n", !runs.is_empty());
    for r in &rules {
        let d = format!("D_{}", r.name);
        let ty = &types[&r.name];
        let (mut en, mut le, mut at, mut va) = (String::new(), String::new(), String::new(), String::new());
        let mut vs = BTreeSet::new();
        for a in &r.alts {
            let v = a.syms.iter().map(|s| sname(&s.0)).collect::<Vec<_>>().join("_");
            let v = if v.is_empty() { return Err("empty production".into()) } else { v };
            if !vs.insert(v.clone()) { return Err(format!("production {} of {} twice", v, r.name)) }
            let prod = format!("{}__{}", r.name, v);
            let kids: Vec<(usize, String)> = a.syms.iter().enumerate().filter_map(|(i, s)| match &s.0 { Sym::Nt(n) => Some((i, n.clone())), _ => None }).collect();
            let args = kids.iter().map(|(_, n)| format!("Box<D_{}>", n)).collect::<Vec<_>>().join(", ");
            let pats = kids.iter().map(|(i, _)| format!("k{}", i)).collect::<Vec<_>>().join(", ");
            let (args, pats) = if kids.is_empty() { (String::new(), String::new()) } else { (format!("({})", args), format!("({})", pats)) };
            en += &format!("{}{}, ", v, args);
            // lengths and places
            let mut place = String::from("a");
            let mut lens = vec![];
            let mut ats = vec![];
            let mut vals: Vec<String> = vec![];
            for (i, (s, _, _)) in a.syms.iter().enumerate() {
                match s {
                    Sym::Nt(n) => {
                        lens.push(format!("len_{}(*k{})", n, i));
                        ats.push(format!("at_{}(*k{}, ts, {})", n, i, place));
                        vals.push(format!("val_{}(*k{}, ts, {})", n, i, place));
                        place += &format!(" + len_{}(*k{})", n, i);
                    }
                    Sym::Lit(l) => {
                        lens.push("1".into());
                        ats.push(format!("tok_at(ts, {}, Tok::{})", place, tok_name(l).unwrap()));
                        vals.push(format!("ts[{}]", place));
                        place += " + 1";
                    }
                    Sym::Re(_) => {
                        lens.push("1".into());
                        ats.push(format!("num_at(ts, {})", place));
                        vals.push(format!("num_text(ts, {})", place));
                        place += " + 1";
                    }
                }
            }
            le += &format!("{d}::{v}{pats} => ({}) as nat, ", lens.join(" + "));
            let selected: Vec<usize> = pick(a);
            let svals: Vec<String> = selected.iter().map(|&i| vals[i].clone()).collect();
            match a.action {
                None => {
                    if selected.len() != 1 || !matches!(&a.syms[selected[0]].0, Sym::Nt(n) if types[n] == *ty) { return Err(format!("{} has no action", prod)) }
                    va += &format!("{d}::{v}{pats} => {}, ", svals[0]);
                    names.push(prod);
                }
                Some((x, y)) => {
                    if !contracts.contains(&format!("fn {}(", prod)) { return Err(format!("production {} is not under contract", prod)) }
                    given.insert(prod.clone());
                    let mut params = vec![];
                    let mut lets = String::new();
                    let mut names_ = vec![];
                    let mut specs = vec![];
                    let mut calls = vec![];
                    let mut req: Vec<String> = vec![];
                    for (k, &i) in selected.iter().enumerate() {
                        let (t, view) = match &a.syms[i].0 { Sym::Nt(n) => (types[n].clone(), ""), _ => (String::from("&str"), "@") };
                        if matches!(a.syms[i].0, Sym::Lit(_)) {
                            // the text of a fixed token
                            continue;
                        }
                        params.push(format!("v{}: {}", k, t));
                        if matches!(a.syms[i].0, Sym::Re(_)) { req.push(format!("crate::formula::digit_text(v{}@)", k)) }
                        if let Some(n) = &a.syms[i].2 { lets += &format!("let {} = v{}; ", n, k) }
                        names_.push(a.syms[i].2.clone().unwrap_or(format!("v{}", k)));
                        specs.push(format!("v{}{}", k, view));
                        calls.push(svals[k].clone());
                    }
                    let text = &src[x..y];
                    let any_lit = selected.iter().any(|&i| matches!(a.syms[i].0, Sym::Lit(_)));
                    if text.contains("<>") && any_lit && a.syms.iter().any(|s| s.1) { return Err(format!("`<>` in {}", prod)) }
                    let text = text.replace("<>", &names_.join(", "));
                    let line = src[..x].matches('\n').count();
                    let (rt, ens, val) = if a.fallible {
                        ats.push(format!("{}({}) is Some", prod, calls.join(", ")));
                        (format!("Result<{}, ParseError<usize, String, String>>", ty), format!("match crate::formula::{}({}) {{ Some(x) => ret == Ok::<{}, ParseError<usize, String, String>>(x), None => ret is Err }}", prod, specs.join(", "), ty), format!("{}({})->0", prod, calls.join(", ")))
                    } else {
                        (ty.clone(), format!("ret == crate::formula::{}({})", prod, specs.join(", ")), format!("{}({})", prod, calls.join(", ")))
                    };
                    va += &format!("{d}::{v}{pats} => {}, ", val);
                    cons.push((prod.clone(), format!("{}ensures {}", if req.is_empty() { String::new() } else { format!("requires {} ", req.join(", ")) }, ens)));
                    acts.push((line, format!("pub fn {}({}) -> {} {{ {}{} }}", prod, params.join(", "), rt, lets, text)));
                    names.push(format!("{}{}", prod, if a.fallible { " =>?" } else { " =>" }));
                }
            }
            at += &format!("{d}::{v}{pats} => {}, ", ats.join(" && "));
        }
        let n = &r.name;
        m += &format!("pub ghost enum {d} {{ {en} }}\npub open spec fn len_{n}(d: {d}) -> nat decreases d {{ match d {{ {le} }} }}\npub open spec fn at_{n}(d: {d}, ts: Seq<Tok>, a: int) -> bool decreases d {{ match d {{ {at} }} }}\npub open spec fn val_{n}(d: {d}, ts: Seq<Tok>, a: int) -> {ty} decreases d {{ match d {{ {va} }} }}\n");
    }
    // every contract is used
    for l in contracts.lines() {
        if let Some(r) = l.trim().strip_prefix("pub open spec fn ") {
            let n = r.split('(').next().unwrap_or("");
            if n.contains("__") && !given.contains(n) { return Err(format!("production {} not found", n)) }
        }
    }
    let start = "Formula";
    if !rules.iter().any(|r| r.name == start) || types[start] != "Node" { return Err("no Formula".into()) }
    m += "/// a derivation of the whole text, with its value\npub open spec fn derives(ts: Seq<Tok>, d: D_Formula, t: Node) -> bool { at_Formula(d, ts, 0) && len_Formula(d) == ts.len() && val_Formula(d, ts, 0) == t }\n";
    m += "pub open spec fn derivable(ts: Seq<Tok>, t: Node) -> bool { exists|d: D_Formula| #[trigger] derives(ts, d, t) }\n";
    m += "/// the value that the grammar gives to a text\n#[verifier::opaque]\npub open spec fn formula(text: Seq<char>) -> Option<Node> {\n    match lex(terms(), digits(), text) { None => None, Some(ts) => if exists|t: Node| #[trigger] derivable(ts, t) { Some(choose|t: Node| #[trigger] derivable(ts, t)) } else { None } }\n}\n";
    // source of the actions, on their own lines
    let mut out = String::new();
    for (a, z) in uses { out += &src[a..z]; out += " " }
    out = out.replace('\n', " ");
    acts.sort();
    let mut at = 0;
    for (line, text) in acts {
        let pad = line.saturating_sub(at);
        out += &"\n".repeat(pad);
        at = at.max(line) + text.matches('\n').count();
        out += " ";
        out += &text;
    }
    out += "\n";
    names.sort();
    Ok(Grammar { actions: out, module: m, productions: names, contracts: cons })
}

fn pick(a: &Alt) -> Vec<usize> {
    let named: Vec<usize> = (0..a.syms.len()).filter(|&i| a.syms[i].1).collect();
    if named.is_empty() { (0..a.syms.len()).collect() } else { named }
}
fn chosen(a: &Alt) -> Vec<Sym> { pick(a).into_iter().map(|i| a.syms[i].0.clone()).collect() }

/// when the grammar is not within reach
pub fn fallback() -> String {
    "use vstd::prelude::*; use crate::spec::*; use crate::plural::formula::node::Node;\npub uninterp spec fn formula(text: Seq<char>) -> Option<Node>;\n".into()
}
