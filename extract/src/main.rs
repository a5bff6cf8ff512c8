//! Mechanical extraction of /repo/src into one Verus file: see DESIGN.md, "Extraction".
//!
//! usage: extract REPO CONTRACTS_DIR OUT_DIR [--baseline FILE] [--write-baseline] [--externalize k1,k2,...]
mod body;
mod lalr;
mod regexast;
mod linear;
mod side;

use serde_json::{json, Map, Value};
use side::{FnTxt, Side};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::*;

pub fn range<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

/// Information on every function of the tree, by its last name
#[derive(Default)]
pub struct Global {
    /// names of functions of the crate whose return type is `Result`
    pub result_fns: HashSet<String>,
    /// names of functions of the crate returning an Option
    pub option_fns: HashSet<String>,
    /// contract-less functions which can be inlined: name -> (params with self first, body text, is_method)
    pub inlinable: HashMap<String, Inline>,
    /// the same, by key
    pub by_key: HashMap<String, Inline>,
    /// names of functions without contract
    pub contractless: HashSet<String>,
    /// how many functions have this name
    pub names: HashMap<String, usize>,
    /// constants which are literals; none when several have this name
    pub consts: HashMap<String, Option<String>>,
}

impl Global {
    /// loops and closures of a function without contract
    /// the function a call speaks of, with its key: `f(..)` (plain), `Self::f(..)` and `self.f(..)` in the function `from`
    pub fn resolve(&self, from: &str, name: &str, plain: bool) -> Option<(String, &Inline)> {
        let (mut at, _) = from.rsplit_once("::")?;
        if !plain {
            let i = at.rfind("::").map_or(0, |i| i + 2);
            let at = match at[i..].find('.') {
                Some(k) => &at[..i + k],
                None => at,
            };
            let key = format!("{}::{}", at, name);
            return self.by_key.get(&key).map(|i| (key, i));
        }
        loop {
            let key = format!("{}::{}", at, name);
            if let Some(i) = self.by_key.get(&key) {
                if !i.method && (at.rsplit("::").next().unwrap_or("").starts_with(|c: char| c.is_lowercase()) || at.is_empty()) {
                    return Some((key, i));
                }
            }
            match at.rsplit_once("::") {
                Some((a, _)) => at = a,
                None => return None,
            }
        }
    }
    fn heads(&self, name: &str, depth: usize) -> Vec<String> {
        match self.inlinable.get(name) {
            Some(i) if depth < 4 => {
                let mut v = i.loop_heads.clone();
                v.extend(i.calls.iter().flat_map(|n| self.heads(n, depth + 1)));
                v
            }
            _ => vec![],
        }
    }
    fn inside(&self, name: &str, depth: usize) -> (usize, usize) {
        match self.inlinable.get(name) {
            Some(i) if depth < 4 => i.calls.iter().map(|n| self.inside(n, depth + 1)).fold((i.loops, i.closures), |a, b| (a.0 + b.0, a.1 + b.1)),
            _ => (0, 0),
        }
    }
}

/// Which loop of a contract a loop with a given head is: the same heads in their order, then the one that is left over on both sides
fn align(old: &[String], now: &[String], known: &HashSet<usize>) -> HashMap<String, Vec<usize>> {
    let mut at: HashMap<String, Vec<usize>> = HashMap::new();
    let mut left: Vec<&String> = now.iter().collect();
    let mut lost = vec![];
    for (i, h) in old.iter().enumerate() {
        if let Some(k) = left.iter().position(|x| *x == h) {
            left.remove(k);
            at.entry(h.clone()).or_default().push(i);
        } else if known.contains(&i) {
            lost.push(i);
        }
    }
    if lost.len() == 1 && left.len() == 1 {
        at.entry(left[0].clone()).or_default().push(lost[0]);
    }
    at
}

#[derive(Clone)]
pub struct Inline {
    pub params: Vec<String>,
    pub body: String,
    pub method: bool,
    pub generic: bool,
    pub has_return: bool,
    pub has_try: bool,
    pub loops: usize,
    pub closures: usize,
    pub loop_heads: Vec<String>,
    /// the body without `?` and `return`
    pub linear: Option<String>,
    pub calls: Vec<String>,
}

pub struct Out {
    pub functions: Vec<Value>,
    pub drift: Vec<Value>,
    /// closures without contract, by function
    pub opaque: HashMap<String, usize>,
    /// functions without contract with a call that has their body in place
    pub inlined: HashSet<String>,
    pub dropped: BTreeSet<String>,
    pub rewrites: BTreeMap<String, usize>,
    pub regexes: Vec<(String, String)>,
    pub seen: HashSet<String>,
    pub new_baseline: Map<String, Value>,
}

pub struct Cx<'a> {
    pub src: &'a str,
    pub side: &'a Side,
    pub global: &'a Global,
    pub out: &'a RefCell<Out>,
    pub baseline: &'a Map<String, Value>,
    pub externalize: &'a HashSet<String>,
    pub file: String,
}

type Edits = Vec<(usize, usize, String)>;

pub fn apply(src: &str, lo: usize, hi: usize, edits: &mut Edits) -> String {
    edits.sort_by_key(|e| (e.0, e.1));
    let mut res = String::new();
    let mut pos = lo;
    for (a, b, s) in edits.iter() {
        assert!(*a >= pos && *b <= hi, "overlapping edits near `{}`", &src[*a..(*a + 20).min(src.len())]);
        res.push_str(&src[pos..*a]);
        res.push_str(s);
        pos = *b;
    }
    res.push_str(&src[pos..hi]);
    res
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("test") {
            return true;
        }
        if !a.path().is_ident("cfg") {
            return false;
        }
        let s = quote::ToTokens::to_token_stream(&a.meta).to_string();
        s.contains("test") && !s.contains("not")
    })
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            segs.last().cloned().unwrap_or_default()
        }
        Type::Reference(r) => type_name(&r.elem),
        _ => String::from("?"),
    }
}

fn attrs_of(item: &Item) -> &[Attribute] {
    match item {
        Item::Const(i) => &i.attrs,
        Item::Enum(i) => &i.attrs,
        Item::ExternCrate(i) => &i.attrs,
        Item::Fn(i) => &i.attrs,
        Item::Impl(i) => &i.attrs,
        Item::Macro(i) => &i.attrs,
        Item::Mod(i) => &i.attrs,
        Item::Static(i) => &i.attrs,
        Item::Struct(i) => &i.attrs,
        Item::Trait(i) => &i.attrs,
        Item::Type(i) => &i.attrs,
        Item::Use(i) => &i.attrs,
        _ => &[],
    }
}

/// External names replaced by stubs of the `shim` module
const SHIMMED: &[(&str, &str)] = &[
    ("std::io::Read", "Read"),
    ("std::io::BufRead", "BufRead"),
    ("std::io::BufReader", "BufReader"),
    ("std::io::Lines", "Lines"),
    ("std::io::Error", "IoError"),
    ("std::iter::Peekable", "Peekable"),
    ("std::iter::Iterator", "Iterator"),
    ("std::collections::HashMap", "HashMap"),
    ("std::collections::HashSet", "HashSet"),
    ("regex::Regex", "Regex"),
    ("regex::Captures", "Captures"),
    ("locale_config::LanguageRange", "LanguageRange"),
    ("lalrpop_util::ParseError", "ParseError"),
    ("std::io::ErrorKind", "ErrorKind"),
    ("std::fmt::Formatter", "Formatter"),
    ("std::fmt::Result", "FmtResult"),
    ("std::fmt::Error", "FmtError"),
    ("std::fmt::Display", "Display"),
    ("std::fmt::Debug", "Debug"),
    ("std::fmt::Write", "FmtWrite"),
    ("std::error::Error", "StdError"),
];

fn flatten_use(t: &UseTree, prefix: &str, out: &mut Vec<(String, Option<String>)>) {
    let j = |s: &str| if prefix.is_empty() { s.to_string() } else { format!("{}::{}", prefix, s) };
    match t {
        UseTree::Path(p) => flatten_use(&p.tree, &j(&p.ident.to_string()), out),
        UseTree::Name(n) if n.ident == "self" => out.push((prefix.to_string(), None)),
        UseTree::Name(n) => out.push((j(&n.ident.to_string()), None)),
        UseTree::Rename(n) if n.ident == "self" => out.push((prefix.to_string(), Some(n.rename.to_string()))),
        UseTree::Rename(n) => out.push((j(&n.ident.to_string()), Some(n.rename.to_string()))),
        UseTree::Glob(_) => out.push((j("*"), None)),
        UseTree::Group(g) => g.items.iter().for_each(|i| flatten_use(i, prefix, out)),
    }
}

fn emit_use(u: &ItemUse, out: &RefCell<Out>) -> String {
    let mut leaves = vec![];
    flatten_use(&u.tree, "", &mut leaves);
    let mut s = String::new();
    let vis = if matches!(u.vis, Visibility::Inherited) { "" } else { "pub " };
    for (path, rename) in leaves {
        let first = path.split("::").next().unwrap();
        if first == "lalrpop_util" && path.ends_with("lalrpop_mod") {
            continue;
        }
        if let Some((_, shim)) = SHIMMED.iter().find(|(p, _)| *p == path || (path.starts_with("core::") && p[3..] == path[4..])) {
            let name = rename.clone().unwrap_or_else(|| path.rsplit("::").next().unwrap().to_string());
            out.borrow_mut().dropped.insert(format!("use {} -> shim::{}", path, shim));
            if name == *shim {
                s += &format!("{}use crate::shim::{}; ", vis, shim);
            } else {
                s += &format!("{}use crate::shim::{} as {}; ", vis, shim, name);
            }
            continue;
        }
        match rename {
            Some(r) => s += &format!("{}use {} as {}; ", vis, path, r),
            None => s += &format!("{}use {}; ", vis, path),
        }
    }
    s
}

fn derives(attrs: &[Attribute]) -> (Vec<String>, Vec<(usize, usize)>) {
    let mut names = vec![];
    let mut ranges = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                names.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
            ranges.push(range(a));
        }
    }
    (names, ranges)
}

fn drop_docs(attrs: &[Attribute], edits: &mut Edits) {
    for a in attrs {
        if a.path().is_ident("doc") || a.path().is_ident("inline") || a.path().is_ident("must_use") || a.path().is_ident("rustfmt") || a.path().segments.first().map_or(false, |s| s.ident == "rustfmt" || s.ident == "allow" || s.ident == "warn") || a.path().is_ident("allow") || a.path().is_ident("cold") || a.path().is_ident("track_caller") {
            let (x, y) = range(a);
            // keep the line structure of comments out of the way
            edits.push((x, y, String::new()));
        }
    }
}

fn pub_vis(vis: &Visibility, at: usize, edits: &mut Edits) {
    match vis {
        Visibility::Inherited => edits.push((at, at, String::from("pub "))),
        Visibility::Public(_) => (),
        v => {
            let (a, b) = range(v);
            edits.push((a, b, String::from("pub")));
        }
    }
}

fn after_attrs<T: Spanned>(item: &T, attrs: &[Attribute]) -> usize {
    match attrs.iter().filter(|a| matches!(a.style, AttrStyle::Outer)).last() {
        None => range(item).0,
        Some(a) => range(a).1,
    }
}

fn generics_text(src: &str, g: &Generics) -> (String, String, String) {
    // (decl, use, where)
    if g.params.is_empty() {
        return (String::new(), String::new(), String::new());
    }
    let (a, b) = (range(&g.lt_token.unwrap()).0, range(&g.gt_token.unwrap()).1);
    let decl = src[a..b].to_string();
    let names: Vec<String> = g
        .params
        .iter()
        .map(|p| match p {
            GenericParam::Lifetime(l) => l.lifetime.to_string(),
            GenericParam::Type(t) => t.ident.to_string(),
            GenericParam::Const(c) => c.ident.to_string(),
        })
        .collect();
    let wh = g.where_clause.as_ref().map_or(String::new(), |w| {
        let (a, b) = range(w);
        src[a..b].to_string()
    });
    (decl, format!("<{}>", names.join(", ")), wh)
}

impl<'a> Cx<'a> {
    fn derive_impls(&self, modkey: &str, name: &str, g: &Generics, der: &[String], data: Option<&ItemStruct>) -> String {
        let (decl, usage, wh) = generics_text(self.src, g);
        let mut s = String::new();
        let skip = |d: &str| self.side.drops.contains(&format!("{}::{}.{}", modkey, name, d));
        for d in der {
            let key = format!("derive({}) for {}", d, name);
            if skip(d) {
                self.out.borrow_mut().dropped.insert(format!("{} (dropped)", key));
                continue;
            }
            match d.as_str() {
                "Clone" => {
                    s += &format!(
                        "\nimpl{decl} Clone for {name}{usage} {wh} {{ #[verifier::external_body] fn clone(&self) -> (ret: Self) ensures ret == *self {{ unimplemented!() }} }}\n"
                    );
                    self.out.borrow_mut().dropped.insert(format!("{} -> trusted: the clone equals the original", key));
                }
                "Copy" => s += &format!("\nimpl{decl} Copy for {name}{usage} {wh} {{}}\n"),
                "PartialEq" => {
                    s += &format!(
                        "\nimpl{decl} PartialEq for {name}{usage} {wh} {{ #[verifier::external_body] fn eq(&self, other: &Self) -> bool {{ unimplemented!() }} }}\nimpl{decl} vstd::std_specs::cmp::PartialEqSpecImpl for {name}{usage} {wh} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &Self) -> bool {{ *self == *other }} }}\n"
                    );
                    self.out.borrow_mut().dropped.insert(format!("{} -> trusted: structural equality", key));
                }
                "Eq" => s += &format!("\nimpl{decl} Eq for {name}{usage} {wh} {{}}\n"),
                "Default" => {
                    if let Some(st) = data {
                        let fields: Vec<String> = st
                            .fields
                            .iter()
                            .map(|f| {
                                let (a, b) = range(&f.ty);
                                format!("{}: <{} as Default>::default()", f.ident.as_ref().unwrap(), &self.src[a..b])
                            })
                            .collect();
                        let fkey = format!("{}::{}.Default::default", modkey, name);
                        let c = self.side.fns.get(&fkey).map(|f| f.contract.clone()).unwrap_or_default();
                        let ext = self.side.fns.get(&fkey).map_or(false, |f| f.opts.contains("external"));
                        let b = self.side.fns.get(&fkey).map(|f| f.body.clone()).unwrap_or_default();
                        self.out.borrow_mut().seen.insert(fkey.clone());
                        self.out.borrow_mut().functions.push(json!({"key": fkey, "file": self.file, "line": 0, "contract": !c.is_empty(), "trusted": ext, "body": true, "proved": !ext, "note": "expansion of derive(Default)"}));
                        s += &format!(
                            "\n/*@F {fkey}*/ impl{decl} Default for {name}{usage} {wh} {{ {} fn default() -> (ret: Self) {c} {{ {b} {name} {{ {} }} }} }} /*@E*/\n",
                            if ext { "#[verifier::external_body]" } else { "" },
                            fields.join(", ")
                        );
                    }
                }
                _ => {
                    self.out.borrow_mut().dropped.insert(key);
                }
            }
        }
        s
    }

    /// Splices the contract of a function; `edits` receives the edits of the whole function
    fn do_fn(&self, key: &str, sig: &Signature, block: Option<&Block>, attrs: &[Attribute], start: usize, end: usize, edits: &mut Edits) {
        drop_docs(attrs, edits);
        let src = self.src;
        self.out.borrow_mut().seen.insert(key.to_string());
        let mut txt: Option<FnTxt> = self.side.fns.get(key).cloned();
        let line = sig.ident.span().start().line;
        let endline = block.map_or(line, |b| b.span().end().line);

        // names of the parameters, then of the locals
        let params: Vec<String> = sig
            .inputs
            .iter()
            .map(|i| match i {
                FnArg::Receiver(_) => String::from("self"),
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(p) => p.ident.to_string(),
                    _ => String::from("_"),
                },
            })
            .collect();
        let stats = block.map(body::stats).unwrap_or_default();
        self.out.borrow_mut().new_baseline.insert(
            key.to_string(),
            json!({"params": params, "locals": stats.locals, "loops": stats.loops, "closures": stats.closures, "loop_heads": stats.loop_heads, "closure_heads": stats.closure_heads}),
        );
        let mut drift: Option<String> = None;
        match self.baseline.get(key) {
            None => {
                if txt.is_none() {
                    drift = Some(String::from("function without contract"));
                }
            }
            Some(b) => {
                let old = |k: &str| -> Vec<String> { b[k].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect() };
                let (op, ol) = (old("params"), old("locals"));
                if let Some(t) = txt.as_mut() {
                    let mut ren: HashMap<String, String> = HashMap::new();
                    if op != params {
                        if op.len() == params.len() {
                            for (a, b) in op.iter().zip(&params) {
                                if a != b {
                                    ren.insert(a.clone(), b.clone());
                                }
                            }
                        } else {
                            drift = Some(String::from("parameters changed"));
                        }
                    }
                    let words = words(&t.inner_text());
                    let missing: Vec<&String> = ol.iter().filter(|l| words.contains(*l) && !stats.locals.contains(l)).collect();
                    if !missing.is_empty() {
                        if ol.len() == stats.locals.len() {
                            for (a, b) in ol.iter().zip(&stats.locals) {
                                if a != b && missing.contains(&a) {
                                    ren.insert(a.clone(), b.clone());
                                }
                            }
                        } else {
                            drift = Some(format!("locals named by the contract are gone: {:?}", missing));
                        }
                    }
                    // with those of the functions without contract that it calls
                    let called = block.map(body::calls).unwrap_or_default();
                    let (l, c) = called.iter().map(|n| self.global.inside(n, 0)).fold((stats.loops, stats.closures), |a, b| (a.0 + b.0, a.1 + b.1));
                    if called.iter().any(|n| self.global.contractless.contains(n)) && drift.is_none() {
                        drift = Some(String::from("calls a function without contract"));
                    }
                    if l as u64 != b["loops"].as_u64().unwrap() {
                        drift = Some(String::from("number of loops changed"));
                        let mut now = stats.loop_heads.clone();
                        for n in &called {
                            now.extend(self.global.heads(n, 0));
                        }
                        t.loop_at = Some(align(&old("loop_heads"), &now, &t.loops.keys().cloned().collect()));
                    }
                    let oldc = old("closure_heads");
                    let moved = c == stats.closures && c as u64 == b["closures"].as_u64().unwrap() && t.closures.keys().any(|i| oldc.get(*i) != stats.closure_heads.get(*i));
                    if (c as u64 != b["closures"].as_u64().unwrap() || moved) && !t.closures.is_empty() {
                        drift = Some(String::from(if moved { "closures changed" } else { "number of closures changed" }));
                        let mut at: HashMap<String, Vec<usize>> = HashMap::new();
                        for (i, h) in old("closure_heads").iter().enumerate() {
                            if t.closures.contains_key(&i) {
                                at.entry(h.clone()).or_default().push(i);
                            }
                        }
                        t.closure_at = Some(at);
                    }
                    if !ren.is_empty() {
                        t.map_text(&|s| rename_words(s, &ren));
                    }
                }
            }
        }
        let mut external = self.externalize.contains(key);
        if let Some(d) = &drift {
            self.out.borrow_mut().drift.push(json!({"key": key, "why": d, "file": self.file, "line": line}));
        }
        let t = txt.clone().unwrap_or_default();
        let trusted = t.opts.contains("external");
        external |= trusted;
        self.out.borrow_mut().functions.push(json!({
            "key": key, "file": self.file, "line": line, "endline": endline,
            "contract": !t.contract.trim().is_empty(), "trusted": trusted, "assumed_this_run": external && !trusted,
            "loops": stats.loops, "body": block.is_some(), "proved": !external && block.is_some()
        }));

        edits.push((start, start, format!("/*@F {}*/ ", key)));
        edits.push((end, end, String::from(" /*@E*/")));
        let mut pre = String::new();
        if external && block.is_some() {
            pre += "#[verifier::external_body] ";
        }
        for o in &t.opts {
            if let Some(a) = o.strip_prefix("attr=") {
                pre += &format!("#[{}] ", a);
            }
        }
        edits.push((start, start, pre));

        let mut mutself = false;
        let mut header_lets = String::new();
        for i in &sig.inputs {
            match i {
                FnArg::Receiver(r) => {
                    if let (None, Some(m)) = (&r.reference, &r.mutability) {
                        let (a, b) = range(m);
                        edits.push((a, b, String::new()));
                        mutself = true;
                        header_lets += " let mut vself = self; ";
                    }
                }
                FnArg::Typed(p) => {
                    if let Pat::Ident(i) = &*p.pat {
                        if let (Some(m), None) = (&i.mutability, &i.by_ref) {
                            let (a, b) = range(m);
                            edits.push((a, b, String::new()));
                            header_lets += &format!(" let mut {} = {}; ", i.ident, i.ident);
                        }
                    }
                }
            }
        }
        // `-> T` becomes `-> (ret: T)`
        if let ReturnType::Type(_, ty) = &sig.output {
            let (a, b) = range(ty);
            edits.push((a, a, String::from("(ret: ")));
            edits.push((b, b, String::from(")")));
        }
        let contract = format!("\n{}", t.contract);
        match block {
            None => {
                let semi = end - 1;
                edits.push((semi, semi, contract));
            }
            Some(b) => {
                let (a, z) = range(b);
                edits.push((a, a, contract));
                if external {
                    edits.push((a, z, String::from("{ unimplemented!() }")));
                } else {
                    let text = body::render_body(self, key, &t, sig, b, mutself, &header_lets);
                    edits.push((a, z, text));
                }
            }
        }
        let _ = src;
    }

    fn do_impl(&self, modkey: &str, im: &ItemImpl, edits: &mut Edits) {
        let tyname = type_name(&im.self_ty);
        let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        let base = match &tr {
            None => format!("{}::{}", modkey, tyname),
            Some(t) => format!("{}::{}.{}", modkey, tyname, t),
        };
        drop_docs(&im.attrs, edits);
        let (lo, hi) = range(im);
        if self.side.drops.contains(&base) {
            edits.push((lo, hi, String::new()));
            self.out.borrow_mut().dropped.insert(format!("impl {} (dropped)", base));
            return;
        }
        if self.side.externals.contains(&base) {
            edits.push((lo, lo, String::from("#[verifier::external] ")));
            self.out.borrow_mut().dropped.insert(format!("impl {} (not verified)", base));
            return;
        }
        if tr.as_deref() == Some("FusedIterator") && im.items.is_empty() {
            edits.push((lo, hi, String::new()));
            self.out.borrow_mut().dropped.insert(format!("impl {} (a marker)", base));
            return;
        }
        // the methods that the traits of std have in the generated crate
        let has: Option<&[&str]> = match tr.as_deref() {
            Some("Iterator") => Some(&["next"]),
            Some("PartialEq") => Some(&["eq", "ne"]),
            Some("Default") => Some(&["default"]),
            Some("Display") | Some("Debug") => Some(&["fmt"]),
            Some("Error") => Some(&["source"]),
            Some("Clone") => Some(&["clone"]),
            _ => None,
        };
        if let Some(items) = self.side.implitems.get(&base) {
            let (_, b) = range(&im.brace_token.span.open());
            edits.push((b, b, format!("\n{}", items)));
        }
        for it in &im.items {
            match it {
                ImplItem::Fn(f) => {
                    if is_test(&f.attrs) {
                        let (a, b) = range(f);
                        edits.push((a, b, String::new()));
                        continue;
                    }
                    let start = after_attrs(f, &f.attrs);
                    let key = format!("{}::{}", base, f.sig.ident);
                    let (_, end) = range(f);
                    if self.side.drops.contains(&key) {
                        let (a, b) = range(f);
                        edits.push((a, b, String::new()));
                        self.out.borrow_mut().dropped.insert(format!("fn {} (dropped)", key));
                        continue;
                    }
                    if has.map_or(false, |h| !h.contains(&f.sig.ident.to_string().as_str())) {
                        let (a, b) = range(f);
                        edits.push((a, b, String::new()));
                        let mut o = self.out.borrow_mut();
                        o.dropped.insert(format!("fn {} (replaces a method of std)", key));
                        o.drift.push(json!({"key": key, "why": "replaces a method of std"}));
                        continue;
                    }
                    self.do_fn(&key, &f.sig, Some(&f.block), &f.attrs, start, end, edits);
                    if tr.is_none() {
                        match &f.vis {
                            Visibility::Inherited => edits.push((start, start, String::from("pub "))),
                            v => pub_vis(v, start, edits),
                        }
                    }
                }
                _ => (),
            }
        }
    }

    fn module(&self, modkey: &str, items: &[Item], dir: &Path, repo: &Path) -> String {
        let mut edits: Edits = vec![];
        let mut extra = String::new();
        let src = self.src;
        for item in items {
            let (lo, hi) = range(item);
            if is_test(attrs_of(item)) {
                edits.push((lo, hi, String::new()));
                continue;
            }
            match item {
                Item::ExternCrate(_) => edits.push((lo, hi, String::new())),
                Item::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    self.out.borrow_mut().dropped.insert(format!("macro item {}! in {} (replaced by contract)", n, modkey));
                    edits.push((lo, hi, String::new()));
                }
                Item::Use(u) => {
                    drop_docs(&u.attrs, &mut edits);
                    let start = after_attrs(u, &u.attrs);
                    edits.push((start, hi, emit_use(u, self.out)));
                }
                Item::Mod(m) if m.content.is_none() => {
                    let name = m.ident.to_string();
                    let p1 = dir.join(format!("{}.rs", name));
                    let (p, d) = if p1.exists() { (p1, dir.join(&name)) } else { (dir.join(&name).join("mod.rs"), dir.join(&name)) };
                    let sub = if modkey.is_empty() { name.clone() } else { format!("{}::{}", modkey, name) };
                    let text = load_module(self, &p, &d, &sub, repo);
                    edits.push((lo, hi, format!("pub mod {} {{\n{}\n}}", name, text)));
                }
                Item::Struct(s) => {
                    drop_docs(&s.attrs, &mut edits);
                    let (d, rs) = derives(&s.attrs);
                    for (a, b) in rs {
                        edits.push((a, b, String::new()));
                    }
                    let at = after_attrs(s, &s.attrs);
                    if let Some(a) = self.side.attrs.get(&format!("{}::{}", modkey, s.ident)) {
                        edits.push((at, at, format!(" {} ", a)));
                    }
                    for g in &s.generics.params {
                        if let GenericParam::Type(t) = g {
                            edits.push((at, at, format!(" #[verifier::reject_recursive_types({})] ", t.ident)));
                        }
                    }
                    pub_vis(&s.vis, at, &mut edits);
                    for f in &s.fields {
                        drop_docs(&f.attrs, &mut edits);
                        let at = after_attrs(f, &f.attrs);
                        pub_vis(&f.vis, at, &mut edits);
                    }
                    extra += &self.derive_impls(modkey, &s.ident.to_string(), &s.generics, &d, Some(s));
                }
                Item::Enum(e) => {
                    drop_docs(&e.attrs, &mut edits);
                    let (d, rs) = derives(&e.attrs);
                    for (a, b) in rs {
                        edits.push((a, b, String::new()));
                    }
                    let at = after_attrs(e, &e.attrs);
                    pub_vis(&e.vis, at, &mut edits);
                    for v in &e.variants {
                        drop_docs(&v.attrs, &mut edits);
                    }
                    extra += &self.derive_impls(modkey, &e.ident.to_string(), &e.generics, &d, None);
                }
                Item::Fn(f) => {
                    let start = after_attrs(f, &f.attrs);
                    let key = format!("{}::{}", modkey, f.sig.ident);
                    self.do_fn(&key, &f.sig, Some(&f.block), &f.attrs, start, hi, &mut edits);
                    pub_vis(&f.vis, start, &mut edits);
                }
                Item::Impl(i) => self.do_impl(modkey, i, &mut edits),
                Item::Trait(t) => {
                    drop_docs(&t.attrs, &mut edits);
                    let at = after_attrs(t, &t.attrs);
                    pub_vis(&t.vis, at, &mut edits);
                    let base = format!("{}::{}", modkey, t.ident);
                    if let Some(items) = self.side.implitems.get(&base) {
                        let (_, b) = range(&t.brace_token.span.open());
                        edits.push((b, b, format!("\n{}", items)));
                    }
                    for it in &t.items {
                        if let TraitItem::Fn(f) = it {
                            let start = after_attrs(f, &f.attrs);
                            let (_, end) = range(f);
                            self.do_fn(&format!("{}::{}", base, f.sig.ident), &f.sig, f.default.as_ref(), &f.attrs, start, end, &mut edits);
                        }
                    }
                }
                Item::Const(c) => {
                    drop_docs(&c.attrs, &mut edits);
                    pub_vis(&c.vis, after_attrs(c, &c.attrs), &mut edits);
                    if let Type::Reference(r) = &*c.ty {
                        if r.lifetime.is_none() {
                            let (_, a) = range(&r.and_token);
                            edits.push((a, a, String::from("'static ")));
                        }
                    }
                }
                Item::Type(c) => {
                    drop_docs(&c.attrs, &mut edits);
                    pub_vis(&c.vis, after_attrs(c, &c.attrs), &mut edits);
                }
                _ => (),
            }
        }
        let lo = items.first().map_or(0, |i| range(i).0);
        let hi = items.last().map_or(0, |i| range(i).1);
        let mut s = String::new();
        s += "#[allow(unused_imports)] use vstd::prelude::*; #[allow(unused_imports)] use crate::shim::*; #[allow(unused_imports)] use crate::spec::*; #[allow(unused_imports)] use crate::lemmas::*; broadcast use {crate::shim::shim_axioms, crate::lemmas::lemmas, crate::lemmas::sizes};\n";
        s += &apply(src, lo, hi, &mut edits);
        s += &extra;
        if let Some(m) = self.side.moditems.get(if modkey.is_empty() { "crate" } else { modkey }) {
            s += "\n";
            s += m;
        }
        s
    }
}

fn words(s: &str) -> HashSet<String> {
    s.split(|c: char| !(c.is_alphanumeric() || c == '_')).map(|w| w.to_string()).collect()
}

fn rename_words(s: &str, ren: &HashMap<String, String>) -> String {
    let mut out = String::new();
    let mut w = String::new();
    let flush = |w: &mut String, out: &mut String| {
        // not a field, not (part of) a literal
        let prev_dot = out.ends_with('.') || out.ends_with('\'') || out.ends_with('\\') || out.ends_with('"');
        match ren.get(w.as_str()) {
            Some(r) if !prev_dot => out.push_str(r),
            _ => out.push_str(w),
        }
        w.clear();
    };
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            flush(&mut w, &mut out);
            out.push(c);
        }
    }
    flush(&mut w, &mut out);
    out
}

/// Writes the stub for every path to a stubbed name that is spelled out (`std::io::Error::new`, `fmt::Result`
/// after `use std::fmt`), and the one type that an error source can have for `dyn std::error::Error`
struct Norm {
    alias: HashMap<String, String>,
    edits: Edits,
}
impl Norm {
    fn shim(&self, p: &Path_) -> Option<(usize, &'static str)> {
        let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let (mut full, n0) = match self.alias.get(&names[0]) {
            Some(a) => (a.clone(), 1),
            None => (names[0].clone(), 1),
        };
        for n in n0..names.len() {
            full = format!("{}::{}", full, names[n]);
            let f = if let Some(r) = full.strip_prefix("core::") { format!("std::{}", r) } else { full.clone() };
            if let Some((_, s)) = SHIMMED.iter().find(|(q, _)| *q == f) {
                return Some((n, s));
            }
        }
        None
    }
}
type Path_ = syn::Path;
#[derive(Default)]
struct Binds {
    refs: Vec<(usize, usize)>,
    copies: Vec<String>,
    other: bool,
}
impl<'ast> syn::visit::Visit<'ast> for Binds {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        match (&p.by_ref, &p.mutability) {
            (Some(r), None) => self.refs.push((range(r).0, range(&p.ident).0)),
            (None, None) => {
                if p.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') {
                    self.copies.push(p.ident.to_string());
                }
            }
            _ => self.other = true,
        }
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_pat_reference(&mut self, _: &'ast PatReference) {
        self.other = true;
    }
}
impl Norm {
    fn arm(&mut self, pat: &Pat, a: &Arm) {
        let mut v = Binds::default();
        syn::visit::Visit::visit_pat(&mut v, pat);
        for (x, y) in v.refs {
            self.edits.push((x, y, String::new()));
        }
        let lets: String = v.copies.iter().map(|c| format!("let {} = *{}; ", c, c)).collect();
        if lets.is_empty() {
            return;
        }
        let mut parts = vec![range(&*a.body)];
        if let Some((_, g)) = &a.guard {
            parts.push(range(&**g));
        }
        for (x, y) in parts {
            self.edits.push((x, x, format!("{{ {}", lets)));
            self.edits.push((y, y, String::from(" }")));
        }
    }
}
impl<'ast> syn::visit::Visit<'ast> for Norm {
    fn visit_item(&mut self, i: &'ast Item) {
        if is_test(attrs_of(i)) || matches!(i, Item::Use(_)) {
            return;
        }
        syn::visit::visit_item(self, i);
    }
    fn visit_impl_item(&mut self, i: &'ast ImplItem) {
        if let ImplItem::Fn(f) = i {
            if is_test(&f.attrs) {
                return;
            }
        }
        syn::visit::visit_impl_item(self, i);
    }
    fn visit_type_trait_object(&mut self, t: &'ast TypeTraitObject) {
        let hit = t.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(b) if self.shim(&b.path).map_or(false, |x| x.1 == "StdError")));
        if hit {
            let (a, b) = range(t);
            self.edits.push((a, b, String::from("crate::shim::IoError")));
        }
    }
    fn visit_path(&mut self, p: &'ast Path_) {
        if let (true, Some((n, s))) = (p.segments.len() > 1, self.shim(p)) {
            let a = range(p).0;
            let b = range(&p.segments[n].ident).1;
            self.edits.push((a, b, format!("crate::shim::{}", s)));
            for seg in p.segments.iter().skip(n) {
                self.visit_path_segment(seg);
            }
            return;
        }
        syn::visit::visit_path(self, p);
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        // a pattern that is a text of one character is that character
        const PATS: [&str; 13] = ["split", "split_once", "rsplit_once", "splitn", "rsplitn", "rsplit", "split_terminator", "find", "rfind", "trim_start_matches", "trim_end_matches", "trim_matches", "matches"];
        let name = m.method.to_string();
        if PATS.contains(&name.as_str()) || (name == "replace" && m.args.len() == 2) {
            if let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = m.args.get(if name.ends_with("splitn") { 1 } else { 0 }) {
                let v: Vec<char> = s.value().chars().collect();
                if v.len() == 1 {
                    let (a, b) = range(s);
                    self.edits.push((a, b, format!("{:?}", v[0])));
                }
            }
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_match(&mut self, m: &'ast ExprMatch) {
        // `match *e { P(ref x, y) => ..` and `match e { &P(ref x, y) => ..` -> bindings by reference, `y` copied
        let deref = match &*m.expr {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => Some(range(u).0),
            _ => None,
        };
        let has_ref = |p: &Pat| {
            let mut v = Binds::default();
            syn::visit::Visit::visit_pat(&mut v, p);
            v.refs.len() > 0 && !v.other
        };
        if let (Some(a), true) = (deref, m.arms.iter().any(|a| has_ref(&a.pat))) {
            self.edits.push((a, a, String::from("&")));
            for a in &m.arms {
                self.arm(&a.pat, a);
            }
        } else {
            for a in &m.arms {
                if let Pat::Reference(r) = &a.pat {
                    if r.mutability.is_none() && has_ref(&r.pat) {
                        let (x, _) = range(r);
                        self.edits.push((x, range(&*r.pat).0, String::new()));
                        self.arm(&r.pat, a);
                    }
                }
            }
        }
        syn::visit::visit_expr_match(self, m);
    }
}
fn normalize(src: String) -> String {
    let file = match parse_file(&src) {
        Ok(f) => f,
        Err(_) => return src,
    };
    let mut n = Norm { alias: HashMap::new(), edits: vec![] };
    for i in &file.items {
        if let Item::Use(u) = i {
            let mut leaves = vec![];
            flatten_use(&u.tree, "", &mut leaves);
            for (path, rename) in leaves {
                let name = rename.unwrap_or_else(|| path.rsplit("::").next().unwrap().to_string());
                if path.starts_with("std::") || path.starts_with("core::") || path == "std" {
                    n.alias.insert(name, path);
                }
            }
        }
    }
    syn::visit::Visit::visit_file(&mut n, &file);
    if n.edits.is_empty() {
        return src;
    }
    apply(&src, 0, src.len(), &mut n.edits)
}

fn load_module(parent: &Cx, path: &Path, dir: &Path, modkey: &str, repo: &Path) -> String {
    let src = normalize(std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path.display(), e)));
    let file = parse_file(&src).unwrap_or_else(|e| panic!("{}: {}", path.display(), e));
    let cx = Cx {
        src: &src,
        file: path.strip_prefix(repo).unwrap().display().to_string(),
        side: parent.side,
        global: parent.global,
        out: parent.out,
        baseline: parent.baseline,
        externalize: parent.externalize,
    };
    cx.module(modkey, &file.items, dir, repo)
}

fn scan(path: &Path, dir: &Path, modkey: &str, side: &Side, g: &mut Global) {
    let src = match std::fs::read_to_string(path) {
        Ok(s) => normalize(s),
        Err(_) => return,
    };
    let file = match parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("{}: {}", path.display(), e);
            std::process::exit(3);
        }
    };
    fn one(g: &mut Global, side: &Side, src: &str, key: &str, sig: &Signature, block: Option<&Block>) {
        let name = sig.ident.to_string();
        if let ReturnType::Type(_, t) = &sig.output {
            match type_name(t).as_str() {
                "Result" => {
                    g.result_fns.insert(name.clone());
                }
                "Option" => {
                    g.option_fns.insert(name.clone());
                }
                _ => (),
            }
        }
        *g.names.entry(name.clone()).or_default() += 1;
        if side.fns.contains_key(key) {
            return;
        }
        if let Some(b) = block {
            g.contractless.insert(name.clone());
            let (has_return, has_try) = body::exits(b);
            let stats = body::stats(b);
            let mut params = vec![];
            let mut method = false;
            for i in &sig.inputs {
                match i {
                    FnArg::Receiver(_) => method = true,
                    FnArg::Typed(t) => match &*t.pat {
                        Pat::Ident(p) => {
                            let (a, b) = range(&*t.ty);
                            params.push(format!("{}{}|{}", if p.mutability.is_some() { "mut " } else { "" }, p.ident, &src[a..b]));
                        }
                        _ => return,
                    },
                }
            }
            let (a, z) = range(b);
            let out = match &sig.output {
                ReturnType::Type(_, t) => match type_name(t).as_str() {
                    "Result" => linear::Out::Res,
                    "Option" => linear::Out::Opt,
                    _ => linear::Out::Other,
                },
                _ => linear::Out::Other,
            };
            let linear = if has_return || has_try { linear::linear(b, out) } else { None };
            let inl = Inline { linear, params, body: src[a..z].to_string(), method, generic: !sig.generics.params.is_empty(), has_return, has_try, loops: stats.loops, closures: stats.closures, loop_heads: stats.loop_heads, calls: body::calls(b) };
            g.by_key.insert(key.to_string(), inl.clone());
            g.inlinable.insert(name, inl);
        }
    }
    fn constant(g: &mut Global, src: &str, name: &Ident, ty: &Type, e: &Expr) {
        let lit = match e {
            Expr::Lit(_) => true,
            Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)) && matches!(&*u.expr, Expr::Lit(_)),
            _ => false,
        };
        let (a, b) = range(e);
        let int = |l: &Expr| matches!(l, Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.suffix().is_empty());
        let suffix = match e {
            Expr::Unary(u) if int(&u.expr) => type_name(ty),
            e if int(e) => type_name(ty),
            _ => String::new(),
        };
        let v = if lit && !g.consts.contains_key(&name.to_string()) { Some(format!("{}{}", &src[a..b], suffix)) } else { None };
        g.consts.insert(name.to_string(), v);
    }
    for item in &file.items {
        if is_test(attrs_of(item)) {
            continue;
        }
        match item {
            Item::Const(c) => constant(g, &src, &c.ident, &c.ty, &c.expr),
            Item::Static(c) => constant(g, &src, &c.ident, &c.ty, &c.expr),
            Item::Mod(m) if m.content.is_none() => {
                let name = m.ident.to_string();
                let p1 = dir.join(format!("{}.rs", name));
                let p = if p1.exists() { p1 } else { dir.join(&name).join("mod.rs") };
                let sub = if modkey.is_empty() { name.clone() } else { format!("{}::{}", modkey, name) };
                scan(&p, &dir.join(&name), &sub, side, g);
            }
            Item::Fn(f) => one(g, side, &src, &format!("{}::{}", modkey, f.sig.ident), &f.sig, Some(&f.block)),
            Item::Impl(im) => {
                let tyname = type_name(&im.self_ty);
                for it in &im.items {
                    if let ImplItem::Const(c) = it {
                        constant(g, &src, &c.ident, &c.ty, &c.expr);
                    }
                    if let ImplItem::Fn(f) = it {
                        if is_test(&f.attrs) {
                            continue;
                        }
                        let base = match &im.trait_ {
                            None => format!("{}::{}", modkey, tyname),
                            Some((_, p, _)) => format!("{}::{}.{}", modkey, tyname, p.segments.last().unwrap().ident),
                        };
                        if im.trait_.is_none() {
                            one(g, side, &src, &format!("{}::{}", base, f.sig.ident), &f.sig, Some(&f.block));
                        } else {
                            let n = f.sig.ident.to_string();
                            *g.names.entry(n.clone()).or_default() += 1;
                            if let ReturnType::Type(_, t) = &f.sig.output {
                                if type_name(t) == "Result" {
                                    g.result_fns.insert(n);
                                }
                            }
                        }
                    }
                }
            }
            _ => (),
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let repo = PathBuf::from(&args[1]);
    let cdir = PathBuf::from(&args[2]);
    let odir = PathBuf::from(&args[3]);
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let bl_path = cdir.join("baseline.json");
    let write_bl = args.iter().any(|a| a == "--write-baseline");
    let externalize: HashSet<String> = opt("--externalize").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let baseline: Map<String, Value> = if write_bl {
        Map::new()
    } else {
        serde_json::from_str(&std::fs::read_to_string(&bl_path).unwrap_or_else(|_| String::from("{}"))).unwrap()
    };
    let mut side = side::load(&cdir);
    // the formula grammar: its actions are functions under contract
    let gpath = repo.join("src/plural/formula/formula.lalrpop");
    let grammar = if args.iter().any(|a| a == "--no-grammar") {
        Err(String::from("outside the form under contract"))
    } else {
        let gsrc = std::fs::read_to_string(&gpath).map_err(|e| e.to_string());
        let contracts = std::fs::read_to_string(cdir.join("formula.rs")).unwrap_or_default();
        gsrc.and_then(|g| lalr::read(&g, &contracts))
    };
    let (grammar, why) = match grammar {
        Ok(g) => (Some(g), String::new()),
        Err(e) => (None, e),
    };
    if let Some(g) = &grammar {
        for (k, c) in &g.contracts {
            side.fns.insert(format!("plural::formula::actions::{}", k), FnTxt { contract: c.clone(), ..FnTxt::default() });
        }
    }
    let side = side;
    let mut global = Global::default();
    let srcdir = repo.join("src");
    scan(&srcdir.join("lib.rs"), &srcdir, "", &side, &mut global);
    let out = RefCell::new(Out {
        functions: vec![],
        drift: vec![],
        opaque: HashMap::new(),
        inlined: HashSet::new(),
        dropped: BTreeSet::new(),
        rewrites: BTreeMap::new(),
        regexes: vec![],
        seen: HashSet::new(),
        new_baseline: Map::new(),
    });
    let lib = std::fs::read_to_string(srcdir.join("lib.rs")).unwrap();
    let file = parse_file(&lib).unwrap();
    let cx = Cx {
        src: &lib,
        file: String::from("src/lib.rs"),
        side: &side,
        global: &global,
        out: &out,
        baseline: &baseline,
        externalize: &externalize,
    };
    let main_text = cx.module("", &file.items, &srcdir, &repo);
    let grammar_text = match &grammar {
        None => {
            out.borrow_mut().drift.push(json!({"key": "plural::formula::grammar", "why": format!("grammar: {}", why), "file": "src/plural/formula/formula.lalrpop", "line": 0}));
            format!("/*@M grammar*/ pub mod grammar {{\n{}\n}}\n", lalr::fallback())
        }
        Some(g) => {
            let file = parse_file(&g.actions).unwrap();
            let cx = Cx { src: &g.actions, file: String::from("src/plural/formula/formula.lalrpop"), side: &side, global: &global, out: &out, baseline: &baseline, externalize: &externalize };
            let text = cx.module("plural::formula::actions", &file.items, &srcdir, &repo);
            format!("pub mod actions {{\n{}\n}}\n/*@M grammar*/ pub mod grammar {{\n{}\n}}\n", text, g.module)
        }
    };

    let mut gen = String::new();
    gen += "// GENERATED from the working tree of the repository: do not edit\n";
    gen += "#![feature(pattern, allocator_api)]\n#![allow(unused, non_snake_case, dead_code)]\n#![verifier::allow(undeclared_external_trait)]\nuse vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\n";
    gen += &main_text;
    gen += "\n";
    // the other Verus modules: specifications, stubs and lemmas
    let mut extra: Vec<_> = std::fs::read_dir(&cdir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |x| x == "rs"))
        .collect();
    extra.sort();
    if grammar.is_none() {
        // the lemmas on the grammar have nothing to speak of
        extra.retain(|p| !matches!(p.file_stem().and_then(|x| x.to_str()), Some("t_c03" | "t_c03x")));
    }
    for p in extra {
        let stem = p.file_stem().unwrap().to_str().unwrap().to_string();
        gen += &format!("/*@M {}*/ pub mod {} {{\n{}\n}}\n", stem, stem, std::fs::read_to_string(&p).unwrap());
    }
    {
        let o = out.borrow();
        gen += "pub mod extracted {\nuse vstd::prelude::*; use crate::shim::*; use crate::spec::*; use crate::regex::*; broadcast use {crate::shim::shim_axioms, crate::lemmas::lemmas, crate::lemmas::sizes};\n";
        gen += &regexast::emit(&o.regexes);
        gen += "}\n";
        gen += &grammar_text;
    }
    gen += "}\nfn main() {}\n";
    std::fs::create_dir_all(&odir).unwrap();
    let mut o = out.borrow_mut();
    // a function whose calls all have its body in place is proved there, and only there
    let code = &gen[..gen.find("/*@M ").unwrap_or(gen.len())];
    let mut uses: HashMap<String, usize> = HashMap::new();
    for l in code.split("/*@F ").map(|p| p.split_once("*/").map_or(p, |x| x.1)) {
        for w in l.split(|c: char| !c.is_alphanumeric() && c != '_') {
            *uses.entry(w.to_string()).or_default() += 1;
        }
    }
    let inlined: Vec<String> = o
        .drift
        .iter()
        .filter(|d| d["why"] == "function without contract")
        .map(|d| d["key"].as_str().unwrap().to_string())
        .filter(|k| {
            let name = k.rsplit("::").next().unwrap();
            global.names.get(name) == Some(&1) && o.inlined.contains(name) && uses.get(name) == Some(&1)
        })
        .collect();
    for k in &inlined {
        gen = gen.replacen(&format!("/*@F {}*/ ", k), &format!("/*@F {}*/ #[verifier::external_body] ", k), 1);
        o.drift.retain(|d| d["key"] != k.as_str());
        for f in o.functions.iter_mut().filter(|f| f["key"] == k.as_str()) {
            f["inlined"] = json!(true);
            f["proved"] = json!(false);
        }
    }
    std::fs::write(odir.join("gen.rs"), &gen).unwrap();
    let missing: Vec<String> = side.fns.keys().filter(|k| !o.seen.contains(*k)).cloned().collect();
    for m in missing {
        o.drift.push(json!({"key": m, "why": "function under contract not found", "file": "", "line": 0}));
    }
    let opaque: Vec<(String, usize)> = o.opaque.iter().map(|(k, n)| (k.clone(), *n)).collect();
    for (k, n) in opaque {
        if let Some(v) = o.new_baseline.get_mut(&k) {
            v["opaque"] = json!(n);
        }
        let known = baseline.get(&k).and_then(|b| b.get("opaque")).and_then(|v| v.as_u64()).unwrap_or(0);
        if n as u64 > known && baseline.get(&k).is_some() && !o.drift.iter().any(|d| d["key"] == k.as_str()) {
            o.drift.push(json!({"key": k, "why": "a closure has no contract", "file": "", "line": 0}));
        }
    }
    let meta = json!({
        "functions": o.functions, "drift": o.drift, "dropped": o.dropped, "rewrites": o.rewrites, "regexes": o.regexes,
        "grammar": grammar.as_ref().map(|g| g.productions.clone()),
    });
    std::fs::write(odir.join("meta.json"), serde_json::to_string_pretty(&meta).unwrap()).unwrap();
    if write_bl {
        std::fs::write(&bl_path, serde_json::to_string_pretty(&Value::Object(o.new_baseline.clone())).unwrap() + "\n").unwrap();
    }
}
