//! Rewriting of function bodies: every rule is listed in DESIGN.md, "What the extraction changes".
use crate::side::FnTxt;
use std::collections::{HashMap, HashSet};
use crate::{apply, range, Cx};
use std::cell::RefCell;
use syn::punctuated::Punctuated;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Default)]
pub struct Stats {
    pub locals: Vec<String>,
    pub loops: usize,
    pub closures: usize,
    /// what a loop goes over; to whom a closure is given
    pub loop_heads: Vec<String>,
    pub closure_heads: Vec<String>,
    given: HashMap<(usize, usize), String>,
}

/// The head of a loop, or of a closure's receiver, as a text to compare
pub fn loop_head(e: &Expr) -> String {
    match e {
        Expr::ForLoop(f) => {
            let (p, x) = (&f.pat, &f.expr);
            format!("for {} in {}", quote::quote!(#p), quote::quote!(#x))
        }
        Expr::While(w) => {
            let c = &w.cond;
            format!("while {}", quote::quote!(#c))
        }
        _ => String::from("loop"),
    }
}

/// The closures among the arguments, with the name of the function they are given to
pub fn given(e: &Expr) -> Vec<((usize, usize), String)> {
    let (name, args) = match e {
        Expr::MethodCall(m) => (m.method.to_string(), &m.args),
        Expr::Call(c) => (fname(e).unwrap_or_default(), &c.args),
        _ => return vec![],
    };
    args.iter().filter(|a| matches!(a, Expr::Closure(_))).map(|a| (range(a), name.clone())).collect()
}

impl<'ast> Visit<'ast> for Stats {
    fn visit_expr(&mut self, e: &'ast Expr) {
        self.given.extend(given(e));
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => self.loop_heads.push(loop_head(e)),
            Expr::Closure(_) => self.closure_heads.push(self.given.get(&range(e)).cloned().unwrap_or_default()),
            _ => (),
        }
        visit::visit_expr(self, e);
    }
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        if !p.ident.to_string().starts_with(char::is_uppercase) { self.locals.push(p.ident.to_string()); }
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_for_loop(&mut self, e: &'ast ExprForLoop) {
        self.loops += 1;
        visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'ast ExprWhile) {
        self.loops += 1;
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'ast ExprLoop) {
        self.loops += 1;
        visit::visit_expr_loop(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'ast ExprClosure) {
        self.closures += 1;
        visit::visit_expr_closure(self, e);
    }
    fn visit_item(&mut self, _: &'ast Item) {}
}

pub fn stats(b: &Block) -> Stats {
    let mut s = Stats::default();
    s.visit_block(b);
    s
}

/// `return`, `?`
struct Exits(bool, bool);
impl<'ast> Visit<'ast> for Exits {
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        self.0 = true;
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, r: &'ast ExprTry) {
        self.1 = true;
        visit::visit_expr_try(self, r);
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
/// has the body a `return`, a `?`
pub fn exits(b: &Block) -> (bool, bool) {
    let mut e = Exits(false, false);
    e.visit_block(b);
    (e.0, e.1)
}
fn expr_has_exit(b: &Expr) -> bool {
    let mut e = Exits(false, false);
    e.visit_expr(b);
    e.0 || e.1
}

/// methods of std: a call with such a name is not a call of a function of the crate
const STD_NAMES: &[&str] = &[
    "len", "is_empty", "push", "push_str", "pop", "get", "first", "last", "next", "line", "lines", "trim", "find", "split", "chars", "iter", "into_iter",
    "map", "filter", "unwrap", "ok", "err", "take", "insert", "remove", "contains", "extend", "clone", "join", "parse", "peek", "as_str", "as_ref", "as_mut",
    "append", "clear", "entry", "replace", "is_some", "is_none", "starts_with", "ends_with", "count", "text", "kind", "value", "name", "to_string", "write",
];

/// what can be added to a text, by its form
fn text_operand(e: &Expr) -> bool {
    match e {
        Expr::Reference(_) => true,
        Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
        Expr::Paren(p) => text_operand(&p.expr),
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "as_str" | "trim" | "trim_start" | "trim_end" | "trim_start_matches" | "trim_end_matches" | "trim_matches" => true,
            "as_ref" | "borrow" | "deref" => m.args.is_empty(),
            _ => false,
        },
        _ => false,
    }
}

/// a literal or a variable
fn simple_operand(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Paren(p) => simple_operand(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_) | UnOp::Neg(_)) && simple_operand(&u.expr),
        e => is_place(e),
    }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => is_place(&f.base),
        _ => false,
    }
}

/// the identifiers of a text which are not fields
fn walk_idents(t: proc_macro2::TokenStream, dot: &mut bool, out: &mut Vec<(String, usize, usize)>) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Group(g) => {
                *dot = false;
                walk_idents(g.stream(), dot, out);
                *dot = false;
            }
            proc_macro2::TokenTree::Ident(i) => {
                if !*dot {
                    let r = i.span().byte_range();
                    out.push((i.to_string(), r.start, r.end));
                }
                *dot = false;
            }
            proc_macro2::TokenTree::Punct(p) => *dot = p.as_char() == '.',
            _ => *dot = false,
        }
    }
}

fn idents(text: &str) -> Vec<String> {
    let mut v = vec![];
    if let Ok(t) = text.parse() {
        walk_idents(t, &mut false, &mut v);
    }
    v.into_iter().map(|i| i.0).collect()
}

/// the text with other names
fn substitute(text: &str, names: &[(String, String)]) -> String {
    let mut v = vec![];
    if let Ok(t) = text.parse() {
        walk_idents(t, &mut false, &mut v);
    }
    let mut s = text.to_string();
    for (i, a, z) in v.into_iter().rev() {
        if let Some((_, to)) = names.iter().find(|n| n.0 == i) {
            s.replace_range(a..z, to);
        }
    }
    s
}

/// the functions called by their plain names
#[derive(Default)]
pub struct Calls(pub Vec<String>);
impl<'ast> Visit<'ast> for Calls {
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if p.path.segments.len() <= 2 {
                self.0.push(p.path.segments.last().unwrap().ident.to_string());
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
        self.0.push(c.method.to_string());
        visit::visit_expr_method_call(self, c);
    }
    fn visit_item(&mut self, _: &'ast Item) {}
}
pub fn calls(b: &Block) -> Vec<String> {
    let mut c = Calls::default();
    c.visit_block(b);
    c.0
}

/// places whose value is the value of the function
fn tails(e: &Expr, out: &mut HashSet<(usize, usize)>) {
    out.insert(range(e));
    let mut block = |b: &Block| {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
            tails(e, out);
        }
    };
    match e {
        Expr::Block(b) => block(&b.block),
        Expr::If(i) => {
            block(&i.then_branch);
            if let Some((_, e)) = &i.else_branch {
                tails(e, out);
            }
        }
        Expr::Match(m) => {
            for a in &m.arms {
                tails(&a.body, out);
            }
        }
        Expr::Paren(p) => tails(&p.expr, out),
        _ => (),
    }
}
struct Returns<'a>(&'a mut HashSet<(usize, usize)>);
impl<'ast, 'a> Visit<'ast> for Returns<'a> {
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        if let Some(e) = &r.expr {
            tails(e, self.0);
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}

/// where a call stands: any exit of the called function is fine at the tail, `?` below `?`
#[derive(PartialEq, Clone, Copy)]
enum Pos {
    Plain,
    Try,
    Tail,
}

pub struct FnState {
    txt: FnTxt,
    loops: usize,
    closures: usize,
    fresh: usize,
    mutself: bool,
    /// the `&mut` parameters to touch where the function ends
    touch: Vec<String>,
    depth: usize,
    /// closures handed over without a contract
    opaque: usize,
    tails: HashSet<(usize, usize)>,
    /// the function whose text this is
    key: String,
    /// closures met, by source text and place: to whom they are given
    given: HashMap<(usize, usize, usize), String>,
    /// how many loops and closures of a head were met
    met: HashMap<String, usize>,
}

impl FnState {
    fn touches(&self) -> String {
        self.touch.iter().map(|n| format!("crate::shim::touch({}); ", n)).collect()
    }
}

/// Verus does not keep the final value of a `&mut` parameter that is changed in an arm of a `match` with guards, unless
/// it is used once more afterwards
struct Guards(bool);
impl<'ast> Visit<'ast> for Guards {
    fn visit_arm(&mut self, a: &'ast Arm) {
        self.0 |= a.guard.is_some();
        visit::visit_arm(self, a);
    }
}

fn touched(t: &FnTxt, sig: &Signature, b: &Block) -> Vec<String> {
    let out = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => quote::quote!(#t).to_string(),
    };
    let mut g = Guards(false);
    g.visit_block(b);
    if !t.opts.contains("touch") && (!g.0 || out.contains('&') || out.contains('\'') || out.contains("_ ,")) {
        return vec![];
    }
    let mut v = vec![];
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(r) if r.reference.is_some() && r.mutability.is_some() => v.push(String::from("self")),
            FnArg::Typed(p) if !t.opts.contains("touch") => {
                if let (Pat::Ident(i), Type::Reference(r)) = (&*p.pat, &*p.ty) {
                    if r.mutability.is_some() {
                        v.push(i.ident.to_string());
                    }
                }
            }
            _ => (),
        }
    }
    v
}

struct FV<'c, 'a> {
    cx: &'c Cx<'a>,
    st: &'c RefCell<FnState>,
    edits: Vec<(usize, usize, String)>,
}

#[derive(PartialEq, Clone, Copy)]
enum Kind {
    Iter,
    Opt,
    Res,
}

const ITER_SOURCES: &[&str] = &[
    "iter", "into_iter", "iter_mut", "split", "split_whitespace", "splitn", "rsplit", "chars", "char_indices", "bytes", "lines",
    "captures_iter", "find_iter", "keys", "drain", "matches", "split_terminator", "windows", "chunks",
];
const ITER_ENDS: &[&str] = &[
    "next", "last", "nth", "find", "find_map", "position", "max", "min", "collect", "count", "fold", "sum", "all", "any", "next_back",
    "reduce", "peek", "parse", "trim",
];
const RES_FNS: &[&str] = &["parse", "map_err", "from_unix"];

fn fname(e: &Expr) -> Option<String> {
    match e {
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => {
                let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                Some(v.join("::"))
            }
            _ => None,
        },
        Expr::MethodCall(m) => Some(m.method.to_string()),
        _ => None,
    }
}

impl<'c, 'a> FV<'c, 'a> {
    fn new(cx: &'c Cx<'a>, st: &'c RefCell<FnState>) -> Self {
        FV { cx, st, edits: vec![] }
    }

    fn count(&self, rule: &str) {
        *self.cx.out.borrow_mut().rewrites.entry(rule.to_string()).or_insert(0) += 1;
    }

    fn expr(&self, e: &Expr) -> String {
        let mut v = FV::new(self.cx, self.st);
        v.visit_expr(e);
        let (a, b) = range(e);
        apply(self.cx.src, a, b, &mut v.edits)
    }

    fn inner_stmts(&self, b: &Block) -> String {
        let mut v = FV::new(self.cx, self.st);
        for s in &b.stmts {
            v.visit_stmt(s);
        }
        let (a, z) = (range(&b.brace_token.span.open()).1, range(&b.brace_token.span.close()).0);
        apply(self.cx.src, a, z, &mut v.edits)
    }

    fn text<T: syn::spanned::Spanned>(&self, t: &T) -> String {
        let (a, b) = range(t);
        self.cx.src[a..b].to_string()
    }

    fn fresh(&self) -> usize {
        let mut st = self.st.borrow_mut();
        st.fresh += 1;
        st.fresh - 1
    }

    fn kind(&self, e: &Expr) -> Kind {
        match e {
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::Range(_) => Kind::Iter,
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ITER_SOURCES.contains(&n.as_str()) {
                    return Kind::Iter;
                }
                if RES_FNS.contains(&n.as_str()) {
                    return Kind::Res;
                }
                if ITER_ENDS.contains(&n.as_str()) {
                    return Kind::Opt;
                }
                match n.as_str() {
                    "map" | "filter" | "and_then" | "or_else" | "enumerate" | "rev" | "skip" | "take" | "zip" | "chain" | "filter_map"
                    | "take_while" | "skip_while" | "cloned" | "copied" | "by_ref" | "flat_map" | "as_ref" | "as_mut" | "inspect" => {
                        let k = self.kind(&m.receiver);
                        if n == "or_else" && k == Kind::Opt && m.args.first().map_or(false, |a| closure_arity(a) == Some(1)) {
                            return Kind::Res;
                        }
                        k
                    }
                    "ok" | "err" => Kind::Opt,
                    "ok_or" | "ok_or_else" => Kind::Res,
                    _ if self.cx.global.result_fns.contains(&n) && !self.cx.global.option_fns.contains(&n) => Kind::Res,
                    _ => Kind::Opt,
                }
            }
            Expr::Call(_) => {
                let n = fname(e).unwrap_or_default();
                let last = n.rsplit("::").next().unwrap_or("").to_string();
                if n == "LanguageRange::new" || RES_FNS.contains(&last.as_str()) || n == "Ok" || n == "Err" {
                    return Kind::Res;
                }
                if last != "new" && self.cx.global.result_fns.contains(&last) && !self.cx.global.option_fns.contains(&last) {
                    return Kind::Res;
                }
                Kind::Opt
            }
            _ => Kind::Opt,
        }
    }

    /// `f(arg)` where f is a closure or a path; `pre` is prepended to the argument (`&` for filter)
    fn call1(&self, f: &Expr, var: &str, by_ref: bool) -> Option<String> {
        match f {
            Expr::Closure(c) => {
                self.st.borrow_mut().closures += 1;
                if c.inputs.len() != 1 || expr_has_exit(&c.body) {
                    return None;
                }
                let pat = match &c.inputs[0] {
                    Pat::Type(t) => self.text(&*t.pat),
                    p => self.text(p),
                };
                let body = self.expr(&c.body);
                let amp = if by_ref { "&" } else { "" };
                // `|&x|` patterns on references
                if let Some(p) = pat.strip_prefix('&') {
                    return Some(format!("{{ let {} = *{}{}; {} }}", p, amp, var, body));
                }
                Some(format!("{{ let {} = {}{}; {} }}", pat, amp, var, body))
            }
            Expr::Path(_) => Some(format!("{}({}{})", self.text(f), if by_ref { "&" } else { "" }, var)),
            _ => None,
        }
    }

    fn call0(&self, f: &Expr) -> Option<String> {
        match f {
            Expr::Closure(c) => {
                self.st.borrow_mut().closures += 1;
                if !c.inputs.is_empty() || expr_has_exit(&c.body) {
                    return None;
                }
                Some(self.expr(&c.body))
            }
            Expr::Path(_) => Some(format!("{}()", self.text(f))),
            _ => None,
        }
    }

    /// Option and Result combinators become `match`
    fn combinator(&self, m: &ExprMethodCall) -> Option<String> {
        let name = m.method.to_string();
        let known = [
            "map", "and_then", "filter", "map_or", "map_or_else", "unwrap_or_else", "or_else", "map_err", "ok_or_else", "is_some_and",
            "is_none_or", "is_ok_and", "unwrap_or_default",
        ];
        if !known.contains(&name.as_str()) {
            return None;
        }
        let k = self.kind(&m.receiver);
        if k == Kind::Iter {
            return None;
        }
        let saved = {
            let st = self.st.borrow();
            (st.loops, st.closures, st.fresh, st.met.clone())
        };
        let n = self.fresh();
        let v = format!("vx__{}", n);
        let r = self.expr(&m.receiver);
        let a: Vec<&Expr> = m.args.iter().collect();
        let res = (|| -> Option<String> {
            Some(match (name.as_str(), k) {
                ("map", Kind::Res) => format!("(match {r} {{ Ok({v}) => Ok({}), Err(ve__) => Err(ve__) }})", self.call1(a[0], &v, false)?),
                ("map", _) => format!("(match {r} {{ Some({v}) => Some({}), None => None }})", self.call1(a[0], &v, false)?),
                ("and_then", Kind::Res) => format!("(match {r} {{ Ok({v}) => {}, Err(ve__) => Err(ve__) }})", self.call1(a[0], &v, false)?),
                ("and_then", _) => format!("(match {r} {{ Some({v}) => {}, None => None }})", self.call1(a[0], &v, false)?),
                ("filter", _) => format!(
                    "(match {r} {{ Some({v}) => {{ if {} {{ Some({v}) }} else {{ None }} }}, None => None }})",
                    self.call1(a[0], &v, true)?
                ),
                ("map_or", _) => {
                    let d = self.expr(a[0]);
                    let f = self.call1(a[1], &v, false)?;
                    if k == Kind::Res {
                        format!("(match {r} {{ Ok({v}) => {f}, Err(_) => {d} }})")
                    } else {
                        format!("(match {r} {{ Some({v}) => {f}, None => {d} }})")
                    }
                }
                ("map_or_else", _) => {
                    if closure_arity(a[0]) == Some(1) {
                        let d = self.call1(a[0], "ve__", false)?;
                        let f = self.call1(a[1], &v, false)?;
                        format!("(match {r} {{ Ok({v}) => {f}, Err(ve__) => {d} }})")
                    } else {
                        let d = self.call0(a[0])?;
                        let f = self.call1(a[1], &v, false)?;
                        format!("(match {r} {{ Some({v}) => {f}, None => {d} }})")
                    }
                }
                ("unwrap_or_else", _) => {
                    if closure_arity(a[0]) == Some(1) {
                        format!("(match {r} {{ Ok({v}) => {v}, Err(ve__) => {} }})", self.call1(a[0], "ve__", false)?)
                    } else {
                        format!("(match {r} {{ Some({v}) => {v}, None => {} }})", self.call0(a[0])?)
                    }
                }
                ("or_else", _) => {
                    if closure_arity(a[0]) == Some(1) {
                        format!("(match {r} {{ Ok({v}) => Ok({v}), Err(ve__) => {} }})", self.call1(a[0], "ve__", false)?)
                    } else {
                        format!("(match {r} {{ Some({v}) => Some({v}), None => {} }})", self.call0(a[0])?)
                    }
                }
                ("map_err", _) => format!("(match {r} {{ Ok({v}) => Ok({v}), Err(ve__) => Err({}) }})", self.call1(a[0], "ve__", false)?),
                ("ok_or_else", _) => format!("(match {r} {{ Some({v}) => Ok({v}), None => Err({}) }})", self.call0(a[0])?),
                ("is_some_and", _) => format!("(match {r} {{ Some({v}) => {}, None => false }})", self.call1(a[0], &v, false)?),
                ("is_none_or", _) => format!("(match {r} {{ Some({v}) => {}, None => true }})", self.call1(a[0], &v, false)?),
                ("is_ok_and", _) => format!("(match {r} {{ Ok({v}) => {}, Err(_) => false }})", self.call1(a[0], &v, false)?),
                ("unwrap_or_default", Kind::Res) => format!("(match {r} {{ Ok({v}) => {v}, Err(_) => Default::default() }})"),
                ("unwrap_or_default", _) => format!("(match {r} {{ Some({v}) => {v}, None => Default::default() }})"),
                _ => return None,
            })
        })();
        if res.is_none() {
            let mut st = self.st.borrow_mut();
            st.loops = saved.0;
            st.closures = saved.1;
            st.fresh = saved.2;
            st.met = saved.3;
        } else {
            self.count(&format!("combinator `{}` with a closure -> match", name));
        }
        res
    }

    fn pos(&self, at: (usize, usize)) -> Pos {
        let st = self.st.borrow();
        if st.depth == 0 && st.tails.contains(&at) {
            Pos::Tail
        } else {
            Pos::Plain
        }
    }

    fn constants(&self, id: &str) -> bool {
        self.cx.global.consts.contains_key(id)
    }

    /// the call with the body of the function in place, when it has no contract
    fn inline_call(&self, e: &Expr, pos: Pos) -> Option<String> {
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() == 1 || (segs.len() == 2 && segs[0] == "Self") {
                        return self.inline(segs.last().unwrap(), false, None, &c.args, pos, segs.len() == 1);
                    }
                }
                None
            }
            Expr::MethodCall(m) => match &*m.receiver {
                Expr::Path(p) if p.path.is_ident("self") => self.inline(&m.method.to_string(), true, None, &m.args, pos, false),
                r if is_place(r) && !STD_NAMES.contains(&m.method.to_string().as_str()) => {
                    let at = self.expr(r);
                    self.inline(&m.method.to_string(), true, Some(at), &m.args, pos, false)
                }
                _ => None,
            },
            _ => None,
        }
    }

    fn inline(&self, name: &str, recv_is_self: bool, recv: Option<String>, args: &Punctuated<Expr, Token![,]>, pos: Pos, plain: bool) -> Option<String> {
        let suffix = format!("::{}", name);
        if self.st.borrow().depth > 4 {
            return None;
        }
        let from = self.st.borrow().key.clone();
        let found = if recv.is_none() { self.cx.global.resolve(&from, name, plain) } else { None };
        let (key, inl) = match found {
            Some((k, i)) => (k, i),
            None => {
                if self.cx.side.fns.keys().any(|k| k.ends_with(&suffix)) || self.cx.global.names.get(name) != Some(&1) {
                    return None;
                }
                let k = self.cx.global.by_key.keys().find(|k| k.ends_with(&suffix))?.clone();
                (k, self.cx.global.inlinable.get(name)?)
            }
        };
        if inl.method != recv_is_self || inl.params.len() != args.len() {
            return None;
        }
        let mut body = &inl.body;
        if (inl.has_return && pos != Pos::Tail) || (inl.has_try && pos == Pos::Plain) {
            body = inl.linear.as_ref()?;
        }
        let mut s = String::from("{ ");
        let n = self.fresh();
        // arguments that are places: the name of the parameter becomes the place
        let mut renamed: Vec<(String, String)> = vec![];
        if let Some(r) = recv {
            if idents(body).iter().any(|i| i == "Self") {
                return None;
            }
            renamed.push((String::from("self"), r));
        }
        let mut direct = HashSet::new();
        for (i, a) in args.iter().enumerate() {
            let (nm, ty) = inl.params[i].split_once('|').unwrap();
            if let Expr::Path(p) = a {
                if let (Some(id), true) = (p.path.get_ident(), ty.trim_start().starts_with('&') && !nm.starts_with("mut ")) {
                    let id = id.to_string();
                    if id == nm {
                        direct.insert(i);
                    } else if !idents(body).contains(&id) && !self.constants(&id) {
                        renamed.push((nm.to_string(), id));
                        direct.insert(i);
                    }
                }
            }
        }
        for (i, a) in args.iter().enumerate() {
            if direct.contains(&i) {
                continue;
            }
            if inl.params[i].split_once('|').map_or(false, |p| p.1.trim_start().starts_with("&mut") || p.1.trim_start().starts_with("&") && p.1.contains(" mut ")) {
                s += &format!("let vi__{}_{} = &mut *({}); ", n, i, self.expr(a));
            } else {
                s += &format!("let vi__{}_{} = {}; ", n, i, self.expr(a));
            }
        }
        for (i, p) in inl.params.iter().enumerate() {
            if direct.contains(&i) {
                continue;
            }
            let (nm, ty) = p.split_once('|').unwrap();
            if ty.contains('\'') || ty.contains("impl") || inl.generic {
                s += &format!("let {} = vi__{}_{}; ", nm, n, i);
            } else {
                s += &format!("let {}: {} = vi__{}_{}; ", nm, ty, n, i);
            }
        }
        let text = substitute(body, &renamed);
        let block: Block = parse_str(&text).ok()?;
        let cx = Cx {
            src: &text,
            side: self.cx.side,
            global: self.cx.global,
            out: self.cx.out,
            baseline: self.cx.baseline,
            externalize: self.cx.externalize,
            file: self.cx.file.clone(),
        };
        self.st.borrow_mut().depth += 1;
        let back = std::mem::replace(&mut self.st.borrow_mut().key, key);
        let placed = {
            let v = FV::new(&cx, self.st);
            v.inner_stmts(&block)
        };
        self.st.borrow_mut().depth -= 1;
        self.st.borrow_mut().key = back;
        self.count("call of a function without contract -> its body");
        self.cx.out.borrow_mut().inlined.insert(name.to_string());
        s += &format!("{{ {} }} }}", placed);
        Some(s)
    }

    fn loop_texts(&self, e: &Expr) -> (usize, crate::side::LoopTxt) {
        let mut st = self.st.borrow_mut();
        let mut n = st.loops;
        st.loops += 1;
        if st.txt.loop_at.is_some() {
            let h = loop_head(e);
            let k = st.met.entry(format!("loop {}", h)).or_insert(0);
            *k += 1;
            let k = *k - 1;
            n = match st.txt.loop_at.as_ref().unwrap().get(&h).and_then(|v| v.get(k)) {
                Some(i) => *i,
                None => 100 + n,
            };
        }
        (n, st.txt.loops.get(&n).cloned().unwrap_or_default())
    }

    /// what a `while` without contract makes smaller, when its condition tells
    fn measure(&self, cond: &Expr) -> Option<String> {
        match cond {
            Expr::Let(l) => match &*l.expr {
                Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() && is_place(&m.receiver) => Some(format!("{}.rem().len()", self.text(&*m.receiver))),
                _ => None,
            },
            Expr::Binary(b) => match (&b.op, self.measured(&b.left), self.measured(&b.right)) {
                (BinOp::Lt(_) | BinOp::Le(_), Some(l), Some(r)) => Some(format!("{} - {}", r, l)),
                (BinOp::Gt(_) | BinOp::Ge(_), Some(l), Some(r)) => Some(format!("{} - {}", l, r)),
                _ => None,
            },
            _ => None,
        }
    }
    fn measured(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() && is_place(&m.receiver) => Some(format!("({}@.len())", self.text(&*m.receiver))),
            Expr::Lit(_) => Some(self.text(e)),
            e if is_place(e) => Some(self.text(e)),
            _ => None,
        }
    }

    /// a contract written for a `for` loop, on a `while` loop in its place
    fn while_texts(&self, w: &ExprWhile, n: usize, t: &mut crate::side::LoopTxt) {
        let (it, end) = (format!("vit__{n}"), format!("vend__{n}"));
        let all = format!("{} {} {} {}", t.inv, t.body, t.end, t.init);
        if !all.contains(&it) {
            return;
        }
        let (i, e) = match &*w.cond {
            Expr::Let(l) => match &*l.expr {
                Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() && is_place(&m.receiver) => (self.text(&*m.receiver).to_string(), String::new()),
                _ => return,
            },
            Expr::Binary(b) if matches!(b.op, BinOp::Lt(_) | BinOp::Ne(_)) => match (self.measured(&b.left), self.measured(&b.right)) {
                (Some(l), Some(r)) => (l, r),
                _ => return,
            },
            Expr::Binary(b) if matches!(b.op, BinOp::Gt(_)) => match (self.measured(&b.right), self.measured(&b.left)) {
                (Some(l), Some(r)) => (l, r),
                _ => return,
            },
            _ => return,
        };
        for x in [&mut t.inv, &mut t.body, &mut t.end, &mut t.init] {
            *x = x.replace(&it, &i).replace(&end, &e);
        }
        self.count("contract of a `for` loop on the `while` loop in its place");
    }

    fn format_macro(&self, m: &Macro) -> Option<String> {
        let args: Punctuated<Expr, Token![,]> = m.parse_body_with(Punctuated::parse_terminated).ok()?;
        self.format_args(args.iter())
    }

    /// `write!(f, ...)`
    fn write_macro(&self, m: &Macro) -> Option<String> {
        let args: Punctuated<Expr, Token![,]> = m.parse_body_with(Punctuated::parse_terminated).ok()?;
        let mut it = args.iter();
        let f = self.expr(it.next()?);
        let s = match it.clone().next()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) if it.len() == 1 && !s.value().contains(['{', '}']) => format!("{:?}", s.value()),
            _ => format!("&{}", self.format_args(it)?),
        };
        self.count("write! -> write_str stub");
        Some(format!("{}.write_str({})", f, s))
    }

    fn format_args<'x>(&self, mut it: syn::punctuated::Iter<'x, Expr>) -> Option<String> {
        let lit = match it.next()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let mut segs = vec![String::new()];
        let mut vals: Vec<String> = vec![];
        let mut ch = lit.chars().peekable();
        let mut rest: Vec<&Expr> = it.collect();
        while let Some(c) = ch.next() {
            match c {
                '{' if ch.peek() == Some(&'{') => {
                    ch.next();
                    segs.last_mut().unwrap().push('{');
                }
                '}' if ch.peek() == Some(&'}') => {
                    ch.next();
                    segs.last_mut().unwrap().push('}');
                }
                '{' => {
                    let mut name = String::new();
                    loop {
                        match ch.next()? {
                            '}' => break,
                            c => name.push(c),
                        }
                    }
                    if let Some(n) = name.strip_suffix(":?") {
                        if n.is_empty() {
                            if rest.is_empty() {
                                return None;
                            }
                            vals.push(format!("&crate::shim::Dbg(&({}))", self.expr(rest.remove(0))));
                        } else if n.chars().all(|c| c.is_alphanumeric() || c == '_') && !n.starts_with(|c: char| c.is_ascii_digit()) {
                            vals.push(format!("&crate::shim::Dbg(&({}))", n));
                        } else {
                            return None;
                        }
                    } else if name.is_empty() {
                        if rest.is_empty() {
                            return None;
                        }
                        vals.push(format!("&({})", self.expr(rest.remove(0))));
                    } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') && !name.starts_with(|c: char| c.is_ascii_digit()) {
                        vals.push(format!("&({})", name));
                    } else {
                        return None;
                    }
                    segs.push(String::new());
                }
                c => segs.last_mut().unwrap().push(c),
            }
        }
        if !rest.is_empty() || vals.is_empty() || vals.len() > 4 {
            return None;
        }
        let mut s = format!("crate::shim::fmt{}({:?}", vals.len(), segs[0]);
        for (v, seg) in vals.iter().zip(&segs[1..]) {
            s += &format!(", {}, {:?}", v, seg);
        }
        self.count("format! -> fmtN stub");
        Some(s + ")")
    }

    fn do_macro(&mut self, m: &Macro, whole: (usize, usize)) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if name == "format" || name == "format_args" {
            if let Some(s) = self.format_macro(m) {
                self.edits.push((whole.0, whole.1, s));
                return;
            }
        }
        if name == "write" {
            if let Some(s) = self.write_macro(m) {
                self.edits.push((whole.0, whole.1, s));
                return;
            }
        }
        if name == "matches" {
            // matches!(e, P if g) -> match e { P if g => true, _ => false }
            let parsed = m.parse_body_with(|i: parse::ParseStream| {
                let e: Expr = i.parse()?;
                i.parse::<Token![,]>()?;
                let p = Pat::parse_multi_with_leading_vert(i)?;
                let g: Option<Expr> = if i.peek(Token![if]) {
                    i.parse::<Token![if]>()?;
                    Some(i.parse()?)
                } else {
                    None
                };
                let _: Option<Token![,]> = i.parse()?;
                Ok((e, p, g))
            });
            if let Ok((e, p, g)) = parsed {
                let g = g.map_or(String::new(), |g| format!(" if {}", self.expr(&g)));
                let s = format!("(match {} {{ {}{} => true, _ => false }})", self.expr(&e), self.text(&p), g);
                self.count("matches! -> match");
                self.edits.push((whole.0, whole.1, s));
                return;
            }
        }
        if let Ok(args) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
            for a in &args {
                self.visit_expr(a);
            }
        }
    }
}

fn stringy(e: &Expr) -> bool {
    match e {
        Expr::Binary(b) => matches!(b.op, BinOp::Add(_)) && stringy(&b.left),
        Expr::Paren(p) => stringy(&p.expr),
        Expr::Macro(m) => m.mac.path.is_ident("format"),
        Expr::Call(_) => matches!(fname(e).as_deref(), Some("String::from") | Some("String::new")),
        Expr::MethodCall(m) => m.method == "to_string" || m.method == "to_owned" || m.method == "join",
        _ => false,
    }
}

fn closure_arity(e: &Expr) -> Option<usize> {
    match e {
        Expr::Closure(c) => Some(c.inputs.len()),
        _ => None,
    }
}

impl<'c, 'a> FV<'c, 'a> {
    fn constant(&self, p: &ExprPath) -> Option<String> {
        let last = p.path.segments.last()?.ident.to_string();
        if last.chars().any(|c| c.is_lowercase()) || p.path.segments.len() > 3 {
            return None;
        }
        self.cx.global.consts.get(&last).cloned().flatten()
    }
}

impl<'ast, 'c, 'a> Visit<'ast> for FV<'c, 'a> {
    fn visit_item(&mut self, _: &'ast Item) {}

    fn visit_stmt(&mut self, s: &'ast Stmt) {
        if let Stmt::Macro(m) = s {
            let (a, mut b) = range(&m.mac);
            let _ = &mut b;
            self.do_macro(&m.mac, (a, b));
            return;
        }
        visit::visit_stmt(self, s);
    }

    fn visit_attribute(&mut self, a: &'ast Attribute) {
        // attributes inside of bodies are for the compiler's lints
        let (x, y) = range(a);
        self.edits.push((x, y, String::new()));
    }

    fn visit_expr(&mut self, e: &'ast Expr) {
        let (lo, hi) = range(e);
        for (r, name) in given(e) {
            self.st.borrow_mut().given.insert((self.cx.src.as_ptr() as usize, r.0, r.1), name);
        }
        match e {
            Expr::Macro(m) => {
                self.do_macro(&m.mac, (lo, hi));
                return;
            }
            Expr::Path(p) => {
                if p.path.is_ident("self") && self.st.borrow().mutself {
                    self.edits.push((lo, hi, String::from("vself")));
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let r = match segs.join("::").as_str() {
                    "String::from" | "From::from" | "Into::into" | "ToString::to_string" | "str::to_string" | "str::to_owned" | "ToOwned::to_owned" => {
                        Some("crate::shim::string_from")
                    }
                    "char::is_whitespace" => Some("crate::shim::WsPred {}"),
                    _ => None,
                };
                // constants which are literals
                if let Some(v) = self.constant(p) {
                    self.count("constant -> its literal");
                    self.edits.push((lo, hi, v));
                    return;
                }
                if let Some(r) = r {
                    self.count(&format!("path `{}` -> stub", segs.join("::")));
                    self.edits.push((lo, hi, String::from(r)));
                }
                return;
            }
            Expr::Try(t) => {
                if let Some(s) = self.inline_call(&t.expr, Pos::Try) {
                    self.edits.push((lo, hi, format!("({s})?")));
                    return;
                }
            }
            // a += &b, a += "b" on texts
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_)) && text_operand(&b.right) => {
                let s = format!("({}).push_str({})", self.expr(&b.left), self.expr(&b.right));
                self.count("text += &text -> push_str");
                self.edits.push((lo, hi, s));
                return;
            }
            Expr::Return(r) => {
                let touch = self.st.borrow().touches();
                if !touch.is_empty() {
                    let s = r.expr.as_ref().map_or(String::from("()"), |v| self.expr(v));
                    let n = self.fresh();
                    self.edits.push((lo, hi, format!("{{ let vr__{n} = {s}; {touch}return vr__{n}; }}")));
                    self.count("`return e` -> `let r = e; touch(self); return r`");
                    return;
                }
            }
            Expr::Closure(_) => {
                let n = {
                    let mut st = self.st.borrow_mut();
                    st.closures += 1;
                    st.closures - 1
                };
                let mut hdr = self.st.borrow().txt.closures.get(&n).cloned();
                if self.st.borrow().txt.closure_at.is_some() {
                    let mut st = self.st.borrow_mut();
                    let h = st.given.get(&(self.cx.src.as_ptr() as usize, lo, hi)).cloned().unwrap_or_default();
                    let own = matches!(e, Expr::Closure(c) if predicate(&c.body).is_some());
                    hdr = None;
                    if !own {
                        let k = st.met.entry(format!("closure {}", h)).or_insert(0);
                        *k += 1;
                        let k = *k - 1;
                        hdr = st.txt.closure_at.as_ref().unwrap().get(&h).and_then(|v| v.get(k)).and_then(|i| st.txt.closures.get(i)).cloned();
                    }
                }
                if let Expr::Closure(c) = e {
                    let mut lets = String::new();
                    let mut auto = String::from("|");
                    for (i, p) in c.inputs.iter().enumerate() {
                        let (pat, ty) = match p {
                            Pat::Type(t) => (&*t.pat, format!(": {}", self.text(&*t.ty))),
                            p => (p, String::new()),
                        };
                        lets += &format!("let {} = vp{}; ", self.text(pat), i);
                        auto += &format!("vp{}{}, ", i, ty);
                    }
                    let simple = c.inputs.iter().all(|p| matches!(p, Pat::Ident(_) | Pat::Wild(_)) || matches!(p, Pat::Type(t) if matches!(&*t.pat, Pat::Ident(_))));
                    let spec = if hdr.is_none() { predicate(&c.body) } else { None };
                    if let (true, Some(sp)) = (simple, spec) {
                        // a predicate: its value is its own postcondition
                        let b = self.expr(&c.body);
                        self.count("closure that is a predicate: its value as postcondition");
                        self.edits.push((lo, hi, format!("{}| -> (cr__: bool) ensures cr__ == ({{ {}{} }}) {{ {}{} }}", auto, lets, sp, lets, b)));
                        return;
                    }
                    if let (true, true, Some((ty, sp))) = (simple, hdr.is_none(), textual(&c.body)) {
                        let b = self.expr(&c.body);
                        self.count("closure that is a text: its value as postcondition");
                        self.edits.push((lo, hi, format!("{}| -> (cr__: {}) ensures cr__@ == ({{ {}{} }}) {{ {}{} }}", auto, ty, lets, sp, lets, b)));
                        return;
                    }
                    if hdr.is_none() {
                        self.st.borrow_mut().opaque += 1;
                    }
                    if hdr.is_some() || !simple {
                        let b = self.expr(&c.body);
                        auto += "|";
                        if let ReturnType::Type(_, t) = &c.output {
                            auto += &format!(" -> {}", self.text(&**t));
                        }
                        let h = hdr.unwrap_or(auto);
                        self.count("closure: contract header, patterns bound in the body");
                        self.edits.push((lo, hi, format!("{} {{ {}{} }}", h.trim(), lets, b)));
                        return;
                    }
                }
            }
            Expr::Index(i) => {
                if let Expr::Range(r) = &*i.index {
                    let base = self.expr(&i.expr);
                    let rend = |x: &Option<Box<Expr>>, v: &Self| x.as_ref().map(|e| v.expr(e));
                    let (a, b) = (rend(&r.start, self), rend(&r.end, self));
                    if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                        let s = match (a, b) {
                            (Some(a), Some(b)) => format!("(&*{base}).v_range({a}, {b})"),
                            (Some(a), None) => format!("(&*{base}).v_from({a})"),
                            (None, Some(b)) => format!("(&*{base}).v_to({b})"),
                            (None, None) => format!("(&*{base})"),
                        };
                        self.count("s[a..b] -> slicing stub");
                        self.edits.push((lo, hi, s));
                        return;
                    }
                }
            }
            // (a..=b).contains(&x) is a <= x && x <= b
            Expr::MethodCall(m)
                if m.method == "contains"
                    && m.args.len() == 1
                    && matches!(&*m.receiver, Expr::Paren(p) if matches!(&*p.expr, Expr::Range(r) if [&r.start, &r.end].iter().all(|x| x.as_deref().map_or(true, simple_operand))))
                    && matches!(m.args.first(), Some(Expr::Reference(r)) if simple_operand(&r.expr)) =>
            {
                if let (Expr::Paren(p), Some(Expr::Reference(x))) = (&*m.receiver, m.args.first()) {
                    if let Expr::Range(r) = &*p.expr {
                        let x = self.expr(&x.expr);
                        let mut parts = vec![];
                        if let Some(a) = &r.start {
                            parts.push(format!("{} <= ({x})", self.expr(a)));
                        }
                        if let Some(b) = &r.end {
                            let op = if matches!(r.limits, RangeLimits::Closed(_)) { "<=" } else { "<" };
                            parts.push(format!("({x}) {op} {}", self.expr(b)));
                        }
                        if !parts.is_empty() {
                            self.count("(a..b).contains(&x) -> comparisons");
                            self.edits.push((lo, hi, format!("({})", parts.join(" && "))));
                            return;
                        }
                    }
                }
            }
            Expr::Paren(p) if matches!(&*p.expr, Expr::Range(r) if r.start.is_some() && r.end.is_some()) => {
                if let Expr::Range(r) = &*p.expr {
                    let f = if matches!(r.limits, RangeLimits::HalfOpen(_)) { "v_range_of" } else { "v_range_to" };
                    let s = format!("crate::more::{f}({}, {})", self.expr(r.start.as_ref().unwrap()), self.expr(r.end.as_ref().unwrap()));
                    self.count("(a..b) -> iterator stub");
                    self.edits.push((lo, hi, s));
                    return;
                }
            }
            // the memory reserved is an obligation
            Expr::Call(c)
                if c.args.len() == 1
                    && fname(e).map_or(false, |f| f.ends_with("::with_capacity"))
                    && ["Vec", "String", "HashMap", "HashSet"].contains(&fname(e).unwrap().rsplit("::").nth(1).unwrap_or("")) =>
            {
                let f = fname(e).unwrap();
                let f = match f.rsplit("::").nth(1).unwrap() {
                    "Vec" => "vec",
                    "String" => "string",
                    "HashMap" => "map",
                    _ => "set",
                };
                let s = format!("{{ broadcast use crate::more::ax_room; crate::more::{f}_with_capacity({}) }}", self.expr(&c.args[0]));
                self.count("with_capacity -> stub that bounds the memory");
                self.edits.push((lo, hi, s));
                return;
            }
            Expr::MethodCall(m) if m.args.len() == 1 && (m.method == "reserve" || m.method == "reserve_exact") => {
                let s = format!("{{ broadcast use crate::more::ax_room; ({}).v_reserve({}) }}", self.expr(&m.receiver), self.expr(&m.args[0]));
                self.count("with_capacity -> stub that bounds the memory");
                self.edits.push((lo, hi, s));
                return;
            }
            Expr::Call(c) if c.args.len() == 2 && matches!(fname(e).as_deref(), Some("std::cmp::min" | "cmp::min" | "std::cmp::max" | "cmp::max")) => {
                let f = fname(e).unwrap();
                let s = format!("core::cmp::Ord::{}({}, {})", f.rsplit("::").next().unwrap(), self.expr(&c.args[0]), self.expr(&c.args[1]));
                self.count("cmp::min, cmp::max -> the method");
                self.edits.push((lo, hi, s));
                return;
            }
            Expr::Call(c) if c.args.len() == 1 && matches!(&c.args[0], Expr::Lit(ExprLit { lit: Lit::Char(_), .. })) && fname(e).as_deref() == Some("String::from") => {
                let s = format!("crate::shim::VToString::v_to_string(&{})", self.expr(&c.args[0]));
                self.edits.push((lo, hi, s));
                return;
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) && stringy(&b.left) => {
                let s = format!("crate::shim::str_add({}, {})", self.expr(&b.left), self.expr(&b.right));
                self.count("String + &str -> stub");
                self.edits.push((lo, hi, s));
                return;
            }
            Expr::Binary(b) if self.cx.file == "src/plural/formula/node.rs" && matches!(b.op, BinOp::Div(_) | BinOp::Rem(_)) => {
                let f = if matches!(b.op, BinOp::Div(_)) { "v_div_i64" } else { "v_rem_i64" };
                let s = format!("crate::shim::{f}({}, {})", self.expr(&b.left), self.expr(&b.right));
                self.count("a / b, a % b on i64 -> stub");
                self.edits.push((lo, hi, s));
                return;
            }
            Expr::Reference(r) => {
                // `&s[a..b]`: the stub returns the reference
                if let Expr::Index(i) = &*r.expr {
                    if let Expr::Range(_) = &*i.index {
                        let s = self.expr(&r.expr);
                        self.edits.push((lo, hi, s));
                        return;
                    }
                }
            }
            Expr::ForLoop(f) => {
                let (n, t) = self.loop_texts(e);
                let label = f.label.as_ref().map_or(String::new(), |l| self.text(l));
                let pat = self.text(&*f.pat);
                // a loop of which no contract speaks: it ends, and what it does not change stays
                let bare = t.inv.trim().is_empty();
                let iso = if bare { "#[verifier::loop_isolation(false)] " } else { "" };
                if let Expr::Range(r) = &*f.expr {
                    if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                        let (a, b) = (self.expr(a), self.expr(b));
                        let body = self.inner_stmts(&f.body);
                        let s = format!(
                            "{{ let vend__{n} = {b}; let mut vit__{n} = crate::shim::same({a}, vend__{n}); {} {iso}{label} while vit__{n} < vend__{n}\n{} {{ {} let {pat} = vit__{n}; vit__{n} = vit__{n} + 1; {body} {} }} }}",
                            t.init,
                            if bare { format!("invariant vit__{n} <= vend__{n} || vit__{n} > vend__{n} decreases vend__{n} - vit__{n}") } else { t.inv.clone() },
                            t.body,
                            t.end
                        );
                        self.count("for over a range -> while");
                        self.edits.push((lo, hi, s));
                        return;
                    }
                }
                let it = match &*f.expr {
                    Expr::Range(r) if r.start.is_some() && r.end.is_some() => {
                        format!("crate::more::v_range_to({}, {})", self.expr(r.start.as_ref().unwrap()), self.expr(r.end.as_ref().unwrap()))
                    }
                    _ => self.expr(&f.expr),
                };
                let body = self.inner_stmts(&f.body);
                let s = format!(
                    "{{ let mut vit__{n} = crate::shim::VInto::v_into({it}); {} {iso}{label} loop\n{} {{ {} match vit__{n}.next() {{ None => break, Some(vx__{n}) => {{ let {pat} = vx__{n}; {body} {} }} }} }} }}",
                    t.init,
                    if bare { format!("decreases vit__{n}.rem().len()") } else { t.inv.clone() },
                    t.body,
                    t.end
                );
                self.count("for -> loop over next()");
                self.edits.push((lo, hi, s));
                return;
            }
            Expr::While(w) => {
                let (n, mut t) = self.loop_texts(e);
                self.while_texts(w, n, &mut t);
                if t.inv.trim().is_empty() {
                    if let Some(m) = self.measure(&w.cond) {
                        t.inv = format!("decreases {}", m);
                        self.edits.push((lo, lo, String::from("#[verifier::loop_isolation(false)] ")));
                    }
                }
                self.visit_expr(&w.cond);
                let at = range(&w.body).0;
                self.edits.push((at, at, format!("\n{}\n", t.inv)));
                let (_, o) = range(&w.body.brace_token.span.open());
                self.edits.push((o, o, t.body.clone()));
                for s in &w.body.stmts {
                    self.visit_stmt(s);
                }
                let (c, _) = range(&w.body.brace_token.span.close());
                self.edits.push((c, c, t.end.clone()));
                if !t.init.is_empty() {
                    self.edits.push((lo, lo, format!("{{ {} ", t.init)));
                    self.edits.push((hi, hi, String::from(" }")));
                }
                return;
            }
            Expr::Loop(w) => {
                let (_, t) = self.loop_texts(e);
                let at = range(&w.body).0;
                self.edits.push((at, at, format!("\n{}\n", t.inv)));
                let (_, o) = range(&w.body.brace_token.span.open());
                self.edits.push((o, o, t.body.clone()));
                for s in &w.body.stmts {
                    self.visit_stmt(s);
                }
                let (c, _) = range(&w.body.brace_token.span.close());
                self.edits.push((c, c, t.end.clone()));
                if !t.init.is_empty() {
                    self.edits.push((lo, lo, format!("{{ {} ", t.init)));
                    self.edits.push((hi, hi, String::from(" }")));
                }
                return;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if let Some(s) = self.inline_call(e, self.pos((lo, hi))) {
                        self.edits.push((lo, hi, s));
                        return;
                    }
                    if segs == ["Regex", "new"] {
                        let lit = match c.args.first() {
                            Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => Some(s.value()),
                            Some(Expr::Path(p)) => self.constant(p).and_then(|v| parse_str::<LitStr>(&v).ok()).map(|s| s.value()),
                            _ => None,
                        };
                        if let Some(s) = lit {
                            self.cx.out.borrow_mut().regexes.push((self.cx.file.clone(), s));
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if let Some(s) = self.combinator(m) {
                    self.edits.push((lo, hi, s));
                    return;
                }
                if let Some(s) = self.inline_call(e, self.pos((lo, hi))) {
                    self.edits.push((lo, hi, s));
                    return;
                }
                let k = self.kind(&m.receiver);
                let ren = match name.as_str() {
                    "split" | "chars" | "char_indices" | "split_whitespace" | "parse" | "join" | "extend" | "extend_from_slice" | "iter"
                    | "to_lowercase" | "to_string" | "as_ref" | "is_whitespace" | "replace_all" | "as_deref"
                        if !matches!(m.args.first(), Some(Expr::Closure(_))) || name != "split" =>
                    {
                        Some(format!("v_{}", name))
                    }
                    "split" => Some(String::from("v_split_by")),
                    "trim_start_matches" | "trim_end_matches" | "trim_matches" | "splitn" | "rsplit" | "split_terminator" | "replacen" | "matches" | "rfind" | "rsplit_once"
                        if !m.args.iter().any(|a| matches!(a, Expr::Closure(_))) =>
                    {
                        Some(format!("v_{}", name))
                    }
                    "replace" if m.args.len() == 2 && !m.args.iter().any(|a| matches!(a, Expr::Closure(_))) => Some(String::from("v_replace")),
                    "starts_with" | "ends_with" | "contains" if matches!(m.args.first(), Some(Expr::Path(p)) if p.path.segments.len() > 1) || matches!(m.args.first(), Some(Expr::Array(_))) => {
                        Some(format!("v_{}", name))
                    }
                    "split_ascii_whitespace" | "lines" | "bytes" if m.args.is_empty() => Some(format!("v_{}", name)),
                    "len" if m.args.is_empty() => Some(String::from("v_len")),
                    "repeat" if m.args.len() == 1 => Some(String::from("v_repeat")),
                    "resize" if m.args.len() == 2 => Some(String::from("v_resize")),
                    "retain" | "to_vec" | "chunks" | "windows" => Some(format!("v_{}", name)),
                    "into_iter" => Some(String::from("v_into_iter")),
                    "checked_div" | "checked_rem" => Some(format!("v_{}", name)),
                    "into_owned" => Some(String::from("v_into_owned")),
                    "into" if m.args.is_empty() => Some(String::from("v_into_text")),
                    "split_at" => Some(String::from("v_split_at")),
                    "split_once" if matches!(m.args.first(), Some(Expr::Lit(l)) if matches!(l.lit, Lit::Char(_))) => Some(String::from("v_split_once")),
                    "find" if k != Kind::Iter && matches!(m.args.first(), Some(Expr::Closure(_))) => Some(String::from("v_find_by")),
                    "find" if k != Kind::Iter => Some(String::from("v_find")),
                    "contains" if matches!(m.args.first(), Some(Expr::Lit(l)) if matches!(l.lit, Lit::Str(_))) => Some(String::from("v_contains_str")),
                    "contains" if matches!(m.args.first(), Some(Expr::Closure(_))) => Some(String::from("v_contains_by")),
                    "contains" if matches!(m.args.first(), Some(Expr::Lit(_))) => Some(String::from("v_contains")),
                    _ => None,
                };
                if let Some(r) = ren {
                    let (a, b) = range(&m.method);
                    self.count(&format!("std method `{}` -> stub `{}`", name, r));
                    self.edits.push((a, b, r));
                }
            }
            _ => (),
        }
        visit::visit_expr(self, e);
    }
}

/// the value of a test on texts and characters, as a specification
fn predicate(e: &Expr) -> Option<String> {
    fn term(e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) if p.path.get_ident().is_some() => Some(p.path.get_ident().unwrap().to_string()),
            Expr::Paren(p) => term(&p.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => Some(format!("(*{})", term(&u.expr)?)),
            Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) => Some(format!("{:?}", c.value())),
            Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) => Some(n.to_string()),
            _ => None,
        }
    }
    match e {
        Expr::Paren(p) => Some(format!("({})", predicate(&p.expr)?)),
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => Some(format!("!({})", predicate(&u.expr)?)),
        Expr::Binary(b) => match b.op {
            BinOp::And(_) => Some(format!("(({}) && ({}))", predicate(&b.left)?, predicate(&b.right)?)),
            BinOp::Or(_) => Some(format!("(({}) || ({}))", predicate(&b.left)?, predicate(&b.right)?)),
            BinOp::Eq(_) | BinOp::Ne(_) if matches!(&*b.right, Expr::Lit(ExprLit { lit: Lit::Char(_) , .. })) => {
                Some(format!("(({}) {} ({}))", term(&b.left)?, if matches!(b.op, BinOp::Eq(_)) { "==" } else { "!=" }, term(&b.right)?))
            }
            _ => None,
        },
        Expr::MethodCall(m) if m.args.is_empty() => match m.method.to_string().as_str() {
            "is_empty" => Some(format!("({}@.len() == 0)", term(&m.receiver)?)),
            "is_whitespace" => Some(format!("sp_ws({})", term(&m.receiver)?)),
            _ => None,
        },
        Expr::Block(b) => match b.block.stmts.as_slice() {
            [Stmt::Expr(e, None)] => predicate(e),
            _ => None,
        },
        _ => None,
    }
}

/// the characters of a text made of another one: the type, and the characters as a specification
fn textual(e: &Expr) -> Option<(&'static str, String)> {
    fn term(e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) if p.path.get_ident().is_some() => Some(format!("{}@", p.path.get_ident().unwrap())),
            Expr::Paren(p) => term(&p.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => term(&u.expr),
            Expr::MethodCall(m) if m.args.is_empty() => match m.method.to_string().as_str() {
                "trim" => Some(format!("sp_trim({})", term(&m.receiver)?)),
                "as_str" => term(&m.receiver),
                _ => None,
            },
            _ => None,
        }
    }
    match e {
        Expr::Paren(p) => textual(&p.expr),
        Expr::Block(b) => match b.block.stmts.as_slice() {
            [Stmt::Expr(e, None)] => textual(e),
            _ => None,
        },
        Expr::MethodCall(m) if m.args.is_empty() => match m.method.to_string().as_str() {
            "trim" | "as_str" => Some(("&str", term(e)?)),
            "to_string" | "to_owned" => Some(("String", term(&m.receiver)?)),
            _ => None,
        },
        Expr::Call(c) if c.args.len() == 1 && fname(e).as_deref() == Some("String::from") => Some(("String", term(&c.args[0])?)),
        _ => None,
    }
}

/// the characters of the string literals of a text
fn literals(text: &str) -> String {
    fn walk(t: proc_macro2::TokenStream, out: &mut Vec<String>) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Group(g) => walk(g.stream(), out),
                proc_macro2::TokenTree::Literal(l) => {
                    if let Ok(l) = parse_str::<LitStr>(&l.to_string()) {
                        if !out.contains(&l.value()) {
                            out.push(l.value());
                        }
                    }
                }
                _ => (),
            }
        }
    }
    let mut all = vec![];
    if let Ok(t) = text.parse() {
        walk(t, &mut all);
    }
    let s: String = all
        .iter()
        .filter(|v| v.chars().count() <= 40)
        .map(|v| format!("reveal_strlit({:?}); assert({:?}@ =~= Seq::<char>::empty(){}); ", v, v, v.chars().map(|c| format!(".push({:?})", c)).collect::<String>()))
        .collect();
    format!("proof {{ {}}} ", s)
}

pub fn render_body(cx: &Cx, key: &str, t: &FnTxt, sig: &Signature, b: &Block, mutself: bool, lets: &str) -> String {
    let st = RefCell::new(FnState {
        txt: t.clone(),
        loops: 0,
        closures: 0,
        fresh: 0,
        mutself,
        touch: touched(t, sig, b),
        depth: 0,
        opaque: 0,
        tails: HashSet::new(),
        key: key.to_string(),
        given: HashMap::new(),
        met: HashMap::new(),
    });
    {
        let mut at = HashSet::new();
        Returns(&mut at).visit_block(b);
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
            tails(e, &mut at);
        }
        st.borrow_mut().tails = at;
    }
    let v = FV::new(cx, &st);
    let inner = v.inner_stmts(b);
    let lits = if t.opts.contains("lits") { literals(&inner) } else { String::new() };
    let lets = &format!("{}{}", lits, lets);
    if st.borrow().opaque > 0 {
        cx.out.borrow_mut().opaque.insert(key.to_string(), st.borrow().opaque);
    }
    let touch = st.borrow().touches();
    if !t.tail.is_empty() || !t.ret.is_empty() || !touch.is_empty() {
        // proof text before the tail expression, or once it has its value
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
            let mut st2 = FV::new(cx, &st);
            {
                let mut s = st.borrow_mut();
                s.loops = 0;
                s.closures = 0;
                s.fresh = 0;
                s.met.clear();
            }
            for s in &b.stmts[..b.stmts.len() - 1] {
                st2.visit_stmt(s);
            }
            let (at, end) = range(e);
            let value = st2.expr(e);
            let value = if !touch.is_empty() || !t.ret.is_empty() {
                st2.count("tail `e` -> `let r = e; touch(self); r`");
                format!("let vret = {}; {}{}vret", value, touch, t.ret)
            } else {
                value
            };
            st2.edits.push((at, end, format!("{}{}", if t.tail.is_empty() { String::new() } else { format!("{}\n", t.tail) }, value)));
            let (a, z) = (range(&b.brace_token.span.open()).1, range(&b.brace_token.span.close()).0);
            let txt = apply(cx.src, a, z, &mut st2.edits);
            return format!("{{ {}{}{} }}", lets, t.body, txt);
        }
    }
    format!("{{ {}{}{} {} }}", lets, t.body, inner, if matches!(sig.output, ReturnType::Default) && !matches!(b.stmts.last(), Some(Stmt::Expr(_, None))) { touch.as_str() } else { "" })
}
