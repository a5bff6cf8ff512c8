//! A body with `?` and `return` as a body without: what comes after an exit goes into the other branch.
//! Used to have the body of a helper in place where a call is no tail.
use quote::ToTokens;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Out {
    Res,
    Opt,
    Other,
}

struct Exits(bool);
impl<'ast> Visit<'ast> for Exits {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_macro(&mut self, m: &'ast Macro) {
        self.0 |= m.tokens.to_string().contains('?') || m.path.is_ident("return");
        visit::visit_macro(self, m);
    }
}
fn exits(e: &Expr) -> bool {
    let mut x = Exits(false);
    x.visit_expr(e);
    x.0
}
fn stmt_exits(s: &Stmt) -> bool {
    let mut x = Exits(false);
    x.visit_stmt(s);
    x.0
}
fn text<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Reference(r) => simple(&r.expr),
        Expr::Paren(p) => simple(&p.expr),
        _ => false,
    }
}

struct Lin {
    out: Out,
    fresh: usize,
}

impl Lin {
    /// takes out the `?` that is evaluated first; its value is the variable named
    fn first(&mut self, e: &mut Expr) -> Option<(Expr, String)> {
        if !exits(e) {
            return None;
        }
        match e {
            Expr::Try(t) => {
                if exits(&t.expr) {
                    return self.first(&mut t.expr);
                }
                let name = format!("vq__{}", self.fresh);
                self.fresh += 1;
                let inner = (*t.expr).clone();
                *e = parse_str::<Expr>(&name).unwrap();
                Some((inner, name))
            }
            Expr::MethodCall(m) => {
                if exits(&m.receiver) {
                    return self.first(&mut m.receiver);
                }
                if simple(&m.receiver) {
                    for a in m.args.iter_mut() {
                        if exits(a) {
                            return self.first(a);
                        }
                        if !simple(a) {
                            return None;
                        }
                    }
                }
                None
            }
            Expr::Call(c) => {
                for a in c.args.iter_mut() {
                    if exits(a) {
                        return self.first(a);
                    }
                    if !simple(a) {
                        return None;
                    }
                }
                None
            }
            Expr::Tuple(c) => {
                for a in c.elems.iter_mut() {
                    if exits(a) {
                        return self.first(a);
                    }
                    if !simple(a) {
                        return None;
                    }
                }
                None
            }
            Expr::Struct(c) => {
                for a in c.fields.iter_mut() {
                    if exits(&a.expr) {
                        return self.first(&mut a.expr);
                    }
                    if !simple(&a.expr) {
                        return None;
                    }
                }
                None
            }
            Expr::Field(f) => self.first(&mut f.base),
            Expr::Paren(f) => self.first(&mut f.expr),
            Expr::Reference(f) => self.first(&mut f.expr),
            Expr::Unary(f) => self.first(&mut f.expr),
            Expr::Cast(f) => self.first(&mut f.expr),
            Expr::Binary(b) => {
                if exits(&b.left) {
                    return self.first(&mut b.left);
                }
                if simple(&b.left) && !matches!(b.op, BinOp::And(_) | BinOp::Or(_)) {
                    return self.first(&mut b.right);
                }
                None
            }
            Expr::Assign(a) if simple(&a.left) => self.first(&mut a.right),
            Expr::Match(m) if exits(&m.expr) => self.first(&mut m.expr),
            Expr::If(i) if exits(&i.cond) => match &mut *i.cond {
                Expr::Let(l) => self.first(&mut l.expr),
                c => self.first(c),
            },
            _ => None,
        }
    }

    fn wrap(&mut self, x: Expr, name: &str, rest: String) -> Option<String> {
        match self.out {
            Out::Res => Some(format!("match {} {{ Ok({name}) => {{ {rest} }} Err(ve__) => Err(ve__) }}", text(&x))),
            Out::Opt => Some(format!("match {} {{ Some({name}) => {{ {rest} }} None => None }}", text(&x))),
            Out::Other => None,
        }
    }

    fn block(&mut self, s: &[Stmt]) -> Option<String> {
        let Some((head, rest)) = s.split_first() else { return Some(String::new()) };
        if !stmt_exits(head) {
            return Some(format!("{} {}", text(head), self.block(rest)?));
        }
        match head {
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                if let Some((_, d)) = &init.diverge {
                    if exits(&init.expr) {
                        let mut l2 = l.clone();
                        let i2 = l2.init.as_mut().unwrap();
                        let (x, v) = self.first(&mut i2.expr)?;
                        let mut all = vec![Stmt::Local(l2)];
                        all.extend(rest.iter().cloned());
                        let r = self.block(&all)?;
                        return self.wrap(x, &v, r);
                    }
                    let d = self.tail(d)?;
                    let p = match &l.pat {
                        Pat::Type(t) => text(&t.pat),
                        p => text(p),
                    };
                    return Some(format!("match {} {{ {} => {{ {} }} _ => {} }}", text(&init.expr), p, self.block(rest)?, d));
                }
                // `let x = match y { A => v, B => return w };`
                if let Expr::Match(m) = &*init.expr {
                    if !exits(&m.expr) {
                        let rets: Vec<bool> = m.arms.iter().map(|a| returns(&a.body)).collect();
                        if rets.iter().filter(|r| !**r).count() == 1 && m.arms.iter().zip(&rets).all(|(a, r)| a.guard.is_none() && (*r || !exits(&a.body))) {
                            let mut s = format!("match {} {{ ", text(&m.expr));
                            for (a, r) in m.arms.iter().zip(&rets) {
                                if *r {
                                    s += &format!("{} => {{ {} }} ", text(&a.pat), self.tail(&a.body)?);
                                } else {
                                    s += &format!("{} => {{ let {} = {}; {} }} ", text(&a.pat), text(&l.pat), text(&a.body), self.block(rest)?);
                                }
                            }
                            return Some(s + "}");
                        }
                        return None;
                    }
                }
                let mut l2 = l.clone();
                let (x, v) = self.first(&mut l2.init.as_mut().unwrap().expr)?;
                let mut all = vec![Stmt::Local(l2)];
                all.extend(rest.iter().cloned());
                let r = self.block(&all)?;
                self.wrap(x, &v, r)
            }
            Stmt::Expr(e, semi) => {
                if rest.is_empty() && semi.is_none() || matches!(e, Expr::Return(_)) {
                    return self.tail(e);
                }
                match e {
                    Expr::If(i) if !exits(&i.cond) && leaves(&i.then_branch.stmts) => {
                        let mut other: Vec<Stmt> = vec![];
                        match &i.else_branch {
                            None => (),
                            Some((_, e)) => match &**e {
                                Expr::Block(b) => other.push(Stmt::Expr(Expr::Block(b.clone()), Some(Default::default()))),
                                e => other.push(Stmt::Expr(e.clone(), Some(Default::default()))),
                            },
                        }
                        if other.iter().any(stmt_exits) && !matches!(other[0], Stmt::Expr(Expr::If(_), _)) {
                            return None;
                        }
                        other.extend(rest.iter().cloned());
                        Some(format!("if {} {{ {} }} else {{ {} }}", text(&i.cond), self.block(&i.then_branch.stmts)?, self.block(&other)?))
                    }
                    _ => {
                        let mut e2 = e.clone();
                        let (x, v) = self.first(&mut e2)?;
                        let mut all = vec![];
                        if !matches!(&e2, Expr::Path(_)) {
                            all.push(Stmt::Expr(e2, *semi));
                        }
                        all.extend(rest.iter().cloned());
                        let r = self.block(&all)?;
                        self.wrap(x, &v, r)
                    }
                }
            }
            _ => None,
        }
    }

    fn tail(&mut self, e: &Expr) -> Option<String> {
        if !exits(e) {
            return Some(text(e));
        }
        match e {
            Expr::Return(r) => match &r.expr {
                Some(e) => self.tail(e),
                None => Some(String::from("()")),
            },
            Expr::Paren(p) => self.tail(&p.expr),
            Expr::Block(b) => Some(format!("{{ {} }}", self.block(&b.block.stmts)?)),
            Expr::If(i) if !exits(&i.cond) => {
                let (_, o) = i.else_branch.as_ref()?;
                let then = self.block(&i.then_branch.stmts)?;
                let o = self.tail(o)?;
                let o = if o.trim_start().starts_with('{') || matches!(i.else_branch.as_ref().map(|x| &*x.1), Some(Expr::Block(_))) { o } else { format!("{{ {} }}", o) };
                Some(format!("if {} {{ {} }} else {}", text(&i.cond), then, o))
            }
            Expr::Match(m) if !exits(&m.expr) => {
                let mut s = format!("match {} {{ ", text(&m.expr));
                for a in &m.arms {
                    if let Some((_, g)) = &a.guard {
                        if exits(g) {
                            return None;
                        }
                    }
                    let g = a.guard.as_ref().map_or(String::new(), |(_, g)| format!(" if {}", text(g)));
                    s += &format!("{}{} => {{ {} }} ", text(&a.pat), g, self.tail(&a.body)?);
                }
                Some(s + "}")
            }
            _ => {
                let mut e2 = e.clone();
                let (x, v) = self.first(&mut e2)?;
                let r = self.tail(&e2)?;
                self.wrap(x, &v, r)
            }
        }
    }
}

/// does it always leave the function
fn leaves(s: &[Stmt]) -> bool {
    match s.last() {
        Some(Stmt::Expr(e, _)) => returns(e),
        _ => false,
    }
}
fn returns(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => leaves(&b.block.stmts),
        Expr::If(i) => leaves(&i.then_branch.stmts) && i.else_branch.as_ref().map_or(false, |(_, e)| returns(e)),
        Expr::Match(m) => m.arms.iter().all(|a| returns(&a.body)),
        _ => false,
    }
}

pub fn linear(b: &Block, out: Out) -> Option<String> {
    let mut l = Lin { out, fresh: 0 };
    let s = format!("{{ {} }}", l.block(&b.stmts)?);
    let b: Block = parse_str(&s).ok()?;
    let mut x = Exits(false);
    x.visit_block(&b);
    if x.0 {
        None
    } else {
        Some(s)
    }
}
