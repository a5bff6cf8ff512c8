// The language of plural formulas: its tokens, what every production of the grammar means, and
// a parser written from the definition of the C operators, to compare the grammar with.
use vstd::prelude::*;
use crate::spec::*;
use crate::plural::formula::node::{Node, BinOp, UnOp};

// ---- tokens

pub ghost enum Tok {
    Question, Colon, OrOr, OrW, AndAnd, AndW, EqEq, Ne, Lt, Le, Gt, Ge, Plus, Minus, Star, Slash, Percent, Bang, NotW, Var, Open, Close,
    Num(Seq<char>),
}
/// The fixed tokens: the longer ones first
pub open spec fn ref_terms() -> Seq<(Seq<char>, Tok)> {
    seq![
        ("and"@, Tok::AndW), ("not"@, Tok::NotW),
        ("!="@, Tok::Ne), ("&&"@, Tok::AndAnd), ("<="@, Tok::Le), ("=="@, Tok::EqEq), (">="@, Tok::Ge), ("or"@, Tok::OrW), ("||"@, Tok::OrOr),
        ("!"@, Tok::Bang), ("%"@, Tok::Percent), ("("@, Tok::Open), (")"@, Tok::Close), ("*"@, Tok::Star), ("+"@, Tok::Plus), ("-"@, Tok::Minus), ("/"@, Tok::Slash),
        (":"@, Tok::Colon), ("<"@, Tok::Lt), (">"@, Tok::Gt), ("?"@, Tok::Question), ("n"@, Tok::Var),
    ]
}
/// the token at the beginning of a text, with its length: the first of the list, or a run of digits
pub open spec fn lex1(terms: Seq<(Seq<char>, Tok)>, digits: bool, s: Seq<char>) -> Option<(int, Tok)> decreases terms.len() {
    if terms.len() > 0 {
        if terms[0].0.is_prefix_of(s) { Some((terms[0].0.len() as int, terms[0].1)) } else { lex1(terms.skip(1), digits, s) }
    } else {
        let n = sp_run_len(s, |c: char| sp_is_digit(c));
        if digits && n > 0 { Some((n, Tok::Num(s.take(n)))) } else { None }
    }
}
/// the tokens of a text; white space separates them
pub open spec fn lex(terms: Seq<(Seq<char>, Tok)>, digits: bool, s: Seq<char>) -> Option<Seq<Tok>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) }
    else if sp_ws(s[0]) { lex(terms, digits, s.skip(1)) }
    else {
        match lex1(terms, digits, s) {
            None => None,
            Some((n, t)) => if 0 < n <= s.len() { match lex(terms, digits, s.skip(n)) { None => None, Some(r) => Some(seq![t] + r) } } else { None },
        }
    }
}

pub open spec fn tok_at(ts: Seq<Tok>, a: int, t: Tok) -> bool { 0 <= a < ts.len() && ts[a] == t }
pub open spec fn num_at(ts: Seq<Tok>, a: int) -> bool { 0 <= a < ts.len() && ts[a] is Num }
/// what the terminal `[0-9]+` can be
pub open spec fn digit_text(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> sp_is_digit(#[trigger] s[i]) }
pub open spec fn num_text(ts: Seq<Tok>, a: int) -> Seq<char> { ts[a]->Num_0 }

// ---- trees

pub open spec fn bin(op: BinOp, l: Node, r: Node) -> Node { Node::BinOp { op, lhs: Box::new(l), rhs: Box::new(r) } }
pub open spec fn un(op: UnOp, r: Node) -> Node { Node::UnOp { op, rhs: Box::new(r) } }
pub open spec fn cond(t: Node, a: Node, b: Node) -> Node { Node::Cond { test: Box::new(t), if_true: Box::new(a), if_false: Box::new(b) } }
/// the value of a decimal number, when it is at most 2^63-1
pub open spec fn num(s: Seq<char>) -> Option<i64> {
    match sp_undec(s) { Some(n) => if n <= 0x7fff_ffff_ffff_ffff { Some(n as i64) } else { None }, None => None }
}

// ---- contracts of the actions of the grammar: one for each production with an action
// (`Rule__symbols`); a production without action has the value of its only part

pub open spec fn Expr__Or_Question_Expr_Colon_Expr(v0: Node, v1: Node, v2: Node) -> Node { cond(v0, v1, v2) }
pub open spec fn Or__Or_OrOr_And(v0: Node, v1: Node) -> Node { bin(BinOp::Or, v0, v1) }
pub open spec fn Or__Or_OrW_And(v0: Node, v1: Node) -> Node { bin(BinOp::Or, v0, v1) }
pub open spec fn And__And_AndAnd_Equality(v0: Node, v1: Node) -> Node { bin(BinOp::And, v0, v1) }
pub open spec fn And__And_AndW_Equality(v0: Node, v1: Node) -> Node { bin(BinOp::And, v0, v1) }
pub open spec fn Equality__Equality_EqEq_Relational(v0: Node, v1: Node) -> Node { bin(BinOp::Eq, v0, v1) }
pub open spec fn Equality__Equality_Ne_Relational(v0: Node, v1: Node) -> Node { bin(BinOp::Ne, v0, v1) }
pub open spec fn Relational__Relational_Lt_Add(v0: Node, v1: Node) -> Node { bin(BinOp::Lt, v0, v1) }
pub open spec fn Relational__Relational_Le_Add(v0: Node, v1: Node) -> Node { bin(BinOp::Lte, v0, v1) }
pub open spec fn Relational__Relational_Gt_Add(v0: Node, v1: Node) -> Node { bin(BinOp::Gt, v0, v1) }
pub open spec fn Relational__Relational_Ge_Add(v0: Node, v1: Node) -> Node { bin(BinOp::Gte, v0, v1) }
pub open spec fn Add__Add_Plus_Mul(v0: Node, v1: Node) -> Node { bin(BinOp::Add, v0, v1) }
pub open spec fn Add__Add_Minus_Mul(v0: Node, v1: Node) -> Node { bin(BinOp::Sub, v0, v1) }
pub open spec fn LeadingMul__LeadingMul_Star_Factor(v0: Node, v1: Node) -> Node { bin(BinOp::Mul, v0, v1) }
pub open spec fn LeadingMul__LeadingMul_Slash_Factor(v0: Node, v1: Node) -> Node { bin(BinOp::Div, v0, v1) }
pub open spec fn LeadingMul__LeadingMul_Percent_Factor(v0: Node, v1: Node) -> Node { bin(BinOp::Mod, v0, v1) }
pub open spec fn Mul__Mul_Star_Factor(v0: Node, v1: Node) -> Node { bin(BinOp::Mul, v0, v1) }
pub open spec fn Mul__Mul_Slash_Factor(v0: Node, v1: Node) -> Node { bin(BinOp::Div, v0, v1) }
pub open spec fn Mul__Mul_Percent_Factor(v0: Node, v1: Node) -> Node { bin(BinOp::Mod, v0, v1) }
pub open spec fn Not__Bang_Not(v0: Node) -> Node { un(UnOp::Not, v0) }
pub open spec fn Not__NotW_Not(v0: Node) -> Node { un(UnOp::Not, v0) }
pub open spec fn Factor__Minus_Not(v0: Node) -> Node { un(UnOp::Neg, v0) }
pub open spec fn Term__Num(v0: i64) -> Node { Node::Num(v0) }
pub open spec fn Term__Var() -> Node { Node::Var }
pub open spec fn Num__Digits(v0: Seq<char>) -> Option<i64> { num(v0) }

// ---- the reference

/// Binary operators by level, from the loosest: or 1, and 2, equality 3, relations 4, sums 5, products 6
pub open spec fn ref_op(k: int, t: Tok) -> Option<BinOp> {
    match t {
        Tok::OrOr | Tok::OrW => if k == 1 { Some(BinOp::Or) } else { None },
        Tok::AndAnd | Tok::AndW => if k == 2 { Some(BinOp::And) } else { None },
        Tok::EqEq => if k == 3 { Some(BinOp::Eq) } else { None },
        Tok::Ne => if k == 3 { Some(BinOp::Ne) } else { None },
        Tok::Lt => if k == 4 { Some(BinOp::Lt) } else { None },
        Tok::Le => if k == 4 { Some(BinOp::Lte) } else { None },
        Tok::Gt => if k == 4 { Some(BinOp::Gt) } else { None },
        Tok::Ge => if k == 4 { Some(BinOp::Gte) } else { None },
        Tok::Plus => if k == 5 { Some(BinOp::Add) } else { None },
        Tok::Minus => if k == 5 { Some(BinOp::Sub) } else { None },
        Tok::Star => if k == 6 { Some(BinOp::Mul) } else { None },
        Tok::Slash => if k == 6 { Some(BinOp::Div) } else { None },
        Tok::Percent => if k == 6 { Some(BinOp::Mod) } else { None },
        _ => None,
    }
}
pub open spec fn past(ts: Seq<Tok>, a: int, b: int) -> bool { a < b <= ts.len() }
/// Precedence climbing: the tree of level k that begins at token a, and the place after it.
/// 0 conditional, 1 to 6 binary operators (left associative), 7 unary, 8 number, variable, parentheses
pub open spec fn ref_p(ts: Seq<Tok>, k: int, a: int) -> Option<(Node, int)> decreases ts.len() - a, 10 - k, 0int {
    if a < 0 || a >= ts.len() || k < 0 || k > 8 { None }
    else if k == 8 {
        match ts[a] {
            Tok::Num(t) => match num(t) { Some(v) => Some((Node::Num(v), a + 1)), None => None },
            Tok::Var => Some((Node::Var, a + 1)),
            Tok::Open => match ref_p(ts, 0, a + 1) { Some((t, b)) => if past(ts, a, b) && tok_at(ts, b, Tok::Close) { Some((t, b + 1)) } else { None }, None => None },
            _ => None,
        }
    }
    else if k == 7 {
        match ts[a] {
            Tok::Bang | Tok::NotW => match ref_p(ts, 7, a + 1) { Some((t, b)) => Some((un(UnOp::Not, t), b)), None => None },
            Tok::Minus => match ref_p(ts, 7, a + 1) { Some((t, b)) => Some((un(UnOp::Neg, t), b)), None => None },
            _ => ref_p(ts, 8, a),
        }
    }
    else if k > 0 {
        match ref_p(ts, k + 1, a) { Some((t, b)) => if past(ts, a, b) { ref_more(ts, k, t, b) } else { None }, None => None }
    }
    else {
        match ref_p(ts, 1, a) {
            None => None,
            Some((t, b)) =>
                if !past(ts, a, b) { None }
                else if tok_at(ts, b, Tok::Question) {
                    match ref_p(ts, 0, b + 1) {
                        None => None,
                        Some((x, c)) => if past(ts, b, c) && tok_at(ts, c, Tok::Colon) { match ref_p(ts, 0, c + 1) { Some((y, d)) => Some((cond(t, x, y), d)), None => None } } else { None },
                    }
                }
                else { Some((t, b)) },
        }
    }
}
/// more operands of level k after the tree t, which ends before b
pub open spec fn ref_more(ts: Seq<Tok>, k: int, t: Node, b: int) -> Option<(Node, int)> decreases ts.len() - b, 10 - k, 1int {
    if 0 <= b < ts.len() && ref_op(k, ts[b]) is Some {
        match ref_p(ts, k + 1, b + 1) { Some((r, c)) => if past(ts, b, c) { ref_more(ts, k, bin(ref_op(k, ts[b])->0, t, r), c) } else { None }, None => None }
    } else { Some((t, b)) }
}
/// the tree of a text (not empty)
pub open spec fn ref_formula(text: Seq<char>) -> Option<Node> {
    match lex(ref_terms(), true, text) {
        None => None,
        Some(ts) => match ref_p(ts, 0, 0) { Some((t, b)) => if b == ts.len() { Some(t) } else { None }, None => None },
    }
}
/// what level 8 is
pub proof fn lm_8(ts: Seq<Tok>, a: int)
    requires 0 <= a < ts.len()
    ensures
        ts[a] is Num ==> ref_p(ts, 8, a) == (match num(ts[a]->Num_0) { Some(v) => Some((Node::Num(v), a + 1)), None => None }),
        ts[a] == Tok::Var ==> ref_p(ts, 8, a) == Some((Node::Var, a + 1)),
        ts[a] == Tok::Open ==> ref_p(ts, 8, a) == (match ref_p(ts, 0, a + 1) { Some((t, b)) => if past(ts, a, b) && tok_at(ts, b, Tok::Close) { Some((t, b + 1)) } else { None }, None => None }),
        ref_p(ts, 8, a) is Some ==> ts[a] is Num || ts[a] == Tok::Var || ts[a] == Tok::Open,
{ hide(num); }
