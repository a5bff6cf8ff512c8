// Theorems for C03: the grammar gives a text the tree of the reference, and gives a tree to every
// text of the reference in which no `!` follows a binary arithmetic operator.
use vstd::prelude::*;
use crate::spec::*;
use crate::formula::*;
use crate::grammar::*;
use crate::plural::formula::node::{Node, BinOp, UnOp};

pub proof fn lm_terms() ensures terms() == ref_terms(), digits() { assert(terms() =~= ref_terms()); }

/// no binary operator of level k or more at b
pub open spec fn ends(ts: Seq<Tok>, k: int, b: int) -> bool { 0 <= b < ts.len() ==> forall|j: int| j >= k ==> #[trigger] ref_op(j, ts[b]) is None }
/// what comes after an expression
pub open spec fn closes(ts: Seq<Tok>, b: int) -> bool { b == ts.len() || (0 <= b < ts.len() && (ts[b] == Tok::Close || ts[b] == Tok::Colon)) }

pub proof fn ext_Formula(d: D_Formula, ts: Seq<Tok>, a: int) requires at_Formula(d, ts, a) ensures 0 <= a < a + len_Formula(d) <= ts.len() decreases d
{ match d { D_Formula::Expr(k0) => { ext_Expr(*k0, ts, a); } } }
pub proof fn ext_Expr(d: D_Expr, ts: Seq<Tok>, a: int) requires at_Expr(d, ts, a) ensures 0 <= a < a + len_Expr(d) <= ts.len() decreases d
{ match d { D_Expr::Or_Question_Expr_Colon_Expr(k0, k2, k4) => { ext_Or(*k0, ts, a); ext_Expr(*k2, ts, a + len_Or(*k0) + 1); ext_Expr(*k4, ts, a + len_Or(*k0) + 1 + len_Expr(*k2) + 1); } D_Expr::Or(k0) => { ext_Or(*k0, ts, a); } } }
pub proof fn ext_Or(d: D_Or, ts: Seq<Tok>, a: int) requires at_Or(d, ts, a) ensures 0 <= a < a + len_Or(d) <= ts.len() decreases d
{ match d { D_Or::Or_OrOr_And(k0, k2) => { ext_Or(*k0, ts, a); ext_And(*k2, ts, a + len_Or(*k0) + 1); } D_Or::Or_OrW_And(k0, k2) => { ext_Or(*k0, ts, a); ext_And(*k2, ts, a + len_Or(*k0) + 1); } D_Or::And(k0) => { ext_And(*k0, ts, a); } } }
pub proof fn ext_And(d: D_And, ts: Seq<Tok>, a: int) requires at_And(d, ts, a) ensures 0 <= a < a + len_And(d) <= ts.len() decreases d
{ match d { D_And::And_AndAnd_Equality(k0, k2) => { ext_And(*k0, ts, a); ext_Equality(*k2, ts, a + len_And(*k0) + 1); } D_And::And_AndW_Equality(k0, k2) => { ext_And(*k0, ts, a); ext_Equality(*k2, ts, a + len_And(*k0) + 1); } D_And::Equality(k0) => { ext_Equality(*k0, ts, a); } } }
pub proof fn ext_Equality(d: D_Equality, ts: Seq<Tok>, a: int) requires at_Equality(d, ts, a) ensures 0 <= a < a + len_Equality(d) <= ts.len() decreases d
{ match d { D_Equality::Equality_EqEq_Relational(k0, k2) => { ext_Equality(*k0, ts, a); ext_Relational(*k2, ts, a + len_Equality(*k0) + 1); } D_Equality::Equality_Ne_Relational(k0, k2) => { ext_Equality(*k0, ts, a); ext_Relational(*k2, ts, a + len_Equality(*k0) + 1); } D_Equality::Relational(k0) => { ext_Relational(*k0, ts, a); } } }
pub proof fn ext_Relational(d: D_Relational, ts: Seq<Tok>, a: int) requires at_Relational(d, ts, a) ensures 0 <= a < a + len_Relational(d) <= ts.len() decreases d
{ match d { D_Relational::Relational_Lt_Add(k0, k2) => { ext_Relational(*k0, ts, a); ext_Add(*k2, ts, a + len_Relational(*k0) + 1); } D_Relational::Relational_Le_Add(k0, k2) => { ext_Relational(*k0, ts, a); ext_Add(*k2, ts, a + len_Relational(*k0) + 1); } D_Relational::Relational_Gt_Add(k0, k2) => { ext_Relational(*k0, ts, a); ext_Add(*k2, ts, a + len_Relational(*k0) + 1); } D_Relational::Relational_Ge_Add(k0, k2) => { ext_Relational(*k0, ts, a); ext_Add(*k2, ts, a + len_Relational(*k0) + 1); } D_Relational::Add(k0) => { ext_Add(*k0, ts, a); } } }
pub proof fn ext_Add(d: D_Add, ts: Seq<Tok>, a: int) requires at_Add(d, ts, a) ensures 0 <= a < a + len_Add(d) <= ts.len() decreases d
{ match d { D_Add::Add_Plus_Mul(k0, k2) => { ext_Add(*k0, ts, a); ext_Mul(*k2, ts, a + len_Add(*k0) + 1); } D_Add::Add_Minus_Mul(k0, k2) => { ext_Add(*k0, ts, a); ext_Mul(*k2, ts, a + len_Add(*k0) + 1); } D_Add::LeadingMul(k0) => { ext_LeadingMul(*k0, ts, a); } } }
pub proof fn ext_LeadingMul(d: D_LeadingMul, ts: Seq<Tok>, a: int) requires at_LeadingMul(d, ts, a) ensures 0 <= a < a + len_LeadingMul(d) <= ts.len() decreases d
{ match d { D_LeadingMul::LeadingMul_Star_Factor(k0, k2) => { ext_LeadingMul(*k0, ts, a); ext_Factor(*k2, ts, a + len_LeadingMul(*k0) + 1); } D_LeadingMul::LeadingMul_Slash_Factor(k0, k2) => { ext_LeadingMul(*k0, ts, a); ext_Factor(*k2, ts, a + len_LeadingMul(*k0) + 1); } D_LeadingMul::LeadingMul_Percent_Factor(k0, k2) => { ext_LeadingMul(*k0, ts, a); ext_Factor(*k2, ts, a + len_LeadingMul(*k0) + 1); } D_LeadingMul::Not(k0) => { ext_Not(*k0, ts, a); } } }
pub proof fn ext_Mul(d: D_Mul, ts: Seq<Tok>, a: int) requires at_Mul(d, ts, a) ensures 0 <= a < a + len_Mul(d) <= ts.len() decreases d
{ match d { D_Mul::Mul_Star_Factor(k0, k2) => { ext_Mul(*k0, ts, a); ext_Factor(*k2, ts, a + len_Mul(*k0) + 1); } D_Mul::Mul_Slash_Factor(k0, k2) => { ext_Mul(*k0, ts, a); ext_Factor(*k2, ts, a + len_Mul(*k0) + 1); } D_Mul::Mul_Percent_Factor(k0, k2) => { ext_Mul(*k0, ts, a); ext_Factor(*k2, ts, a + len_Mul(*k0) + 1); } D_Mul::Factor(k0) => { ext_Factor(*k0, ts, a); } } }
pub proof fn ext_Not(d: D_Not, ts: Seq<Tok>, a: int) requires at_Not(d, ts, a) ensures 0 <= a < a + len_Not(d) <= ts.len() decreases d
{ match d { D_Not::Bang_Not(k1) => { ext_Not(*k1, ts, a + 1); } D_Not::NotW_Not(k1) => { ext_Not(*k1, ts, a + 1); } D_Not::Factor(k0) => { ext_Factor(*k0, ts, a); } } }
pub proof fn ext_Factor(d: D_Factor, ts: Seq<Tok>, a: int) requires at_Factor(d, ts, a) ensures 0 <= a < a + len_Factor(d) <= ts.len() decreases d
{ match d { D_Factor::Minus_Not(k1) => { ext_Not(*k1, ts, a + 1); } D_Factor::Term(k0) => { ext_Term(*k0, ts, a); } } }
pub proof fn ext_Term(d: D_Term, ts: Seq<Tok>, a: int) requires at_Term(d, ts, a) ensures 0 <= a < a + len_Term(d) <= ts.len() decreases d
{ match d { D_Term::Num(k0) => { ext_Num(*k0, ts, a); } D_Term::Var => { } D_Term::Open_Expr_Close(k1) => { ext_Expr(*k1, ts, a + 1); } } }
pub proof fn ext_Num(d: D_Num, ts: Seq<Tok>, a: int) requires at_Num(d, ts, a) ensures 0 <= a < a + len_Num(d) <= ts.len() decreases d
{ match d { D_Num::Digits => { } } }

// ---- the value of a derivation is the tree of the reference

pub proof fn snd_Or(d: D_Or, ts: Seq<Tok>, a: int)
    requires at_Or(d, ts, a), ends(ts, 2, a + len_Or(d))
    ensures ref_p(ts, 1, a) == ref_more(ts, 1, val_Or(d, ts, a), a + len_Or(d))
    decreases d
{
    ext_Or(d, ts, a);
    match d {
        D_Or::Or_OrOr_And(k0, k2) => { let b = a + len_Or(*k0); ext_Or(*k0, ts, a); ext_And(*k2, ts, b + 1); snd_Or(*k0, ts, a); snd_And(*k2, ts, b + 1); }
        D_Or::Or_OrW_And(k0, k2) => { let b = a + len_Or(*k0); ext_Or(*k0, ts, a); ext_And(*k2, ts, b + 1); snd_Or(*k0, ts, a); snd_And(*k2, ts, b + 1); }
        D_Or::And(k0) => { ext_And(*k0, ts, a); snd_And(*k0, ts, a); }
    }
}
pub proof fn snd_And(d: D_And, ts: Seq<Tok>, a: int)
    requires at_And(d, ts, a), ends(ts, 3, a + len_And(d))
    ensures ref_p(ts, 2, a) == ref_more(ts, 2, val_And(d, ts, a), a + len_And(d))
    decreases d
{
    ext_And(d, ts, a);
    match d {
        D_And::And_AndAnd_Equality(k0, k2) => { let b = a + len_And(*k0); ext_And(*k0, ts, a); ext_Equality(*k2, ts, b + 1); snd_And(*k0, ts, a); snd_Equality(*k2, ts, b + 1); }
        D_And::And_AndW_Equality(k0, k2) => { let b = a + len_And(*k0); ext_And(*k0, ts, a); ext_Equality(*k2, ts, b + 1); snd_And(*k0, ts, a); snd_Equality(*k2, ts, b + 1); }
        D_And::Equality(k0) => { ext_Equality(*k0, ts, a); snd_Equality(*k0, ts, a); }
    }
}
pub proof fn snd_Equality(d: D_Equality, ts: Seq<Tok>, a: int)
    requires at_Equality(d, ts, a), ends(ts, 4, a + len_Equality(d))
    ensures ref_p(ts, 3, a) == ref_more(ts, 3, val_Equality(d, ts, a), a + len_Equality(d))
    decreases d
{
    ext_Equality(d, ts, a);
    match d {
        D_Equality::Equality_EqEq_Relational(k0, k2) => { let b = a + len_Equality(*k0); ext_Equality(*k0, ts, a); ext_Relational(*k2, ts, b + 1); snd_Equality(*k0, ts, a); snd_Relational(*k2, ts, b + 1); }
        D_Equality::Equality_Ne_Relational(k0, k2) => { let b = a + len_Equality(*k0); ext_Equality(*k0, ts, a); ext_Relational(*k2, ts, b + 1); snd_Equality(*k0, ts, a); snd_Relational(*k2, ts, b + 1); }
        D_Equality::Relational(k0) => { ext_Relational(*k0, ts, a); snd_Relational(*k0, ts, a); }
    }
}
pub proof fn snd_Relational(d: D_Relational, ts: Seq<Tok>, a: int)
    requires at_Relational(d, ts, a), ends(ts, 5, a + len_Relational(d))
    ensures ref_p(ts, 4, a) == ref_more(ts, 4, val_Relational(d, ts, a), a + len_Relational(d))
    decreases d
{
    ext_Relational(d, ts, a);
    match d {
        D_Relational::Relational_Lt_Add(k0, k2) => { let b = a + len_Relational(*k0); ext_Relational(*k0, ts, a); ext_Add(*k2, ts, b + 1); snd_Relational(*k0, ts, a); snd_Add(*k2, ts, b + 1); }
        D_Relational::Relational_Le_Add(k0, k2) => { let b = a + len_Relational(*k0); ext_Relational(*k0, ts, a); ext_Add(*k2, ts, b + 1); snd_Relational(*k0, ts, a); snd_Add(*k2, ts, b + 1); }
        D_Relational::Relational_Gt_Add(k0, k2) => { let b = a + len_Relational(*k0); ext_Relational(*k0, ts, a); ext_Add(*k2, ts, b + 1); snd_Relational(*k0, ts, a); snd_Add(*k2, ts, b + 1); }
        D_Relational::Relational_Ge_Add(k0, k2) => { let b = a + len_Relational(*k0); ext_Relational(*k0, ts, a); ext_Add(*k2, ts, b + 1); snd_Relational(*k0, ts, a); snd_Add(*k2, ts, b + 1); }
        D_Relational::Add(k0) => { ext_Add(*k0, ts, a); snd_Add(*k0, ts, a); }
    }
}
pub proof fn snd_Add(d: D_Add, ts: Seq<Tok>, a: int)
    requires at_Add(d, ts, a), ends(ts, 6, a + len_Add(d))
    ensures ref_p(ts, 5, a) == ref_more(ts, 5, val_Add(d, ts, a), a + len_Add(d))
    decreases d
{
    ext_Add(d, ts, a);
    match d {
        D_Add::Add_Plus_Mul(k0, k2) => { let b = a + len_Add(*k0); ext_Add(*k0, ts, a); ext_Mul(*k2, ts, b + 1); snd_Add(*k0, ts, a); snd_Mul(*k2, ts, b + 1); }
        D_Add::Add_Minus_Mul(k0, k2) => { let b = a + len_Add(*k0); ext_Add(*k0, ts, a); ext_Mul(*k2, ts, b + 1); snd_Add(*k0, ts, a); snd_Mul(*k2, ts, b + 1); }
        D_Add::LeadingMul(k0) => { ext_LeadingMul(*k0, ts, a); snd_LeadingMul(*k0, ts, a); }
    }
}
pub proof fn snd_LeadingMul(d: D_LeadingMul, ts: Seq<Tok>, a: int)
    requires at_LeadingMul(d, ts, a)
    ensures ref_p(ts, 6, a) == ref_more(ts, 6, val_LeadingMul(d, ts, a), a + len_LeadingMul(d))
    decreases d
{
    ext_LeadingMul(d, ts, a);
    match d {
        D_LeadingMul::LeadingMul_Star_Factor(k0, k2) => { let b = a + len_LeadingMul(*k0); ext_LeadingMul(*k0, ts, a); ext_Factor(*k2, ts, b + 1); snd_LeadingMul(*k0, ts, a); snd_Factor(*k2, ts, b + 1); }
        D_LeadingMul::LeadingMul_Slash_Factor(k0, k2) => { let b = a + len_LeadingMul(*k0); ext_LeadingMul(*k0, ts, a); ext_Factor(*k2, ts, b + 1); snd_LeadingMul(*k0, ts, a); snd_Factor(*k2, ts, b + 1); }
        D_LeadingMul::LeadingMul_Percent_Factor(k0, k2) => { let b = a + len_LeadingMul(*k0); ext_LeadingMul(*k0, ts, a); ext_Factor(*k2, ts, b + 1); snd_LeadingMul(*k0, ts, a); snd_Factor(*k2, ts, b + 1); }
        D_LeadingMul::Not(k0) => { ext_Not(*k0, ts, a); snd_Not(*k0, ts, a); }
    }
}
pub proof fn snd_Mul(d: D_Mul, ts: Seq<Tok>, a: int)
    requires at_Mul(d, ts, a)
    ensures ref_p(ts, 6, a) == ref_more(ts, 6, val_Mul(d, ts, a), a + len_Mul(d))
    decreases d
{
    ext_Mul(d, ts, a);
    match d {
        D_Mul::Mul_Star_Factor(k0, k2) => { let b = a + len_Mul(*k0); ext_Mul(*k0, ts, a); ext_Factor(*k2, ts, b + 1); snd_Mul(*k0, ts, a); snd_Factor(*k2, ts, b + 1); }
        D_Mul::Mul_Slash_Factor(k0, k2) => { let b = a + len_Mul(*k0); ext_Mul(*k0, ts, a); ext_Factor(*k2, ts, b + 1); snd_Mul(*k0, ts, a); snd_Factor(*k2, ts, b + 1); }
        D_Mul::Mul_Percent_Factor(k0, k2) => { let b = a + len_Mul(*k0); ext_Mul(*k0, ts, a); ext_Factor(*k2, ts, b + 1); snd_Mul(*k0, ts, a); snd_Factor(*k2, ts, b + 1); }
        D_Mul::Factor(k0) => { ext_Factor(*k0, ts, a); snd_Factor(*k0, ts, a); }
    }
}
pub proof fn snd_Not(d: D_Not, ts: Seq<Tok>, a: int)
    requires at_Not(d, ts, a)
    ensures ref_p(ts, 7, a) == Some((val_Not(d, ts, a), a + len_Not(d)))
    decreases d
{
    ext_Not(d, ts, a);
    match d {
        D_Not::Bang_Not(k1) => { ext_Not(*k1, ts, a + 1); snd_Not(*k1, ts, a + 1); }
        D_Not::NotW_Not(k1) => { ext_Not(*k1, ts, a + 1); snd_Not(*k1, ts, a + 1); }
        D_Not::Factor(k0) => { snd_Factor(*k0, ts, a); }
    }
}
pub proof fn snd_Factor(d: D_Factor, ts: Seq<Tok>, a: int)
    requires at_Factor(d, ts, a)
    ensures ref_p(ts, 7, a) == Some((val_Factor(d, ts, a), a + len_Factor(d)))
    decreases d
{
    ext_Factor(d, ts, a);
    match d {
        D_Factor::Minus_Not(k1) => { ext_Not(*k1, ts, a + 1); snd_Not(*k1, ts, a + 1); }
        D_Factor::Term(k0) => { snd_Term(*k0, ts, a); }
    }
}
pub proof fn snd_Num(d: D_Num, ts: Seq<Tok>, a: int)
    requires at_Num(d, ts, a)
    ensures 0 <= a < ts.len(), ts[a] is Num, num(ts[a]->Num_0) == Some(val_Num(d, ts, a)), len_Num(d) == 1
{ hide(num); hide(sp_undec); }
pub proof fn snd_Term(d: D_Term, ts: Seq<Tok>, a: int)
    requires at_Term(d, ts, a)
    ensures ref_p(ts, 8, a) == Some((val_Term(d, ts, a), a + len_Term(d))), !(ts[a] is Bang), !(ts[a] is NotW), !(ts[a] is Minus)
    decreases d, 1int
{
    hide(num); hide(sp_undec); hide(ref_p);
    ext_Term(d, ts, a);
    lm_8(ts, a);
    if d is Num { snd_Num(*(d->Num_0), ts, a); assert(ts[a] is Num); assert(len_Term(d) == 1); assert(val_Term(d, ts, a) == Node::Num(val_Num(*(d->Num_0), ts, a))); }
    else if d is Var { assert(ts[a] == Tok::Var); }
    else { snd_Open(d, ts, a); }
}
pub proof fn snd_Open(d: D_Term, ts: Seq<Tok>, a: int)
    requires at_Term(d, ts, a), d is Open_Expr_Close
    ensures ref_p(ts, 8, a) == Some((val_Term(d, ts, a), a + len_Term(d))), ts[a] == Tok::Open
    decreases d, 0int
{
    hide(ref_p);
    ext_Term(d, ts, a);
    lm_8(ts, a);
    let k1 = *(d->Open_Expr_Close_0);
    assert(ts[a] == Tok::Open);
    ext_Expr(k1, ts, a + 1);
    snd_Expr(k1, ts, a + 1);
    let b = a + 1 + len_Expr(k1);
    assert(ref_p(ts, 0, a + 1) == Some((val_Expr(k1, ts, a + 1), b)));
    assert(past(ts, a, b) && tok_at(ts, b, Tok::Close));
    assert(ref_p(ts, 8, a) == Some((val_Expr(k1, ts, a + 1), b + 1)));
    assert(len_Term(d) == len_Expr(k1) + 2);
    assert(val_Term(d, ts, a) == val_Expr(k1, ts, a + 1));
    assert(b + 1 == a + len_Term(d));
    assert(ref_p(ts, 8, a) == Some((val_Term(d, ts, a), a + len_Term(d))));
}
pub proof fn snd_Expr(d: D_Expr, ts: Seq<Tok>, a: int)
    requires at_Expr(d, ts, a), closes(ts, a + len_Expr(d))
    ensures ref_p(ts, 0, a) == Some((val_Expr(d, ts, a), a + len_Expr(d)))
    decreases d
{
    ext_Expr(d, ts, a);
    match d {
        D_Expr::Or_Question_Expr_Colon_Expr(k0, k2, k4) => {
            let b = a + len_Or(*k0);
            let c = b + 1 + len_Expr(*k2);
            ext_Or(*k0, ts, a); ext_Expr(*k2, ts, b + 1); ext_Expr(*k4, ts, c + 1);
            snd_Or(*k0, ts, a); snd_Expr(*k2, ts, b + 1); snd_Expr(*k4, ts, c + 1);
        }
        D_Expr::Or(k0) => { snd_Or(*k0, ts, a); }
    }
}

// ---- every tree of the reference has a derivation

/// the token before i is a binary arithmetic operator
pub open spec fn operand_end(t: Tok) -> bool { t is Num || t == Tok::Var || t == Tok::Close }
pub open spec fn arith_before(ts: Seq<Tok>, i: int) -> bool {
    1 < i <= ts.len() && operand_end(ts[i - 2]) && (ts[i - 1] == Tok::Plus || ts[i - 1] == Tok::Minus || ts[i - 1] == Tok::Star || ts[i - 1] == Tok::Slash || ts[i - 1] == Tok::Percent)
}
pub open spec fn is_not(ts: Seq<Tok>, i: int) -> bool { 0 <= i < ts.len() && (ts[i] == Tok::Bang || ts[i] == Tok::NotW) }
/// the known finding does not occur: no `!` or `not` directly after a binary `+ - * / %`
pub open spec fn plain(ts: Seq<Tok>) -> bool { forall|i: int| is_not(ts, i) ==> !#[trigger] arith_before(ts, i) }

/// a tree ends with the end of an operand
pub proof fn lm_end(ts: Seq<Tok>, k: int, a: int)
    requires ref_p(ts, k, a) is Some
    ensures past(ts, a, ref_p(ts, k, a)->Some_0.1), operand_end(ts[ref_p(ts, k, a)->Some_0.1 - 1])
    decreases ts.len() - a, 10 - k, 0int
{
    hide(num);
    if k == 8 {
        if ts[a] == Tok::Open { lm_end(ts, 0, a + 1); }
    } else if k == 7 {
        match ts[a] {
            Tok::Bang | Tok::NotW | Tok::Minus => { lm_end(ts, 7, a + 1); }
            _ => { lm_end(ts, 8, a); }
        }
    } else if k > 0 {
        lm_end(ts, k + 1, a);
        let (t, b) = ref_p(ts, k + 1, a)->0;
        lm_more_end(ts, k, t, b);
    } else {
        lm_end(ts, 1, a);
        let (t, b) = ref_p(ts, 1, a)->0;
        if tok_at(ts, b, Tok::Question) {
            lm_end(ts, 0, b + 1);
            let (x, c) = ref_p(ts, 0, b + 1)->0;
            lm_end(ts, 0, c + 1);
        }
    }
}
pub proof fn lm_more_end(ts: Seq<Tok>, k: int, t: Node, b: int)
    requires 0 < b <= ts.len(), 0 < k < 7, operand_end(ts[b - 1]), ref_more(ts, k, t, b) is Some
    ensures b <= ref_more(ts, k, t, b)->Some_0.1 <= ts.len(), operand_end(ts[ref_more(ts, k, t, b)->Some_0.1 - 1])
    decreases ts.len() - b, 10 - k, 1int
{
    if 0 <= b < ts.len() && ref_op(k, ts[b]) is Some {
        lm_end(ts, k + 1, b + 1);
        let (r, c) = ref_p(ts, k + 1, b + 1)->0;
        lm_more_end(ts, k, bin(ref_op(k, ts[b])->0, t, r), c);
    }
}

pub proof fn cmp_Or(ts: Seq<Tok>, a: int) -> (d: D_Or)
    requires plain(ts), ref_p(ts, 1, a) is Some
    ensures at_Or(d, ts, a), ref_p(ts, 1, a) == Some((val_Or(d, ts, a), a + len_Or(d)))
    decreases ts.len() - a, 10 - 1int, 0int
{
    lm_end(ts, 2, a);
    let d = D_Or::And(Box::new(cmp_And(ts, a)));
    more_Or(ts, d, a, a + len_Or(d))
}
pub proof fn more_Or(ts: Seq<Tok>, d: D_Or, a: int, b: int) -> (e: D_Or)
    requires plain(ts), at_Or(d, ts, a), b == a + len_Or(d), 0 < b <= ts.len(), operand_end(ts[b - 1]), ref_more(ts, 1, val_Or(d, ts, a), b) is Some
    ensures at_Or(e, ts, a), ref_more(ts, 1, val_Or(d, ts, a), b) == Some((val_Or(e, ts, a), a + len_Or(e)))
    decreases ts.len() - b, 10 - 1int, 1int
{
    let v = val_Or(d, ts, a);
    if b < ts.len() && ref_op(1, ts[b]) is Some {
        lm_end(ts, 2, b + 1);
        let r = Box::new(cmp_And(ts, b + 1));
        let l = Box::new(d);
        let e = match ts[b] { Tok::OrOr => D_Or::Or_OrOr_And(l, r), _ => D_Or::Or_OrW_And(l, r) };
        more_Or(ts, e, a, a + len_Or(e))
    } else { d }
}

pub proof fn cmp_And(ts: Seq<Tok>, a: int) -> (d: D_And)
    requires plain(ts), ref_p(ts, 2, a) is Some
    ensures at_And(d, ts, a), ref_p(ts, 2, a) == Some((val_And(d, ts, a), a + len_And(d)))
    decreases ts.len() - a, 10 - 2int, 0int
{
    lm_end(ts, 3, a);
    let d = D_And::Equality(Box::new(cmp_Equality(ts, a)));
    more_And(ts, d, a, a + len_And(d))
}
pub proof fn more_And(ts: Seq<Tok>, d: D_And, a: int, b: int) -> (e: D_And)
    requires plain(ts), at_And(d, ts, a), b == a + len_And(d), 0 < b <= ts.len(), operand_end(ts[b - 1]), ref_more(ts, 2, val_And(d, ts, a), b) is Some
    ensures at_And(e, ts, a), ref_more(ts, 2, val_And(d, ts, a), b) == Some((val_And(e, ts, a), a + len_And(e)))
    decreases ts.len() - b, 10 - 2int, 1int
{
    let v = val_And(d, ts, a);
    if b < ts.len() && ref_op(2, ts[b]) is Some {
        lm_end(ts, 3, b + 1);
        let r = Box::new(cmp_Equality(ts, b + 1));
        let l = Box::new(d);
        let e = match ts[b] { Tok::AndAnd => D_And::And_AndAnd_Equality(l, r), _ => D_And::And_AndW_Equality(l, r) };
        more_And(ts, e, a, a + len_And(e))
    } else { d }
}

pub proof fn cmp_Equality(ts: Seq<Tok>, a: int) -> (d: D_Equality)
    requires plain(ts), ref_p(ts, 3, a) is Some
    ensures at_Equality(d, ts, a), ref_p(ts, 3, a) == Some((val_Equality(d, ts, a), a + len_Equality(d)))
    decreases ts.len() - a, 10 - 3int, 0int
{
    lm_end(ts, 4, a);
    let d = D_Equality::Relational(Box::new(cmp_Relational(ts, a)));
    more_Equality(ts, d, a, a + len_Equality(d))
}
pub proof fn more_Equality(ts: Seq<Tok>, d: D_Equality, a: int, b: int) -> (e: D_Equality)
    requires plain(ts), at_Equality(d, ts, a), b == a + len_Equality(d), 0 < b <= ts.len(), operand_end(ts[b - 1]), ref_more(ts, 3, val_Equality(d, ts, a), b) is Some
    ensures at_Equality(e, ts, a), ref_more(ts, 3, val_Equality(d, ts, a), b) == Some((val_Equality(e, ts, a), a + len_Equality(e)))
    decreases ts.len() - b, 10 - 3int, 1int
{
    let v = val_Equality(d, ts, a);
    if b < ts.len() && ref_op(3, ts[b]) is Some {
        lm_end(ts, 4, b + 1);
        let r = Box::new(cmp_Relational(ts, b + 1));
        let l = Box::new(d);
        let e = match ts[b] { Tok::EqEq => D_Equality::Equality_EqEq_Relational(l, r), _ => D_Equality::Equality_Ne_Relational(l, r) };
        more_Equality(ts, e, a, a + len_Equality(e))
    } else { d }
}

pub proof fn cmp_Relational(ts: Seq<Tok>, a: int) -> (d: D_Relational)
    requires plain(ts), ref_p(ts, 4, a) is Some
    ensures at_Relational(d, ts, a), ref_p(ts, 4, a) == Some((val_Relational(d, ts, a), a + len_Relational(d)))
    decreases ts.len() - a, 10 - 4int, 0int
{
    lm_end(ts, 5, a);
    let d = D_Relational::Add(Box::new(cmp_Add(ts, a)));
    more_Relational(ts, d, a, a + len_Relational(d))
}
pub proof fn more_Relational(ts: Seq<Tok>, d: D_Relational, a: int, b: int) -> (e: D_Relational)
    requires plain(ts), at_Relational(d, ts, a), b == a + len_Relational(d), 0 < b <= ts.len(), operand_end(ts[b - 1]), ref_more(ts, 4, val_Relational(d, ts, a), b) is Some
    ensures at_Relational(e, ts, a), ref_more(ts, 4, val_Relational(d, ts, a), b) == Some((val_Relational(e, ts, a), a + len_Relational(e)))
    decreases ts.len() - b, 10 - 4int, 1int
{
    let v = val_Relational(d, ts, a);
    if b < ts.len() && ref_op(4, ts[b]) is Some {
        lm_end(ts, 5, b + 1);
        let r = Box::new(cmp_Add(ts, b + 1));
        let l = Box::new(d);
        let e = match ts[b] { Tok::Lt => D_Relational::Relational_Lt_Add(l, r), Tok::Le => D_Relational::Relational_Le_Add(l, r), Tok::Gt => D_Relational::Relational_Gt_Add(l, r), _ => D_Relational::Relational_Ge_Add(l, r) };
        more_Relational(ts, e, a, a + len_Relational(e))
    } else { d }
}

pub proof fn cmp_Add(ts: Seq<Tok>, a: int) -> (d: D_Add)
    requires plain(ts), ref_p(ts, 5, a) is Some
    ensures at_Add(d, ts, a), ref_p(ts, 5, a) == Some((val_Add(d, ts, a), a + len_Add(d)))
    decreases ts.len() - a, 10 - 5int, 0int
{
    lm_end(ts, 6, a);
    let d = D_Add::LeadingMul(Box::new(cmp_LeadingMul(ts, a)));
    more_Add(ts, d, a, a + len_Add(d))
}
pub proof fn more_Add(ts: Seq<Tok>, d: D_Add, a: int, b: int) -> (e: D_Add)
    requires plain(ts), at_Add(d, ts, a), b == a + len_Add(d), 0 < b <= ts.len(), operand_end(ts[b - 1]), ref_more(ts, 5, val_Add(d, ts, a), b) is Some
    ensures at_Add(e, ts, a), ref_more(ts, 5, val_Add(d, ts, a), b) == Some((val_Add(e, ts, a), a + len_Add(e)))
    decreases ts.len() - b, 10 - 5int, 1int
{
    let v = val_Add(d, ts, a);
    if b < ts.len() && ref_op(5, ts[b]) is Some {
        lm_end(ts, 6, b + 1);
        assert(arith_before(ts, b + 1));
        let r = Box::new(cmp_Mul(ts, b + 1));
        let l = Box::new(d);
        let e = match ts[b] { Tok::Plus => D_Add::Add_Plus_Mul(l, r), _ => D_Add::Add_Minus_Mul(l, r) };
        more_Add(ts, e, a, a + len_Add(e))
    } else { d }
}

pub proof fn cmp_LeadingMul(ts: Seq<Tok>, a: int) -> (d: D_LeadingMul)
    requires plain(ts), ref_p(ts, 6, a) is Some
    ensures at_LeadingMul(d, ts, a), ref_p(ts, 6, a) == Some((val_LeadingMul(d, ts, a), a + len_LeadingMul(d)))
    decreases ts.len() - a, 10 - 6int, 0int
{
    lm_end(ts, 7, a);
    let d = D_LeadingMul::Not(Box::new(cmp_Not(ts, a)));
    more_LeadingMul(ts, d, a, a + len_LeadingMul(d))
}
pub proof fn more_LeadingMul(ts: Seq<Tok>, d: D_LeadingMul, a: int, b: int) -> (e: D_LeadingMul)
    requires plain(ts), at_LeadingMul(d, ts, a), b == a + len_LeadingMul(d), 0 < b <= ts.len(), operand_end(ts[b - 1]), ref_more(ts, 6, val_LeadingMul(d, ts, a), b) is Some
    ensures at_LeadingMul(e, ts, a), ref_more(ts, 6, val_LeadingMul(d, ts, a), b) == Some((val_LeadingMul(e, ts, a), a + len_LeadingMul(e)))
    decreases ts.len() - b, 10 - 6int, 1int
{
    let v = val_LeadingMul(d, ts, a);
    if b < ts.len() && ref_op(6, ts[b]) is Some {
        lm_end(ts, 7, b + 1);
        assert(arith_before(ts, b + 1));
        let r = Box::new(cmp_Factor(ts, b + 1));
        let l = Box::new(d);
        let e = match ts[b] { Tok::Star => D_LeadingMul::LeadingMul_Star_Factor(l, r), Tok::Slash => D_LeadingMul::LeadingMul_Slash_Factor(l, r), _ => D_LeadingMul::LeadingMul_Percent_Factor(l, r) };
        more_LeadingMul(ts, e, a, a + len_LeadingMul(e))
    } else { d }
}

pub proof fn cmp_Mul(ts: Seq<Tok>, a: int) -> (d: D_Mul)
    requires plain(ts), ref_p(ts, 6, a) is Some, !is_not(ts, a)
    ensures at_Mul(d, ts, a), ref_p(ts, 6, a) == Some((val_Mul(d, ts, a), a + len_Mul(d)))
    decreases ts.len() - a, 10 - 6int, 0int
{
    lm_end(ts, 7, a);
    let d = D_Mul::Factor(Box::new(cmp_Factor(ts, a)));
    more_Mul(ts, d, a, a + len_Mul(d))
}
pub proof fn more_Mul(ts: Seq<Tok>, d: D_Mul, a: int, b: int) -> (e: D_Mul)
    requires plain(ts), at_Mul(d, ts, a), b == a + len_Mul(d), 0 < b <= ts.len(), operand_end(ts[b - 1]), ref_more(ts, 6, val_Mul(d, ts, a), b) is Some
    ensures at_Mul(e, ts, a), ref_more(ts, 6, val_Mul(d, ts, a), b) == Some((val_Mul(e, ts, a), a + len_Mul(e)))
    decreases ts.len() - b, 10 - 6int, 1int
{
    let v = val_Mul(d, ts, a);
    if b < ts.len() && ref_op(6, ts[b]) is Some {
        lm_end(ts, 7, b + 1);
        assert(arith_before(ts, b + 1));
        let r = Box::new(cmp_Factor(ts, b + 1));
        let l = Box::new(d);
        let e = match ts[b] { Tok::Star => D_Mul::Mul_Star_Factor(l, r), Tok::Slash => D_Mul::Mul_Slash_Factor(l, r), _ => D_Mul::Mul_Percent_Factor(l, r) };
        more_Mul(ts, e, a, a + len_Mul(e))
    } else { d }
}

pub proof fn cmp_Not(ts: Seq<Tok>, a: int) -> (d: D_Not)
    requires plain(ts), ref_p(ts, 7, a) is Some
    ensures at_Not(d, ts, a), ref_p(ts, 7, a) == Some((val_Not(d, ts, a), a + len_Not(d)))
    decreases ts.len() - a, 10 - 7int, 1int
{
    match ts[a] {
        Tok::Bang => { D_Not::Bang_Not(Box::new(cmp_Not(ts, a + 1))) }
        Tok::NotW => { D_Not::NotW_Not(Box::new(cmp_Not(ts, a + 1))) }
        _ => { D_Not::Factor(Box::new(cmp_Factor(ts, a))) }
    }
}
pub proof fn cmp_Factor(ts: Seq<Tok>, a: int) -> (d: D_Factor)
    requires plain(ts), ref_p(ts, 7, a) is Some, !is_not(ts, a)
    ensures at_Factor(d, ts, a), ref_p(ts, 7, a) == Some((val_Factor(d, ts, a), a + len_Factor(d)))
    decreases ts.len() - a, 10 - 7int, 0int
{
    match ts[a] {
        Tok::Minus => { D_Factor::Minus_Not(Box::new(cmp_Not(ts, a + 1))) }
        _ => { D_Factor::Term(Box::new(cmp_Term(ts, a))) }
    }
}
pub proof fn cmp_Term(ts: Seq<Tok>, a: int) -> (d: D_Term)
    requires plain(ts), ref_p(ts, 8, a) is Some
    ensures at_Term(d, ts, a), ref_p(ts, 8, a) == Some((val_Term(d, ts, a), a + len_Term(d)))
    decreases ts.len() - a, 10 - 8int, 1int
{
    assert(0 <= a < ts.len());
    lm_8(ts, a);
    if ts[a] is Num { cmp_Num(ts, a) }
    else if ts[a] == Tok::Var { D_Term::Var }
    else { cmp_Open(ts, a) }
}
pub proof fn cmp_Num(ts: Seq<Tok>, a: int) -> (d: D_Term)
    requires 0 <= a < ts.len(), ts[a] is Num, ref_p(ts, 8, a) is Some
    ensures at_Term(d, ts, a), ref_p(ts, 8, a) == Some((val_Term(d, ts, a), a + len_Term(d)))
{
    hide(num); hide(sp_undec); hide(ref_p);
    lm_8(ts, a);
    let n = D_Num::Digits;
    let d = D_Term::Num(Box::new(n));
    assert(num(ts[a]->Num_0) is Some);
    assert(at_Num(n, ts, a));
    snd_Num(n, ts, a);
    assert(len_Term(d) == 1);
    assert(val_Term(d, ts, a) == Node::Num(val_Num(n, ts, a)));
    assert(ref_p(ts, 8, a) == Some((val_Term(d, ts, a), a + len_Term(d))));
    d
}
pub proof fn cmp_Open(ts: Seq<Tok>, a: int) -> (d: D_Term)
    requires plain(ts), 0 <= a < ts.len(), ts[a] == Tok::Open, ref_p(ts, 8, a) is Some
    ensures at_Term(d, ts, a), ref_p(ts, 8, a) == Some((val_Term(d, ts, a), a + len_Term(d)))
    decreases ts.len() - a, 10 - 8int, 0int
{
    hide(ref_p);
    lm_8(ts, a);
    let k1 = cmp_Expr(ts, a + 1);
    let b = a + 1 + len_Expr(k1);
    let d = D_Term::Open_Expr_Close(Box::new(k1));
    assert(past(ts, a, b) && tok_at(ts, b, Tok::Close));
    assert(len_Term(d) == len_Expr(k1) + 2);
    assert(val_Term(d, ts, a) == val_Expr(k1, ts, a + 1));
    assert(b + 1 == a + len_Term(d));
    assert(ref_p(ts, 8, a) == Some((val_Term(d, ts, a), a + len_Term(d))));
    d
}
pub proof fn cmp_Expr(ts: Seq<Tok>, a: int) -> (d: D_Expr)
    requires plain(ts), ref_p(ts, 0, a) is Some
    ensures at_Expr(d, ts, a), ref_p(ts, 0, a) == Some((val_Expr(d, ts, a), a + len_Expr(d)))
    decreases ts.len() - a, 10int, 0int
{
    lm_end(ts, 1, a);
    let o = cmp_Or(ts, a);
    let b = a + len_Or(o);
    if tok_at(ts, b, Tok::Question) {
        lm_end(ts, 0, b + 1);
        let x = cmp_Expr(ts, b + 1);
        let c = b + 1 + len_Expr(x);
        let y = cmp_Expr(ts, c + 1);
        D_Expr::Or_Question_Expr_Colon_Expr(Box::new(o), Box::new(x), Box::new(y))
    } else { D_Expr::Or(Box::new(o)) }
}

// ---- the theorems

/// A text that the grammar accepts has the tree of the reference
pub proof fn thm_sound(text: Seq<char>)
    ensures sp_formula(text) is Some ==> ref_formula(text) == sp_formula(text)
{
    reveal(crate::grammar::formula);
    lm_terms();
    if sp_formula(text) is Some {
        let ts = lex(terms(), digits(), text)->0;
        let t = sp_formula(text)->0;
        assert(derivable(ts, t));
        let d = choose|d: D_Formula| #[trigger] derives(ts, d, t);
        match d { D_Formula::Expr(k0) => { snd_Expr(*k0, ts, 0); } }
    }
}
/// A text of the language, without `!` or `not` after a binary arithmetic operator, is accepted
pub proof fn thm_complete(text: Seq<char>)
    requires ref_formula(text) is Some, plain(lex(ref_terms(), true, text)->0)
    ensures sp_formula(text) == ref_formula(text)
{
    reveal(crate::grammar::formula);
    lm_terms();
    let ts = lex(ref_terms(), true, text)->0;
    let t = ref_formula(text)->0;
    let d = D_Formula::Expr(Box::new(cmp_Expr(ts, 0)));
    assert(derives(ts, d, t));
    assert(derivable(ts, t));
    thm_sound(text);
}
/// Both: outside the known finding, the grammar is the reference
pub proof fn thm_formula(text: Seq<char>)
    requires lex(ref_terms(), true, text) is Some ==> plain(lex(ref_terms(), true, text)->0)
    ensures sp_formula(text) == ref_formula(text)
{
    thm_sound(text);
    if ref_formula(text) is Some { thm_complete(text); }
}
