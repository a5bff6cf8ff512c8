// C03, the statement itself: every expression, however it is written with parentheses and
// spacing, is read as that expression.
use vstd::prelude::*;
use crate::spec::*;
use crate::formula::*;
use crate::plural::formula::node::{Node, BinOp, UnOp};

/// a way of writing an expression
pub ghost enum W {
    Num(Seq<char>),
    Var,
    Paren(Box<W>),
    Un(Tok, Box<W>),
    Bin(Box<W>, Tok, Box<W>),
    Cond(Box<W>, Box<W>, Box<W>),
}
/// how tight an operator binds
pub open spec fn op_level(t: Tok) -> int {
    match t {
        Tok::OrOr | Tok::OrW => 1,
        Tok::AndAnd | Tok::AndW => 2,
        Tok::EqEq | Tok::Ne => 3,
        Tok::Lt | Tok::Le | Tok::Gt | Tok::Ge => 4,
        Tok::Plus | Tok::Minus => 5,
        Tok::Star | Tok::Slash | Tok::Percent => 6,
        _ => 9,
    }
}
pub open spec fn lev(w: W) -> int {
    match w { W::Num(_) | W::Var | W::Paren(_) => 8, W::Un(_, _) => 7, W::Bin(_, o, _) => op_level(o), W::Cond(_, _, _) => 0 }
}
/// parentheses are where they are needed (or anywhere else): a left operand binds as tight as the
/// operator, a right operand tighter, the operand of a unary operator is unary, a condition is no conditional
pub open spec fn ok(w: W) -> bool decreases w {
    match w {
        W::Num(s) => digit_text(s) && num(s) is Some,
        W::Var => true,
        W::Paren(x) => ok(*x),
        W::Un(t, x) => (t == Tok::Bang || t == Tok::NotW || t == Tok::Minus) && ok(*x) && lev(*x) >= 7,
        W::Bin(l, o, r) => op_level(o) <= 6 && ok(*l) && ok(*r) && lev(*l) >= op_level(o) && lev(*r) > op_level(o),
        W::Cond(t, x, y) => ok(*t) && ok(*x) && ok(*y) && lev(*t) >= 1,
    }
}
pub open spec fn bin_op(t: Tok) -> BinOp { ref_op(op_level(t), t)->0 }
pub open spec fn tree(w: W) -> Node decreases w {
    match w {
        W::Num(s) => Node::Num(num(s)->0),
        W::Var => Node::Var,
        W::Paren(x) => tree(*x),
        W::Un(t, x) => un(if t == Tok::Minus { UnOp::Neg } else { UnOp::Not }, tree(*x)),
        W::Bin(l, o, r) => bin(bin_op(o), tree(*l), tree(*r)),
        W::Cond(t, x, y) => cond(tree(*t), tree(*x), tree(*y)),
    }
}
pub open spec fn write(w: W) -> Seq<Tok> decreases w {
    match w {
        W::Num(s) => seq![Tok::Num(s)],
        W::Var => seq![Tok::Var],
        W::Paren(x) => seq![Tok::Open] + write(*x) + seq![Tok::Close],
        W::Un(t, x) => seq![t] + write(*x),
        W::Bin(l, o, r) => write(*l) + seq![o] + write(*r),
        W::Cond(t, x, y) => write(*t) + seq![Tok::Question] + write(*x) + seq![Tok::Colon] + write(*y),
    }
}
/// w is written at place a
pub open spec fn here(w: W, ts: Seq<Tok>, a: int) -> bool { 0 <= a && a + write(w).len() <= ts.len() && ts.subrange(a, a + write(w).len()) == write(w) }

pub proof fn lm_here(w: W, ts: Seq<Tok>, a: int)
    requires here(w, ts, a)
    ensures
        match w {
            W::Num(s) => write(w).len() == 1 && ts[a] == Tok::Num(s),
            W::Var => write(w).len() == 1 && ts[a] == Tok::Var,
            W::Paren(x) => write(w).len() == write(*x).len() + 2 && ts[a] == Tok::Open && here(*x, ts, a + 1) && ts[a + 1 + write(*x).len()] == Tok::Close,
            W::Un(t, x) => write(w).len() == write(*x).len() + 1 && ts[a] == t && here(*x, ts, a + 1),
            W::Bin(l, o, r) => write(w).len() == write(*l).len() + 1 + write(*r).len() && here(*l, ts, a) && ts[a + write(*l).len()] == o && here(*r, ts, a + write(*l).len() + 1),
            W::Cond(t, x, y) => write(w).len() == write(*t).len() + 2 + write(*x).len() + write(*y).len() && here(*t, ts, a) && ts[a + write(*t).len()] == Tok::Question
                && here(*x, ts, a + write(*t).len() + 1) && ts[a + write(*t).len() + 1 + write(*x).len()] == Tok::Colon && here(*y, ts, a + write(*t).len() + 2 + write(*x).len()),
        },
{
    let n = write(w).len();
    let s = ts.subrange(a, a + n);
    assert forall|i: int| 0 <= i < n implies ts[a + i] == #[trigger] write(w)[i] by { assert(s[i] == ts[a + i]); }
    match w {
        W::Num(s) => { assert(write(w)[0] == Tok::Num(s)); }
        W::Var => { assert(write(w)[0] == Tok::Var); }
        W::Paren(x) => {
            let m = write(*x).len();
            assert(write(w)[0] == Tok::Open);
            assert(write(w)[1int + m] == Tok::Close);
            assert forall|i: int| 0 <= i < m implies ts.subrange(a + 1, a + 1 + m)[i] == write(*x)[i] by { assert(write(w)[i + 1] == write(*x)[i]); }
            assert(ts.subrange(a + 1, a + 1 + m) =~= write(*x));
        }
        W::Un(t, x) => {
            let m = write(*x).len();
            assert(write(w)[0] == t);
            assert forall|i: int| 0 <= i < m implies ts.subrange(a + 1, a + 1 + m)[i] == write(*x)[i] by { assert(write(w)[i + 1] == write(*x)[i]); }
            assert(ts.subrange(a + 1, a + 1 + m) =~= write(*x));
        }
        W::Bin(l, o, r) => {
            let m = write(*l).len();
            let k = write(*r).len();
            assert forall|i: int| 0 <= i < m implies ts.subrange(a, a + m)[i] == write(*l)[i] by { assert(write(w)[i] == write(*l)[i]); }
            assert(ts.subrange(a, a + m) =~= write(*l));
            assert(write(w)[m as int] == o);
            assert forall|i: int| 0 <= i < k implies ts.subrange(a + m + 1, a + m + 1 + k)[i] == write(*r)[i] by { assert(write(w)[m + 1 + i] == write(*r)[i]); }
            assert(ts.subrange(a + m + 1, a + m + 1 + k) =~= write(*r));
        }
        W::Cond(t, x, y) => {
            let m = write(*t).len();
            let k = write(*x).len();
            let q = write(*y).len();
            assert forall|i: int| 0 <= i < m implies ts.subrange(a, a + m)[i] == write(*t)[i] by { assert(write(w)[i] == write(*t)[i]); }
            assert(ts.subrange(a, a + m) =~= write(*t));
            assert(write(w)[m as int] == Tok::Question);
            assert forall|i: int| 0 <= i < k implies ts.subrange(a + m + 1, a + m + 1 + k)[i] == write(*x)[i] by { assert(write(w)[m + 1 + i] == write(*x)[i]); }
            assert(ts.subrange(a + m + 1, a + m + 1 + k) =~= write(*x));
            assert(write(w)[1int + m + k] == Tok::Colon);
            assert forall|i: int| 0 <= i < q implies ts.subrange(a + m + 2 + k, a + m + 2 + k + q)[i] == write(*y)[i] by { assert(write(w)[m + 2 + k + i] == write(*y)[i]); }
            assert(ts.subrange(a + m + 2 + k, a + m + 2 + k + q) =~= write(*y));
        }
    }
}
pub proof fn lm_len(w: W) ensures write(w).len() > 0 decreases w
{
    match w {
        W::Paren(x) | W::Un(_, x) => {}
        W::Bin(l, _, r) => {}
        W::Cond(t, x, y) => {}
        _ => {}
    }
}

/// no binary operator of level k or more at b
pub open spec fn ends(ts: Seq<Tok>, k: int, b: int) -> bool { 0 <= b < ts.len() ==> forall|j: int| j >= k ==> #[trigger] ref_op(j, ts[b]) is None }
/// what may come after a tree of level m
pub open spec fn stops(ts: Seq<Tok>, m: int, b: int) -> bool { ends(ts, m + 1, b) && (m == 0 ==> !tok_at(ts, b, Tok::Question)) }
/// the reference reads the tree of level m
pub open spec fn reads(ts: Seq<Tok>, m: int, a: int, t: Node, b: int) -> bool {
    if 1 <= m <= 6 { ref_p(ts, m, a) == ref_more(ts, m, t, b) } else { ref_p(ts, m, a) == Some((t, b)) }
}
pub proof fn lm_more_ends(ts: Seq<Tok>, m: int, t: Node, b: int)
    requires ends(ts, m, b), 1 <= m <= 6
    ensures ref_more(ts, m, t, b) == Some((t, b))
{}
pub proof fn lm_lift(ts: Seq<Tok>, m: int, a: int, t: Node, b: int)
    requires 0 <= m < 8, 0 <= a < b <= ts.len(), reads(ts, m + 1, a, t, b), stops(ts, m, b), m == 7 ==> ts[a] is Num || ts[a] == Tok::Var || ts[a] == Tok::Open
    ensures reads(ts, m, a, t, b)
{
    hide(num);
    if m < 6 { lm_more_ends(ts, m + 1, t, b); }
}
/// The reference reads a written expression as its tree
pub proof fn thm_reads(w: W, ts: Seq<Tok>, a: int, m: int)
    requires ok(w), here(w, ts, a), 0 <= m <= lev(w), m <= 8, stops(ts, m, a + write(w).len())
    ensures reads(ts, m, a, tree(w), a + write(w).len())
    decreases w, 10 - m
{
    hide(num);
    let b = a + write(w).len();
    lm_here(w, ts, a);
    lm_len(w);
    if m < lev(w) {
        thm_reads(w, ts, a, m + 1);
        lm_lift(ts, m, a, tree(w), b);
    } else {
        match w {
            W::Num(s) => { crate::formula::lm_8(ts, a); }
            W::Var => { crate::formula::lm_8(ts, a); }
            W::Paren(x) => {
                lm_len(*x);
                thm_reads(*x, ts, a + 1, 0);
                crate::formula::lm_8(ts, a);
            }
            W::Un(t, x) => { lm_len(*x); thm_reads(*x, ts, a + 1, 7); }
            W::Bin(l, o, r) => {
                let c = a + write(*l).len();
                lm_len(*l); lm_len(*r);
                thm_reads(*l, ts, a, m);
                thm_reads(*r, ts, c + 1, m + 1);
                if m < 6 { lm_more_ends(ts, m + 1, tree(*r), b); }
            }
            W::Cond(t, x, y) => {
                let c = a + write(*t).len();
                let d = c + 1 + write(*x).len();
                lm_len(*t); lm_len(*x); lm_len(*y);
                thm_reads(*t, ts, a, 1);
                lm_more_ends(ts, 1, tree(*t), c);
                thm_reads(*x, ts, c + 1, 0);
                thm_reads(*y, ts, d + 1, 0);
            }
        }
    }
}
/// as a whole text
pub proof fn thm_tokens(w: W)
    requires ok(w)
    ensures ref_p(write(w), 0, 0) == Some((tree(w), write(w).len() as int))
{
    assert(write(w).subrange(0, write(w).len() as int) =~= write(w));
    thm_reads(w, write(w), 0, 0);
}

// ---- spelling

/// the text of a token
pub open spec fn tok_text(t: Tok) -> Seq<char> {
    match t {
        Tok::AndW => seq!['a', 'n', 'd'],
        Tok::NotW => seq!['n', 'o', 't'],
        Tok::Ne => seq!['!', '='],
        Tok::AndAnd => seq!['&', '&'],
        Tok::Le => seq!['<', '='],
        Tok::EqEq => seq!['=', '='],
        Tok::Ge => seq!['>', '='],
        Tok::OrW => seq!['o', 'r'],
        Tok::OrOr => seq!['|', '|'],
        Tok::Bang => seq!['!'],
        Tok::Percent => seq!['%'],
        Tok::Open => seq!['('],
        Tok::Close => seq![')'],
        Tok::Star => seq!['*'],
        Tok::Plus => seq!['+'],
        Tok::Minus => seq!['-'],
        Tok::Slash => seq!['/'],
        Tok::Colon => seq![':'],
        Tok::Lt => seq!['<'],
        Tok::Gt => seq!['>'],
        Tok::Question => seq!['?'],
        Tok::Var => seq!['n'],
        Tok::Num(s) => s,
    }
}
pub open spec fn term_no(t: Tok) -> int {
    match t { Tok::AndW => 0, Tok::NotW => 1, Tok::Ne => 2, Tok::AndAnd => 3, Tok::Le => 4, Tok::EqEq => 5, Tok::Ge => 6, Tok::OrW => 7, Tok::OrOr => 8, Tok::Bang => 9, Tok::Percent => 10, Tok::Open => 11, Tok::Close => 12, Tok::Star => 13, Tok::Plus => 14, Tok::Minus => 15, Tok::Slash => 16, Tok::Colon => 17, Tok::Lt => 18, Tok::Gt => 19, Tok::Question => 20, Tok::Var => 21, _ => 22 }
}
pub proof fn lm_term_texts()
    ensures ref_terms().len() == 22, forall|i: int| 0 <= i < 22 ==> (#[trigger] ref_terms()[i]).0 == tok_text(ref_terms()[i].1) && term_no(ref_terms()[i].1) == i
{
    reveal_strlit("and"); assert(ref_terms()[0].0 =~= seq!['a', 'n', 'd']);
    reveal_strlit("not"); assert(ref_terms()[1].0 =~= seq!['n', 'o', 't']);
    reveal_strlit("!="); assert(ref_terms()[2].0 =~= seq!['!', '=']);
    reveal_strlit("&&"); assert(ref_terms()[3].0 =~= seq!['&', '&']);
    reveal_strlit("<="); assert(ref_terms()[4].0 =~= seq!['<', '=']);
    reveal_strlit("=="); assert(ref_terms()[5].0 =~= seq!['=', '=']);
    reveal_strlit(">="); assert(ref_terms()[6].0 =~= seq!['>', '=']);
    reveal_strlit("or"); assert(ref_terms()[7].0 =~= seq!['o', 'r']);
    reveal_strlit("||"); assert(ref_terms()[8].0 =~= seq!['|', '|']);
    reveal_strlit("!"); assert(ref_terms()[9].0 =~= seq!['!']);
    reveal_strlit("%"); assert(ref_terms()[10].0 =~= seq!['%']);
    reveal_strlit("("); assert(ref_terms()[11].0 =~= seq!['(']);
    reveal_strlit(")"); assert(ref_terms()[12].0 =~= seq![')']);
    reveal_strlit("*"); assert(ref_terms()[13].0 =~= seq!['*']);
    reveal_strlit("+"); assert(ref_terms()[14].0 =~= seq!['+']);
    reveal_strlit("-"); assert(ref_terms()[15].0 =~= seq!['-']);
    reveal_strlit("/"); assert(ref_terms()[16].0 =~= seq!['/']);
    reveal_strlit(":"); assert(ref_terms()[17].0 =~= seq![':']);
    reveal_strlit("<"); assert(ref_terms()[18].0 =~= seq!['<']);
    reveal_strlit(">"); assert(ref_terms()[19].0 =~= seq!['>']);
    reveal_strlit("?"); assert(ref_terms()[20].0 =~= seq!['?']);
    reveal_strlit("n"); assert(ref_terms()[21].0 =~= seq!['n']);
}
pub proof fn lm_term(t: Tok)
    requires !(t is Num)
    ensures 0 <= term_no(t) < 22, ref_terms()[term_no(t)] == (tok_text(t), t)
{ lm_term_texts(); }
/// what may follow the text of a token, so that the token ends there
pub open spec fn parts(t: Tok, r: Seq<char>) -> bool {
    r.len() > 0 ==> (t is Num ==> !sp_is_digit(r[0])) && (t == Tok::Bang || t == Tok::Lt || t == Tok::Gt ==> r[0] != '=')
        && (t == Tok::Var ==> !(r.len() > 1 && r[0] == 'o' && r[1] == 't'))
}
pub proof fn lm_skip(s: Seq<char>, i: int, k: int)
    requires 0 <= i <= k < ref_terms().len(), forall|j: int| i <= j < k ==> !(#[trigger] ref_terms()[j]).0.is_prefix_of(s), ref_terms()[k].0.is_prefix_of(s)
    ensures lex1(ref_terms().skip(i), true, s) == Some((ref_terms()[k].0.len() as int, ref_terms()[k].1))
    decreases k - i
{
    assert(ref_terms().skip(i)[0] == ref_terms()[i]);
    if i < k { assert(ref_terms().skip(i).skip(1) =~= ref_terms().skip(i + 1)); lm_skip(s, i + 1, k); }
}
pub proof fn lm_none(s: Seq<char>, i: int)
    requires 0 <= i <= ref_terms().len(), forall|j: int| i <= j < ref_terms().len() ==> !(#[trigger] ref_terms()[j]).0.is_prefix_of(s)
    ensures lex1(ref_terms().skip(i), true, s) == lex1(Seq::empty(), true, s)
    decreases ref_terms().len() - i
{
    if i < ref_terms().len() {
        assert(ref_terms().skip(i)[0] == ref_terms()[i]);
        assert(ref_terms().skip(i).skip(1) =~= ref_terms().skip(i + 1));
        lm_none(s, i + 1);
    } else { assert(ref_terms().skip(i) =~= Seq::empty()); }
}
/// a prefix, character by character
pub proof fn lm_prefix(t: Tok, s: Seq<char>)
    requires !(t is Num), tok_text(t).is_prefix_of(s)
    ensures s.len() >= tok_text(t).len(), forall|i: int| 0 <= i < tok_text(t).len() ==> s[i] == #[trigger] tok_text(t)[i]
{}
pub proof fn lm_only(t: Tok, u: Tok, r: Seq<char>)
    requires !(t is Num), !(u is Num), term_no(u) < term_no(t), parts(t, r), tok_text(u).is_prefix_of(tok_text(t) + r)
    ensures false
{
    let s = tok_text(t) + r;
    lm_prefix(u, s);
    assert(s[0] == tok_text(t)[0] && s[0] == tok_text(u)[0]);
    assert(tok_text(t).len() > 1 ==> s[1] == tok_text(t)[1]);
    assert(tok_text(t).len() == 1 && r.len() > 0 ==> s[1] == r[0]);
    assert(tok_text(t).len() == 1 && r.len() > 1 ==> s[2] == r[1]);
    assert(tok_text(u).len() > 1 ==> s[1] == tok_text(u)[1]);
    assert(tok_text(u).len() > 2 ==> s[2] == tok_text(u)[2]);
}
pub proof fn lm_run(s: Seq<char>, r: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> sp_is_digit(#[trigger] s[i]), r.len() > 0 ==> !sp_is_digit(r[0])
    ensures sp_run_len(s + r, |c: char| sp_is_digit(c)) == s.len()
    decreases s.len()
{
    if s.len() > 0 {
        assert((s + r)[0] == s[0]);
        assert((s + r).skip(1) =~= s.skip(1) + r);
        assert forall|i: int| 0 <= i < s.skip(1).len() implies sp_is_digit(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        lm_run(s.skip(1), r);
    } else { assert(s + r =~= r); }
}
/// The text of a token is read as that token
pub proof fn lm_lex1(t: Tok, r: Seq<char>)
    requires parts(t, r), t is Num ==> digit_text(t->Num_0)
    ensures lex1(ref_terms(), true, tok_text(t) + r) == Some((tok_text(t).len() as int, t)), tok_text(t).len() > 0, !sp_ws(tok_text(t)[0])
{
    let s = tok_text(t) + r;
    lm_term_texts();
    assert(ref_terms().skip(0) =~= ref_terms());
    if t is Num {
        let d = t->Num_0;
        assert(sp_is_digit(d[0]));
        assert(s[0] == d[0]);
        assert forall|j: int| 0 <= j < ref_terms().len() implies !(#[trigger] ref_terms()[j]).0.is_prefix_of(s) by {
            let u = ref_terms()[j].1;
            if tok_text(u).is_prefix_of(s) { lm_prefix(u, s); assert(s[0] == tok_text(u)[0]); }
        }
        lm_none(s, 0);
        lm_run(d, r);
        assert(s.take(d.len() as int) =~= d);
    } else {
        lm_term(t);
        assert forall|j: int| 0 <= j < term_no(t) implies !(#[trigger] ref_terms()[j]).0.is_prefix_of(s) by {
            let u = ref_terms()[j].1;
            if tok_text(u).is_prefix_of(s) { lm_only(t, u, r); }
        }
        assert(tok_text(t).is_prefix_of(s)) by { assert(s.take(tok_text(t).len() as int) =~= tok_text(t)); assert(s.subrange(0, tok_text(t).len() as int) =~= tok_text(t)); }
        lm_skip(s, 0, term_no(t));
    }
}

/// tokens with white space (perhaps none) before, between and after them
pub open spec fn spell(ts: Seq<Tok>, sp: Seq<Seq<char>>) -> Seq<char> decreases ts.len() {
    if ts.len() == 0 { sp[0] } else { sp[0] + (tok_text(ts[0]) + spell(ts.skip(1), sp.skip(1))) }
}
/// two tokens that need a space between them
pub open spec fn clash(t: Tok, u: Tok) -> bool { (t is Num && u is Num) || ((t == Tok::Bang || t == Tok::Lt || t == Tok::Gt) && u == Tok::EqEq) }
pub open spec fn spaced(ts: Seq<Tok>, sp: Seq<Seq<char>>) -> bool {
    &&& sp.len() == ts.len() + 1
    &&& forall|i: int| 0 <= i < sp.len() ==> sp_all_ws(#[trigger] sp[i])
    &&& forall|i: int| 0 <= i < ts.len() && (#[trigger] ts[i]) is Num ==> digit_text(ts[i]->Num_0)
    &&& forall|i: int| 0 < i < ts.len() && (#[trigger] sp[i]).len() == 0 ==> !clash(ts[i - 1], ts[i])
}
pub proof fn lm_lex_ws(w: Seq<char>, s: Seq<char>)
    requires sp_all_ws(w)
    ensures lex(ref_terms(), true, w + s) == lex(ref_terms(), true, s)
    decreases w.len()
{
    if w.len() > 0 {
        assert(sp_ws(w[0]));
        assert((w + s)[0] == w[0]);
        assert((w + s).skip(1) =~= w.skip(1) + s);
        assert(sp_all_ws(w.skip(1))) by { assert forall|i: int| 0 <= i < w.skip(1).len() implies sp_ws(#[trigger] w.skip(1)[i]) by { assert(w.skip(1)[i] == w[i + 1]); } }
        lm_lex_ws(w.skip(1), s);
    } else { assert(w + s =~= s); }
}
/// Spelled tokens are read as those tokens
pub proof fn thm_lex(ts: Seq<Tok>, sp: Seq<Seq<char>>)
    requires spaced(ts, sp)
    ensures lex(ref_terms(), true, spell(ts, sp)) == Some(ts)
    decreases ts.len()
{
    if ts.len() == 0 {
        assert(sp_all_ws(sp[0]));
        assert(sp[0] + Seq::<char>::empty() =~= sp[0]);
        lm_lex_ws(sp[0], Seq::empty());
        assert(ts =~= Seq::empty());
    } else {
        let t = ts[0];
        let us = ts.skip(1);
        let sq = sp.skip(1);
        assert(spaced(us, sq)) by {
            assert forall|i: int| 0 <= i < sq.len() implies sp_all_ws(#[trigger] sq[i]) by { assert(sq[i] == sp[i + 1]); }
            assert forall|i: int| 0 <= i < us.len() && (#[trigger] us[i]) is Num implies digit_text(us[i]->Num_0) by { assert(us[i] == ts[i + 1]); }
            assert forall|i: int| 0 < i < us.len() && (#[trigger] sq[i]).len() == 0 implies !clash(us[i - 1], us[i]) by { assert(sq[i] == sp[i + 1]); assert(us[i] == ts[i + 1] && us[i - 1] == ts[i]); }
        }
        thm_lex(us, sq);
        let r = spell(us, sq);
        assert(sp_all_ws(sp[0]));
        lm_lex_ws(sp[0], tok_text(t) + r);
        lm_follow(t, us, sq);
        lm_lex1(t, r);
        assert((tok_text(t) + r)[0] == tok_text(t)[0]);
        assert((tok_text(t) + r).skip(tok_text(t).len() as int) =~= r);
        assert(seq![t] + us =~= ts);
    }
}
/// what follows a token in a spelling
pub proof fn lm_follow(t: Tok, us: Seq<Tok>, sq: Seq<Seq<char>>)
    requires spaced(us, sq), us.len() > 0 && sq[0].len() == 0 ==> !clash(t, us[0])
    ensures parts(t, spell(us, sq))
{
    let r = spell(us, sq);
    assert(sp_all_ws(sq[0]));
    if sq[0].len() > 0 {
        assert(r[0] == sq[0][0]);
        assert(sp_ws(sq[0][0]));
    } else if us.len() > 0 {
        let u = us[0];
        let q = spell(us.skip(1), sq.skip(1));
        assert(r =~= tok_text(u) + q);
        if u is Num { assert(digit_text(us[0]->Num_0)); assert(sp_is_digit(u->Num_0[0])); assert(r[0] == u->Num_0[0]); }
        else {
            assert(r[0] == tok_text(u)[0]);
            if r[0] == 'o' { assert(u == Tok::OrW); assert(r[1] == tok_text(u)[1]); }
        }
    }
}

// ---- an expression needs no spaces

pub open spec fn operand_first(t: Tok) -> bool { t is Num || t == Tok::Var || t == Tok::Open || t == Tok::Bang || t == Tok::NotW || t == Tok::Minus }
pub open spec fn operand_last(t: Tok) -> bool { t is Num || t == Tok::Var || t == Tok::Close }
pub open spec fn tidy(ts: Seq<Tok>) -> bool {
    &&& ts.len() > 0 && operand_first(ts[0]) && operand_last(ts.last())
    &&& forall|i: int| 0 < i < ts.len() ==> !clash(ts[i - 1], #[trigger] ts[i])
    &&& forall|i: int| 0 <= i < ts.len() && (#[trigger] ts[i]) is Num ==> digit_text(ts[i]->Num_0)
}
pub proof fn lm_join(a: Seq<Tok>, o: Tok, b: Seq<Tok>)
    requires tidy(a), tidy(b), !operand_last(o)
    ensures tidy(a + seq![o] + b)
{
    let s = a + seq![o] + b;
    let n = a.len() as int;
    assert(s[n - 1] == a.last());
    assert(s[n] == o);
    assert(s[n + 1] == b[0]);
    assert forall|i: int| 0 < i < s.len() implies !clash(s[i - 1], #[trigger] s[i]) by {
        if i < n { assert(s[i] == a[i] && s[i - 1] == a[i - 1]); }
        else if i == n { }
        else if i == n + 1 { }
        else { assert(s[i] == b[i - n - 1] && s[i - 1] == b[i - n - 2]); }
    }
    assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Num implies digit_text(s[i]->Num_0) by {
        if i < n { assert(s[i] == a[i]); } else if i > n { assert(s[i] == b[i - n - 1]); }
    }
}
pub proof fn lm_before(o: Tok, b: Seq<Tok>)
    requires tidy(b), operand_first(o), !operand_last(o)
    ensures tidy(seq![o] + b)
{
    let s = seq![o] + b;
    assert(s[1] == b[0]);
    assert(s.last() == b.last());
    assert forall|i: int| 0 < i < s.len() implies !clash(s[i - 1], #[trigger] s[i]) by { if i > 1 { assert(s[i] == b[i - 1] && s[i - 1] == b[i - 2]); } }
    assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Num implies digit_text(s[i]->Num_0) by { if i > 0 { assert(s[i] == b[i - 1]); } }
}
pub proof fn lm_after(b: Seq<Tok>)
    requires tidy(b)
    ensures tidy(b + seq![Tok::Close])
{
    let s = b + seq![Tok::Close];
    assert(s[0] == b[0]);
    assert forall|i: int| 0 < i < s.len() implies !clash(s[i - 1], #[trigger] s[i]) by { if i < b.len() { assert(s[i] == b[i] && s[i - 1] == b[i - 1]); } }
    assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Num implies digit_text(s[i]->Num_0) by { if i < b.len() { assert(s[i] == b[i]); } }
}
pub proof fn lm_tidy(w: W)
    requires ok(w)
    ensures tidy(write(w))
    decreases w
{
    hide(num);
    match w {
        W::Num(s) => {}
        W::Var => {}
        W::Paren(x) => { lm_tidy(*x); lm_before(Tok::Open, write(*x)); lm_after(seq![Tok::Open] + write(*x)); }
        W::Un(t, x) => { lm_tidy(*x); lm_before(t, write(*x)); }
        W::Bin(l, o, r) => { lm_tidy(*l); lm_tidy(*r); lm_join(write(*l), o, write(*r)); }
        W::Cond(t, x, y) => {
            lm_tidy(*t); lm_tidy(*x); lm_tidy(*y);
            lm_join(write(*t), Tok::Question, write(*x));
            lm_join(write(*t) + seq![Tok::Question] + write(*x), Tok::Colon, write(*y));
        }
    }
}
/// An expression, written with any parentheses that keep its shape and with any spacing, is read as that expression
pub proof fn thm_written(w: W, sp: Seq<Seq<char>>)
    requires ok(w), sp.len() == write(w).len() + 1, forall|i: int| 0 <= i < sp.len() ==> sp_all_ws(#[trigger] sp[i])
    ensures ref_formula(spell(write(w), sp)) == Some(tree(w)), lex(ref_terms(), true, spell(write(w), sp)) == Some(write(w))
{
    lm_tidy(w);
    thm_lex(write(w), sp);
    thm_tokens(w);
}
