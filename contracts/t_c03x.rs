// C03 from the text of a plural definition to the tree: the contract of PluralForms (sp_formula_of)
// gives every expression, however written, its tree; outside the known finding.
use vstd::prelude::*;
use crate::spec::*;
use crate::formula::*;
use crate::t_c03::{plain, thm_formula, thm_sound};
use crate::t_c03w::{W, ok, tree, write, spell, spaced, tok_text, thm_written, thm_tokens, lm_len, lm_tidy};
use crate::t_c18::{start_space, end_space};
use crate::plural::formula::node::Node;

/// the text of a token has no white space
proof fn lm_dark(t: Tok, i: int)
    requires t is Num ==> digit_text(t->Num_0), 0 <= i < tok_text(t).len()
    ensures !sp_ws(tok_text(t)[i])
{}
proof fn lm_some(t: Tok)
    requires t is Num ==> digit_text(t->Num_0)
    ensures tok_text(t).len() > 0
{}
/// the space after the last token stands at the end
proof fn lm_tail(ts: Seq<Tok>, sp: Seq<Seq<char>>)
    requires spaced(ts, sp), ts.len() > 0
    ensures
        spell(ts, sp) == spell(ts, sp.update(ts.len() as int, Seq::empty())) + sp[ts.len() as int],
        spell(ts, sp.update(ts.len() as int, Seq::empty())).len() > 0,
        !sp_ws(spell(ts, sp.update(ts.len() as int, Seq::empty())).last()),
    decreases ts.len()
{
    let n = ts.len() as int;
    let e = Seq::<char>::empty();
    let sq = sp.update(n, e);
    let x = tok_text(ts[0]);
    lm_some(ts[0]);
    lm_dark(ts[0], x.len() - 1);
    assert(sq.skip(1) =~= sp.skip(1).update(n - 1, e));
    if n > 1 {
        let us = ts.skip(1);
        assert(spaced(us, sp.skip(1))) by {
            assert forall|i: int| 0 <= i < sp.skip(1).len() implies sp_all_ws(#[trigger] sp.skip(1)[i]) by { assert(sp.skip(1)[i] == sp[i + 1]); }
            assert forall|i: int| 0 <= i < us.len() && (#[trigger] us[i]) is Num implies digit_text(us[i]->Num_0) by { assert(us[i] == ts[i + 1]); }
            assert forall|i: int| 0 < i < us.len() && (#[trigger] sp.skip(1)[i]).len() == 0 implies !crate::t_c03w::clash(us[i - 1], us[i]) by { assert(sp.skip(1)[i] == sp[i + 1]); assert(us[i] == ts[i + 1]); assert(us[i - 1] == ts[i]); }
        }
        lm_tail(us, sp.skip(1));
        let r = spell(us, sq.skip(1));
        assert(sp.skip(1)[n - 1] == sp[n]);
        assert(sq[0] == sp[0]);
        assert(spell(ts, sp) == sp[0] + (x + spell(us, sp.skip(1))));
        assert(spell(ts, sq) == sp[0] + (x + r));
        assert(sp[0] + (x + (r + sp[n])) =~= sp[0] + (x + r) + sp[n]);
        assert((sp[0] + (x + r)).last() == r.last());
    } else {
        let us = ts.skip(1);
        assert(us.len() == 0);
        assert(spell(us, sp.skip(1)) == sp.skip(1)[0]);
        assert(spell(us, sq.skip(1)) == sq.skip(1)[0]);
        assert(sp.skip(1)[0] == sp[1] && sq.skip(1)[0] == e);
        assert(spell(ts, sp) == sp[0] + (x + sp[1]));
        assert(sq[0] == sp[0]);
        assert(spell(ts, sq) == sp[0] + (x + e));
        assert(sp[0] + (x + sp[1]) =~= sp[0] + (x + e) + sp[1]);
        assert((sp[0] + (x + e)).last() == x.last());
    }
}
/// trimming takes the outer space away and nothing else
pub proof fn lm_trim(ts: Seq<Tok>, sp: Seq<Seq<char>>)
    requires spaced(ts, sp), ts.len() > 0
    ensures
        sp_trim(spell(ts, sp)) == spell(ts, sp.update(0, Seq::empty()).update(ts.len() as int, Seq::empty())),
        sp_trim(spell(ts, sp)).len() > 0,
{
    let n = ts.len() as int;
    let e = Seq::<char>::empty();
    let s0 = sp.update(0, e);
    let s1 = s0.update(n, e);
    let x = tok_text(ts[0]);
    assert(sp.skip(1) =~= s0.skip(1));
    let r = spell(ts.skip(1), sp.skip(1));
    assert(spell(ts, sp) == sp[0] + (x + r));
    assert(spell(ts, s0) == e + (x + r));
    assert(e + (x + r) =~= x + r);
    lm_some(ts[0]);
    lm_dark(ts[0], 0);
    start_space(sp[0], x + r);
    assert((x + r)[0] == x[0]);
    assert(sp_trim_start(spell(ts, sp)) == spell(ts, s0));
    assert(spaced(ts, s0)) by {
        assert forall|i: int| 0 <= i < s0.len() implies sp_all_ws(#[trigger] s0[i]) by { if i > 0 { assert(s0[i] == sp[i]); } }
        assert forall|i: int| 0 < i < n && (#[trigger] s0[i]).len() == 0 implies !crate::t_c03w::clash(ts[i - 1], ts[i]) by { assert(s0[i] == sp[i]); }
    }
    lm_tail(ts, s0);
    assert(s0[n] == sp[n]);
    end_space(spell(ts, s1), sp[n]);
}
/// An expression written with any parentheses that keep its shape and with any spacing, before, between
/// and after its parts, is read as that expression
pub proof fn thm_expression(w: W, sp: Seq<Seq<char>>)
    requires ok(w), plain(write(w)), sp.len() == write(w).len() + 1, forall|i: int| 0 <= i < sp.len() ==> sp_all_ws(#[trigger] sp[i])
    ensures sp_formula_of(spell(write(w), sp)) == Some(tree(w))
{
    let ts = write(w);
    let n = ts.len() as int;
    let sq = sp.update(0, Seq::empty()).update(n, Seq::empty());
    lm_len(w);
    lm_tidy(w);
    assert forall|i: int| 0 <= i < sq.len() implies sp_all_ws(#[trigger] sq[i]) by { if 0 < i < n { assert(sq[i] == sp[i]); } }
    lm_trim(ts, sp);
    thm_written(w, sq);
    thm_formula(spell(ts, sq));
}
/// No text means `n`
pub proof fn thm_nothing(w: Seq<char>)
    requires sp_all_ws(w)
    ensures sp_formula_of(w) == Some(Node::Var)
{
    start_space(w, Seq::empty());
    assert(w + Seq::<char>::empty() =~= w);
}
/// What is read is never another expression than the one written, whatever the text: the tree of any text
/// that is accepted is the tree of the reference
pub proof fn thm_never_other(text: Seq<char>)
    ensures sp_formula_of(text) matches Some(t) ==> sp_trim(text).len() == 0 || ref_formula(sp_trim(text)) == Some(t)
{
    thm_sound(sp_trim(text));
}
