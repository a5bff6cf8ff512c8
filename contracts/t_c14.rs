// C14 as lemmas over the contracts of the reader (sp_all, sp_lines)
use vstd::prelude::*;
use crate::shim::*;
use crate::spec::*;
use crate::lemmas::*;

/// what sp_lines gives: no blank lines, and an error only at the end
pub open spec fn lines_wf(rem: Rem) -> bool {
    forall|i: int| 0 <= i < rem.len() ==> #[trigger] rem[i] != Ok::<SLine, SError>(SLine::Blank) && (rem[i] is Err ==> i == rem.len() - 1)
}
pub proof fn lines_are_wf(l: Seq<Result<String, crate::shim::IoError>>, n: int)
    ensures lines_wf(sp_lines(l, n))
    decreases l.len()
{
    if l.len() > 0 {
        match l[0] {
            Err(_) => {}
            Ok(s) => {
                lines_are_wf(l.skip(1), n + 1);
                let r = sp_lines(l.skip(1), n + 1);
                match sp_class(s@, n) {
                    Err(_) => {}
                    Ok(SLine::Blank) => {}
                    Ok(x) => {
                        let q = seq![Ok::<SLine, SError>(x)] + r;
                        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] != Ok::<SLine, SError>(SLine::Blank) && (q[i] is Err ==> i == q.len() - 1) by { if i > 0 { assert(q[i] == r[i - 1]); } }
                    }
                }
            }
        }
    }
}
/// r is what is left of rem after some lines
pub open spec fn tail(rem: Rem, r: Rem) -> bool { r.len() <= rem.len() && r == rem.skip(rem.len() - r.len()) }
/// the step went on to r; when it met the error at the end, it reports it (then nothing is left)
pub open spec fn step<A>(rem: Rem, a: Result<A, SError>, r: Rem) -> bool {
    &&& tail(rem, r)
    &&& lines_wf(r)
    &&& (a is Ok && rem.len() > 0 && rem.last() is Err ==> r.len() > 0)
    &&& (r.len() > 0 ==> r.last() == rem.last())
}
proof fn tail_wf(rem: Rem, r: Rem)
    requires tail(rem, r), lines_wf(rem)
    ensures lines_wf(r), r.len() > 0 ==> r.last() == rem.last()
{
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != Ok::<SLine, SError>(SLine::Blank) && (r[i] is Err ==> i == r.len() - 1) by { assert(r[i] == rem[i + rem.len() - r.len()]); }
}
proof fn tail_tail(rem: Rem, q: Rem, r: Rem)
    requires tail(rem, q), tail(q, r)
    ensures tail(rem, r)
{
    assert(r =~= rem.skip(rem.len() - r.len()));
}
proof fn tail1(rem: Rem)
    requires lines_wf(rem)
    ensures tail(rem, rem), rem.len() > 0 ==> tail(rem, rem.skip(1)) && lines_wf(rem.skip(1)) && (rem[0] is Ok && rem.last() is Err ==> rem.len() > 1) && (rem.len() > 1 ==> rem.skip(1).last() == rem.last())
{
    assert(rem.skip(0) =~= rem);
    if rem.len() > 0 { tail_wf(rem, rem.skip(1)); }
}
proof fn conts(rem: Rem, p: Seq<char>, acc: Seq<char>)
    requires lines_wf(rem)
    ensures step(rem, sp_conts(rem, p, acc).0, sp_conts(rem, p, acc).1)
    decreases rem.len()
{
    tail1(rem);
    if rem.len() > 0 {
        match rem[0] {
            Ok(SLine::Continuation(_, q, s)) => if p == q {
                conts(rem.skip(1), p, acc + s);
                tail_tail(rem, rem.skip(1), sp_conts(rem, p, acc).1);
            },
            _ => {}
        }
    }
}
proof fn field(rem: Rem, tag: Seq<char>, obs: bool)
    requires lines_wf(rem)
    ensures step(rem, sp_field(rem, tag, obs).0, sp_field(rem, tag, obs).1)
{
    tail1(rem);
    if rem.len() > 0 {
        match rem[0] {
            Ok(SLine::Message(_, p, t, s)) => if t == tag && sp_tilde(p) == obs {
                conts(rem.skip(1), p, s);
                tail_tail(rem, rem.skip(1), sp_field(rem, tag, obs).1);
            },
            _ => {}
        }
    }
}
proof fn expected(rem: Rem, e: Seq<char>)
    requires lines_wf(rem)
    ensures step(rem, sp_expected(rem, e).0, sp_expected(rem, e).1), sp_expected(rem, e).0 is Ok ==> rem.len() == 0
{
    tail1(rem);
}
proof fn plurals(rem: Rem, obs: bool, i: int, count: int, acc: Seq<Seq<char>>)
    requires lines_wf(rem)
    ensures step(rem, sp_plurals(rem, obs, i, count, acc).0, sp_plurals(rem, obs, i, count, acc).1)
    decreases count - i
{
    tail1(rem);
    if i < count {
        let (a, r) = sp_field(rem, sp_msgstr(i), obs);
        field(rem, sp_msgstr(i), obs);
        match a {
            Ok(Some(v)) => {
                plurals(r, obs, i + 1, count, acc.push(v));
                tail_tail(rem, r, sp_plurals(rem, obs, i, count, acc).1);
            }
            _ => {}
        }
    }
}
proof fn message(rem: Rem, obs: bool, forms: Option<SForms>, id: Option<Seq<char>>, pl: Option<Seq<char>>)
    requires lines_wf(rem)
    ensures ({
        let (a, r) = sp_new_message(rem, obs, forms, id, pl);
        step(rem, a, r) && (a is Ok && a->Ok_0 is None ==> r.len() == 0)
    })
{
    tail1(rem);
    match (id, pl) {
        (Some(_), None) => {
            field(rem, "msgstr"@, obs);
            let r = sp_field(rem, "msgstr"@, obs).1;
            expected(r, "msgstr"@);
            tail_tail(rem, r, sp_expected(r, "msgstr"@).1);
        }
        (Some(_), Some(_)) => {
            plurals(rem, obs, 0, sp_count(forms), Seq::empty());
            let r = sp_plurals(rem, obs, 0, sp_count(forms), Seq::empty()).1;
            expected(r, "msgstr[0]"@);
            tail_tail(rem, r, sp_expected(r, "msgstr[0]"@).1);
        }
        _ => {}
    }
}
proof fn fields(r0: Rem, first: bool, forms: Option<SForms>, u: SUnit)
    requires lines_wf(r0)
    ensures ({
        let (a, r) = sp_fields(r0, first, forms, u);
        step(r0, a, r) && (a is Ok && a->Ok_0 is None ==> r.len() == 0)
    })
{
    let obs = u.obsolete;
    tail1(r0);
    let (a, r1) = sp_field(r0, "|msgctxt"@, obs);
    field(r0, "|msgctxt"@, obs);
    let (b, r2) = sp_field(r1, "|msgid"@, obs);
    field(r1, "|msgid"@, obs);
    tail_tail(r0, r1, r2);
    if a is Ok && b is Ok {
        let (c, r3) = if b->Ok_0 is Some { sp_field(r2, "|msgid_plural"@, obs) } else { (Ok(None), r2) };
        tail1(r2);
        field(r2, "|msgid_plural"@, obs);
        tail_tail(r0, r2, r3);
        let (d, r4) = sp_field(r3, "msgctxt"@, obs);
        field(r3, "msgctxt"@, obs);
        tail_tail(r0, r3, r4);
        let (f, r5) = sp_field(r4, "msgid"@, obs);
        field(r4, "msgid"@, obs);
        tail_tail(r0, r4, r5);
        if c is Ok && d is Ok && f is Ok {
            expected(r5, "msgid"@);
            tail_tail(r0, r5, sp_expected(r5, "msgid"@).1);
            let (g, r6) = sp_field(r5, "msgid_plural"@, obs);
            field(r5, "msgid_plural"@, obs);
            tail_tail(r0, r5, r6);
            if g is Ok {
                message(r6, obs, forms, f->Ok_0, g->Ok_0);
                tail_tail(r0, r6, sp_new_message(r6, obs, forms, f->Ok_0, g->Ok_0).1);
            }
        }
    }
}
proof fn comments(rem: Rem, u: SUnit)
    requires lines_wf(rem)
    ensures ({
        let (a, r) = sp_comments(rem, u);
        step(rem, a, r) && (a is Ok && r.len() > 0 ==> r[0] is Ok)
    })
    decreases rem.len()
{
    tail1(rem);
    if rem.len() > 0 {
        match rem[0] {
            Ok(SLine::Comment(_, c, s)) => {
                comments(rem.skip(1), sp_apply(u, c, s));
                tail_tail(rem, rem.skip(1), sp_comments(rem, u).1);
            }
            _ => {}
        }
    }
}
/// one step of the reader: it goes on in the lines, reports the error if it met it, and has nothing to give only at the end
pub proof fn read_unit(rem: Rem, first: bool, forms: Option<SForms>)
    requires lines_wf(rem)
    ensures ({
        let (a, r) = sp_read_unit(rem, first, forms);
        step(rem, a, r) && (a is Ok && a->Ok_0 is None ==> r.len() == 0)
    })
{
    tail1(rem);
    comments(rem, sp_unit0());
    let (a, r) = sp_comments(rem, sp_unit0());
    if a is Ok {
        let u = a->Ok_0;
        match sp_read_line(r) {
            None => {}
            Some((line, obsolete)) => {
                fields(r, first, forms, SUnit { obsolete, ..u });
                tail_tail(rem, r, sp_fields(r, first, forms, SUnit { obsolete, ..u }).1);
            }
        }
    }
}
/// after the first entry every step that gives a unit has read a line
pub proof fn progress(rem: Rem, forms: Option<SForms>)
    requires lines_wf(rem)
    ensures ({
        let (a, r) = sp_read_unit(rem, false, forms);
        a is Ok && a->Ok_0 is Some ==> r.len() < rem.len()
    })
{
    broadcast use crate::lemmas::units;
    let (a, r0) = sp_comments(rem, sp_unit0());
    comments(rem, sp_unit0());
    if a is Ok {
        match sp_read_line(r0) {
            None => {}
            Some((line, obsolete)) => { fields_progress(r0, forms, SUnit { obsolete, ..a->Ok_0 }); }
        }
    }
}
proof fn field_progress(rem: Rem, tag: Seq<char>, obs: bool)
    requires lines_wf(rem)
    ensures sp_field(rem, tag, obs).1.len() <= rem.len(), sp_field(rem, tag, obs).0 is Ok && sp_field(rem, tag, obs).0->Ok_0 is Some ==> sp_field(rem, tag, obs).1.len() < rem.len()
{
    tail1(rem);
    field(rem, tag, obs);
    if rem.len() > 0 {
        match rem[0] {
            Ok(SLine::Message(_, p, t, s)) => if t == tag && sp_tilde(p) == obs { conts(rem.skip(1), p, s); },
            _ => {}
        }
    }
}
proof fn fields_progress(r0: Rem, forms: Option<SForms>, u: SUnit)
    requires lines_wf(r0)
    ensures sp_fields(r0, false, forms, u).0 is Ok && sp_fields(r0, false, forms, u).0->Ok_0 is Some ==> sp_fields(r0, false, forms, u).1.len() < r0.len()
{
    let obs = u.obsolete;
    let (a, r1) = sp_field(r0, "|msgctxt"@, obs);
    field(r0, "|msgctxt"@, obs);
    let (b, r2) = sp_field(r1, "|msgid"@, obs);
    field(r1, "|msgid"@, obs);
    if a is Ok && b is Ok {
        let (c, r3) = if b->Ok_0 is Some { sp_field(r2, "|msgid_plural"@, obs) } else { (Ok(None), r2) };
        field(r2, "|msgid_plural"@, obs);
        let (d, r4) = sp_field(r3, "msgctxt"@, obs);
        field(r3, "msgctxt"@, obs);
        let (f, r5) = sp_field(r4, "msgid"@, obs);
        field(r4, "msgid"@, obs);
        field_progress(r4, "msgid"@, obs);
        let (g, r6) = sp_field(r5, "msgid_plural"@, obs);
        field(r5, "msgid_plural"@, obs);
        if c is Ok && d is Ok && f is Ok && g is Ok { message(r6, obs, forms, f->Ok_0, g->Ok_0); }
    }
}
/// an error is given at most once, and as the last thing
pub proof fn once(rem: Rem, forms: Option<SForms>)
    ensures forall|i: int| 0 <= i < sp_all(rem, forms).len() && #[trigger] sp_all(rem, forms)[i] is Err ==> i == sp_all(rem, forms).len() - 1
    decreases rem.len()
{
    let (a, r) = sp_read_unit(rem, false, forms);
    if a is Ok && a->Ok_0 is Some && r.len() < rem.len() {
        once(r, forms);
        let s = sp_all(rem, forms);
        let t = sp_all(r, forms);
        assert(s =~= seq![Ok(a->Ok_0->0)] + t);
        assert forall|i: int| 0 <= i < s.len() && #[trigger] s[i] is Err implies i == s.len() - 1 by { if i > 0 { assert(s[i] == t[i - 1]); } }
    }
}
/// the error that the lines end with is never passed over: the iteration ends with an error
pub proof fn reported(rem: Rem, forms: Option<SForms>)
    requires lines_wf(rem), rem.len() > 0, rem.last() is Err
    ensures sp_all(rem, forms).len() > 0, sp_all(rem, forms).last() is Err
    decreases rem.len()
{
    read_unit(rem, false, forms);
    progress(rem, forms);
    let (a, r) = sp_read_unit(rem, false, forms);
    if a is Ok {
        if a->Ok_0 is None {} else { reported(r, forms); }
    }
}
/// when the iteration ends without an error, every line was read
pub proof fn all_read(rem: Rem, forms: Option<SForms>) -> (r: Rem)
    requires lines_wf(rem), sp_all(rem, forms).len() == 0 || sp_all(rem, forms).last() is Ok
    ensures lines_wf(r), sp_read_unit(r, false, forms) == (Ok::<Option<SUnit>, SError>(None), Seq::<Result<SLine, SError>>::empty())
    decreases rem.len()
{
    read_unit(rem, false, forms);
    progress(rem, forms);
    let (a, r) = sp_read_unit(rem, false, forms);
    match a {
        Err(e) => { assert(sp_all(rem, forms).last() is Err); rem }
        Ok(None) => { assert(r =~= Seq::empty()); rem }
        Ok(Some(u)) => {
            if sp_all(r, forms).len() > 0 { assert(sp_all(rem, forms).last() == sp_all(r, forms).last()); }
            all_read(r, forms)
        }
    }
}
/// opening: an error in the first entry is given at once
pub proof fn opened(rem: Rem)
    requires lines_wf(rem)
    ensures match sp_open(rem) {
        Ok((h, items)) => (rem.len() > 0 && rem.last() is Err ==> items.len() > 0 && items.last() is Err),
        Err(_) => true,
    }
{
    read_unit(rem, true, None);
    let (a, r) = sp_read_unit(rem, true, None);
    match a {
        Ok(Some(u)) => {
            if rem.len() > 0 && rem.last() is Err {
                if sp_smsg_empty(u.message) { match sp_header(u) { Some(h) => { reported(r, h.forms); } None => {} } } else { reported(r, None); }
            }
        }
        _ => {}
    }
}
