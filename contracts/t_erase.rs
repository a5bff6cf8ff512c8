// Line numbers do not matter: reading lines and reading the same lines without their numbers give the same
use vstd::prelude::*;
use crate::shim::*;
use crate::spec::*;

/// a line without its number
pub open spec fn er_line(l: SLine) -> SLine {
    match l {
        SLine::Blank => SLine::Blank,
        SLine::Comment(_, c, s) => SLine::Comment(0, c, s),
        SLine::Message(_, p, t, s) => SLine::Message(0, p, t, s),
        SLine::Continuation(_, p, s) => SLine::Continuation(0, p, s),
    }
}
/// an error without its position and without the text of the line
pub open spec fn er_err(e: SError) -> SError {
    match e {
        SError::Io(_, e) => SError::Io(0, e),
        SError::Parse(_, _, exp) => SError::Parse(0, Seq::empty(), exp),
        SError::Unexpected(_, t) => SError::Unexpected(0, t),
        SError::PluralForms(t) => SError::PluralForms(t),
    }
}
pub open spec fn er_item(r: Result<SLine, SError>) -> Result<SLine, SError> { match r { Ok(l) => Ok(er_line(l)), Err(e) => Err(er_err(e)) } }
pub open spec fn er(rem: Rem) -> Rem { rem.map_values(|r: Result<SLine, SError>| er_item(r)) }
pub open spec fn er_r<A>(r: Result<A, SError>) -> Result<A, SError> { match r { Ok(a) => Ok(a), Err(e) => Err(er_err(e)) } }
pub open spec fn er_p<A>(x: (Result<A, SError>, Rem)) -> (Result<A, SError>, Rem) { (er_r(x.0), er(x.1)) }
pub open spec fn er_all(s: Seq<Result<SUnit, SError>>) -> Seq<Result<SUnit, SError>> { s.map_values(|r: Result<SUnit, SError>| er_r(r)) }

pub broadcast proof fn er_skip(rem: Rem)
    ensures rem.len() > 0 ==> #[trigger] er(rem.skip(1)) == er(rem).skip(1)
{
    if rem.len() > 0 { assert(er(rem.skip(1)) =~= er(rem).skip(1)); }
}
pub proof fn er_add(a: Rem, b: Rem)
    ensures er(a + b) == er(a) + er(b)
{
    assert(er(a + b) =~= er(a) + er(b));
}
proof fn conts(rem: Rem, p: Seq<char>, acc: Seq<char>)
    ensures sp_conts(er(rem), p, acc) == er_p(sp_conts(rem, p, acc))
    decreases rem.len()
{
    er_skip(rem);
    if rem.len() > 0 {
        match rem[0] {
            Ok(SLine::Continuation(_, q, s)) => { conts(rem.skip(1), p, acc + s); }
            _ => {}
        }
    }
}
proof fn field(rem: Rem, tag: Seq<char>, obs: bool)
    ensures sp_field(er(rem), tag, obs) == er_p(sp_field(rem, tag, obs))
{
    er_skip(rem);
    if rem.len() > 0 {
        match rem[0] {
            Ok(SLine::Message(_, p, t, s)) => { conts(rem.skip(1), p, s); }
            _ => {}
        }
    }
}
/// what is found is not part of the erased error
proof fn expected(rem: Rem, e: Seq<char>)
    ensures er_p(sp_expected(er(rem), e)) == er_p(sp_expected(rem, e))
{
    er_skip(rem);
    er_er(rem);
    er_er(rem.skip(1));
    if rem.len() > 0 { er_skip(er(rem)); }
}
pub proof fn er_er(rem: Rem) ensures er(er(rem)) == er(rem) { assert(er(er(rem)) =~= er(rem)); }
proof fn plurals(rem: Rem, obs: bool, i: int, count: int, acc: Seq<Seq<char>>)
    ensures sp_plurals(er(rem), obs, i, count, acc) == er_p(sp_plurals(rem, obs, i, count, acc))
    decreases count - i
{
    if i < count {
        field(rem, sp_msgstr(i), obs);
        let (a, r) = sp_field(rem, sp_msgstr(i), obs);
        match a { Ok(Some(v)) => { plurals(r, obs, i + 1, count, acc.push(v)); } _ => {} }
    }
}
pub proof fn same_p<A>(x: (Result<A, SError>, Rem)) ensures er_p(er_p(x)) == er_p(x) { er_er(x.1); }
proof fn message(rem: Rem, obs: bool, forms: Option<SForms>, id: Option<Seq<char>>, pl: Option<Seq<char>>)
    ensures er_p(sp_new_message(er(rem), obs, forms, id, pl)) == er_p(sp_new_message(rem, obs, forms, id, pl))
{
    er_er(rem);
    match (id, pl) {
        (Some(_), None) => {
            field(rem, "msgstr"@, obs);
            let r = sp_field(rem, "msgstr"@, obs).1;
            expected(r, "msgstr"@);
            er_er(r);
        }
        (Some(_), Some(_)) => {
            plurals(rem, obs, 0, sp_count(forms), Seq::empty());
            let r = sp_plurals(rem, obs, 0, sp_count(forms), Seq::empty()).1;
            expected(r, "msgstr[0]"@);
            er_er(r);
        }
        _ => {}
    }
}
proof fn fields(r0: Rem, first: bool, forms: Option<SForms>, u: SUnit)
    ensures er_p(sp_fields(er(r0), first, forms, u)) == er_p(sp_fields(r0, first, forms, u))
{
    let obs = u.obsolete;
    let (a, r1) = sp_field(r0, "|msgctxt"@, obs);
    field(r0, "|msgctxt"@, obs);
    er_er(r1);
    let (b, r2) = sp_field(r1, "|msgid"@, obs);
    field(r1, "|msgid"@, obs);
    er_er(r2);
    if a is Ok && b is Ok {
        let (c, r3) = if b->Ok_0 is Some { sp_field(r2, "|msgid_plural"@, obs) } else { (Ok(None), r2) };
        field(r2, "|msgid_plural"@, obs);
        er_er(r3);
        let (d, r4) = sp_field(r3, "msgctxt"@, obs);
        field(r3, "msgctxt"@, obs);
        er_er(r4);
        let (f, r5) = sp_field(r4, "msgid"@, obs);
        field(r4, "msgid"@, obs);
        er_er(r5);
        if c is Ok && d is Ok && f is Ok {
            expected(r5, "msgid"@);
            let (g, r6) = sp_field(r5, "msgid_plural"@, obs);
            field(r5, "msgid_plural"@, obs);
            er_er(r6);
            if g is Ok { message(r6, obs, forms, f->Ok_0, g->Ok_0); }
        }
    }
}
proof fn comments(rem: Rem, u: SUnit)
    ensures sp_comments(er(rem), u) == er_p(sp_comments(rem, u))
    decreases rem.len()
{
    er_skip(rem);
    if rem.len() > 0 {
        match rem[0] {
            Ok(SLine::Comment(_, c, s)) => { comments(rem.skip(1), sp_apply(u, c, s)); }
            _ => {}
        }
    }
}
pub proof fn read_unit(rem: Rem, first: bool, forms: Option<SForms>)
    ensures er_p(sp_read_unit(er(rem), first, forms)) == er_p(sp_read_unit(rem, first, forms))
{
    comments(rem, sp_unit0());
    let (a, r) = sp_comments(rem, sp_unit0());
    er_er(r);
    if a is Ok {
        let u = a->Ok_0;
        match sp_read_line(r) {
            None => {}
            Some((line, obsolete)) => { fields(r, first, forms, SUnit { obsolete, ..u }); }
        }
    }
}
/// the units, and where an error is, depend on the lines without their numbers only
pub proof fn all(rem: Rem, forms: Option<SForms>)
    ensures er_all(sp_all(er(rem), forms)) == er_all(sp_all(rem, forms))
    decreases rem.len()
{
    read_unit(rem, false, forms);
    let (a, r) = sp_read_unit(rem, false, forms);
    let (b, q) = sp_read_unit(er(rem), false, forms);
    assert(q.len() == er(q).len() && r.len() == er(r).len());
    match a {
        Ok(Some(u)) => {
            if r.len() < rem.len() {
                all(r, forms);
                all(q, forms);
                assert(er(q) == er(r));
                assert(er_all(sp_all(r, forms)) == er_all(sp_all(q, forms)));
            }
            let x = if r.len() < rem.len() { sp_all(r, forms) } else { Seq::empty() };
            let y = if q.len() < rem.len() { sp_all(q, forms) } else { Seq::empty() };
            assert(er_all(seq![Ok::<SUnit, SError>(u)] + x) =~= seq![Ok::<SUnit, SError>(u)] + er_all(x));
            assert(er_all(seq![Ok::<SUnit, SError>(u)] + y) =~= seq![Ok::<SUnit, SError>(u)] + er_all(y));
        }
        Ok(None) => {}
        Err(e) => {
            assert(er_all(seq![Err::<SUnit, SError>(e)]) =~= seq![Err::<SUnit, SError>(er_err(e))]);
            assert(er_all(seq![Err::<SUnit, SError>(b->Err_0)]) =~= seq![Err::<SUnit, SError>(er_err(b->Err_0))]);
        }
    }
}
pub open spec fn er_open(x: Result<(SHeader, Seq<Result<SUnit, SError>>), Option<SError>>) -> Result<(SHeader, Seq<Result<SUnit, SError>>), Option<SError>> {
    match x { Ok((h, s)) => Ok((h, er_all(s))), Err(Some(e)) => Err(Some(er_err(e))), Err(None) => Err(None) }
}
/// and so do the header and the outcome of opening
pub proof fn open(rem: Rem)
    ensures er_open(sp_open(er(rem))) == er_open(sp_open(rem))
{
    read_unit(rem, true, None);
    let (a, r) = sp_read_unit(rem, true, None);
    let (b, q) = sp_read_unit(er(rem), true, None);
    match a {
        Ok(Some(u)) => {
            if sp_smsg_empty(u.message) {
                match sp_header(u) { Some(h) => { all(r, h.forms); all(q, h.forms); } None => {} }
            } else {
                all(r, None);
                all(q, None);
                assert(er_all(seq![Ok::<SUnit, SError>(u)] + sp_all(r, None)) =~= seq![Ok::<SUnit, SError>(u)] + er_all(sp_all(r, None)));
                assert(er_all(seq![Ok::<SUnit, SError>(u)] + sp_all(q, None)) =~= seq![Ok::<SUnit, SError>(u)] + er_all(sp_all(q, None)));
            }
        }
        _ => {}
    }
}
