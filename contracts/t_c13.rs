// C13 (and the part of C14 before the error): a catalogue of well-formed entries gives one unit per entry, in order
use vstd::prelude::*;
use crate::shim::*;
use crate::spec::*;
use crate::t_entry::*;

pub open spec fn all_lines(es: Seq<Entry>) -> Rem decreases es.len() { if es.len() == 0 { Seq::empty() } else { entry_lines(es[0]) + all_lines(es.skip(1)) } }
pub open spec fn entry_ok(e: Entry, forms: Option<SForms>) -> bool { well_formed(e, forms) && (e.plural is Some || value(e.id).len() > 0) }
pub open spec fn entries_ok(es: Seq<Entry>, forms: Option<SForms>) -> bool { forall|i: int| 0 <= i < es.len() ==> entry_ok(#[trigger] es[i], forms) }
pub open spec fn units(es: Seq<Entry>, forms: Option<SForms>) -> Seq<Result<SUnit, SError>> { es.map_values(|e: Entry| Ok::<SUnit, SError>(unit_of(e, forms))) }

pub proof fn entry_starts(e: Entry, forms: Option<SForms>, rest: Rem)
    requires well_formed(e, forms)
    ensures starts(entry_lines(e) + rest), entry_lines(e).len() > 0
{
    let l = entry_lines(e) + rest;
    assert(entry_lines(e).len() >= field_lines("msgid"@, e.id).len() > 0);
    assert(l[0] == entry_lines(e)[0]);
    if e.comments.len() > 0 { assert(l[0] == comment_lines(e.comments)[0]); }
    else {
        match e.prev_context {
            Some(f) => { assert(l[0] == field_lines("|msgctxt"@, f)[0]); }
            None => match e.prev_id {
                Some(f) => { assert(l[0] == field_lines("|msgid"@, f)[0]); }
                None => match e.context {
                    Some(f) => { assert(l[0] == field_lines("msgctxt"@, f)[0]); }
                    None => { assert(l[0] == field_lines("msgid"@, e.id)[0]); }
                },
            },
        }
    }
}
proof fn lines_start(es: Seq<Entry>, forms: Option<SForms>, rest: Rem)
    requires entries_ok(es, forms), starts(rest)
    ensures starts(all_lines(es) + rest)
{
    if es.len() > 0 {
        entry_starts(es[0], forms, all_lines(es.skip(1)) + rest);
        assert(all_lines(es) + rest =~= entry_lines(es[0]) + (all_lines(es.skip(1)) + rest));
    } else { assert(all_lines(es) + rest =~= rest); }
}
/// whatever follows, the entries before it give their units, in order, and take no part in what follows
pub proof fn entries_read(es: Seq<Entry>, forms: Option<SForms>, rest: Rem)
    requires entries_ok(es, forms), starts(rest)
    ensures sp_all(all_lines(es) + rest, forms) == units(es, forms) + sp_all(rest, forms)
    decreases es.len()
{
    if es.len() == 0 {
        assert(all_lines(es) + rest =~= rest);
        assert(units(es, forms) + sp_all(rest, forms) =~= sp_all(rest, forms));
    } else {
        let t = es.skip(1);
        assert(entries_ok(t, forms)) by { assert forall|i: int| 0 <= i < t.len() implies entry_ok(#[trigger] t[i], forms) by { assert(t[i] == es[i + 1]); } }
        entries_read(t, forms, rest);
        lines_start(t, forms, rest);
        let r = all_lines(t) + rest;
        assert(entry_ok(es[0], forms));
        entry_starts(es[0], forms, r);
        entry_read(es[0], forms, false, r);
        assert(all_lines(es) + rest =~= entry_lines(es[0]) + r);
        assert(units(es, forms) =~= seq![Ok::<SUnit, SError>(unit_of(es[0], forms))] + units(t, forms));
        assert(seq![Ok::<SUnit, SError>(unit_of(es[0], forms))] + (units(t, forms) + sp_all(rest, forms)) =~= units(es, forms) + sp_all(rest, forms));
    }
}
/// exactly one unit per entry, in file order, and then the end
pub proof fn catalogue_read(es: Seq<Entry>, forms: Option<SForms>)
    requires entries_ok(es, forms)
    ensures sp_all(all_lines(es), forms) == units(es, forms)
{
    let none = Seq::<Result<SLine, SError>>::empty();
    entries_read(es, forms, none);
    assert(all_lines(es) + none =~= all_lines(es));
    assert(sp_all(none, forms) =~= Seq::empty());
    assert(units(es, forms) + Seq::<Result<SUnit, SError>>::empty() =~= units(es, forms));
}
/// C14: an unreadable line at the beginning of an entry: the entries before it, then the error
pub proof fn entries_then_error(es: Seq<Entry>, forms: Option<SForms>, c: Seq<(char, Seq<char>)>, e: SError, more: Rem)
    requires entries_ok(es, forms), c.len() > 0
    ensures sp_all(all_lines(es) + (comment_lines(c) + (seq![Err::<SLine, SError>(e)] + more)), forms) == units(es, forms) + seq![Err::<SUnit, SError>(e)]
{
    let r = comment_lines(c) + (seq![Err::<SLine, SError>(e)] + more);
    assert(r[0] == comment_lines(c)[0]);
    entries_read(es, forms, r);
    comments_error(c, sp_unit0(), e, more);
}
proof fn comments_error(c: Seq<(char, Seq<char>)>, u: SUnit, e: SError, more: Rem)
    ensures sp_comments(comment_lines(c) + (seq![Err::<SLine, SError>(e)] + more), u).0 == Err::<SUnit, SError>(e)
    decreases c.len()
{
    let x = seq![Err::<SLine, SError>(e)] + more;
    if c.len() == 0 { assert(comment_lines(c) + x =~= x); }
    else {
        comments_error(c.skip(1), sp_apply(u, c[0].0, c[0].1), e, more);
        assert((comment_lines(c) + x).skip(1) =~= comment_lines(c.skip(1)) + x);
        assert((comment_lines(c) + x)[0] == comment_lines(c)[0]);
    }
}
