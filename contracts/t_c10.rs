// C10: what the comment lines of an entry add up to (sp_apply, over the contract of PoReader::parse_comments)
use vstd::prelude::*;
use crate::shim::*;
use crate::spec::*;
use crate::enums::origin::*;
use crate::t_entry::*;

pub type Lines = Seq<(char, Seq<char>)>;
pub open spec fn notes(c: Lines) -> Seq<SNote> decreases c.len() {
    if c.len() == 0 { Seq::empty() }
    else {
        (if c[0].0 == '.' { seq![SNote { origin: Origin::Developer, value: c[0].1 }] } else if c[0].0 == ' ' { seq![SNote { origin: Origin::Translator, value: c[0].1 }] } else { Seq::empty() }) + notes(c.skip(1))
    }
}
pub open spec fn locations(c: Lines) -> Seq<Seq<char>> decreases c.len() {
    if c.len() == 0 { Seq::empty() } else { (if c[0].0 == ':' { sp_non_empty(sp_split(c[0].1, sp_is_ws())) } else { Seq::empty() }) + locations(c.skip(1)) }
}
pub open spec fn others(c: Lines) -> Seq<SComment> decreases c.len() {
    if c.len() == 0 { Seq::empty() }
    else { (if c[0].0 != ',' && c[0].0 != ':' && c[0].0 != '.' && c[0].0 != ' ' { seq![SComment { kind: c[0].0, text: c[0].1 }] } else { Seq::empty() }) + others(c.skip(1)) }
}
pub open spec fn flag_of(c: Lines, f: Seq<char>) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0 == ',' && sp_trims(sp_split(c[i].1, sp_is(','))).contains(f) }

proof fn flags_added(u: SUnit, items: Seq<Seq<char>>, f: Seq<char>)
    ensures sp_add_flags(u, items).flags.contains(f) == (u.flags.contains(f) || items.contains(f))
    decreases items.len()
{
    if items.len() > 0 {
        flags_added(sp_add_flag(u, items[0]), items.skip(1), f);
        let t = items.skip(1);
        if items.contains(f) {
            let i = choose|i: int| 0 <= i < items.len() && items[i] == f;
            if i > 0 { assert(t[i - 1] == f); }
        }
        if t.contains(f) {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == f;
            assert(items[i + 1] == f);
        }
        assert(items[0] == items[0int]);
        if items[0] == f { assert(items.contains(f)); }
    }
}
/// nothing lost, nothing twice, in the order of the lines
pub proof fn comments(u: SUnit, c: Lines, f: Seq<char>)
    ensures ({
        let v = applied(u, c);
        v.notes == u.notes + notes(c) && v.locations == u.locations + locations(c) && v.comments == u.comments + others(c) && v.flags.contains(f) == (u.flags.contains(f) || flag_of(c, f))
    })
    decreases c.len()
{
    if c.len() == 0 {
        assert(u.notes + notes(c) =~= u.notes);
        assert(u.locations + locations(c) =~= u.locations);
        assert(u.comments + others(c) =~= u.comments);
    } else {
        let d = c.skip(1);
        let v = sp_apply(u, c[0].0, c[0].1);
        comments(v, d, f);
        let items = sp_trims(sp_split(c[0].1, sp_is(',')));
        if c[0].0 == ',' { flags_keep(u, items); flags_added(u, items, f); }
        assert(applied(u, c).notes =~= u.notes + notes(c));
        assert(applied(u, c).locations =~= u.locations + locations(c));
        assert(applied(u, c).comments =~= u.comments + others(c));
        if flag_of(d, f) {
            let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == ',' && sp_trims(sp_split(d[i].1, sp_is(','))).contains(f);
            assert(c[i + 1] == d[i]);
        }
        if flag_of(c, f) {
            let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0 == ',' && sp_trims(sp_split(c[i].1, sp_is(','))).contains(f);
            if i > 0 { assert(d[i - 1] == c[i]); }
        }
        if c[0].0 == ',' && items.contains(f) { assert(c[0int].0 == ','); assert(flag_of(c, f)); }
    }
}
/// for an entry: exactly its own lines
pub proof fn entry_comments(e: Entry, forms: Option<SForms>, f: Seq<char>)
    ensures ({
        let u = unit_of(e, forms);
        u.notes == notes(e.comments) && u.locations == locations(e.comments) && u.comments == others(e.comments) && u.flags.contains(f) == flag_of(e.comments, f)
    })
{
    comments(sp_unit0(), e.comments, f);
    let c = e.comments;
    assert(Seq::<SNote>::empty() + notes(c) =~= notes(c));
    assert(Seq::<Seq<char>>::empty() + locations(c) =~= locations(c));
    assert(Seq::<SComment>::empty() + others(c) =~= others(c));
}
