// C12: what opening a catalogue of well-formed entries gives (sp_open, sp_header)
use vstd::prelude::*;
use crate::shim::*;
use crate::spec::*;
use crate::t_entry::*;
use crate::t_c13::*;

pub open spec fn is_header(h: Entry) -> bool { h.plural is None && value(h.id).len() == 0 }
/// with a header entry
pub proof fn with_header(h: Entry, es: Seq<Entry>)
    requires well_formed(h, None), is_header(h), match sp_header(unit_of(h, None)) { Some(x) => entries_ok(es, x.forms), None => true }, starts(all_lines(es))
    ensures match sp_header(unit_of(h, None)) {
        None => sp_open(entry_lines(h) + all_lines(es)) is Err,
        Some(x) => sp_open(entry_lines(h) + all_lines(es)) == Ok::<(SHeader, Seq<Result<SUnit, SError>>), Option<SError>>((x, units(es, x.forms))),
    }
{
    entry_read(h, None, true, all_lines(es));
    match sp_header(unit_of(h, None)) { Some(x) => { catalogue_read(es, x.forms); } None => {} }
}
/// without one: the first entry is a unit like the others
pub proof fn without_header(h: Entry, es: Seq<Entry>)
    requires well_formed(h, None), !is_header(h), entries_ok(es, None)
    ensures sp_open(entry_lines(h) + all_lines(es)) == Ok::<(SHeader, Seq<Result<SUnit, SError>>), Option<SError>>((sp_header0(), seq![Ok::<SUnit, SError>(unit_of(h, None))] + units(es, None)))
{
    let none = Seq::<Result<SLine, SError>>::empty();
    if es.len() > 0 {
        assert(entry_ok(es[0], None));
        entry_starts(es[0], None, all_lines(es.skip(1)));
    }
    entry_read(h, None, true, all_lines(es));
    catalogue_read(es, None);
}
// ---- the properties

/// the values that lines give to a key, in order
pub open spec fn vals(lines: Seq<Seq<char>>, k: Seq<char>) -> Seq<Seq<char>> decreases lines.len() {
    if lines.len() == 0 { Seq::empty() }
    else {
        (match sp_prop(lines[0]) { Some((q, v)) => if q == k { seq![v] } else { Seq::empty() }, None => Seq::empty() }) + vals(lines.skip(1), k)
    }
}
proof fn props_from(m: Map<Seq<char>, Seq<Seq<char>>>, lines: Seq<Seq<char>>, k: Seq<char>)
    ensures ({
        let r = sp_add_props(m, lines);
        let before = if m.contains_key(k) { m[k] } else { Seq::empty() };
        r.contains_key(k) == (m.contains_key(k) || vals(lines, k).len() > 0) && (r.contains_key(k) ==> r[k] == before + vals(lines, k))
    })
    decreases lines.len()
{
    let before = if m.contains_key(k) { m[k] } else { Seq::<Seq<char>>::empty() };
    if lines.len() == 0 { assert(before + vals(lines, k) =~= before); }
    else {
        let m2 = sp_add_prop(m, lines[0]);
        props_from(m2, lines.skip(1), k);
        let b2 = if m2.contains_key(k) { m2[k] } else { Seq::<Seq<char>>::empty() };
        let x = match sp_prop(lines[0]) { Some((q, v)) => if q == k { seq![v] } else { Seq::<Seq<char>>::empty() }, None => Seq::<Seq<char>>::empty() };
        assert(b2 =~= before + x);
        assert(before + x + vals(lines.skip(1), k) =~= before + (x + vals(lines.skip(1), k)));
    }
}
/// a key is a property when some line gives it a value; its value is all of them, in order, joined by a space
pub proof fn properties(lines: Seq<Seq<char>>, k: Seq<char>)
    ensures sp_joins(sp_props(lines)).contains_key(k) == (vals(lines, k).len() > 0),
        vals(lines, k).len() > 0 ==> sp_joins(sp_props(lines))[k] == sp_join(vals(lines, k), " "@),
{
    props_from(Map::empty(), lines, k);
    assert(Seq::<Seq<char>>::empty() + vals(lines, k) =~= vals(lines, k));
}
/// the rest of the header
pub proof fn header_forms(u: SUnit)
    ensures match sp_header(u) {
        None => true,
        Some(h) => h.notes == u.notes && h.comments == u.comments && h.lang == sp_lang_for(h.props)
            && (h.forms is Some <==> h.props.contains_key("Plural-Forms"@) && h.props["Plural-Forms"@].len() > 0)
            && (h.forms is Some ==> h.forms == sp_pf(h.props["Plural-Forms"@])),
    }
{
}
