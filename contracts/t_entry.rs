// Entries, written as lines: reading gives them back (C07, C08, C09, C10, C13), over the contracts of the decoder,
// the extractor and the reader (sp_conts, sp_field, sp_plurals, sp_new_message, sp_fields, sp_comments, sp_read_unit, sp_all).
// Lines are given without their numbers here; t_erase shows that the numbers do not matter.
use vstd::prelude::*;
use crate::shim::*;
use crate::spec::*;
use crate::enums::origin::*;
use crate::enums::state::*;

/// a keyword with its marker and its string, split over one line and continuation lines
pub ghost struct Field { pub marker: Seq<char>, pub parts: Seq<Seq<char>> }
pub open spec fn flat(p: Seq<Seq<char>>) -> Seq<char> decreases p.len() { if p.len() == 0 { Seq::empty() } else { p[0] + flat(p.skip(1)) } }
pub open spec fn value(f: Field) -> Seq<char> { flat(f.parts) }
pub open spec fn ovalue(f: Option<Field>) -> Option<Seq<char>> { match f { None => None, Some(f) => Some(value(f)) } }
pub open spec fn cont_lines(marker: Seq<char>, parts: Seq<Seq<char>>) -> Rem { parts.map_values(|s: Seq<char>| Ok::<SLine, SError>(SLine::Continuation(0, marker, s))) }
pub open spec fn field_lines(tag: Seq<char>, f: Field) -> Rem { seq![Ok::<SLine, SError>(SLine::Message(0, f.marker, tag, f.parts[0]))] + cont_lines(f.marker, f.parts.skip(1)) }
pub open spec fn ofield_lines(tag: Seq<char>, f: Option<Field>) -> Rem { match f { None => Seq::empty(), Some(f) => field_lines(tag, f) } }
pub open spec fn field_ok(f: Field, obs: bool) -> bool { f.parts.len() > 0 && sp_tilde(f.marker) == obs }
pub open spec fn ofield_ok(f: Option<Field>, obs: bool) -> bool { match f { None => true, Some(f) => field_ok(f, obs) } }

/// what follows is a line that is no continuation of this one (nor an error)
pub open spec fn ends(rest: Rem, marker: Seq<char>) -> bool {
    rest.len() == 0 || match rest[0] { Ok(SLine::Continuation(_, p, _)) => p != marker, Ok(_) => true, Err(_) => false }
}
/// C07: however a string is split, the value is the concatenation
pub proof fn continuations(marker: Seq<char>, parts: Seq<Seq<char>>, rest: Rem, acc: Seq<char>)
    requires ends(rest, marker)
    ensures sp_conts(cont_lines(marker, parts) + rest, marker, acc) == (Ok::<Option<Seq<char>>, SError>(Some(acc + flat(parts))), rest)
    decreases parts.len()
{
    let c = cont_lines(marker, parts);
    if parts.len() == 0 {
        assert(c + rest =~= rest);
        assert(acc + flat(parts) =~= acc);
    } else {
        assert((c + rest).skip(1) =~= cont_lines(marker, parts.skip(1)) + rest);
        assert((c + rest)[0] == c[0]);
        continuations(marker, parts.skip(1), rest, acc + parts[0]);
        assert(acc + parts[0] + flat(parts.skip(1)) =~= acc + (parts[0] + flat(parts.skip(1))));
    }
}
/// the error that cuts a string is reported
pub proof fn continuations_cut(marker: Seq<char>, parts: Seq<Seq<char>>, rest: Rem, acc: Seq<char>)
    requires rest.len() > 0, rest[0] is Err
    ensures sp_conts(cont_lines(marker, parts) + rest, marker, acc) == (Err::<Option<Seq<char>>, SError>(rest[0]->Err_0), rest.skip(1))
    decreases parts.len()
{
    let c = cont_lines(marker, parts);
    if parts.len() == 0 { assert(c + rest =~= rest); }
    else {
        assert((c + rest).skip(1) =~= cont_lines(marker, parts.skip(1)) + rest);
        assert((c + rest)[0] == c[0]);
        continuations_cut(marker, parts.skip(1), rest, acc + parts[0]);
    }
}
pub proof fn field_read(tag: Seq<char>, f: Field, obs: bool, rest: Rem)
    requires field_ok(f, obs), ends(rest, f.marker)
    ensures sp_field(field_lines(tag, f) + rest, tag, obs) == (Ok::<Option<Seq<char>>, SError>(Some(value(f))), rest)
{
    let l = field_lines(tag, f) + rest;
    assert(l.skip(1) =~= cont_lines(f.marker, f.parts.skip(1)) + rest);
    assert(l[0] == field_lines(tag, f)[0]);
    continuations(f.marker, f.parts.skip(1), rest, f.parts[0]);
}
/// the line that comes next is not the keyword `tag`
pub open spec fn other(rest: Rem, tag: Seq<char>, obs: bool) -> bool {
    rest.len() == 0 || match rest[0] { Ok(SLine::Message(_, p, t, _)) => t != tag || sp_tilde(p) != obs, Ok(_) => true, Err(_) => false }
}
pub proof fn field_absent(tag: Seq<char>, obs: bool, rest: Rem)
    requires other(rest, tag, obs)
    ensures sp_field(rest, tag, obs) == (Ok::<Option<Seq<char>>, SError>(None), rest)
{
}
/// the first line is the message line of a keyword, or there is none
pub open spec fn head_is(rest: Rem, tag: Seq<char>) -> bool { rest.len() > 0 && match rest[0] { Ok(SLine::Message(_, _, t, _)) => t == tag, _ => false } }
pub proof fn ofield_read(tag: Seq<char>, f: Option<Field>, obs: bool, rest: Rem)
    requires ofield_ok(f, obs), f is Some ==> ends(rest, f->0.marker), f is None ==> other(rest, tag, obs)
    ensures sp_field(ofield_lines(tag, f) + rest, tag, obs) == (Ok::<Option<Seq<char>>, SError>(ovalue(f)), rest),
        f is Some ==> head_is(ofield_lines(tag, f) + rest, tag), f is None ==> ofield_lines(tag, f) + rest == rest
{
    match f {
        None => { assert(ofield_lines(tag, f) + rest =~= rest); field_absent(tag, obs, rest); }
        Some(f) => { field_read(tag, f, obs, rest); assert((field_lines(tag, f) + rest)[0] == field_lines(tag, f)[0]); }
    }
}
/// translations msgstr[i], msgstr[i+1], ...
pub open spec fn strs_lines(s: Seq<Field>, i: int) -> Rem decreases s.len() { if s.len() == 0 { Seq::empty() } else { field_lines(sp_msgstr(i), s[0]) + strs_lines(s.skip(1), i + 1) } }
pub open spec fn values(s: Seq<Field>) -> Seq<Seq<char>> { s.map_values(|f: Field| value(f)) }
pub open spec fn strs_ok(s: Seq<Field>, obs: bool) -> bool { forall|i: int| 0 <= i < s.len() ==> field_ok(#[trigger] s[i], obs) }

/// the entry ends here: end of the catalogue, or the beginning of another entry
pub open spec fn starts(rest: Rem) -> bool {
    rest.len() == 0 || match rest[0] {
        Ok(SLine::Comment(..)) => true,
        Ok(SLine::Message(_, _, t, _)) => t == "|msgctxt"@ || t == "|msgid"@ || t == "msgctxt"@ || t == "msgid"@,
        _ => false,
    }
}
pub proof fn tags()
    ensures
        "|msgctxt"@ != "|msgid"@, "|msgctxt"@ != "|msgid_plural"@, "|msgctxt"@ != "msgctxt"@, "|msgctxt"@ != "msgid"@, "|msgctxt"@ != "msgid_plural"@, "|msgctxt"@ != "msgstr"@,
        "|msgid"@ != "|msgid_plural"@, "|msgid"@ != "msgctxt"@, "|msgid"@ != "msgid"@, "|msgid"@ != "msgid_plural"@, "|msgid"@ != "msgstr"@,
        "|msgid_plural"@ != "msgctxt"@, "|msgid_plural"@ != "msgid"@, "|msgid_plural"@ != "msgid_plural"@, "|msgid_plural"@ != "msgstr"@,
        "msgctxt"@ != "msgid"@, "msgctxt"@ != "msgid_plural"@, "msgctxt"@ != "msgstr"@, "msgid"@ != "msgid_plural"@, "msgid"@ != "msgstr"@, "msgid_plural"@ != "msgstr"@,
{
    reveal_strlit("|msgctxt"); reveal_strlit("|msgid"); reveal_strlit("|msgid_plural"); reveal_strlit("msgctxt"); reveal_strlit("msgid"); reveal_strlit("msgid_plural"); reveal_strlit("msgstr");
    assert("|msgid"@.len() == 6 && "|msgid_plural"@.len() == 13 && "msgid"@.len() == 5 && "msgid_plural"@.len() == 12);
    assert("|msgctxt"@[4] == 'c'); assert("|msgid"@[4] == 'i'); assert("|msgid_plural"@[4] == 'i'); assert("msgctxt"@[3] == 'c'); assert("msgid"@[3] == 'i'); assert("msgid_plural"@[3] == 'i'); assert("msgstr"@[3] == 's');
    assert("|msgctxt"@[0] == '|'); assert("|msgid"@[0] == '|'); assert("|msgid_plural"@[0] == '|'); assert("msgctxt"@[0] == 'm'); assert("msgid"@[0] == 'm'); assert("msgid_plural"@[0] == 'm'); assert("msgstr"@[0] == 'm');
}
pub proof fn dec_inj(a: nat, b: nat)
    requires sp_dec(a) == sp_dec(b)
    ensures a == b
    decreases a
{
    dec_last(a);
    dec_last(b);
    if a >= 10 && b >= 10 {
        assert(sp_dec(a).drop_last() =~= sp_dec(a / 10));
        assert(sp_dec(b).drop_last() =~= sp_dec(b / 10));
        dec_inj(a / 10, b / 10);
    } else if a >= 10 { dec_last(a / 10); } else if b >= 10 { dec_last(b / 10); }
}
proof fn dec_last(a: nat)
    ensures sp_dec(a).len() > 0, sp_dec(a).last() as u32 == 48 + a % 10, a < 10 ==> sp_dec(a).len() == 1, a >= 10 ==> sp_dec(a) == sp_dec(a / 10) + seq![sp_digit(a % 10)]
    decreases a
{
    if a >= 10 { dec_last(a / 10); }
}
/// msgstr[i] is no other keyword
pub proof fn msgstr_tags(i: int, j: int)
    requires 0 <= i, 0 <= j
    ensures i != j ==> sp_msgstr(i) != sp_msgstr(j), sp_msgstr(i) != "msgctxt"@, sp_msgstr(i) != "msgid"@, sp_msgstr(i) != "msgid_plural"@, sp_msgstr(i) != "|msgctxt"@, sp_msgstr(i) != "|msgid"@, sp_msgstr(i) != "|msgid_plural"@, sp_msgstr(i) != "msgstr"@
{
    reveal_strlit("msgstr["); reveal_strlit("]");
    reveal_strlit("|msgctxt"); reveal_strlit("|msgid"); reveal_strlit("|msgid_plural"); reveal_strlit("msgctxt"); reveal_strlit("msgid"); reveal_strlit("msgid_plural"); reveal_strlit("msgstr");
    let (a, b) = (sp_msgstr(i), sp_msgstr(j));
    assert(a[0] == 'm' && a[3] == 's' && a.len() > 7);
    if a == b {
        assert(a.subrange(7, a.len() - 1) =~= sp_dec(i as nat));
        assert(b.subrange(7, b.len() - 1) =~= sp_dec(j as nat));
        dec_inj(i as nat, j as nat);
    }
}
proof fn starts_other(rest: Rem, obs: bool, i: int)
    requires starts(rest), 0 <= i
    ensures other(rest, sp_msgstr(i), obs), other(rest, "msgstr"@, obs), other(rest, "msgid_plural"@, obs), forall|m: Seq<char>| #[trigger] ends(rest, m)
{
    tags();
    msgstr_tags(i, i);
}
/// C09: translation number i is the text of msgstr[i], up to the number of forms
pub proof fn plurals(s: Seq<Field>, i: int, obs: bool, count: int, acc: Seq<Seq<char>>, rest: Rem)
    requires strs_ok(s, obs), starts(rest), 0 <= i, i + s.len() <= count
    ensures sp_plurals(strs_lines(s, i) + rest, obs, i, count, acc) == (Ok::<Seq<Seq<char>>, SError>(acc + values(s)), rest),
        s.len() > 0 ==> head_is(strs_lines(s, i) + rest, sp_msgstr(i)),
        s.len() == 0 ==> strs_lines(s, i) + rest == rest,
    decreases s.len()
{
    if s.len() == 0 {
        assert(strs_lines(s, i) + rest =~= rest);
        assert(acc + values(s) =~= acc);
        starts_other(rest, obs, i);
        if i < count { field_absent(sp_msgstr(i), obs, rest); }
    } else {
        let t = s.skip(1);
        assert(strs_ok(t, obs)) by { assert forall|k: int| 0 <= k < t.len() implies field_ok(#[trigger] t[k], obs) by { assert(t[k] == s[k + 1]); } }
        plurals(t, i + 1, obs, count, acc.push(value(s[0])), rest);
        let q = strs_lines(t, i + 1) + rest;
        starts_other(rest, obs, i);
        assert(ends(q, s[0].marker));
        field_read(sp_msgstr(i), s[0], obs, q);
        assert(strs_lines(s, i) + rest =~= field_lines(sp_msgstr(i), s[0]) + q);
        assert((field_lines(sp_msgstr(i), s[0]) + q)[0] == field_lines(sp_msgstr(i), s[0])[0]);
        assert(acc.push(value(s[0])) + values(t) =~= acc + values(s));
    }
}
/// C09: without msgstr[0] there is an error
pub proof fn first_missing(rem: Rem, obs: bool, forms: Option<SForms>, id: Seq<char>, pl: Seq<char>)
    requires rem.len() > 0, rem[0] is Ok, rem[0] != Ok::<SLine, SError>(SLine::Blank), other(rem, sp_msgstr(0), obs)
    ensures sp_new_message(rem, obs, forms, Some(id), Some(pl)).0 is Err
{
    field_absent(sp_msgstr(0), obs, rem);
}

// ---- whole entries

pub ghost struct Entry {
    pub comments: Seq<(char, Seq<char>)>,
    pub obsolete: bool,
    pub prev_context: Option<Field>,
    pub prev_id: Option<Field>,
    pub prev_plural: Option<Field>,
    pub context: Option<Field>,
    pub id: Field,
    pub plural: Option<Field>,
    pub strs: Seq<Field>,
}
pub open spec fn well_formed(e: Entry, forms: Option<SForms>) -> bool {
    let o = e.obsolete;
    &&& ofield_ok(e.prev_context, o) && ofield_ok(e.prev_id, o) && ofield_ok(e.prev_plural, o) && ofield_ok(e.context, o) && field_ok(e.id, o) && ofield_ok(e.plural, o) && strs_ok(e.strs, o)
    &&& (e.prev_plural is Some ==> e.prev_id is Some)
    &&& match e.plural { None => e.strs.len() == 1, Some(_) => 1 <= e.strs.len() <= sp_count(forms) }
}
pub open spec fn comment_lines(c: Seq<(char, Seq<char>)>) -> Rem { c.map_values(|x: (char, Seq<char>)| Ok::<SLine, SError>(SLine::Comment(0, x.0, x.1))) }
pub open spec fn l_strs(e: Entry) -> Rem { if e.plural is None { field_lines("msgstr"@, e.strs[0]) } else { strs_lines(e.strs, 0) } }
/// the lines of an entry
pub open spec fn entry_lines(e: Entry) -> Rem {
    comment_lines(e.comments) + (ofield_lines("|msgctxt"@, e.prev_context) + (ofield_lines("|msgid"@, e.prev_id) + (ofield_lines("|msgid_plural"@, e.prev_plural)
        + (ofield_lines("msgctxt"@, e.context) + (field_lines("msgid"@, e.id) + (ofield_lines("msgid_plural"@, e.plural) + l_strs(e)))))))
}
/// what all comment lines of an entry add to it
pub open spec fn applied(u: SUnit, c: Seq<(char, Seq<char>)>) -> SUnit decreases c.len() { if c.len() == 0 { u } else { applied(sp_apply(u, c[0].0, c[0].1), c.skip(1)) } }
pub open spec fn message_of(e: Entry, forms: Option<SForms>) -> SMessage {
    match e.plural {
        None => SMessage::Simple { id: value(e.id), text: if value(e.strs[0]).len() == 0 { None } else { Some(value(e.strs[0])) } },
        Some(p) => SMessage::Plural { singular: value(e.id), plural: value(p), values: values(e.strs), forms },
    }
}
/// the unit that an entry is
pub open spec fn unit_of(e: Entry, forms: Option<SForms>) -> SUnit {
    let u = applied(sp_unit0(), e.comments);
    let m = message_of(e, forms);
    SUnit {
        context: ovalue(e.context),
        message: m,
        prev_context: ovalue(e.prev_context),
        prev_message: sp_new_previous(forms, ovalue(e.prev_id), ovalue(e.prev_plural)),
        flags: u.flags, notes: u.notes, locations: u.locations, comments: u.comments,
        state: if u.flags.contains("fuzzy"@) { State::NeedsWork } else if sp_smsg_blank(m) { State::Empty } else { State::Final },
        obsolete: e.obsolete,
    }
}
proof fn comments_read(c: Seq<(char, Seq<char>)>, u: SUnit, rest: Rem)
    requires rest.len() == 0 || (rest[0] is Ok && !(rest[0]->Ok_0 is Comment))
    ensures sp_comments(comment_lines(c) + rest, u) == (Ok::<SUnit, SError>(applied(u, c)), rest)
    decreases c.len()
{
    if c.len() == 0 { assert(comment_lines(c) + rest =~= rest); }
    else {
        comments_read(c.skip(1), sp_apply(u, c[0].0, c[0].1), rest);
        assert((comment_lines(c) + rest).skip(1) =~= comment_lines(c.skip(1)) + rest);
        assert((comment_lines(c) + rest)[0] == comment_lines(c)[0]);
    }
}
/// comments say nothing about the texts of the entry
pub proof fn applied_keeps(u: SUnit, c: Seq<(char, Seq<char>)>)
    ensures applied(u, c).context == u.context, applied(u, c).message == u.message, applied(u, c).prev_context == u.prev_context, applied(u, c).prev_message == u.prev_message, applied(u, c).obsolete == u.obsolete,
        crate::t_c11::early(u) ==> crate::t_c11::early(applied(u, c)),
    decreases c.len()
{
    if c.len() > 0 {
        if c[0].0 == ',' { flags_keep(u, sp_trims(sp_split(c[0].1, sp_is(',')))); }
        applied_keeps(sp_apply(u, c[0].0, c[0].1), c.skip(1));
    }
}
pub proof fn flags_keep(u: SUnit, items: Seq<Seq<char>>)
    ensures ({
        let v = sp_add_flags(u, items);
        v == (SUnit { flags: v.flags, state: v.state, ..u }) && (crate::t_c11::early(u) ==> crate::t_c11::early(v))
    })
    decreases items.len()
{
    if items.len() > 0 { flags_keep(sp_add_flag(u, items[0]), items.skip(1)); }
}
/// the marker of the first message line
pub open spec fn head_obs(rest: Rem, obs: bool) -> bool { rest.len() > 0 && match rest[0] { Ok(SLine::Message(_, p, _, _)) => sp_tilde(p) == obs, _ => false } }

proof fn message_read(e: Entry, forms: Option<SForms>, rest: Rem)
    requires well_formed(e, forms), starts(rest)
    ensures sp_new_message(l_strs(e) + rest, e.obsolete, forms, Some(value(e.id)), ovalue(e.plural)) == (Ok::<Option<SMessage>, SError>(Some(message_of(e, forms))), rest),
        head_is(l_strs(e) + rest, if e.plural is None { "msgstr"@ } else { sp_msgstr(0) }),
{
    let o = e.obsolete;
    starts_other(rest, o, 0);
    let t7 = l_strs(e) + rest;
    assert(field_ok(e.strs[0], o));
    if e.plural is None {
        assert(ends(rest, e.strs[0].marker));
        field_read("msgstr"@, e.strs[0], o, rest);
        assert(t7[0] == field_lines("msgstr"@, e.strs[0])[0]);
    } else {
        plurals(e.strs, 0, o, sp_count(forms), Seq::empty(), rest);
        assert(Seq::<Seq<char>>::empty() + values(e.strs) =~= values(e.strs));
        assert(values(e.strs).len() > 0);
    }
}
/// the beginning of a keyword's lines: no continuation, no other keyword
proof fn head_other(r: Rem, tag: Seq<char>, other_tag: Seq<char>, o: bool)
    requires head_is(r, tag), tag != other_tag
    ensures other(r, other_tag, o), forall|m: Seq<char>| #[trigger] ends(r, m)
{
}
spec fn s7(e: Entry, rest: Rem) -> Rem { l_strs(e) + rest }
spec fn s6(e: Entry, rest: Rem) -> Rem { ofield_lines("msgid_plural"@, e.plural) + s7(e, rest) }
spec fn s5(e: Entry, rest: Rem) -> Rem { field_lines("msgid"@, e.id) + s6(e, rest) }
spec fn s4(e: Entry, rest: Rem) -> Rem { ofield_lines("msgctxt"@, e.context) + s5(e, rest) }
spec fn s3(e: Entry, rest: Rem) -> Rem { ofield_lines("|msgid_plural"@, e.prev_plural) + s4(e, rest) }
spec fn s2(e: Entry, rest: Rem) -> Rem { ofield_lines("|msgid"@, e.prev_id) + s3(e, rest) }
spec fn s1(e: Entry, rest: Rem) -> Rem { ofield_lines("|msgctxt"@, e.prev_context) + s2(e, rest) }
/// what the first line of r can be
spec fn first_tag(r: Rem, o: bool, a: spec_fn(Seq<char>) -> bool) -> bool { r.len() > 0 && match r[0] { Ok(SLine::Message(_, p, t, _)) => a(t) && sp_tilde(p) == o, _ => false } }
proof fn first_of(tag: Seq<char>, f: Option<Field>, o: bool, r: Rem, a: spec_fn(Seq<char>) -> bool, b: spec_fn(Seq<char>) -> bool)
    requires ofield_ok(f, o), first_tag(r, o, a), !a(tag), b(tag), forall|t: Seq<char>| #[trigger] a(t) ==> b(t)
    ensures first_tag(ofield_lines(tag, f) + r, o, b), sp_field(ofield_lines(tag, f) + r, tag, o) == (Ok::<Option<Seq<char>>, SError>(ovalue(f)), r)
{
    assert(forall|m: Seq<char>| #[trigger] ends(r, m));
    assert(other(r, tag, o));
    ofield_read(tag, f, o, r);
    match f { None => {}, Some(f) => { assert((field_lines(tag, f) + r)[0] == field_lines(tag, f)[0]); } }
}
/// C07, C08, C09: the message lines
proof fn fields_read(e: Entry, forms: Option<SForms>, first: bool, u: SUnit, rest: Rem)
    requires well_formed(e, forms), starts(rest), u.obsolete == e.obsolete
    ensures sp_fields(s1(e, rest), first, forms, u) == (Ok::<Option<SUnit>, SError>(Some(SUnit { prev_context: ovalue(e.prev_context), prev_message: sp_new_previous(forms, ovalue(e.prev_id), ovalue(e.prev_plural)), context: ovalue(e.context), message: message_of(e, forms), ..u })), rest),
        head_obs(s1(e, rest), e.obsolete),
{
    let o = e.obsolete;
    tags();
    msgstr_tags(0, 0);
    message_read(e, forms, rest);
    let a7 = |t: Seq<char>| t == "msgstr"@ || t == sp_msgstr(0);
    let a6 = |t: Seq<char>| a7(t) || t == "msgid_plural"@;
    let a5 = |t: Seq<char>| t == "msgid"@;
    let a4 = |t: Seq<char>| a5(t) || t == "msgctxt"@;
    let a3 = |t: Seq<char>| a4(t) || t == "|msgid_plural"@;
    let a2 = |t: Seq<char>| a3(t) || t == "|msgid"@;
    let a1 = |t: Seq<char>| a2(t) || t == "|msgctxt"@;
    assert(field_ok(e.strs[0], o));
    assert(s7(e, rest)[0] == (if e.plural is None { field_lines("msgstr"@, e.strs[0]) } else { strs_lines(e.strs, 0) })[0]);
    if e.plural is Some { assert(strs_lines(e.strs, 0)[0] == field_lines(sp_msgstr(0), e.strs[0])[0]); }
    assert(first_tag(s7(e, rest), o, a7));
    first_of("msgid_plural"@, e.plural, o, s7(e, rest), a7, a6);
    field_read("msgid"@, e.id, o, s6(e, rest));
    assert(s5(e, rest)[0] == field_lines("msgid"@, e.id)[0]);
    assert(first_tag(s5(e, rest), o, a5));
    first_of("msgctxt"@, e.context, o, s5(e, rest), a5, a4);
    first_of("|msgid_plural"@, e.prev_plural, o, s4(e, rest), a4, a3);
    first_of("|msgid"@, e.prev_id, o, s3(e, rest), a3, a2);
    first_of("|msgctxt"@, e.prev_context, o, s2(e, rest), a2, a1);
    if e.prev_plural is None { assert(ofield_lines("|msgid_plural"@, e.prev_plural) + s4(e, rest) =~= s4(e, rest)); }
}
proof fn lines_split(e: Entry, rest: Rem)
    ensures entry_lines(e) + rest == comment_lines(e.comments) + s1(e, rest)
{
    hide(ofield_lines);
    hide(field_lines);
    hide(l_strs);
    assert(entry_lines(e) + rest =~= comment_lines(e.comments) + s1(e, rest));
}
/// C07, C08, C09, C10: reading the lines of a well-formed entry gives its unit, and leaves what follows
pub proof fn entry_read(e: Entry, forms: Option<SForms>, first: bool, rest: Rem)
    requires well_formed(e, forms), starts(rest), first || e.plural is Some || value(e.id).len() > 0
    ensures sp_read_unit(entry_lines(e) + rest, first, forms) == (Ok::<Option<SUnit>, SError>(Some(unit_of(e, forms))), rest)
{
    hide(sp_fields);
    hide(entry_lines);
    hide(s1);
    hide(applied);
    let o = e.obsolete;
    let u = applied(sp_unit0(), e.comments);
    let t1 = s1(e, rest);
    applied_keeps(sp_unit0(), e.comments);
    fields_read(e, forms, first, SUnit { obsolete: o, ..u }, rest);
    lines_split(e, rest);
    comments_read(e.comments, sp_unit0(), t1);
    assert(sp_read_line(t1) is Some && sp_read_line(t1)->Some_0.1 == o);
    assert(crate::t_c11::early(sp_unit0()));
}
proof fn heads(f: Option<Field>, tag: Seq<char>, o: bool, rest: Rem)
    requires ofield_ok(f, o)
    ensures f is Some ==> head_obs(ofield_lines(tag, f) + rest, o), f is None ==> ofield_lines(tag, f) + rest == rest
{
    match f {
        None => { assert(ofield_lines(tag, f) + rest =~= rest); }
        Some(f) => { assert((field_lines(tag, f) + rest)[0] == field_lines(tag, f)[0]); }
    }
}
