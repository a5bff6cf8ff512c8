// Proved lemmas
use vstd::prelude::*;
use crate::shim::*;
use crate::spec::*;
use crate::enums::message::*;

pub broadcast proof fn lm_lit0() ensures #[trigger] ""@ == Seq::<char>::empty() { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
pub broadcast proof fn lm_len0(s: Seq<char>) ensures #[trigger] s.len() == 0 ==> s == Seq::<char>::empty() { if s.len() == 0 { assert(s =~= Seq::<char>::empty()); } }
pub broadcast proof fn lm_map_push<A, B>(s: Seq<A>, x: A, f: spec_fn(A) -> B) ensures #[trigger] s.push(x).map_values(f) == s.map_values(f).push(f(x)) {
    assert(s.push(x).map_values(f) =~= s.map_values(f).push(f(x)));
}
pub broadcast proof fn lm_map_empty<A, B>(s: Seq<A>, f: spec_fn(A) -> B) ensures s.len() == 0 ==> #[trigger] s.map_values(f) == Seq::<B>::empty() {
    if s.len() == 0 { assert(s.map_values(f) =~= Seq::<B>::empty()); }
}
pub broadcast proof fn lm_map_skip<A, B>(s: Seq<A>, n: int, f: spec_fn(A) -> B) ensures 0 <= n <= s.len() ==> #[trigger] s.skip(n).map_values(f) == s.map_values(f).skip(n) {
    if 0 <= n <= s.len() { assert(s.skip(n).map_values(f) =~= s.map_values(f).skip(n)); }
}
pub broadcast proof fn lm_map_add<A, B>(s: Seq<A>, t: Seq<A>, f: spec_fn(A) -> B) ensures #[trigger] (s + t).map_values(f) == s.map_values(f) + t.map_values(f) {
    assert((s + t).map_values(f) =~= s.map_values(f) + t.map_values(f));
}
pub broadcast proof fn lm_add_empty(s: Seq<char>, t: Seq<char>) ensures t.len() == 0 ==> #[trigger] (s + t) == s { if t.len() == 0 { assert(s + t =~= s); } }
pub broadcast proof fn lm_prefix1(c: char, s: Seq<char>) ensures #[trigger] sp_pat(c).is_prefix_of(s) == (s.len() > 0 && s[0] == c) {
    ax_pat_char(c);
    if s.len() > 0 && s[0] == c { assert(seq![c] =~= s.subrange(0, 1)); }
    if seq![c].is_prefix_of(s) { assert(s.subrange(0, 1)[0] == s[0]); assert(seq![c][0] == c); }
}
pub broadcast proof fn lm_suffix1(c: char, s: Seq<char>) ensures #[trigger] sp_pat(c).is_suffix_of(s) == (s.len() > 0 && s.last() == c) {
    ax_pat_char(c);
    if s.len() > 0 && s.last() == c { assert(seq![c] =~= s.subrange(s.len() - 1, s.len() as int)); }
    if seq![c].is_suffix_of(s) { assert(s.subrange(s.len() - 1, s.len() as int)[0] == s.last()); assert(seq![c][0] == c); }
}
/// lists of texts, item by item
pub broadcast proof fn lm_texts_trim(a: Seq<&str>, b: Seq<&str>)
    ensures #![trigger sp_texts(a), sp_texts(b)] a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i]@ == sp_trim(a[i]@)) ==> sp_texts(b) == sp_trims(sp_texts(a))
{ if a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i]@ == sp_trim(a[i]@)) { assert(sp_texts(b) =~= sp_trims(sp_texts(a))); } }
pub broadcast proof fn lm_texts_owned(a: Seq<&str>, b: Seq<String>)
    ensures #![trigger sp_texts(a), sp_strs(b)] a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i]@ == a[i]@) ==> sp_strs(b) == sp_texts(a)
{ if a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i]@ == a[i]@) { assert(sp_strs(b) =~= sp_texts(a)); } }
pub broadcast proof fn lm_texts_keep(s: Seq<&str>, m: Seq<bool>)
    ensures #![trigger sp_keep(s, m)] m.len() == s.len() && (forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == (s[i]@.len() > 0)) ==> sp_texts(sp_keep(s, m)) == sp_non_empty(sp_texts(s))
    decreases s.len()
{
    if m.len() == s.len() && (forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == (s[i]@.len() > 0)) {
        reveal(Seq::filter);
        let f = |x: Seq<char>| x.len() > 0;
        if s.len() > 0 {
            let s1 = s.drop_last(); let m1 = m.drop_last();
            assert forall|i: int| 0 <= i < m1.len() implies #[trigger] m1[i] == (s1[i]@.len() > 0) by { assert(m[i] == (s[i]@.len() > 0)); }
            lm_texts_keep(s1, m1);
            assert(sp_texts(s).drop_last() =~= sp_texts(s1));
            assert(sp_texts(s).last() == s.last()@);
            assert(m.last() == (s.last()@.len() > 0));
            assert(sp_texts(sp_keep(s, m)) =~= sp_non_empty(sp_texts(s)));
        } else { assert(sp_texts(sp_keep(s, m)) =~= sp_non_empty(sp_texts(s))); }
    }
}
pub broadcast proof fn lm_strs_add(a: Seq<String>, b: Seq<String>) ensures #[trigger] sp_strs(a + b) == sp_strs(a) + sp_strs(b) { assert(sp_strs(a + b) =~= sp_strs(a) + sp_strs(b)); }
pub broadcast proof fn lm_strs_push(a: Seq<String>, b: String) ensures #[trigger] sp_strs(a.push(b)) == sp_strs(a).push(b@) { assert(sp_strs(a.push(b)) =~= sp_strs(a).push(b@)); }
pub broadcast proof fn lm_texts_skip(a: Seq<&str>) ensures a.len() > 0 ==> #[trigger] sp_texts(a.skip(1)) == sp_texts(a).skip(1) { if a.len() > 0 { assert(sp_texts(a.skip(1)) =~= sp_texts(a).skip(1)); } }
/// what trimming leaves
pub broadcast proof fn lm_trim_start(s: Seq<char>)
    ensures ({ let r = #[trigger] sp_trim_start(s); (r.len() == 0 <==> sp_all_ws(s)) && (r.len() > 0 ==> !sp_ws(r[0]) && r.last() == s.last()) && r.len() <= s.len() })
    decreases s.len()
{
    if s.len() > 0 && sp_ws(s[0]) {
        let t = s.skip(1);
        lm_trim_start(t);
        assert forall|i: int| 0 <= i < t.len() implies t[i] == s[i + 1] by { }
        if sp_all_ws(t) { assert forall|i: int| 0 <= i < s.len() implies sp_ws(#[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } } }
        if sp_all_ws(s) { assert forall|i: int| 0 <= i < t.len() implies sp_ws(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); } }
    } else if s.len() > 0 { assert(!sp_ws(s[0])); }
}
pub broadcast proof fn lm_trim_end(s: Seq<char>)
    ensures ({ let r = #[trigger] sp_trim_end(s); (r.len() == 0 <==> sp_all_ws(s)) && (r.len() > 0 ==> !sp_ws(r.last()) && r[0] == s[0]) && r.len() <= s.len() })
    decreases s.len()
{
    if s.len() > 0 && sp_ws(s.last()) {
        let t = s.drop_last();
        lm_trim_end(t);
        if sp_all_ws(t) { assert forall|i: int| 0 <= i < s.len() implies sp_ws(#[trigger] s[i]) by { if i < s.len() - 1 { assert(t[i] == s[i]); } } }
        if sp_all_ws(s) { assert forall|i: int| 0 <= i < t.len() implies sp_ws(#[trigger] t[i]) by { assert(t[i] == s[i]); } }
    } else if s.len() > 0 { assert(!sp_ws(s.last())); }
}
pub broadcast proof fn lm_trim_all(s: Seq<char>)
    ensures (#[trigger] sp_trim(s)).len() == 0 <==> sp_all_ws(s), sp_trim(sp_trim(s)) == sp_trim(s)
{
    lm_trim_start(s); lm_trim_end(sp_trim_start(s));
    let r = sp_trim_start(s);
    if r.len() > 0 { assert(!sp_ws(r[0])); }
    let t = sp_trim(s);
    assert(sp_trim_start(t) == t);
    assert(sp_trim_end(t) == t);
}
pub broadcast proof fn lm_trims_once(s: Seq<Seq<char>>)
    ensures #[trigger] sp_trims(sp_trims(s)) == sp_trims(s)
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] sp_trims(sp_trims(s))[i] == sp_trims(s)[i] by { lm_trim_all(s[i]); }
    assert(sp_trims(sp_trims(s)) =~= sp_trims(s));
}
pub broadcast proof fn lm_trims_skip(s: Seq<Seq<char>>)
    ensures #![trigger sp_trims(s.skip(1))] s.len() > 0 ==> sp_trims(s.skip(1)) == sp_trims(s).skip(1), sp_trims(s).len() == s.len(), s.len() > 0 ==> sp_trims(s)[0] == sp_trim(s[0])
{ if s.len() > 0 { assert(sp_trims(s.skip(1)) =~= sp_trims(s).skip(1)); } }
/// predicates that agree cut a text in the same way
pub broadcast proof fn lm_split_ws(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures #![trigger sp_split(s, p)] (forall|x: char| #[trigger] p(x) == sp_ws(x)) ==> sp_split(s, p) == sp_split(s, sp_is_ws())
{ if forall|x: char| #[trigger] p(x) == sp_ws(x) { assert(p =~= sp_is_ws()); } }
pub broadcast proof fn lm_split_is(s: Seq<char>, p: spec_fn(char) -> bool, c: char)
    ensures #![trigger sp_split(s, p), sp_is(c)] (forall|x: char| #[trigger] p(x) == (x == c)) ==> sp_split(s, p) == sp_split(s, sp_is(c))
{ if forall|x: char| #[trigger] p(x) == (x == c) { assert(p =~= sp_is(c)); } }
pub broadcast group texts { lm_split_ws, lm_split_is, lm_trims_once, lm_trims_skip, lm_texts_trim, lm_texts_owned, lm_texts_keep, lm_texts_skip }
pub broadcast group lemmas { lm_strs_add, lm_strs_push, lm_lit0, lm_len0, lm_map_push, lm_map_empty, lm_map_skip, lm_map_add, lm_add_empty, lm_prefix1, lm_suffix1, lm_trim_all }

/// reading a value consumes at least its line
pub broadcast proof fn lm_conts_len(rem: Rem, p: Seq<char>, acc: Seq<char>)
    ensures ({ let r = #[trigger] sp_conts(rem, p, acc); r.1.len() <= rem.len() && (r.0 is Ok ==> r.0->Ok_0 is Some) && (r.0 is Err ==> r.1.len() < rem.len()) })
    decreases rem.len()
{
    if rem.len() > 0 { match rem[0] { Ok(SLine::Continuation(_, q, s)) => lm_conts_len(rem.skip(1), p, acc + s), _ => () } }
}
pub broadcast proof fn lm_field_len(rem: Rem, tag: Seq<char>, obs: bool)
    ensures ({ let r = #[trigger] sp_field(rem, tag, obs); r.1.len() <= rem.len() && (r.0 is Ok && r.0->Ok_0 is None ==> r.1 == rem) && (r.0 is Ok && r.0->Ok_0 is Some ==> r.1.len() < rem.len()) && (r.0 is Err ==> r.1.len() < rem.len()) })
{
    if rem.len() > 0 { match rem[0] { Ok(SLine::Message(_, p, t, s)) => { lm_conts_len(rem.skip(1), p, s); } _ => () } }
}
pub broadcast proof fn lm_plurals_len(rem: Rem, obs: bool, i: int, count: int, acc: Seq<Seq<char>>)
    ensures (#[trigger] sp_plurals(rem, obs, i, count, acc)).1.len() <= rem.len()
    decreases count - i
{
    broadcast use lm_field_len;
    if i < count { let (a, r) = sp_field(rem, sp_msgstr(i), obs); match a { Ok(Some(v)) => lm_plurals_len(r, obs, i + 1, count, acc.push(v)), _ => () } }
}
pub broadcast proof fn lm_message_len(rem: Rem, obs: bool, forms: Option<SForms>, id: Option<Seq<char>>, pl: Option<Seq<char>>)
    ensures (#[trigger] sp_new_message(rem, obs, forms, id, pl)).1.len() <= rem.len()
{ broadcast use {lm_field_len, lm_plurals_len}; }
/// an entry that is read takes at least its msgid line
pub broadcast proof fn lm_fields_len(rem: Rem, first: bool, forms: Option<SForms>, u: SUnit)
    ensures ({ let r = #[trigger] sp_fields(rem, first, forms, u); r.1.len() <= rem.len() && (!first && r.0 is Ok && r.0->Ok_0 is Some ==> r.1.len() < rem.len()) })
{ broadcast use {lm_field_len, lm_message_len}; }
pub broadcast proof fn lm_comments_len(rem: Rem, u: SUnit)
    ensures ({ let r = #[trigger] sp_comments(rem, u); r.1.len() <= rem.len() && (r.0 is Ok && r.1.len() > 0 ==> r.1[0] is Ok) })
    decreases rem.len()
{
    if rem.len() > 0 { match rem[0] { Ok(SLine::Comment(_, c, s)) => lm_comments_len(rem.skip(1), sp_apply(u, c, s)), _ => () } }
}
pub broadcast proof fn lm_unit_len(rem: Rem, first: bool, forms: Option<SForms>)
    ensures ({ let r = #[trigger] sp_read_unit(rem, first, forms); r.1.len() <= rem.len() && (!first && r.0 is Ok && r.0->Ok_0 is Some ==> r.1.len() < rem.len()) })
{ broadcast use {lm_comments_len, lm_fields_len}; }
pub broadcast proof fn lm_skip1<A>(a: Seq<A>, s: Seq<A>) ensures a.len() == 1 ==> #[trigger] (a + s).skip(1) == s { if a.len() == 1 { assert((a + s).skip(1) =~= s); } }
pub broadcast proof fn lm_smsg_empty(m: Message) ensures #![trigger sp_smsg_empty(sp_message(m))] #![trigger sp_is_empty(m)] sp_smsg_empty(sp_message(m)) == sp_is_empty(m) {}
pub broadcast proof fn lm_smsg_blank(m: Message) ensures #![trigger sp_smsg_blank(sp_message(m))] #![trigger sp_is_blank(m)] sp_smsg_blank(sp_message(m)) == sp_is_blank(m) {
    match m { Message::Plural(p) => {
        assert forall|i: int| 0 <= i < p.values@.len() && sp_smsg_blank(sp_message(m)) implies (#[trigger] p.values@[i])@.len() == 0 by { assert(sp_message(m)->values[i] == p.values@[i]@); }
        assert forall|i: int| 0 <= i < p.values@.len() && sp_is_blank(m) implies (#[trigger] sp_vs(p.values)[i]).len() == 0 by { assert(p.values@[i]@.len() == 0); }
    } _ => () }
}
pub broadcast group units { lm_smsg_empty, lm_smsg_blank, lm_comments_len, lm_unit_len, lm_skip1 }
pub broadcast group sizes { lm_conts_len, lm_field_len }

pub proof fn lm_escapes()
    ensures "\""@ == seq!['"'], "\\"@ == seq!['\\'], "\n"@ == seq!['\n'], "\r"@ == seq!['\r'], "\t"@ == seq!['\t']
{
    reveal_strlit("\""); reveal_strlit("\\"); reveal_strlit("\n"); reveal_strlit("\r"); reveal_strlit("\t");
    assert("\""@ =~= seq!['"']); assert("\\"@ =~= seq!['\\']); assert("\n"@ =~= seq!['\n']); assert("\r"@ =~= seq!['\r']); assert("\t"@ =~= seq!['\t']);
}

// ---- the header
pub broadcast proof fn lm_run_first(s: Seq<char>, c: char, i: int)
    ensures #![trigger sp_first(s, c, i)] sp_first(s, c, i) ==> sp_run_len(s, sp_isnt(c)) == i && sp_off(s, i + 1) == sp_off(s, i) + sp_u8len(c)
    decreases s.len()
{
    if sp_first(s, c, i) && i > 0 {
        assert(s[0] != c);
        let t = s.skip(1);
        assert(t[i - 1] == c);
        assert forall|j: int| 0 <= j < i - 1 implies t[j] != c by { assert(s[j + 1] != c); }
        assert(sp_first(t, c, i - 1));
        lm_run_first(t, c, i - 1);
    }
}
/// what is left from the first c on, and after it
pub broadcast proof fn lm_first_rest(s: Seq<char>, c: char, i: int)
    ensures #![trigger sp_first(s, c, i), s.skip(i)] sp_first(s, c, i) ==> sp_off(s.skip(i), 1) == sp_u8len(c) && s.skip(i).len() > 0 && s.skip(i).skip(1) == s.skip(i + 1)
{
    if sp_first(s, c, i) {
        let r = s.skip(i);
        assert(r[0] == c);
        assert(sp_off(r, 0) == 0);
        assert(r.skip(1) =~= s.skip(i + 1));
    }
}
pub broadcast proof fn lm_run_none(s: Seq<char>, c: char)
    ensures #![trigger sp_run_len(s, sp_isnt(c))] #![trigger s.contains(c)] !s.contains(c) ==> sp_run_len(s, sp_isnt(c)) == s.len()
    decreases s.len()
{
    if !s.contains(c) && s.len() > 0 {
        assert(s.contains(s[0]));
        let t = s.skip(1);
        assert forall|j: int| 0 <= j < t.len() implies t[j] != c by { assert(s.contains(s[j + 1])); }
        lm_run_none(t, c);
    }
}
pub broadcast proof fn lm_map_push_view(a: Map<Seq<char>, Vec<String>>, k: Seq<char>, v: Vec<String>)
    ensures sp_mview(#[trigger] a.insert(k, v)) == sp_mview(a).insert(k, sp_strs(v@)), sp_mview(a).contains_key(k) == a.contains_key(k), a.contains_key(k) ==> sp_mview(a)[k] == sp_strs(a[k]@)
{
    assert(sp_mview(a.insert(k, v)) =~= sp_mview(a).insert(k, sp_strs(v@)));
}
pub broadcast proof fn lm_pview_empty(m: Map<Seq<char>, String>) ensures #[trigger] sp_pview(m) == Map::<Seq<char>, Seq<char>>::empty() ==> m == Map::<Seq<char>, String>::empty() {
    if sp_pview(m) == Map::<Seq<char>, Seq<char>>::empty() {
        assert forall|k: Seq<char>| !m.contains_key(k) by { assert(!sp_pview(m).contains_key(k)); }
        assert(m =~= Map::<Seq<char>, String>::empty());
    }
}
pub broadcast proof fn lm_mview_empty() ensures #[trigger] sp_mview(Map::<Seq<char>, Vec<String>>::empty()) == Map::<Seq<char>, Seq<Seq<char>>>::empty()
{ assert(sp_mview(Map::<Seq<char>, Vec<String>>::empty()) =~= Map::<Seq<char>, Seq<Seq<char>>>::empty()); }
pub broadcast proof fn lm_pview_empty0() ensures #[trigger] sp_pview(Map::<Seq<char>, String>::empty()) == Map::<Seq<char>, Seq<char>>::empty()
{ assert(sp_pview(Map::<Seq<char>, String>::empty()) =~= Map::<Seq<char>, Seq<char>>::empty()); }
pub open spec fn sp_joined_items(s: Seq<(String, Vec<String>)>, r: Seq<(String, String)>) -> bool {
    s.len() == r.len() && forall|i: int| #![trigger s[i]] #![trigger r[i]] 0 <= i < s.len() ==> r[i].0@ == s[i].0@ && r[i].1@ == sp_join(sp_strs(s[i].1@), " "@)
}
proof fn lm_insert_all(r: Seq<(String, String)>)
    ensures ({
        let m = sp_insert_all(Map::<Seq<char>, String>::empty(), r);
        &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < r.len() && #[trigger] r[i].0@ == k && m[k] == r[i].1
        &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key(#[trigger] r[i].0@)
    })
    decreases r.len()
{
    if r.len() > 0 {
        lm_insert_all(r.drop_last());
        let m = sp_insert_all(Map::<Seq<char>, String>::empty(), r);
        let p = sp_insert_all(Map::<Seq<char>, String>::empty(), r.drop_last());
        assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < r.len() && #[trigger] r[i].0@ == k && m[k] == r[i].1 by {
            if k == r.last().0@ { assert(r[r.len() - 1].0@ == k && m[k] == r[r.len() - 1].1); }
            else { assert(p.contains_key(k)); let i = choose|i: int| 0 <= i < r.len() - 1 && #[trigger] r.drop_last()[i].0@ == k && p[k] == r.drop_last()[i].1; assert(r[i].0@ == k && m[k] == r[i].1); }
        }
        assert forall|i: int| 0 <= i < r.len() implies m.contains_key(#[trigger] r[i].0@) by { if i < r.len() - 1 { assert(r.drop_last()[i] == r[i]); assert(p.contains_key(r.drop_last()[i].0@)); } }
    }
}
pub broadcast proof fn lm_joined(m: Map<Seq<char>, Vec<String>>, s: Seq<(String, Vec<String>)>, r: Seq<(String, String)>)
    ensures #![trigger sp_listing(m, s), sp_insert_all(Map::<Seq<char>, String>::empty(), r)]
        sp_listing(m, s) && sp_joined_items(s, r) ==> sp_pview(sp_insert_all(Map::<Seq<char>, String>::empty(), r)) == sp_joins(sp_mview(m))
{
    if sp_listing(m, s) && sp_joined_items(s, r) {
        lm_insert_all(r);
        let a = sp_insert_all(Map::<Seq<char>, String>::empty(), r);
        let l = sp_pview(a); let q = sp_joins(sp_mview(m));
        assert forall|k: Seq<char>| #![trigger l.contains_key(k)] #![trigger q.contains_key(k)] l.contains_key(k) == q.contains_key(k) && (l.contains_key(k) ==> l[k] == q[k]) by {
            assert(l.contains_key(k) == a.contains_key(k));
            assert(q.contains_key(k) == m.contains_key(k));
            if a.contains_key(k) {
                let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i].0@ == k && a[k] == r[i].1;
                assert(s[i].0.kv() == k);
                assert(m.contains_key(s[i].0.kv()) && m[s[i].0.kv()] == s[i].1);
                assert(a[k]@ == sp_join(sp_strs(m[k]@), " "@));
            }
            if m.contains_key(k) {
                let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0.kv() == k;
                assert(r[i].0@ == k);
                assert(a.contains_key(r[i].0@));
            }
        }
        assert forall|k: Seq<char>| l.dom().contains(k) == q.dom().contains(k) by { assert(l.contains_key(k) == q.contains_key(k)); }
        assert(l.dom() =~= q.dom());
        assert(l =~= q);
    }
}
pub broadcast proof fn lm_empty_add<A>(a: Seq<A>, b: Seq<A>) ensures a.len() == 0 ==> #[trigger] (a + b) == b { if a.len() == 0 { assert(a + b =~= b); } }
pub broadcast proof fn lm_strs_one(b: String) ensures #[trigger] sp_strs(seq![b]) == seq![b@] { assert(sp_strs(seq![b]) =~= seq![b@]); }
/// white space around a header line does not matter
pub proof fn lm_trim_tail(x: Seq<char>)
    requires x.len() > 0, sp_ws(x.last())
    ensures sp_trim(x) == sp_trim(x.drop_last())
    decreases x.len()
{
    let y = x.drop_last();
    if sp_ws(x[0]) && x.len() > 1 {
        lm_trim_tail(x.skip(1));
        assert(x.skip(1).drop_last() =~= y.skip(1));
        assert(y[0] == x[0]);
    } else if x.len() == 1 {
        assert(x.skip(1) =~= Seq::<char>::empty());
        assert(y =~= Seq::<char>::empty());
        assert(sp_trim_start(x.skip(1)) =~= Seq::<char>::empty());
        assert(sp_trim_start(x) =~= Seq::<char>::empty());
    } else {
        assert(y[0] == x[0]);
        assert(sp_trim_start(y) == y);
        assert(sp_trim_start(x) == x);
    }
}
pub proof fn lm_prop_tail(l: Seq<char>)
    requires l.len() > 0, sp_ws(l.last())
    ensures sp_prop(l) == sp_prop(l.drop_last())
{
    let m = l.drop_last();
    let i = sp_run_len(l, sp_isnt(':'));
    let j = sp_run_len(m, sp_isnt(':'));
    lm_run_tail(l);
    if i < l.len() - 1 {
        assert(l.take(i) =~= m.take(i));
        assert(l.skip(i + 1).drop_last() =~= m.skip(i + 1));
        assert(l.skip(i + 1).last() == l.last());
        lm_trim_tail(l.skip(i + 1));
    }
}
proof fn lm_run_tail(l: Seq<char>)
    requires l.len() > 0, l.last() != ':'
    ensures ({ let i = sp_run_len(l, sp_isnt(':')); let j = sp_run_len(l.drop_last(), sp_isnt(':')); (i == l.len() && j == l.len() - 1) || (i == j && 0 <= i < l.len() - 1) })
    decreases l.len()
{
    if l.len() > 1 && l[0] != ':' {
        lm_run_tail(l.skip(1));
        assert(l.skip(1).drop_last() =~= l.drop_last().skip(1));
        assert(l.drop_last()[0] == l[0]);
    } else if l.len() == 1 {
        assert(l.skip(1) =~= Seq::<char>::empty());
        assert(sp_run_len(l.skip(1), sp_isnt(':')) == 0);
    } else { assert(l.drop_last()[0] == l[0]); }
}
proof fn lm_run_range(s: Seq<char>, p: spec_fn(char) -> bool) ensures 0 <= sp_run_len(s, p) <= s.len() decreases s.len() { if s.len() > 0 && p(s[0]) { lm_run_range(s.skip(1), p); } }
pub proof fn lm_prop_head(l: Seq<char>)
    requires l.len() > 0, sp_ws(l[0])
    ensures sp_prop(l) == sp_prop(l.skip(1))
{
    let m = l.skip(1);
    let j = sp_run_len(m, sp_isnt(':'));
    assert(sp_run_len(l, sp_isnt(':')) == j + 1);
    lm_run_range(m, sp_isnt(':'));
    if 0 <= j < m.len() {
        assert(l.take(j + 1).skip(1) =~= m.take(j));
        assert(l.take(j + 1)[0] == l[0]);
        assert(sp_trim_start(l.take(j + 1)) == sp_trim_start(m.take(j)));
        assert(l.skip(j + 2) =~= m.skip(j + 1));
    }
}
proof fn lm_prop_start(l: Seq<char>) ensures sp_prop(sp_trim_start(l)) == sp_prop(l) decreases l.len() { if l.len() > 0 && sp_ws(l[0]) { lm_prop_head(l); lm_prop_start(l.skip(1)); } }
proof fn lm_prop_end(l: Seq<char>) ensures sp_prop(sp_trim_end(l)) == sp_prop(l) decreases l.len() { if l.len() > 0 && sp_ws(l.last()) { lm_prop_tail(l); lm_prop_end(l.drop_last()); } }
pub broadcast proof fn lm_prop_trim(l: Seq<char>) ensures #![trigger sp_prop(l), sp_trim(l)] sp_prop(sp_trim(l)) == sp_prop(l) { lm_prop_start(l); lm_prop_end(sp_trim_start(l)); }
/// lines that say the same, one by one
pub proof fn lm_props_same(m: Map<Seq<char>, Seq<Seq<char>>>, a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires a.len() <= b.len(), forall|i: int| 0 <= i < a.len() ==> sp_prop(#[trigger] a[i]) == sp_prop(b[i]), forall|i: int| a.len() <= i < b.len() ==> sp_prop(#[trigger] b[i]) is None
    ensures sp_add_props(m, a) == sp_add_props(m, b)
    decreases b.len()
{
    if b.len() > 0 {
        if a.len() > 0 {
            assert(sp_prop(a[0]) == sp_prop(b[0]));
            assert forall|i: int| 0 <= i < a.skip(1).len() implies sp_prop(#[trigger] a.skip(1)[i]) == sp_prop(b.skip(1)[i]) by { assert(sp_prop(a[i + 1]) == sp_prop(b[i + 1])); }
            assert forall|i: int| a.skip(1).len() <= i < b.skip(1).len() implies sp_prop(#[trigger] b.skip(1)[i]) is None by { assert(sp_prop(b[i + 1]) is None); }
            lm_props_same(sp_add_prop(m, a[0]), a.skip(1), b.skip(1));
        } else {
            assert(sp_prop(b[0]) is None);
            assert forall|i: int| a.len() <= i < b.skip(1).len() implies sp_prop(#[trigger] b.skip(1)[i]) is None by { assert(sp_prop(b[i + 1]) is None); }
            lm_props_same(m, a, b.skip(1));
        }
    }
}
/// `lines` for `split`
pub broadcast proof fn lm_props_lines(m: Map<Seq<char>, Seq<Seq<char>>>, s: Seq<char>)
    ensures #[trigger] sp_add_props(m, crate::more::sp_str_lines(s)) == sp_add_props(m, sp_split(s, sp_is('\n')))
{
    let a = sp_split(s, sp_is('\n'));
    let l = crate::more::sp_str_lines(s);
    lm_split_some(s, sp_is('\n'));
    assert forall|i: int| 0 <= i < l.len() implies sp_prop(#[trigger] l[i]) == sp_prop(a[i]) by { if a[i].len() > 0 && a[i].last() == '\r' { lm_prop_tail(a[i]); } }
    assert forall|i: int| l.len() <= i < a.len() implies sp_prop(#[trigger] a[i]) is None by { assert(a[i] == a.last()); assert(sp_run_len(a[i], sp_isnt(':')) == 0); }
    lm_props_same(m, l, a);
}
proof fn lm_split_some(s: Seq<char>, p: spec_fn(char) -> bool) ensures sp_split(s, p).len() > 0 decreases s.len() { if s.len() > 0 { lm_split_some(s.drop_last(), p); } }
pub broadcast group headers { lm_props_lines, lm_prop_trim, lm_mview_empty, lm_pview_empty0, lm_texts_skip, lm_run_first, lm_first_rest, lm_run_none, lm_map_push_view, lm_pview_empty, lm_joined, lm_empty_add, lm_strs_one }
pub broadcast proof fn lm_somes<B>(r: Seq<Option<B>>)
    ensures (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) is Some) ==> (#[trigger] sp_somes(r)).len() == r.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] sp_somes(r)[i]) == r[i]->0
    decreases r.len()
{
    if r.len() > 0 && (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) is Some) {
        assert forall|i: int| 0 <= i < r.drop_last().len() implies (#[trigger] r.drop_last()[i]) is Some by { assert(r[i] is Some); }
        lm_somes(r.drop_last());
        assert(r.last() == r[r.len() - 1]);
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] sp_somes(r)[i]) == r[i]->0 by { if i < r.len() - 1 { assert(sp_somes(r.drop_last())[i] == r.drop_last()[i]->0); } }
    }
}
pub open spec fn sp_pairs(s: Seq<(&str, &str)>, d: Seq<Def>) -> bool { s.len() == d.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ == d[i].key && s[i].1@ == d[i].value }
pub broadcast proof fn lm_def_map(s: Seq<(&str, &str)>, d: Seq<Def>)
    ensures #![trigger sp_insert_all(Map::empty(), s), sp_def_map(d)] sp_pairs(s, d) ==> sp_views(sp_insert_all(Map::empty(), s)) == sp_def_map(d)
    decreases s.len()
{
    if sp_pairs(s, d) {
        let m = sp_insert_all(Map::<Seq<char>, &str>::empty(), s);
        if s.len() > 0 {
            lm_def_map(s.drop_last(), d.drop_last());
            assert(s[s.len() - 1].0@ == d[d.len() - 1].key);
            assert(sp_views(m) =~= sp_def_map(d));
        } else {
            assert(sp_views(m) =~= sp_def_map(d));
        }
    }
}
pub broadcast group defs { lm_somes, lm_def_map }
