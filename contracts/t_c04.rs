// C04: definition lists written with any spacing are read as what they are, and nothing else is accepted
// (sp_defs, sp_pf: the contracts of PoParser::parse_map and PluralForms::parse)
use vstd::prelude::*;
use crate::spec::*;
use crate::t_c18::{start_space, start_then, all_space};

/// one definition as written: space, key, space, `=`, value with its space, `;` — or a stray `;`
pub ghost enum Item { Stray { space: Seq<char> }, Def { space: Seq<char>, key: Seq<char>, space2: Seq<char>, value: Seq<char> } }
pub open spec fn key_ok(k: Seq<char>) -> bool { k.len() > 0 && forall|i: int| 0 <= i < k.len() ==> sp_key_char(#[trigger] k[i]) }
pub open spec fn item_ok(x: Item) -> bool {
    match x {
        Item::Stray { space } => sp_all_ws(space),
        Item::Def { space, key, space2, value } => sp_all_ws(space) && key_ok(key) && sp_all_ws(space2) && !value.contains(';'),
    }
}
pub open spec fn body(x: Item) -> Seq<char> { match x { Item::Stray { .. } => Seq::empty(), Item::Def { key, space2, value, .. } => key + space2 + seq!['='] + value } }
pub open spec fn before(x: Item) -> Seq<char> { match x { Item::Stray { space } => space, Item::Def { space, .. } => space } }
pub open spec fn written(x: Seq<Item>, end: Seq<char>) -> Seq<char> decreases x.len() { if x.len() == 0 { end } else { before(x[0]) + (body(x[0]) + seq![';'] + written(x.skip(1), end)) } }
pub open spec fn defs(x: Seq<Item>) -> Seq<Def> decreases x.len() {
    if x.len() == 0 { Seq::empty() }
    else { (match x[0] { Item::Stray { .. } => Seq::empty(), Item::Def { key, value, .. } => seq![Def { key, value: sp_trim(value) }] }) + defs(x.skip(1)) }
}
pub open spec fn items_ok(x: Seq<Item>) -> bool { forall|i: int| 0 <= i < x.len() ==> item_ok(#[trigger] x[i]) }

proof fn run_semi(b: Seq<char>, r: Seq<char>)
    requires !b.contains(';'), r.len() == 0 || r[0] == ';'
    ensures sp_run_len(b + r, |c: char| c != ';') == b.len()
    decreases b.len()
{
    if b.len() > 0 {
        assert(b.contains(b[0]));
        assert(!b.skip(1).contains(';')) by { if b.skip(1).contains(';') { let i = choose|i: int| 0 <= i < b.skip(1).len() && b.skip(1)[i] == ';'; assert(b[i + 1] == ';'); } }
        run_semi(b.skip(1), r);
        assert((b + r).skip(1) =~= b.skip(1) + r);
        assert((b + r)[0] == b[0]);
    } else { assert(b + r =~= r); }
}
proof fn run_key(k: Seq<char>, r: Seq<char>)
    requires forall|i: int| 0 <= i < k.len() ==> sp_key_char(#[trigger] k[i]), r.len() > 0, !sp_key_char(r[0])
    ensures sp_run_len(k + r, |c: char| sp_key_char(c)) == k.len()
    decreases k.len()
{
    if k.len() > 0 {
        assert forall|i: int| 0 <= i < k.skip(1).len() implies sp_key_char(#[trigger] k.skip(1)[i]) by { assert(k.skip(1)[i] == k[i + 1]); }
        run_key(k.skip(1), r);
        assert((k + r).skip(1) =~= k.skip(1) + r);
        assert((k + r)[0] == k[0]);
    } else { assert(k + r =~= r); }
}
proof fn def_read(key: Seq<char>, w: Seq<char>, v: Seq<char>)
    requires key_ok(key), sp_all_ws(w)
    ensures sp_def(key + w + seq!['='] + v) == Some(Def { key, value: sp_trim(v) })
{
    let b = key + w + seq!['='] + v;
    let e = seq!['='] + v;
    let r = w + e;
    assert(b =~= key + r);
    assert(r[0] == (if w.len() > 0 { w[0] } else { '=' }));
    if w.len() > 0 { assert(sp_ws(w[0])); }
    run_key(key, r);
    assert(b.take(key.len() as int) =~= key);
    assert(b.skip(key.len() as int) =~= r);
    start_space(w, e);
    assert(sp_trim_start(e) == e);
    assert(e.skip(1) =~= v);
}
/// reading gives back every definition, in order
pub proof fn read(x: Seq<Item>, end: Seq<char>)
    requires items_ok(x), sp_all_ws(end)
    ensures sp_defs(written(x, end)) == Some(defs(x))
    decreases x.len()
{
    if x.len() == 0 {
        let n = Seq::<char>::empty();
        start_then(end, n);
        assert(end + n =~= end);
    } else {
        let t = x.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies item_ok(#[trigger] t[i]) by { assert(t[i] == x[i + 1]); }
        read(t, end);
        assert(item_ok(x[0]));
        let b = body(x[0]);
        let rest = written(t, end);
        let q = b + seq![';'] + rest;
        let s = before(x[0]) + q;
        start_space(before(x[0]), q);
        match x[0] {
            Item::Stray { .. } => { assert(q[0] == ';'); }
            Item::Def { key, space2, value, .. } => { assert(q[0] == key[0]); assert(sp_key_char(key[0])); def_read(key, space2, value); }
        }
        assert(sp_trim_start(q) == q);
        assert(!b.contains(';')) by {
            if b.contains(';') {
                let i = choose|i: int| 0 <= i < b.len() && b[i] == ';';
                match x[0] {
                    Item::Def { key, space2, value, .. } => {
                        if i < key.len() { assert(b[i] == key[i]); }
                        else if i < key.len() + space2.len() { assert(b[i] == space2[i - key.len()]); assert(sp_ws(space2[i - key.len()])); }
                        else if i > key.len() + space2.len() { assert(b[i] == value[i - key.len() - space2.len() - 1]); assert(value.contains(';')); }
                    }
                    _ => {}
                }
            }
        }
        run_semi(b, seq![';'] + rest);
        assert(b + (seq![';'] + rest) =~= q);
        assert(q.take(b.len() as int) =~= b);
        assert(q.skip(1int + b.len()) =~= rest);
        assert(defs(x) == (match x[0] { Item::Stray { .. } => Seq::empty(), Item::Def { key, value, .. } => seq![Def { key, value: sp_trim(value) }] }) + defs(t));
        assert(Seq::<Def>::empty() + defs(t) =~= defs(t));
        assert(s.len() >= q.len());
    }
}
/// and what is accepted is a list of that form: anything else is refused
pub proof fn only(s: Seq<char>) -> (r: (Seq<Item>, Seq<char>))
    requires sp_defs(s) is Some
    ensures items_ok(r.0), sp_all_ws(r.1), s == written(r.0, r.1)
    decreases s.len()
{
    let t = sp_trim_start(s);
    let w = lead(s);
    if t.len() == 0 {
        assert(s =~= w + t);
        assert(w + t =~= w);
        (Seq::empty(), s)
    } else {
        let d = sp_run_len(t, |c: char| c != ';');
        run_upto(t);
        assert(t.len() <= s.len());
        let (x, end) = only(t.skip(d + 1));
        let b = t.take(d);
        assert(t =~= b + seq![';'] + t.skip(d + 1));
        let item = if d == 0 { Item::Stray { space: w } } else {
            let k = sp_run_len(b, |c: char| sp_key_char(c));
            run_keys(b);
            let r = b.skip(k);
            let w2 = lead(r);
            let e = sp_trim_start(r);
            assert(e =~= seq!['='] + e.skip(1));
            assert(b =~= b.take(k) + (w2 + e));
            assert(b =~= b.take(k) + w2 + seq!['='] + e.skip(1));
            assert(!e.skip(1).contains(';')) by {
                if e.skip(1).contains(';') {
                    let i = choose|i: int| 0 <= i < e.skip(1).len() && e.skip(1)[i] == ';';
                    assert(b[k + w2.len() + 1 + i] == ';');
                    assert(t[k + w2.len() + 1 + i] == ';');
                }
            }
            Item::Def { space: w, key: b.take(k), space2: w2, value: e.skip(1) }
        };
        assert(body(item) =~= b);
        let y = seq![item] + x;
        assert(y.skip(1) =~= x);
        assert forall|i: int| 0 <= i < y.len() implies item_ok(#[trigger] y[i]) by { if i > 0 { assert(y[i] == x[i - 1]); } }
        assert(s =~= written(y, end));
        (y, end)
    }
}
/// the space before a text
proof fn lead(s: Seq<char>) -> (w: Seq<char>)
    ensures sp_all_ws(w), s == w + sp_trim_start(s)
    decreases s.len()
{
    if s.len() > 0 && sp_ws(s[0]) {
        let v = lead(s.skip(1));
        let w = seq![s[0]] + v;
        all_space(seq![s[0]], v);
        assert forall|i: int| 0 <= i < w.len() implies sp_ws(#[trigger] w[i]) by { if i > 0 { assert(w[i] == v[i - 1]); } }
        assert(s =~= seq![s[0]] + s.skip(1));
        assert(w + sp_trim_start(s) =~= seq![s[0]] + (v + sp_trim_start(s)));
        w
    } else { assert(s =~= Seq::<char>::empty() + sp_trim_start(s)); Seq::empty() }
}
proof fn run_upto(t: Seq<char>)
    ensures ({
        let d = sp_run_len(t, |c: char| c != ';');
        0 <= d <= t.len() && (forall|i: int| 0 <= i < d ==> #[trigger] t[i] != ';') && (d < t.len() ==> t[d] == ';')
    })
    decreases t.len()
{
    if t.len() > 0 && t[0] != ';' {
        run_upto(t.skip(1));
        let d = sp_run_len(t, |c: char| c != ';');
        assert forall|i: int| 0 <= i < d implies #[trigger] t[i] != ';' by { if i > 0 { assert(t.skip(1)[i - 1] == t[i]); } }
        if d < t.len() { assert(t.skip(1)[d - 1] == t[d]); }
    }
}
proof fn run_keys(t: Seq<char>)
    ensures ({
        let d = sp_run_len(t, |c: char| sp_key_char(c));
        0 <= d <= t.len() && (forall|i: int| 0 <= i < d ==> sp_key_char(#[trigger] t[i]))
    })
    decreases t.len()
{
    if t.len() > 0 && sp_key_char(t[0]) {
        run_keys(t.skip(1));
        let d = sp_run_len(t, |c: char| sp_key_char(c));
        assert forall|i: int| 0 <= i < d implies sp_key_char(#[trigger] t[i]) by { if i > 0 { assert(t.skip(1)[i - 1] == t[i]); } }
    }
}
/// the last definition of a key is the one that counts
pub proof fn last_counts(d: Seq<Def>, i: int)
    requires 0 <= i < d.len(), forall|j: int| i < j < d.len() ==> (#[trigger] d[j]).key != d[i].key
    ensures sp_def_map(d).contains_key(d[i].key), sp_def_map(d)[d[i].key] == d[i].value
    decreases d.len()
{
    if i < d.len() - 1 {
        assert(d.last() == d[d.len() - 1]);
        assert forall|j: int| i < j < d.drop_last().len() implies (#[trigger] d.drop_last()[j]).key != d.drop_last()[i].key by { assert(d[j].key != d[i].key); }
        last_counts(d.drop_last(), i);
    }
}
/// a key that is not defined is absent
pub proof fn absent(d: Seq<Def>, k: Seq<char>)
    requires forall|j: int| 0 <= j < d.len() ==> (#[trigger] d[j]).key != k
    ensures !sp_def_map(d).contains_key(k)
    decreases d.len()
{
    if d.len() > 0 {
        assert(d.last() == d[d.len() - 1]);
        assert forall|j: int| 0 <= j < d.drop_last().len() implies (#[trigger] d.drop_last()[j]).key != k by { assert(d[j].key != k); }
        absent(d.drop_last(), k);
    }
}
/// a number is read as itself
pub proof fn number(n: nat)
    ensures sp_undec(sp_dec(n)) == Some(n)
{
    digits(n);
    let s = sp_dec(n);
    assert(sp_is_digit(s[0]));
}
proof fn digits(n: nat)
    ensures sp_dec(n).len() > 0, forall|i: int| 0 <= i < sp_dec(n).len() ==> sp_is_digit(#[trigger] sp_dec(n)[i]), sp_value(sp_dec(n)) == n
    decreases n
{
    let s = sp_dec(n);
    if n < 10 {
        assert(s.drop_last() =~= Seq::empty());
        assert(s.last() as u32 == 48 + n);
        reveal_with_fuel(sp_value, 2);
    } else {
        digits(n / 10);
        assert(s.drop_last() =~= sp_dec(n / 10));
        assert(s.last() as u32 == 48 + n % 10);
        assert forall|i: int| 0 <= i < s.len() implies sp_is_digit(#[trigger] s[i]) by { if i < s.len() - 1 { assert(s[i] == sp_dec(n / 10)[i]); } }
    }
}
/// the forms of a header value: all of it, or an error
pub proof fn forms(text: Seq<char>)
    ensures match sp_pf(text) {
        Some(f) => sp_defs(text) is Some && f.definition == text && ({
            let m = sp_def_map(sp_defs(text)->0);
            (m.contains_key("nplurals"@) ==> sp_undec(m["nplurals"@]) == Some(f.count)) && (!m.contains_key("nplurals"@) ==> f.count == 2)
                && (m.contains_key("plural"@) ==> f.formula == m["plural"@]) && sp_formula_of(f.formula) == Some(f.expr)
                && (!m.contains_key("plural"@) ==> f.formula.len() == 0)
        }),
        None => true,
    }
{
}
