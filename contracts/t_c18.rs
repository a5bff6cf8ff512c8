// C18 as lemmas over the contracts of LineIter and PoParser::parse_line (sp_lines, sp_class)
use vstd::prelude::*;
use crate::shim::*;
use crate::spec::*;
use crate::t_erase::*;

pub type Raw = Seq<Result<String, crate::shim::IoError>>;
/// what one line is, whatever its number
pub open spec fn what(r: Result<String, crate::shim::IoError>) -> Result<SLine, SError> {
    match r {
        Err(e) => Err(SError::Io(0, e)),
        Ok(s) => match sp_class(s@, 0) { Err(_) => Err(SError::Parse(0, Seq::empty(), Seq::empty())), Ok(x) => Ok(x) },
    }
}
/// the lines that are not blank, up to the first error
pub open spec fn visible(l: Raw) -> Rem decreases l.len() {
    if l.len() == 0 { Seq::empty() }
    else {
        match what(l[0]) {
            Ok(SLine::Blank) => visible(l.skip(1)),
            Ok(x) => seq![Ok(x)] + visible(l.skip(1)),
            Err(e) => seq![Err(e)],
        }
    }
}
pub proof fn lines_visible(l: Raw, n: int)
    ensures er(sp_lines(l, n)) == visible(l)
    decreases l.len()
{
    if l.len() == 0 { assert(er(sp_lines(l, n)) =~= visible(l)); }
    else {
        lines_visible(l.skip(1), n + 1);
        match l[0] {
            Err(e) => { assert(er(sp_lines(l, n)) =~= visible(l)); }
            Ok(s) => match sp_class(s@, n) {
                Err(_) => { assert(er(sp_lines(l, n)) =~= visible(l)); }
                Ok(SLine::Blank) => {}
                Ok(x) => {
                    er_add(seq![Ok::<SLine, SError>(x)], sp_lines(l.skip(1), n + 1));
                    assert(er(seq![Ok::<SLine, SError>(x)]) =~= seq![Ok::<SLine, SError>(er_line(x))]);
                }
            },
        }
    }
}
/// two texts with the same lines, blank ones apart, are the same catalogue
pub proof fn same_catalogue(l: Raw, m: Raw)
    requires visible(l) == visible(m)
    ensures er_open(sp_open(sp_lines(l, 1))) == er_open(sp_open(sp_lines(m, 1)))
{
    lines_visible(l, 1);
    lines_visible(m, 1);
    open(sp_lines(l, 1));
    open(sp_lines(m, 1));
}
/// a blank line anywhere changes nothing
pub proof fn blank_line(a: Raw, s: String, b: Raw)
    requires sp_all_ws(s@)
    ensures visible(a + seq![Ok::<String, crate::shim::IoError>(s)] + b) == visible(a + b)
    decreases a.len()
{
    let x = seq![Ok::<String, crate::shim::IoError>(s)];
    if a.len() == 0 {
        assert((a + x + b).skip(1) =~= b);
        assert(a + b =~= b);
    } else {
        blank_line(a.skip(1), s, b);
        assert((a + x + b).skip(1) =~= a.skip(1) + x + b);
        assert((a + b).skip(1) =~= a.skip(1) + b);
    }
}
/// nor does another layout of a line, when the line is the same
pub proof fn other_layout(a: Raw, s: Result<String, crate::shim::IoError>, t: Result<String, crate::shim::IoError>, b: Raw)
    requires what(s) == what(t)
    ensures visible(a + seq![s] + b) == visible(a + seq![t] + b)
    decreases a.len()
{
    if a.len() == 0 {
        assert((a + seq![s] + b).skip(1) =~= b);
        assert((a + seq![t] + b).skip(1) =~= b);
    } else {
        other_layout(a.skip(1), s, t, b);
        assert((a + seq![s] + b).skip(1) =~= a.skip(1) + seq![s] + b);
        assert((a + seq![t] + b).skip(1) =~= a.skip(1) + seq![t] + b);
    }
}
// ---- space around a line

pub proof fn start_space(w: Seq<char>, s: Seq<char>)
    requires sp_all_ws(w)
    ensures sp_trim_start(w + s) == sp_trim_start(s)
    decreases w.len()
{
    if w.len() > 0 {
        assert(sp_all_ws(w.skip(1))) by { assert forall|i: int| 0 <= i < w.skip(1).len() implies sp_ws(#[trigger] w.skip(1)[i]) by { assert(w.skip(1)[i] == w[i + 1]); } }
        start_space(w.skip(1), s);
        assert((w + s).skip(1) =~= w.skip(1) + s);
        assert((w + s)[0] == w[0]);
    } else { assert(w + s =~= s); }
}
pub proof fn end_space(s: Seq<char>, w: Seq<char>)
    requires sp_all_ws(w)
    ensures sp_trim_end(s + w) == sp_trim_end(s)
    decreases w.len()
{
    if w.len() > 0 {
        let v = w.drop_last();
        assert(sp_all_ws(v)) by { assert forall|i: int| 0 <= i < v.len() implies sp_ws(#[trigger] v[i]) by { assert(v[i] == w[i]); } }
        end_space(s, v);
        assert((s + w).drop_last() =~= s + v);
        assert((s + w).last() == w.last());
        assert(sp_ws(w[w.len() - 1]));
    } else { assert(s + w =~= s); }
}
pub proof fn all_space(a: Seq<char>, b: Seq<char>)
    ensures sp_all_ws(a + b) == (sp_all_ws(a) && sp_all_ws(b))
{
    if sp_all_ws(a + b) {
        assert forall|i: int| 0 <= i < a.len() implies sp_ws(#[trigger] a[i]) by { assert((a + b)[i] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() implies sp_ws(#[trigger] b[i]) by { assert((a + b)[a.len() + i] == b[i]); }
    }
}
/// space before a line changes nothing
pub proof fn indent(w: Seq<char>, s: Seq<char>, n: int)
    requires sp_all_ws(w)
    ensures sp_class(w + s, n) == sp_class(s, n)
{
    start_space(w, s);
    all_space(w, s);
}
/// what remains at the front when space follows
pub proof fn start_then(s: Seq<char>, w: Seq<char>)
    requires sp_all_ws(w)
    ensures sp_trim_start(s + w) == (if sp_all_ws(s) { Seq::empty() } else { sp_trim_start(s) + w }), sp_all_ws(s) ==> sp_trim_start(s).len() == 0, !sp_all_ws(s) ==> sp_trim_start(s).len() > 0
    decreases s.len()
{
    all_space(s, w);
    if s.len() > 0 {
        assert((s + w)[0] == s[0]);
        if sp_ws(s[0]) {
            start_then(s.skip(1), w);
            assert((s + w).skip(1) =~= s.skip(1) + w);
            all_space(seq![s[0]], s.skip(1));
            assert(s =~= seq![s[0]] + s.skip(1));
            assert(sp_all_ws(seq![s[0]]));
        }
    } else {
        start_space(w, Seq::empty());
        assert(s + w =~= w + Seq::<char>::empty());
        assert(sp_all_ws(s));
    }
}
proof fn run_then(s: Seq<char>, w: Seq<char>)
    requires sp_all_ws(w)
    ensures sp_run_len(s + w, |c: char| sp_kw_char(c)) == sp_run_len(s, |c: char| sp_kw_char(c)), 0 <= sp_run_len(s, |c: char| sp_kw_char(c)) <= s.len()
    decreases s.len()
{
    if s.len() > 0 {
        run_then(s.skip(1), w);
        assert((s + w).skip(1) =~= s.skip(1) + w);
        assert((s + w)[0] == s[0]);
    } else if w.len() > 0 { assert((s + w)[0] == w[0]); }
}
proof fn quoted_then(s: Seq<char>, w: Seq<char>)
    requires sp_all_ws(w)
    ensures sp_quoted(s + w) == sp_quoted(s)
{
    start_then(s, w);
    if !sp_all_ws(s) { end_space(sp_trim_start(s), w); }
    else { assert(sp_trim_start(s) =~= Seq::empty()); }
}
/// space after a line that is no comment changes nothing
pub proof fn trailing(s: Seq<char>, w: Seq<char>, n: int)
    requires sp_all_ws(w), !(sp_class(s, n) matches Ok(SLine::Comment(..)))
    ensures sp_class(s + w, n) == sp_class(s, n)
{
    all_space(s, w);
    if !sp_all_ws(s) {
        start_then(s, w);
        let l = sp_trim_start(s);
        let m = sp_marker(l);
        assert(sp_trim_start(s + w) == l + w);
        assert(sp_marker(l + w) == m) by {
            assert((l + w)[0] == l[0]);
            if l.len() > 1 { assert((l + w)[1] == l[1]); }
            if l.len() > 2 { assert((l + w)[2] == l[2]); }
            if w.len() > 0 { assert(sp_ws(w[0])); assert((l + w)[l.len() as int] == w[0]); }
            if w.len() > 1 { assert(sp_ws(w[1])); assert((l + w)[1int + l.len()] == w[1]); }
        }
        let b = if m.len() == 0 { l } else { l.skip(1 + m.len() as int) };
        let bw = if m.len() == 0 { l + w } else { (l + w).skip(1 + m.len() as int) };
        assert(bw =~= b + w);
        start_then(b, w);
        let l2 = sp_trim_start(b);
        if sp_all_ws(b) {
            assert(l2 =~= Seq::empty());
        } else {
            run_then(l2, w);
            let k = sp_run_len(l2, |c: char| sp_kw_char(c));
            assert((l2 + w).take(k) =~= l2.take(k));
            assert((l2 + w).skip(k) =~= l2.skip(k) + w);
            quoted_then(l2, w);
            quoted_then(l2.skip(k), w);
        }
        assert(sp_msg_line(s + w) == sp_msg_line(s));
        assert((l + w)[0] == l[0]);
    }
}

// ---- line ends

/// the bytes of lines that each end with LF, or with CRLF where `cr` says so
pub open spec fn ended(ls: Seq<Seq<u8>>, cr: Seq<bool>) -> Seq<u8> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { ls[0] + (if cr[0] { seq![13u8, 10u8] } else { seq![10u8] }) + ended(ls.skip(1), cr.skip(1)) }
}
pub open spec fn plain(b: Seq<u8>) -> bool { !b.contains(10) && (b.len() > 0 ==> b.last() != 13) }
proof fn lf_at(b: Seq<u8>, r: Seq<u8>)
    requires !b.contains(10)
    ensures sp_lf(b + seq![10u8] + r) == b.len()
    decreases b.len()
{
    let d = b + seq![10u8] + r;
    if b.len() > 0 {
        assert(b[0] == d[0]);
        assert(b.contains(b[0]));
        assert forall|i: int| 0 <= i < b.skip(1).len() implies #[trigger] b.skip(1)[i] != 10 by { assert(b.skip(1)[i] == b[i + 1]); assert(b.contains(b[i + 1])); }
        lf_at(b.skip(1), r);
        assert(d.skip(1) =~= b.skip(1) + seq![10u8] + r);
    }
}
proof fn no_lf(b: Seq<u8>)
    requires !b.contains(10)
    ensures sp_lf(b) == b.len()
    decreases b.len()
{
    if b.len() > 0 {
        assert(b.contains(b[0]));
        assert forall|i: int| 0 <= i < b.skip(1).len() implies #[trigger] b.skip(1)[i] != 10 by { assert(b.skip(1)[i] == b[i + 1]); assert(b.contains(b[i + 1])); }
        no_lf(b.skip(1));
    }
}
/// the lines do not depend on how they end; the last one, `last`, need not end at all
pub proof fn line_ends(ls: Seq<Seq<u8>>, cr: Seq<bool>, last: Seq<u8>, fault: Option<IoError>, beyond: Seq<Result<String, IoError>>)
    requires cr.len() == ls.len(), forall|i: int| 0 <= i < ls.len() ==> plain(#[trigger] ls[i]), plain(last)
    ensures sp_byte_lines(ended(ls, cr) + last, fault, beyond) == ls.map_values(|b: Seq<u8>| sp_decode(b)) + sp_byte_lines(last, fault, beyond),
        sp_byte_lines(last, None, beyond) == (if last.len() == 0 { Seq::<Result<String, IoError>>::empty() } else { seq![sp_decode(last)] }),
    decreases ls.len()
{
    no_lf(last);
    let f = |b: Seq<u8>| sp_decode(b);
    if ls.len() == 0 {
        assert(ended(ls, cr) + last =~= last);
        assert(ls.map_values(f) + sp_byte_lines(last, fault, beyond) =~= sp_byte_lines(last, fault, beyond));
    } else {
        let l1 = ls.skip(1);
        assert forall|i: int| 0 <= i < l1.len() implies plain(#[trigger] l1[i]) by { assert(l1[i] == ls[i + 1]); }
        line_ends(l1, cr.skip(1), last, fault, beyond);
        let d = ended(ls, cr) + last;
        let b = if cr[0] { ls[0].push(13u8) } else { ls[0] };
        let r = ended(l1, cr.skip(1)) + last;
        assert(plain(ls[0]));
        assert(!b.contains(10)) by {
            assert forall|i: int| 0 <= i < b.len() implies b[i] != 10 by { if i < ls[0].len() { assert(b[i] == ls[0][i]); assert(ls[0].contains(ls[0][i])); } }
        }
        lf_at(b, r);
        assert(d =~= b + seq![10u8] + r);
        assert(d.take(b.len() as int) =~= b);
        assert(d.skip(1int + b.len()) =~= r);
        if cr[0] { assert(b.drop_last() =~= ls[0]); }
        assert(sp_chomp(b) == ls[0]);
        assert(ls.map_values(f) =~= seq![sp_decode(ls[0])] + l1.map_values(f));
        assert((seq![sp_decode(ls[0])] + l1.map_values(f)) + sp_byte_lines(last, fault, beyond) =~= seq![sp_decode(ls[0])] + (l1.map_values(f) + sp_byte_lines(last, fault, beyond)));
    }
}
/// leaving out the end of the last line changes nothing
pub proof fn last_end(ls: Seq<Seq<u8>>, cr: Seq<bool>, last: Seq<u8>, c: bool, beyond: Seq<Result<String, IoError>>)
    requires cr.len() == ls.len(), forall|i: int| 0 <= i < ls.len() ==> plain(#[trigger] ls[i]), plain(last), last.len() > 0
    ensures sp_byte_lines(ended(ls.push(last), cr.push(c)), None, beyond) == sp_byte_lines(ended(ls, cr) + last, None, beyond)
{
    let l2 = ls.push(last);
    let c2 = cr.push(c);
    let e = Seq::<u8>::empty();
    assert forall|i: int| 0 <= i < l2.len() implies plain(#[trigger] l2[i]) by { if i < ls.len() { assert(l2[i] == ls[i]); } }
    line_ends(l2, c2, e, None, beyond);
    line_ends(ls, cr, last, None, beyond);
    assert(ended(l2, c2) + e =~= ended(l2, c2));
    let f = |b: Seq<u8>| sp_decode(b);
    assert(l2.map_values(f) + Seq::<Result<String, IoError>>::empty() =~= ls.map_values(f) + seq![sp_decode(last)]);
}
