// C05: lines of every class, written with any spacing, are read as what they are (sp_class, the contract of PoParser::parse_line)
use vstd::prelude::*;
use crate::spec::*;
use crate::t_c18::{start_space, all_space, end_space, start_then};

pub open spec fn marker_ok(m: Seq<char>) -> bool { m.len() == 0 || m == seq!['~'] || m == seq!['|'] || m == seq!['~', '|'] }
pub open spec fn mark(m: Seq<char>) -> Seq<char> { if m.len() == 0 { Seq::empty() } else { seq!['#'] + m } }
pub open spec fn quote(s: Seq<char>) -> Seq<char> { seq!['"'] + s + seq!['"'] }
pub open spec fn kw(k: Option<Seq<char>>) -> Seq<char> { match k { None => Seq::empty(), Some(k) => k } }

proof fn start_id(s: Seq<char>)
    requires s.len() > 0, !sp_ws(s[0])
    ensures sp_trim_start(s) == s
{
}
proof fn run_kw(k: Seq<char>, r: Seq<char>)
    requires forall|i: int| 0 <= i < k.len() ==> sp_kw_char(#[trigger] k[i]), r.len() > 0, !sp_kw_char(r[0])
    ensures sp_run_len(k + r, |c: char| sp_kw_char(c)) == k.len()
    decreases k.len()
{
    if k.len() > 0 {
        assert forall|i: int| 0 <= i < k.skip(1).len() implies sp_kw_char(#[trigger] k.skip(1)[i]) by { assert(k.skip(1)[i] == k[i + 1]); }
        run_kw(k.skip(1), r);
        assert((k + r).skip(1) =~= k.skip(1) + r);
        assert((k + r)[0] == k[0]);
    } else { assert(k + r =~= r); }
}
/// the characters of keywords
pub proof fn kw_chars(k: Seq<char>)
    requires sp_keyword(k)
    ensures k.len() > 0, forall|i: int| 0 <= i < k.len() ==> sp_kw_char(#[trigger] k[i])
{
    reveal_strlit("msgctxt"); reveal_strlit("msgid"); reveal_strlit("msgid_plural"); reveal_strlit("msgstr"); reveal_strlit("msgstr[");
    if k.len() > 8 && k.take(7) == "msgstr["@ && k.last() == ']' {
        let d = k.subrange(7, k.len() - 1);
        assert forall|i: int| 0 <= i < k.len() implies sp_kw_char(#[trigger] k[i]) by {
            if i < 7 { assert(k[i] == k.take(7)[i]); } else if i < k.len() - 1 { assert(k[i] == d[i - 7]); if d != seq!['0'] && i > 7 { assert(crate::extracted::sp_udigit(d[i - 7])); } }
        }
    }
}
/// a message line or a string continuation, with any space before, between and after its parts
pub proof fn message_line(w0: Seq<char>, m: Seq<char>, w1: Seq<char>, k: Option<Seq<char>>, w2: Seq<char>, s: Seq<char>, w3: Seq<char>, n: int)
    requires sp_all_ws(w0), sp_all_ws(w1), sp_all_ws(w2), sp_all_ws(w3), marker_ok(m), k is Some ==> sp_keyword(k->0), k is None ==> w2.len() == 0
    ensures ({
        let line = w0 + (mark(m) + (w1 + (kw(k) + (w2 + (quote(s) + w3)))));
        sp_class(line, n) == (match k {
            None => Ok::<SLine, ()>(SLine::Continuation(n, m, sp_unescape(s))),
            Some(k) => Ok(SLine::Message(n, m, if m.len() > 0 && m.last() == '|' { "|"@ + k } else { k }, sp_unescape(s))),
        })
    })
{
    let t5 = quote(s) + w3;
    let t4 = w2 + t5;
    let t3 = kw(k) + t4;
    let t2 = w1 + t3;
    let t1 = mark(m) + t2;
    let line = w0 + t1;
    assert(quote(s)[0] == '"' && quote(s).last() == '"');
    assert(t5[0] == '"');
    // the string
    end_space(quote(s), w3);
    start_id(t5);
    start_space(w2, t5);
    assert(sp_trim_end(quote(s)) == quote(s));
    assert(quote(s).subrange(1, quote(s).len() - 1) =~= s);
    assert(sp_quoted(t4) == Some(s));
    assert(!sp_kw_char(t4[0])) by { if w2.len() > 0 { assert(t4[0] == w2[0]); assert(sp_ws(w2[0])); } else { assert(t4 =~= t5); } }
    // the keyword
    match k { Some(k) => { kw_chars(k); assert(t3[0] == k[0]); } None => { assert(t3 =~= t4); assert(t4 =~= t5); } }
    run_kw(kw(k), t4);
    assert(t3.take(kw(k).len() as int) =~= kw(k));
    assert(t3.skip(kw(k).len() as int) =~= t4);
    assert(!sp_ws(t3[0]) && t3[0] != '#' || k is Some);
    start_id(t3);
    start_space(w1, t3);
    // the marker
    keyword_start(k);
    assert(t3[0] != '#' && t3[0] != '~' && t3[0] != '|' && t3.len() > 0);
    if m.len() == 0 {
        assert(t1 =~= t2);
        start_space(w0 + w1, t3);
        all_space(w0, w1);
        assert(line =~= w0 + w1 + t3);
        assert(sp_trim_start(line) == t3);
        assert(sp_marker(t3) =~= m);
        all_space(w0 + w1, t3);
        assert(!sp_all_ws(t3)) by { assert(!sp_ws(t3[0])); }
    } else {
        assert(t1[0] == '#');
        start_id(t1);
        start_space(w0, t1);
        all_space(w0, t1);
        assert(!sp_all_ws(t1)) by { assert(!sp_ws(t1[0])); }
        assert(t1[1] == m[0]);
        assert(t2[0] != '~' && t2[0] != '|') by { if w1.len() > 0 { assert(sp_ws(w1[0])); assert(t2[0] == w1[0]); } else { assert(t2 =~= t3); } }
        if m.len() == 1 { assert(t1[2] == t2[0]); } else { assert(t1[2] == m[1]); }
        assert(sp_marker(t1) =~= m);
        assert(t1.skip(1 + m.len() as int) =~= t2);
    }
    assert(sp_msg_line(line) == Some(MsgLine { marker: m, keyword: k, string: s }));
}
proof fn keyword_start(k: Option<Seq<char>>)
    requires k is Some ==> sp_keyword(k->0)
    ensures k is Some ==> k->0.len() > 0 && k->0[0] == 'm'
{
    reveal_strlit("msgctxt"); reveal_strlit("msgid"); reveal_strlit("msgid_plural"); reveal_strlit("msgstr"); reveal_strlit("msgstr[");
    match k { Some(k) => { if k.len() > 8 && k.take(7) == "msgstr["@ { assert(k[0] == k.take(7)[0]); } } None => {} }
}
/// a blank line
pub proof fn blank(w: Seq<char>, n: int)
    ensures sp_all_ws(w) <==> sp_class(w, n) == Ok::<SLine, ()>(SLine::Blank)
{
}
/// a comment line that has another marker character than `~` and `|` is a comment, whatever its text
pub proof fn comment_line(w0: Seq<char>, c: Option<char>, t: Seq<char>, n: int)
    requires sp_all_ws(w0), match c { Some(c) => c != '~' && c != '|', None => t.len() == 0 }
    ensures ({
        let l = w0 + (match c { Some(c) => seq!['#', c], None => seq!['#'] } + t);
        sp_class(l, n) == Ok::<SLine, ()>(SLine::Comment(n, match c { Some(c) => c, None => ' ' }, sp_trim_start(t)))
    })
{
    let b = match c { Some(c) => seq!['#', c], None => seq!['#'] } + t;
    let l = w0 + b;
    assert(b[0] == '#');
    start_id(b);
    start_space(w0, b);
    all_space(w0, b);
    assert(!sp_all_ws(b)) by { assert(!sp_ws(b[0])); }
    assert(sp_marker(b).len() == 0);
    // `#…` is no keyword and no string
    let k = sp_run_len(b, |c: char| sp_kw_char(c));
    assert(sp_kw_char(b[0]));
    run_bound(b);
    assert(b.take(k)[0] == '#');
    if sp_keyword(b.take(k)) { keyword_start(Some(b.take(k))); }
    assert(sp_msg_line(l) is None);
    match c { Some(c) => { assert(b.skip(2) =~= t); } None => { assert(b.len() == 1); assert(t =~= Seq::empty()); } }
}
proof fn run_bound(s: Seq<char>)
    ensures 0 <= sp_run_len(s, |c: char| sp_kw_char(c)) <= s.len(), s.len() > 0 && sp_kw_char(s[0]) ==> sp_run_len(s, |c: char| sp_kw_char(c)) >= 1
    decreases s.len()
{
    if s.len() > 0 { run_bound(s.skip(1)); }
}
