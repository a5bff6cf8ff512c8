// C06 as lemmas over the contract of Unescaper::unescape (sp_unescape)
use vstd::prelude::*;
use crate::spec::*;

/// the five escapes
pub open spec fn esc(c: char) -> Seq<char> {
    if c == '\n' { seq!['\\', 'n'] } else if c == '\r' { seq!['\\', 'r'] } else if c == '\t' { seq!['\\', 't'] } else if c == '"' { seq!['\\', '"'] } else if c == '\\' { seq!['\\', '\\'] } else { seq![c] }
}
/// w writes the text t: every character is escaped, or is written as it is and is no backslash
pub open spec fn writes(w: Seq<Seq<char>>, t: Seq<char>) -> bool {
    w.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] w[i] == esc(t[i]) || (w[i] == seq![t[i]] && t[i] != '\\')
}
pub open spec fn flat(w: Seq<Seq<char>>) -> Seq<char> decreases w.len() { if w.len() == 0 { Seq::empty() } else { w[0] + flat(w.skip(1)) } }

/// reading back what was written gives the text, for every text and every way to write it
pub proof fn roundtrip(w: Seq<Seq<char>>, t: Seq<char>)
    requires writes(w, t)
    ensures sp_unescape(flat(w)) == t
    decreases t.len()
{
    if t.len() > 0 {
        let w1 = w.skip(1);
        let t1 = t.skip(1);
        assert forall|i: int| 0 <= i < t1.len() implies #[trigger] w1[i] == esc(t1[i]) || (w1[i] == seq![t1[i]] && t1[i] != '\\') by { assert(w1[i] == w[i + 1]); }
        roundtrip(w1, t1);
        let s = flat(w);
        assert(s == w[0] + flat(w1));
        assert(w[0] == w[0 as int]);
        if w[0].len() == 2 {
            assert(s.skip(2) =~= flat(w1));
            assert(s[0] == w[0][0] && s[1] == w[0][1]);
        } else {
            assert(s.skip(1) =~= flat(w1));
            assert(s[0] == w[0][0]);
        }
        assert(t =~= seq![t[0]] + t1);
    } else {
        assert(t =~= Seq::<char>::empty());
    }
}
/// characters that take part in no escape are kept
pub proof fn others_kept(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() - 1 && s[i] == '\\' ==> sp_escape(#[trigger] s[i + 1]) is None
    ensures sp_unescape(s) == s
    decreases s.len()
{
    if s.len() > 0 {
        let r = s.skip(1);
        assert forall|i: int| 0 <= i < r.len() - 1 && r[i] == '\\' implies sp_escape(#[trigger] r[i + 1]) is None by { assert(r[i] == s[i + 1] && r[i + 1] == s[i + 1 + 1]); }
        others_kept(r);
        if s.len() >= 2 && s[0] == '\\' { assert(sp_escape(s[0int + 1]) is None); }
        assert(s =~= seq![s[0]] + r);
    } else { assert(s =~= Seq::<char>::empty()); }
}
