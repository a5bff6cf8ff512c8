// C16: positions and texts of errors, as lemmas over the contracts of LineIter and of the reader (sp_lines, sp_expected, sp_read_unit)
use vstd::prelude::*;
use crate::shim::*;
use crate::spec::*;

pub type Raw = Seq<Result<String, crate::shim::IoError>>;
/// every line carries the number of a line that it is, counting all lines from n; errors tell where and what
pub open spec fn placed(x: Result<SLine, SError>, l: Raw, n: int, j: int) -> bool {
    0 <= j < l.len() && match x {
        Ok(y) => l[j] is Ok && sp_class(l[j]->Ok_0@, n + j) == Ok::<SLine, ()>(y) && sp_line_no(y) == n + j,
        Err(SError::Io(m, e)) => l[j] == Err::<String, crate::shim::IoError>(e) && m == n + j,
        Err(SError::Parse(m, t, exp)) => l[j] is Ok && sp_class(l[j]->Ok_0@, n + j) is Err && m == n + j + 1 && t == l[j]->Ok_0@ && exp.len() == 0,
        Err(_) => false,
    }
}
/// number k of the lines given is number at[k] of the lines read; what lies between is blank
pub open spec fn places(s: Rem, l: Raw, n: int, at: Seq<int>) -> bool {
    at.len() == s.len() && (forall|k: int| 0 <= k < s.len() ==> placed(#[trigger] s[k], l, n, at[k])) && (forall|a: int, b: int| 0 <= a < b < at.len() ==> #[trigger] at[a] < #[trigger] at[b])
}
pub proof fn positions(l: Raw, n: int) -> (at: Seq<int>)
    ensures places(sp_lines(l, n), l, n, at)
    decreases l.len()
{
    let s = sp_lines(l, n);
    if l.len() == 0 { Seq::empty() }
    else {
        match l[0] {
            Err(e) => { let at = seq![0int]; assert(placed(s[0], l, n, at[0])); at }
            Ok(t) => match sp_class(t@, n) {
                Err(_) => { let at = seq![0int]; assert(placed(s[0], l, n, at[0])); at }
                Ok(x) => {
                    let m = l.skip(1);
                    let rest = positions(m, n + 1);
                    let more = rest.map_values(|i: int| i + 1);
                    let r = sp_lines(m, n + 1);
                    assert forall|k: int| 0 <= k < r.len() implies placed(#[trigger] r[k], l, n, more[k]) by {
                        assert(placed(r[k], m, n + 1, rest[k]));
                        assert(m[rest[k]] == l[rest[k] + 1]);
                    }
                    assert forall|a: int, b: int| 0 <= a < b < more.len() implies #[trigger] more[a] < #[trigger] more[b] by { assert(rest[a] < rest[b]); }
                    if x == SLine::Blank { assert(s == r); more }
                    else {
                        let at = seq![0int] + more;
                        assert forall|k: int| 0 <= k < s.len() implies placed(#[trigger] s[k], l, n, at[k]) by {
                            if k > 0 { assert(s[k] == r[k - 1]); assert(at[k] == more[k - 1]); }
                            else { assert(sp_line_no(x) == n); }
                        }
                        assert forall|a: int, b: int| 0 <= a < b < at.len() implies #[trigger] at[a] < #[trigger] at[b] by {
                            if a == 0 { assert(at[b] == more[b - 1]); assert(placed(r[b - 1], m, n + 1, rest[b - 1])); }
                            else { assert(more[a - 1] < more[b - 1]); }
                        }
                        at
                    }
                }
            },
        }
    }
}
/// an unexpected line: its own number, what was found, and the keyword that was expected
pub proof fn unexpected(rem: Rem, exp: Seq<char>)
    requires rem.len() > 0, rem[0] is Ok, rem[0]->Ok_0 != SLine::Blank
    ensures sp_expected(rem, exp).0 is Err, ({
        let e = sp_expected(rem, exp).0->Err_0;
        match rem[0]->Ok_0 {
            SLine::Message(n, p, _, _) => e == SError::Parse(n, p, exp),
            SLine::Continuation(n, _, _) => e == SError::Parse(n, "\""@, exp),
            SLine::Comment(n, c, _) => e == SError::Parse(n, "#"@ + seq![c], exp),
            SLine::Blank => false,
        }
    })
{
}
/// an unfinished entry at the end of the input is no error
pub proof fn unfinished(exp: Seq<char>)
    ensures sp_expected(Seq::empty(), exp) == (Ok::<(), SError>(()), Seq::<Result<SLine, SError>>::empty())
{
}
/// an empty source after the first entry: the number of its first message line
pub proof fn empty_source(rem: Rem, forms: Option<SForms>)
    requires ({
        let (a, r) = sp_comments(rem, sp_unit0());
        a is Ok && sp_read_line(r) is Some && ({
            let b = sp_fields(r, false, forms, SUnit { obsolete: sp_read_line(r)->Some_0.1, ..a->Ok_0 }).0;
            b is Ok && b->Ok_0 is Some && sp_smsg_empty(b->Ok_0->0.message)
        })
    })
    ensures sp_read_unit(rem, false, forms).0 == Err::<Option<SUnit>, SError>(SError::Unexpected(sp_read_line(sp_comments(rem, sp_unit0()).1)->Some_0.0, "Source should not be empty"@))
{
}
