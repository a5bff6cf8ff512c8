// Proofs: what the regular expressions of the crate match.
use vstd::prelude::*;
use crate::spec::*;
use crate::regex::*;
use crate::extracted::sp_udigit;

pub open spec fn ch(c: char) -> Re { Re::Cls(Cls::Range(c as u32, c as u32)) }
pub open spec fn cat(a: Re, b: Re) -> Re { Re::Cat(Box::new(a), Box::new(b)) }
pub open spec fn alt(a: Re, b: Re) -> Re { Re::Alt(Box::new(a), Box::new(b)) }
pub open spec fn cap(n: int, a: Re) -> Re { Re::Cap(n, Box::new(a)) }
pub open spec fn opt(a: Re) -> Re { Re::Opt(true, Box::new(a)) }
pub open spec fn star(a: Cls) -> Re { Re::Star(true, Box::new(Re::Cls(a))) }
pub open spec fn then(a: Re, k: Stk) -> Stk { Stk::Re(a, Box::new(k)) }
pub open spec fn cor(a: Cls, b: Cls) -> Cls { Cls::Or(Box::new(a), Box::new(b)) }
pub open spec fn cch(c: char) -> Cls { Cls::Range(c as u32, c as u32) }

// ---- escapes

pub open spec fn re_escape() -> Re { cat(ch('\\'), cap(1, Re::Cls(cor(cch('"'), cor(cch('\\'), cor(cch('n'), cor(cch('r'), cch('t')))))))) }
pub open spec fn esc_at(t: Seq<char>, i: int) -> bool { 0 <= i && i + 1 < t.len() && t[i] == '\\' && sp_escape(t[i + 1]) is Some }
proof fn lm_esc_run(t: Seq<char>, i: int)
    requires 0 <= i <= t.len()
    ensures re_run(then(re_escape(), Stk::Nil), t, i, Map::empty()) == (if esc_at(t, i) { Some((i + 2, Map::<int, (int, int)>::empty().insert(1, (i + 1, i + 2)))) } else { None })
{
    reveal_with_fuel(re_run, 8);
    reveal_with_fuel(sp_cls, 8);
}
proof fn lm_esc_find(t: Seq<char>, i: int)
    requires 0 <= i <= t.len()
    ensures match re_find(re_escape(), t, i) {
        Some((s, e, c)) => i <= s && esc_at(t, s) && e == s + 2 && c == Map::<int, (int, int)>::empty().insert(1, (s + 1, s + 2)),
        None => true,
    }
    decreases t.len() - i
{
    lm_esc_run(t, i);
    if i < t.len() { lm_esc_find(t, i + 1); }
}
pub open spec fn ast_escape() -> ReAst { ReAst { re: re_escape(), groups: 2 } }
pub open spec fn esc_hits_ok(h: Seq<ReHit>) -> bool {
    forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).groups.len() == 2 && h[i].groups[1] is Some && h[i].groups[1]->0.len() == 1 && sp_escape(h[i].groups[1]->0[0]) is Some
}
proof fn lm_esc_all(t: Seq<char>, i: int, g: spec_fn(Seq<Option<Seq<char>>>) -> Seq<char>)
    requires 0 <= i <= t.len(), forall|x: Seq<Option<Seq<char>>>| #[trigger] g(x) == sp_esc_text(x)
    ensures ({
        let h = re_hits(ast_escape(), t, i);
        esc_hits_ok(h) && sp_re_glue(h, g) + re_rest(ast_escape(), t, i) == sp_unescape(t.skip(i))
    })
    decreases t.len() - i
{
    let a = ast_escape();
    let h = re_hits(a, t, i);
    lm_esc_run(t, i);
    lm_esc_find(t, i);
    if esc_at(t, i) {
        let e = i + 2;
        lm_esc_all(t, e, g);
        let h2 = re_hits(a, t, e);
        let c = Map::<int, (int, int)>::empty().insert(1, (i + 1, i + 2));
        let hit = ReHit { gap: t.subrange(i, i), groups: re_groups(t, i, e, c, 2) };
        assert(h == seq![hit] + h2);
        assert(h.skip(1) =~= h2);
        assert(hit.groups[1] == Some(t.subrange(i + 1, i + 2)));
        assert(hit.groups[1]->0[0] == t[i + 1]);
        assert forall|j: int| 0 <= j < h.len() implies (#[trigger] h[j]).groups.len() == 2 && h[j].groups[1] is Some && h[j].groups[1]->0.len() == 1 && sp_escape(h[j].groups[1]->0[0]) is Some by {
            if j > 0 { assert(h[j] == h2[j - 1]); }
        }
        assert(t.skip(i).skip(2) =~= t.skip(e));
        assert(t.skip(i)[0] == t[i] && t.skip(i)[1] == t[i + 1]);
        assert(sp_re_glue(h, g) =~= g(hit.groups) + sp_re_glue(h2, g));
        assert(sp_unescape(t.skip(i)) == seq![sp_escape(t[i + 1])->0] + sp_unescape(t.skip(e)));
        assert(g(hit.groups) == sp_esc_text(hit.groups));
        assert(sp_re_glue(h, g) + re_rest(a, t, i) =~= sp_unescape(t.skip(i)));
    } else if i < t.len() {
        lm_esc_all(t, i + 1, g);
        lm_esc_find(t, i + 1);
        let h1 = re_hits(a, t, i + 1);
        assert(t.skip(i).skip(1) =~= t.skip(i + 1));
        assert(t.skip(i)[0] == t[i]);
        if t.skip(i).len() >= 2 { assert(t.skip(i)[1] == t[i + 1]); }
        assert(sp_unescape(t.skip(i)) == seq![t[i]] + sp_unescape(t.skip(i + 1)));
        assert(re_find(re_escape(), t, i) == re_find(re_escape(), t, i + 1));
        match re_find(re_escape(), t, i + 1) {
            None => {
                assert(h =~= Seq::empty()); assert(h1 =~= Seq::empty());
                assert(re_rest(a, t, i) =~= seq![t[i]] + re_rest(a, t, i + 1));
                assert(sp_re_glue(h, g) + re_rest(a, t, i) =~= sp_unescape(t.skip(i)));
            }
            Some((s, e, c)) => {
                let tail = re_hits(a, t, e);
                assert(h1.skip(1) =~= tail);
                assert(h.skip(1) =~= tail);
                assert(h[0].gap =~= seq![t[i]] + h1[0].gap);
                assert(h[0].groups == h1[0].groups);
                assert(sp_re_glue(h, g) =~= seq![t[i]] + sp_re_glue(h1, g));
                assert forall|j: int| 0 <= j < h.len() implies (#[trigger] h[j]).groups.len() == 2 && h[j].groups[1] is Some && h[j].groups[1]->0.len() == 1 && sp_escape(h[j].groups[1]->0[0]) is Some by {
                    assert(h1[j].groups.len() == 2);
                    if j > 0 { assert(h[j] == tail[j - 1]); assert(h1[j] == tail[j - 1]); }
                }
                assert(sp_re_glue(h, g) + re_rest(a, t, i) =~= sp_unescape(t.skip(i)));
            }
        }
    } else {
        assert(h =~= Seq::empty());
        assert(t.skip(i) =~= Seq::empty());
        assert(sp_re_glue(h, g) + re_rest(a, t, i) =~= sp_unescape(t.skip(i)));
    }
}
pub broadcast proof fn lm_escape(pat: Seq<char>)
    requires sp_re_ast(pat) == Some(ast_escape())
    ensures #[trigger] sp_re_escape(pat)
{
    assert forall|t: Seq<char>| ({
        let h = #[trigger] sp_re_all(pat, t);
        &&& forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).groups.len() == 2 && h[i].groups[1] is Some && h[i].groups[1]->0.len() == 1 && sp_escape(h[i].groups[1]->0[0]) is Some
        &&& sp_re_glue(h, |g: Seq<Option<Seq<char>>>| sp_esc_text(g)) + sp_re_tail(pat, t) == sp_unescape(t)
    }) by {
        lm_esc_all(t, 0, |g: Seq<Option<Seq<char>>>| sp_esc_text(g));
        assert(t.skip(0) =~= t);
    }
}

// ---- repetitions of a class

pub open spec fn run_end(x: Cls, t: Seq<char>, i: int) -> int decreases t.len() - i {
    if 0 <= i < t.len() && sp_cls(x, t[i]) { run_end(x, t, i + 1) } else { i }
}
proof fn lm_run_end(x: Cls, t: Seq<char>, i: int)
    requires 0 <= i <= t.len()
    ensures i <= run_end(x, t, i) <= t.len(), forall|j: int| i <= j < run_end(x, t, i) ==> sp_cls(x, #[trigger] t[j]),
        run_end(x, t, i) < t.len() ==> !sp_cls(x, t[run_end(x, t, i)]),
        forall|j: int| i <= j <= run_end(x, t, i) ==> #[trigger] run_end(x, t, j) == run_end(x, t, i),
    decreases t.len() - i
{
    if i < t.len() && sp_cls(x, t[i]) { lm_run_end(x, t, i + 1); }
}
proof fn lm_star_step(x: Cls, k: Stk, t: Seq<char>, i: int, c: Caps)
    requires 0 <= i <= t.len()
    ensures re_run(then(star(x), k), t, i, c) == (if i < t.len() && sp_cls(x, t[i]) { or_else(re_run(then(star(x), k), t, i + 1, c), re_run(k, t, i, c)) } else { re_run(k, t, i, c) })
{
    reveal_with_fuel(re_run, 4);
}
/// the longest repetition that the rest accepts
proof fn lm_star(x: Cls, k: Stk, t: Seq<char>, i: int, c: Caps) -> (j: int)
    requires 0 <= i <= t.len()
    ensures
        re_run(then(star(x), k), t, i, c) is Some ==> i <= j <= run_end(x, t, i) && re_run(k, t, j, c) == re_run(then(star(x), k), t, i, c)
            && forall|l: int| j < l <= run_end(x, t, i) ==> #[trigger] re_run(k, t, l, c) is None,
        re_run(then(star(x), k), t, i, c) is None ==> forall|l: int| i <= l <= run_end(x, t, i) ==> #[trigger] re_run(k, t, l, c) is None,
    decreases t.len() - i
{
    lm_star_step(x, k, t, i, c);
    lm_run_end(x, t, i);
    if i < t.len() && sp_cls(x, t[i]) {
        let j = lm_star(x, k, t, i + 1, c);
        if re_run(then(star(x), k), t, i + 1, c) is Some { j } else { i }
    } else { i }
}
/// when nothing shorter than the longest repetition can do
proof fn lm_star_max(x: Cls, k: Stk, t: Seq<char>, i: int, c: Caps)
    requires 0 <= i <= t.len(), re_run(k, t, run_end(x, t, i), c) is Some || forall|l: int| i <= l < run_end(x, t, i) ==> #[trigger] re_run(k, t, l, c) is None
    ensures re_run(then(star(x), k), t, i, c) == re_run(k, t, run_end(x, t, i), c)
{
    lm_run_end(x, t, i);
    let j = lm_star(x, k, t, i, c);
    let m = run_end(x, t, i);
    if re_run(then(star(x), k), t, i, c) is Some { if j < m { assert(re_run(k, t, m, c) is None); assert(re_run(k, t, j, c) is None); } }
}
proof fn lm_trim_start(t: Seq<char>, i: int)
    requires 0 <= i <= t.len()
    ensures sp_trim_start(t.skip(i)) == t.skip(run_end(Cls::Space, t, i))
    decreases t.len() - i
{
    lm_run_end(Cls::Space, t, i);
    if i < t.len() { assert(t.skip(i)[0] == t[i]); assert(t.skip(i).skip(1) =~= t.skip(i + 1)); if sp_ws(t[i]) { lm_trim_start(t, i + 1); } }
}
/// end of the text without the space at its end
pub open spec fn trim_len(s: Seq<char>) -> int { sp_trim_end(s).len() as int }
proof fn lm_trim_end(s: Seq<char>)
    ensures 0 <= trim_len(s) <= s.len(), sp_trim_end(s) == s.take(trim_len(s)), trim_len(s) > 0 ==> !sp_ws(s[trim_len(s) - 1]), forall|j: int| trim_len(s) <= j < s.len() ==> sp_ws(#[trigger] s[j])
    decreases s.len()
{
    if s.len() > 0 && sp_ws(s.last()) {
        lm_trim_end(s.drop_last());
        assert(s.drop_last().take(trim_len(s)) =~= s.take(trim_len(s)));
        assert forall|j: int| trim_len(s) <= j < s.len() implies sp_ws(#[trigger] s[j]) by { if j < s.len() - 1 { assert(s.drop_last()[j] == s[j]); } }
        if trim_len(s) > 0 { assert(s.drop_last()[trim_len(s) - 1] == s[trim_len(s) - 1]); }
    } else { assert(s.take(s.len() as int) =~= s); }
}
pub open spec fn any() -> Cls { Cls::Not(Box::new(Cls::Range(10, 10))) }
proof fn lm_any(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(), sp_no_nl(t)
    ensures run_end(any(), t, i) == t.len()
    decreases t.len() - i
{
    reveal_with_fuel(sp_cls, 3);
    if i < t.len() { assert(t[i] != '\n') by { if t[i] == '\n' { assert(t.contains('\n')); } }; assert(t[i] as u32 != 10); lm_any(t, i + 1); }
}
/// find for a pattern which begins with `^`
proof fn lm_anchored(a: Re, t: Seq<char>, i: int)
    requires 0 <= i <= t.len()
    ensures re_find(cat(Re::Start, a), t, i) == (if i == 0 { match re_run(then(a, Stk::Nil), t, 0, Map::empty()) { Some((e, c)) => Some((0int, e, c)), None => None } } else { None })
    decreases t.len() - i
{
    reveal_with_fuel(re_run, 4);
    if i < t.len() { lm_anchored(a, t, i + 1); }
}

// ---- comments

pub open spec fn cm_text() -> Re { cat(cap(2, star(any())), Re::End) }
pub open spec fn cm_rest() -> Re { cat(star(Cls::Space), cm_text()) }
pub open spec fn cm_kind() -> Re { cat(opt(cap(1, Re::Cls(any()))), cm_rest()) }
pub open spec fn cm_hash() -> Re { cat(ch('#'), cm_kind()) }
pub open spec fn ast_comment() -> ReAst { ReAst { re: cat(Re::Start, cat(star(Cls::Space), cm_hash())), groups: 3 } }
proof fn lm_cm_text(t: Seq<char>, i: int, c: Caps)
    requires 0 <= i <= t.len(), sp_no_nl(t)
    ensures re_run(then(cm_text(), Stk::Nil), t, i, c) == Some((t.len() as int, c.insert(2, (i, t.len() as int))))
{
    reveal_with_fuel(re_run, 4);
    let k = Stk::Close(2, i, Box::new(then(Re::End, Stk::Nil)));
    lm_any(t, i);
    assert(re_run(k, t, t.len() as int, c) == Some((t.len() as int, c.insert(2, (i, t.len() as int)))));
    lm_star_max(any(), k, t, i, c);
}
proof fn lm_cm_rest(t: Seq<char>, i: int, c: Caps)
    requires 0 <= i <= t.len(), sp_no_nl(t)
    ensures re_run(then(cm_rest(), Stk::Nil), t, i, c) == Some((t.len() as int, c.insert(2, (run_end(Cls::Space, t, i), t.len() as int))))
{
    reveal_with_fuel(re_run, 2);
    lm_run_end(Cls::Space, t, i);
    lm_cm_text(t, run_end(Cls::Space, t, i), c);
    lm_star_max(Cls::Space, then(cm_text(), Stk::Nil), t, i, c);
}
#[verifier::spinoff_prover]
pub broadcast proof fn lm_comment(pat: Seq<char>)
    requires sp_re_ast(pat) == Some(ast_comment())
    ensures #[trigger] sp_re_comment(pat)
{
    assert forall|t: Seq<char>| sp_no_nl(t) implies match sp_comment_line(t) {
        None => #[trigger] sp_re_captures(pat, t) is None,
        Some((c, s)) => sp_re_captures(pat, t) is Some && ({
            let g = sp_re_captures(pat, t)->0;
            &&& g.len() == 3
            &&& g[1] == (match c { None => None, Some(c) => Some(seq![c]) })
            &&& g[2] == Some(s)
        }),
    } by {
        let e: Caps = Map::empty();
        let n = t.len() as int;
        lm_anchored(cat(star(Cls::Space), cm_hash()), t, 0);
        let w = run_end(Cls::Space, t, 0);
        lm_run_end(Cls::Space, t, 0);
        lm_trim_start(t, 0);
        assert(t.skip(0) =~= t);
        let k = then(cm_hash(), Stk::Nil);
        assert(re_run(then(cat(star(Cls::Space), cm_hash()), Stk::Nil), t, 0, e) == re_run(then(star(Cls::Space), k), t, 0, e));
        assert forall|l: int| 0 <= l < w implies #[trigger] re_run(k, t, l, e) is None by { reveal_with_fuel(re_run, 3); assert(sp_cls(Cls::Space, t[l])); }
        lm_star_max(Cls::Space, k, t, 0, e);
        reveal_with_fuel(re_run, 7);
        reveal_with_fuel(sp_cls, 3);
        if w < n && t[w] == '#' {
            assert(t.skip(w)[0] == t[w]);
            if w + 1 < n {
                assert(t[w + 1] != '\n') by { if t[w + 1] == '\n' { assert(t.contains('\n')); } };
                assert(t[w + 1] as u32 != 10);
                let c1 = e.insert(1, (w + 1, w + 2));
                lm_cm_rest(t, w + 2, c1);
                lm_trim_start(t, w + 2);
                lm_run_end(Cls::Space, t, w + 2);
                assert(t.skip(w).skip(2) =~= t.skip(w + 2));
                assert(t.skip(w)[1] == t[w + 1]);
                assert(t.subrange(w + 1, w + 2) =~= seq![t[w + 1]]);
                assert(t.subrange(run_end(Cls::Space, t, w + 2), n) =~= t.skip(run_end(Cls::Space, t, w + 2)));
                assert(re_run(then(cm_kind(), Stk::Nil), t, w + 1, e) == re_run(then(cm_rest(), Stk::Nil), t, w + 2, c1));
            } else {
                lm_cm_rest(t, n, e);
                lm_run_end(Cls::Space, t, n);
                assert(t.subrange(n, n) =~= Seq::empty());
                assert(re_run(then(cm_kind(), Stk::Nil), t, w + 1, e) == re_run(then(cm_rest(), Stk::Nil), t, n, e));
            }
        } else if w < n { assert(t.skip(w)[0] == t[w]); assert(t[w] as u32 != 35); }
    }
}

// ---- message lines

pub open spec fn ms_end() -> Re { cat(ch('"'), cat(star(Cls::Space), Re::End)) }
pub open spec fn ms_quote() -> Re { cat(ch('"'), cat(cap(3, star(any())), ms_end())) }
pub open spec fn ms_ws2() -> Re { cat(star(Cls::Space), ms_quote()) }
pub open spec fn ms_num() -> Re { alt(ch('0'), cat(Re::Cls(Cls::Range(49, 57)), star(Cls::Digit))) }
pub open spec fn ms_index() -> Re { cat(ch('['), cat(ms_num(), ch(']'))) }
pub open spec fn ms_str() -> Re { cat(Re::Lit("msgstr"@), opt(ms_index())) }
pub open spec fn ms_alts() -> Re { alt(Re::Lit("msgctxt"@), alt(Re::Lit("msgid"@), alt(Re::Lit("msgid_plural"@), ms_str()))) }
pub open spec fn ms_kw() -> Re { cat(opt(cap(2, ms_alts())), ms_ws2()) }
pub open spec fn ms_ws1() -> Re { cat(star(Cls::Space), ms_kw()) }
pub open spec fn ms_flag() -> Re { alt(cat(ch('~'), opt(ch('|'))), ch('|')) }
pub open spec fn ms_mark() -> Re { cat(opt(cat(ch('#'), cap(1, ms_flag()))), ms_ws1()) }
pub open spec fn ms_all() -> Re { cat(star(Cls::Space), ms_mark()) }
pub open spec fn ast_message() -> ReAst { ReAst { re: cat(Re::Start, ms_all()), groups: 4 } }

/// the stack with one expression
pub open spec fn one(a: Re) -> Stk { then(a, Stk::Nil) }

proof fn lm_ms_tail(t: Seq<char>, i: int, c: Caps)
    requires 0 <= i <= t.len()
    ensures re_run(one(cat(star(Cls::Space), Re::End)), t, i, c) == (if run_end(Cls::Space, t, i) == t.len() { Some((t.len() as int, c)) } else { None })
{
    reveal_with_fuel(re_run, 3);
    lm_run_end(Cls::Space, t, i);
    lm_star_max(Cls::Space, one(Re::End), t, i, c);
}
/// end of t without its final space, at least i
pub open spec fn last_of(t: Seq<char>, i: int) -> int { i + trim_len(t.skip(i)) }
/// the string that opens at position i
pub open spec fn quote_ok(t: Seq<char>, i: int) -> bool { i < t.len() && t[i] == '"' && last_of(t, i) >= i + 2 && t[last_of(t, i) - 1] == '"' }
pub open spec fn quote_at(t: Seq<char>, i: int, c: Caps) -> Option<(int, Caps)> {
    if quote_ok(t, i) { Some((t.len() as int, c.insert(3, (i + 1, last_of(t, i) - 1)))) } else { None }
}
proof fn lm_ms_close(t: Seq<char>, i: int, l: int, c: Caps)
    requires 0 <= i < l <= t.len(), t[i] == '"'
    ensures re_run(one(ms_end()), t, l, c) == (if l < t.len() && l == last_of(t, i) - 1 && t[l] == '"' { Some((t.len() as int, c)) } else { None })
{
    let n = t.len() as int;
    let z = last_of(t, i);
    let s = t.skip(i);
    let kt = one(cat(star(Cls::Space), Re::End));
    lm_cat(ch('"'), cat(star(Cls::Space), Re::End), Stk::Nil, t, l, c);
    lm_ch('"', kt, t, l, c);
    lm_trim_end(s);
    assert(s[0] == '"');
    assert(z >= i + 1) by { if trim_len(s) == 0 { assert(sp_ws(s[0])); } };
    assert(s[z - 1 - i] == t[z - 1]);
    if l < n && t[l] == '"' {
        lm_ms_tail(t, l + 1, c);
        lm_run_end(Cls::Space, t, l + 1);
        if l < z - 1 { if run_end(Cls::Space, t, l + 1) == n { assert(sp_cls(Cls::Space, t[z - 1])); } }
        if l >= z { assert(s[l - i] == t[l]); assert(sp_ws(t[l])); }
        if l == z - 1 {
            let q = run_end(Cls::Space, t, l + 1);
            if q < n { assert(s[q - i] == t[q]); assert(sp_ws(t[q])); }
        }
    } else {
    }
}
proof fn lm_ms_quote(t: Seq<char>, i: int, c: Caps)
    requires 0 <= i <= t.len(), sp_no_nl(t)
    ensures re_run(one(ms_quote()), t, i, c) == quote_at(t, i, c)
{
    let n = t.len() as int;
    if i < n && t[i] == '"' {
        let k = Stk::Close(3, i + 1, Box::new(one(ms_end())));
        lm_any(t, i + 1);
        let z = last_of(t, i);
        let s = t.skip(i);
        lm_trim_end(s);
        let r = re_run(then(star(any()), k), t, i + 1, c);
        assert(re_run(one(ms_quote()), t, i, c) == r) by { reveal_with_fuel(re_run, 5); reveal_with_fuel(sp_cls, 2); };
        let j = lm_star(any(), k, t, i + 1, c);
        assert forall|l: int| i + 1 <= l <= n implies #[trigger] re_run(k, t, l, c) == (if l < n && l == z - 1 && t[l] == '"' { Some((n, c.insert(3, (i + 1, l)))) } else { None }) by {
            lm_ms_close(t, i, l, c.insert(3, (i + 1, l)));
            reveal_with_fuel(re_run, 2);
        }
        if quote_ok(t, i) { assert(re_run(k, t, z - 1, c) is Some); }
        if r is Some { assert(re_run(k, t, j, c) is Some); }
    } else {
        if i < n { assert(t[i] as u32 != 34); }
        assert(re_run(one(ms_quote()), t, i, c) is None) by { reveal_with_fuel(re_run, 3); reveal_with_fuel(sp_cls, 2); };
    }
}
proof fn lm_ms_ws2(t: Seq<char>, i: int, c: Caps)
    requires 0 <= i <= t.len(), sp_no_nl(t)
    ensures re_run(one(ms_ws2()), t, i, c) == quote_at(t, run_end(Cls::Space, t, i), c)
{
    let m = run_end(Cls::Space, t, i);
    lm_run_end(Cls::Space, t, i);
    assert forall|l: int| i <= l < m implies #[trigger] re_run(one(ms_quote()), t, l, c) is None by { lm_ms_quote(t, l, c); assert(sp_cls(Cls::Space, t[l])); }
    lm_star_max(Cls::Space, one(ms_quote()), t, i, c);
    lm_ms_quote(t, m, c);
    reveal_with_fuel(re_run, 2);
}
/// the same, in terms of the text
proof fn lm_quoted(t: Seq<char>, i: int)
    requires 0 <= i <= t.len()
    ensures ({
        let m = run_end(Cls::Space, t, i);
        match sp_quoted(t.skip(i)) { None => !quote_ok(t, m), Some(s) => quote_ok(t, m) && s == t.subrange(m + 1, last_of(t, m) - 1) }
    })
{
    let m = run_end(Cls::Space, t, i);
    lm_run_end(Cls::Space, t, i);
    lm_trim_start(t, i);
    lm_trim_end(t.skip(m));
    let u = sp_trim(t.skip(i));
    assert(u == t.skip(m).take(trim_len(t.skip(m))));
    if u.len() > 0 { assert(u[0] == t[m]); assert(u.last() == t[last_of(t, m) - 1]); }
    if u.len() >= 2 { assert(u.subrange(1, u.len() - 1) =~= t.subrange(m + 1, last_of(t, m) - 1)); }
}

// keywords

pub open spec fn kw_char(c: char) -> bool { sp_kw_char(c) }
proof fn lm_run_len(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures 0 <= sp_run_len(s, p) <= s.len(), forall|j: int| 0 <= j < sp_run_len(s, p) ==> p(#[trigger] s[j]), sp_run_len(s, p) < s.len() ==> !p(s[sp_run_len(s, p)])
    decreases s.len()
{
    if s.len() > 0 && p(s[0]) {
        lm_run_len(s.skip(1), p);
        let k = sp_run_len(s.skip(1), p);
        assert forall|j: int| 0 <= j < k + 1 implies p(#[trigger] s[j]) by { if j > 0 { assert(s.skip(1)[j - 1] == s[j]); } }
        if k + 1 < s.len() { assert(s.skip(1)[k] == s[k + 1]); }
    }
}
/// k is the length of the word at position i
pub open spec fn word(t: Seq<char>, i: int, k: int) -> bool {
    0 <= i && 0 <= k && i + k <= t.len() && (forall|j: int| i <= j < i + k ==> sp_kw_char(#[trigger] t[j])) && (i + k < t.len() ==> !sp_kw_char(t[i + k]))
}
/// what follows a keyword that ends at position p
proof fn lm_kw_close(t: Seq<char>, i: int, k: int, p: int, c: Caps)
    requires word(t, i, k), i <= p <= t.len(), sp_no_nl(t), p < i + k || p == i + k
    ensures re_run(Stk::Close(2, i, Box::new(one(ms_ws2()))), t, p, c) == (if p == i + k { re_run(one(ms_ws2()), t, p, c.insert(2, (i, p))) } else { None })
{
    reveal_with_fuel(re_run, 2);
    if p < i + k {
        lm_ms_ws2(t, p, c.insert(2, (i, p)));
        assert(sp_kw_char(t[p]));
        lm_run_end(Cls::Space, t, p);
        if run_end(Cls::Space, t, p) > p { assert(sp_cls(Cls::Space, t[p])); }
    }
}
proof fn lm_lit(l: Seq<char>, t: Seq<char>, i: int, k: int, c: Caps)
    requires word(t, i, k), sp_no_nl(t), forall|j: int| 0 <= j < l.len() ==> sp_kw_char(#[trigger] l[j])
    ensures re_run(then(Re::Lit(l), Stk::Close(2, i, Box::new(one(ms_ws2())))), t, i, c) == (if t.subrange(i, i + k) == l { re_run(one(ms_ws2()), t, i + k, c.insert(2, (i, i + k))) } else { None })
{
    reveal_with_fuel(re_run, 2);
    let n = l.len();
    if i + n <= t.len() && t.subrange(i, i + n) == l {
        if n > k { assert(t.subrange(i, i + n)[k] == t[i + k]); assert(sp_kw_char(l[k])); }
        lm_kw_close(t, i, k, i + n, c);
        if n != k { assert(t.subrange(i, i + k).len() != n); }
    }
}
proof fn lm_kw_text()
    ensures forall|j: int| 0 <= j < "msgctxt"@.len() ==> sp_kw_char(#[trigger] "msgctxt"@[j]), forall|j: int| 0 <= j < "msgid"@.len() ==> sp_kw_char(#[trigger] "msgid"@[j]),
        forall|j: int| 0 <= j < "msgid_plural"@.len() ==> sp_kw_char(#[trigger] "msgid_plural"@[j]), forall|j: int| 0 <= j < "msgstr"@.len() ==> sp_kw_char(#[trigger] "msgstr"@[j]),
        "msgstr"@.len() == 6, "msgstr["@ == "msgstr"@.push('['), "msgctxt"@.len() == 7, "msgid"@.len() == 5, "msgid_plural"@.len() == 12,
        "msgstr"@[0] == 'm', "msgctxt"@[0] == 'm', "msgid"@[0] == 'm', "msgid_plural"@[0] == 'm', "msgid"@[3] == 'i', "msgctxt"@[3] == 'c', "msgid_plural"@[3] == 'i', "msgstr"@[3] == 's',
{
    reveal_strlit("msgctxt"); reveal_strlit("msgid"); reveal_strlit("msgid_plural"); reveal_strlit("msgstr"); reveal_strlit("msgstr[");
    assert("msgstr["@ =~= "msgstr"@.push('['));
}
/// the number of a msgstr[N]: its end, when it begins at position b and is followed by `]`
pub open spec fn num_end(t: Seq<char>, b: int) -> Option<int> {
    if b < t.len() && t[b] == '0' { if b + 1 < t.len() && t[b + 1] == ']' { Some(b + 1) } else { None } }
    else if b < t.len() && '1' <= t[b] <= '9' {
        let m = run_end(Cls::Digit, t, b + 1);
        if m < t.len() && t[m] == ']' { Some(m) } else { None }
    } else { None }
}
proof fn lm_num(k: Stk, t: Seq<char>, b: int, c: Caps)
    requires 0 <= b <= t.len()
    ensures re_run(then(ms_num(), then(ch(']'), k)), t, b, c) == (match num_end(t, b) { Some(m) => re_run(k, t, m + 1, c), None => None })
{
    reveal_with_fuel(re_run, 5);
    reveal_with_fuel(sp_cls, 2);
    let kb = then(ch(']'), k);
    if b < t.len() {
        assert(t[b] as u32 == 48 <==> t[b] == '0');
        if '1' <= t[b] <= '9' {
            let m = run_end(Cls::Digit, t, b + 1);
            lm_run_end(Cls::Digit, t, b + 1);
            assert forall|l: int| b + 1 <= l < m implies #[trigger] re_run(kb, t, l, c) is None by {
                assert(sp_cls(Cls::Digit, t[l]));
                assert(t[l] as u32 != 93);
            }
            lm_star_max(Cls::Digit, kb, t, b + 1, c);
            if m < t.len() { assert(t[m] as u32 == 93 <==> t[m] == ']'); }
        }
        if b + 1 < t.len() { assert(t[b + 1] as u32 == 93 <==> t[b + 1] == ']'); }
    }
}
proof fn lm_digit_kw(c: char)
    requires crate::extracted::sp_udigit(c)
    ensures sp_kw_char(c), c != ']', c != '['
{}
/// `[N]` is the rest of the word at i, after msgstr
proof fn lm_index(t: Seq<char>, i: int, k: int)
    requires word(t, i, k), i + 6 <= t.len(), t.subrange(i, i + 6) == "msgstr"@
    ensures k >= 6,
        i + 6 < t.len() && t[i + 6] == '[' && num_end(t, i + 7) is Some ==> i + 6 < num_end(t, i + 7)->0 + 1 <= i + k,
        (i + 6 < t.len() && t[i + 6] == '[' && num_end(t, i + 7) is Some && num_end(t, i + 7)->0 + 1 == i + k) <==> (({ let s = t.subrange(i, i + k); s.len() > 8 && s.take(7) == "msgstr["@ && s.last() == ']' && sp_index_text(s.subrange(7, s.len() - 1)) })),
{
    lm_kw_text();
    if k < 6 { assert(t.subrange(i, i + 6)[k] == t[i + k]); assert(sp_kw_char("msgstr"@[k])); }
    let s = t.subrange(i, i + k);
    let x = s.subrange(7, s.len() - 1);
    if i + 6 < t.len() && t[i + 6] == '[' {
        lm_run_end(Cls::Digit, t, if i + 8 <= t.len() { i + 8 } else { t.len() as int });
        if k == 6 { assert(sp_kw_char('[')); }
        if num_end(t, i + 7) is Some {
            let m = num_end(t, i + 7)->0;
            assert(forall|j: int| i + 8 <= j < m ==> crate::extracted::sp_udigit(#[trigger] t[j]));
            assert forall|j: int| i + 6 <= j <= m implies sp_kw_char(#[trigger] t[j]) by { if i + 8 <= j < m { lm_digit_kw(t[j]); } }
            if i + k <= m { assert(sp_kw_char(t[i + k])); }
            if m + 1 == i + k {
                assert(s.take(7) =~= "msgstr["@) by { assert(t.subrange(i, i + 6) =~= s.take(6)); assert(s.take(7) =~= s.take(6).push(s[6])); };
                assert(s.last() == t[m]);
                if t[i + 7] == '0' { assert(x =~= seq!['0']); }
                else { assert(x[0] == t[i + 7]); assert forall|j: int| 1 <= j < x.len() implies sp_udigit(#[trigger] x[j]) by { assert(x[j] == t[i + 7 + j]); } }
            }
        }
    }
    if s.len() > 8 && s.take(7) == "msgstr["@ && s.last() == ']' && sp_index_text(x) {
        assert(s.take(7)[6] == t[i + 6]);
        assert(s.last() == t[i + k - 1]);
        assert(x[0] == t[i + 7]);
        lm_run_end(Cls::Digit, t, i + 8);
        if x == seq!['0'] { assert(x.len() == 1); assert(t[i + 8] == ']'); }
        else {
            let m = run_end(Cls::Digit, t, i + 8);
            if m < i + k - 1 { assert(x[m - i - 7] == t[m]); assert(sp_udigit(t[m])); assert(sp_cls(Cls::Digit, t[m])); }
            if m > i + k - 1 { assert(sp_cls(Cls::Digit, t[i + k - 1])); lm_digit_kw(t[i + k - 1]); }
        }
    }
}
proof fn lm_ms_str(t: Seq<char>, i: int, k: int, c: Caps)
    requires word(t, i, k), sp_no_nl(t), i + 6 <= t.len(), t.subrange(i, i + 6) == "msgstr"@
    ensures re_run(then(ms_str(), Stk::Close(2, i, Box::new(one(ms_ws2())))), t, i, c) == (if sp_keyword(t.subrange(i, i + k)) { re_run(one(ms_ws2()), t, i + k, c.insert(2, (i, i + k))) } else { None })
{
    lm_kw_text();
    lm_index(t, i, k);
    let kk = Stk::Close(2, i, Box::new(one(ms_ws2())));
    let s = t.subrange(i, i + k);
    reveal_with_fuel(sp_cls, 2);
    assert(re_run(then(ms_str(), kk), t, i, c) == re_run(then(opt(ms_index()), kk), t, i + 6, c)) by { reveal_with_fuel(re_run, 4); }
    let a = re_run(then(ms_index(), kk), t, i + 6, c);
    let b = re_run(kk, t, i + 6, c);
    assert(re_run(then(opt(ms_index()), kk), t, i + 6, c) == or_else(a, b)) by { reveal_with_fuel(re_run, 2); }
    lm_kw_close(t, i, k, i + 6, c);
    let kn = then(cat(ms_num(), ch(']')), kk);
    assert(a == (if i + 6 < t.len() && t[i + 6] == '[' { re_run(then(ms_num(), then(ch(']'), kk)), t, i + 7, c) } else { None })) by {
        reveal_with_fuel(re_run, 4);
        if i + 6 < t.len() { assert(t[i + 6] as u32 == 91 <==> t[i + 6] == '['); }
    }
    if i + 6 < t.len() && t[i + 6] == '[' {
        lm_num(kk, t, i + 7, c);
        if num_end(t, i + 7) is Some { lm_kw_close(t, i, k, num_end(t, i + 7)->0 + 1, c); }
    }
    // the other keywords do not begin like this
    assert(t.subrange(i, i + 6)[3] == t[i + 3]);
    assert(s[3] == t[i + 3]);
    if k == 6 { assert(s =~= t.subrange(i, i + 6)); }
    if s == "msgstr"@ { assert(k == 6); }
}
/// the keyword and what follows, when a word of length k begins at i
proof fn lm_ms_kw(t: Seq<char>, i: int, k: int, c: Caps)
    requires word(t, i, k), sp_no_nl(t), c.dom() =~= Set::<int>::empty() || c.dom() =~= Set::<int>::empty().insert(1)
    ensures re_run(one(ms_kw()), t, i, c) == (if k == 0 { re_run(one(ms_ws2()), t, i, c) } else if sp_keyword(t.subrange(i, i + k)) { re_run(one(ms_ws2()), t, i + k, c.insert(2, (i, i + k))) } else { None })
{
    let kk = Stk::Close(2, i, Box::new(one(ms_ws2())));
    let s = t.subrange(i, i + k);
    lm_kw_text();
    let r1 = re_run(then(Re::Lit("msgctxt"@), kk), t, i, c);
    let r2 = re_run(then(Re::Lit("msgid"@), kk), t, i, c);
    let r3 = re_run(then(Re::Lit("msgid_plural"@), kk), t, i, c);
    let r4 = re_run(then(ms_str(), kk), t, i, c);
    let r0 = re_run(one(ms_ws2()), t, i, c);
    assert(re_run(one(ms_kw()), t, i, c) == or_else(or_else(r1, or_else(r2, or_else(r3, r4))), r0)) by { reveal_with_fuel(re_run, 8); }
    lm_lit("msgctxt"@, t, i, k, c);
    lm_lit("msgid"@, t, i, k, c);
    lm_lit("msgid_plural"@, t, i, k, c);
    if i + 6 <= t.len() && t.subrange(i, i + 6) == "msgstr"@ { lm_ms_str(t, i, k, c); lm_index(t, i, k); assert(t.subrange(i, i + 6)[3] == t[i + 3]); assert(s[3] == t[i + 3]); }
    else {
        assert(r4 is None) by { reveal_with_fuel(re_run, 3); }
        if s == "msgstr"@ { assert(k == 6); }
        if s.len() > 8 && s.take(7) == "msgstr["@ { assert(s.take(6) =~= t.subrange(i, i + 6)); assert(s.take(6) =~= s.take(7).take(6)); assert("msgstr"@.push('[').take(6) =~= "msgstr"@); }
    }
    if k > 0 {
        lm_ms_ws2(t, i, c);
        assert(sp_kw_char(t[i]));
        assert(!sp_cls(Cls::Space, t[i]));
        assert(run_end(Cls::Space, t, i) == i);
        assert(r0 is None);
    } else { assert(s.len() == 0); }
}

proof fn lm_word(t: Seq<char>, i: int) -> (k: int)
    requires 0 <= i <= t.len()
    ensures word(t, i, k), k == sp_run_len(t.skip(i), |c: char| sp_kw_char(c)), t.skip(i).take(k) == t.subrange(i, i + k), t.skip(i).skip(k) == t.skip(i + k)
{
    let p = |c: char| sp_kw_char(c);
    lm_run_len(t.skip(i), p);
    let k = sp_run_len(t.skip(i), p);
    assert forall|j: int| i <= j < i + k implies sp_kw_char(#[trigger] t[j]) by { assert(p(t.skip(i)[j - i])); }
    if i + k < t.len() { assert(!p(t.skip(i)[k])); }
    assert(t.skip(i).take(k) =~= t.subrange(i, i + k));
    assert(t.skip(i).skip(k) =~= t.skip(i + k));
    k
}
pub open spec fn kw_ok(t: Seq<char>, m: int, k: int, c: Caps) -> Option<(int, Caps)> {
    if k == 0 { quote_at(t, m, c) } else if sp_keyword(t.subrange(m, m + k)) { quote_at(t, run_end(Cls::Space, t, m + k), c.insert(2, (m, m + k))) } else { None }
}
proof fn lm_ms_ws1(t: Seq<char>, i: int, k: int, c: Caps)
    requires 0 <= i <= t.len(), sp_no_nl(t), word(t, run_end(Cls::Space, t, i), k), c.dom() =~= Set::<int>::empty() || c.dom() =~= Set::<int>::empty().insert(1)
    ensures re_run(one(ms_ws1()), t, i, c) == kw_ok(t, run_end(Cls::Space, t, i), k, c)
{
    let m = run_end(Cls::Space, t, i);
    lm_run_end(Cls::Space, t, i);
    lm_ms_kw(t, m, k, c);
    lm_ms_ws2(t, m, c);
    if k > 0 { lm_ms_ws2(t, m + k, c.insert(2, (m, m + k))); assert(sp_kw_char(t[m])); }
    if re_run(one(ms_kw()), t, m, c) is None {
        assert forall|l: int| i <= l < m implies #[trigger] re_run(one(ms_kw()), t, l, c) is None by {
            assert(sp_cls(Cls::Space, t[l]));
            assert(word(t, l, 0));
            lm_ms_kw(t, l, 0, c);
            lm_ms_ws2(t, l, c);
            assert(run_end(Cls::Space, t, l) == m);
        }
    }
    lm_star_max(Cls::Space, one(ms_kw()), t, i, c);
    reveal_with_fuel(re_run, 2);
}
/// the end of the marker at w, if any
#[verifier::spinoff_prover]
#[verifier::rlimit(40)]
proof fn lm_ms_mark(t: Seq<char>, w: int, c: Caps)
    requires 0 <= w <= t.len(), sp_no_nl(t), c == Map::<int, (int, int)>::empty(), w < t.len() ==> !sp_ws(t[w])
    ensures ({
        let l = t.skip(w);
        let g = sp_marker(l);
        let i = if g.len() == 0 { w } else { w + 1 + g.len() };
        &&& i <= t.len()
        &&& re_run(one(ms_mark()), t, w, c) == re_run(one(ms_ws1()), t, i, if g.len() == 0 { c } else { c.insert(1, (w + 1, i)) })
        &&& g.len() > 0 ==> g == t.subrange(w + 1, i) && t.skip(w).skip(1 + g.len() as int) == t.skip(i)
    })
{
    let n = t.len() as int;
    let l = t.skip(w);
    let g = sp_marker(l);
    let k0 = one(ms_ws1());
    let kc = Stk::Close(1, w + 1, Box::new(k0));
    reveal_with_fuel(sp_cls, 2);
    let a = re_run(then(cat(ch('#'), cap(1, ms_flag())), k0), t, w, c);
    let b = re_run(k0, t, w, c);
    assert(re_run(one(ms_mark()), t, w, c) == or_else(a, b)) by { reveal_with_fuel(re_run, 3); }
    if w < n && t[w] == '#' {
        assert(l[0] == '#');
        if w + 1 < n { assert(l[1] == t[w + 1]); }
        if w + 2 < n { assert(l[2] == t[w + 2]); }
        assert(a == re_run(then(ms_flag(), kc), t, w + 1, c)) by { reveal_with_fuel(re_run, 5); assert(t[w] as u32 == 35); }
        // without a marker, '#' is neither a keyword nor a quote
        lm_run_end(Cls::Space, t, w);
        let k = lm_word(t, w);
        if k == 0 { assert(!sp_kw_char(t[w])); }
        lm_kw_text();
        let s = t.subrange(w, w + k);
        assert(s[0] == '#');
        if s.len() > 7 { assert(s.take(7)[0] == '#'); assert("msgstr["@[0] == 'm'); }
        assert(!sp_keyword(s));
        lm_ms_ws1(t, w, k, c);
        assert(b is None);
        let f1 = re_run(then(cat(ch('~'), opt(ch('|'))), kc), t, w + 1, c);
        let f2 = re_run(then(ch('|'), kc), t, w + 1, c);
        assert(re_run(then(ms_flag(), kc), t, w + 1, c) == or_else(f1, f2)) by { reveal_with_fuel(re_run, 2); }
        if w + 1 < n && t[w + 1] == '~' {
            assert(t[w + 1] as u32 == 126);
            assert(f2 is None) by { reveal_with_fuel(re_run, 2); }
            let c2 = c.insert(1, (w + 1, w + 2));
            let c3 = c.insert(1, (w + 1, w + 3));
            let p2 = re_run(kc, t, w + 2, c);
            assert(p2 == re_run(k0, t, w + 2, c2)) by { reveal_with_fuel(re_run, 2); }
            if w + 2 < n && t[w + 2] == '|' {
                assert(t[w + 2] as u32 == 124);
                let p3 = re_run(kc, t, w + 3, c);
                assert(p3 == re_run(k0, t, w + 3, c3)) by { reveal_with_fuel(re_run, 2); }
                assert(f1 == or_else(p3, p2)) by { reveal_with_fuel(re_run, 6); }
                lm_run_end(Cls::Space, t, w + 2);
                let k = lm_word(t, w + 2);
                if k == 0 { assert(!sp_kw_char(t[w + 2])); }
                let s = t.subrange(w + 2, w + 2 + k);
                assert(s[0] == '|');
                if s.len() > 7 { assert(s.take(7)[0] == '|'); }
                assert(!sp_keyword(s));
                lm_ms_ws1(t, w + 2, k, c2);
                assert(p2 is None);
                assert(g.len() == 2);
                assert(t.subrange(w + 1, w + 3) =~= g);
                assert(l.skip(3) =~= t.skip(w + 3));
            } else {
                if w + 2 < n { assert(t[w + 2] as u32 != 124); }
                assert(f1 == p2) by { reveal_with_fuel(re_run, 6); }
                assert(g.len() == 1);
                assert(t.subrange(w + 1, w + 2) =~= g);
                assert(l.skip(2) =~= t.skip(w + 2));
            }
        } else if w + 1 < n && t[w + 1] == '|' {
            assert(f1 is None) by { reveal_with_fuel(re_run, 3); assert(t[w + 1] as u32 != 126); }
            assert(f2 == re_run(k0, t, w + 2, c.insert(1, (w + 1, w + 2)))) by { reveal_with_fuel(re_run, 3); assert(t[w + 1] as u32 == 124); }
            assert(g.len() == 1);
            assert(t.subrange(w + 1, w + 2) =~= g);
            assert(l.skip(2) =~= t.skip(w + 2));
        } else {
            assert(f1 is None && f2 is None) by { reveal_with_fuel(re_run, 3); if w + 1 < n { assert(t[w + 1] as u32 != 126 && t[w + 1] as u32 != 124); } }
            assert(g.len() == 0);
        }
    } else {
        if w < n { assert(l[0] == t[w]); assert(t[w] as u32 != 35); }
        assert(a is None) by { reveal_with_fuel(re_run, 3); }
        assert(g.len() == 0);
    }
}
proof fn lm_ms_all(t: Seq<char>)
    requires sp_no_nl(t)
    ensures re_run(one(ms_all()), t, 0, Map::empty()) == re_run(one(ms_mark()), t, run_end(Cls::Space, t, 0), Map::empty())
{
    let c: Caps = Map::empty();
    let w = run_end(Cls::Space, t, 0);
    lm_run_end(Cls::Space, t, 0);
    if w < t.len() { assert(!sp_ws(t[w])); }
    let k = lm_word(t, w);
    lm_ms_mark(t, w, c);
    lm_run_end(Cls::Space, t, w);
    assert(run_end(Cls::Space, t, w) == w);
    lm_ms_ws1(t, w, k, c);
    if re_run(one(ms_mark()), t, w, c) is None {
        assert forall|l: int| 0 <= l < w implies #[trigger] re_run(one(ms_mark()), t, l, c) is None by {
            assert(sp_cls(Cls::Space, t[l]));
            let k0 = one(ms_ws1());
            reveal_with_fuel(sp_cls, 2);
            let a = re_run(then(cat(ch('#'), cap(1, ms_flag())), k0), t, l, c);
            assert(a is None) by { reveal_with_fuel(re_run, 3); }
            assert(re_run(one(ms_mark()), t, l, c) == or_else(a, re_run(k0, t, l, c))) by { reveal_with_fuel(re_run, 3); }
            assert(run_end(Cls::Space, t, l) == w);
            lm_ms_ws1(t, l, k, c);
            // at w, either there is a marker and then no keyword, or there is none and the result is this one
            if sp_marker(t.skip(w)).len() > 0 {
                assert(t.skip(w)[0] == t[w]);
                assert(t[w] == '#');
                lm_kw_text();
                let s = t.subrange(w, w + k);
                if k == 0 { assert(!sp_kw_char(t[w])); }
                assert(s[0] == '#');
                if s.len() > 7 { assert(s.take(7)[0] == '#'); }
                assert(!sp_keyword(s));
            }
        }
    }
    lm_star_max(Cls::Space, one(ms_mark()), t, 0, c);
    reveal_with_fuel(re_run, 2);
}
#[verifier::spinoff_prover]
#[verifier::rlimit(40)]
pub broadcast proof fn lm_message(pat: Seq<char>)
    requires sp_re_ast(pat) == Some(ast_message())
    ensures #[trigger] sp_re_message(pat)
{
    assert forall|t: Seq<char>| sp_no_nl(t) implies match sp_msg_line(t) {
        None => #[trigger] sp_re_captures(pat, t) is None,
        Some(m) => sp_re_captures(pat, t) is Some && ({
            let g = sp_re_captures(pat, t)->0;
            &&& g.len() == 4
            &&& g[1] == (if m.marker.len() == 0 { None } else { Some(m.marker) })
            &&& g[2] == m.keyword
            &&& g[3] == Some(m.string)
        }),
    } by {
        let c: Caps = Map::empty();
        lm_anchored(ms_all(), t, 0);
        lm_ms_all(t);
        let w = run_end(Cls::Space, t, 0);
        lm_run_end(Cls::Space, t, 0);
        lm_trim_start(t, 0);
        assert(t.skip(0) =~= t);
        lm_ms_mark(t, w, c);
        let g = sp_marker(t.skip(w));
        let i = if g.len() == 0 { w } else { w + 1 + g.len() };
        let c1 = if g.len() == 0 { c } else { c.insert(1, (w + 1, i)) };
        let m = run_end(Cls::Space, t, i);
        lm_run_end(Cls::Space, t, i);
        lm_trim_start(t, i);
        let k = lm_word(t, m);
        lm_ms_ws1(t, i, k, c1);
        let l2 = t.skip(m);
        assert(sp_trim_start(if g.len() == 0 { t.skip(w) } else { t.skip(w).skip(1 + g.len() as int) }) == l2);
        lm_run_end(Cls::Space, t, m);
        lm_quoted(t, m);
        lm_quoted(t, m + k);
    }
}

// ---- definition lists

pub open spec fn key_cls() -> Cls { Cls::Not(Box::new(cor(Cls::Space, cor(cch(';'), cch('='))))) }
pub open spec fn val_cls() -> Cls { Cls::Not(Box::new(cch(';'))) }
pub open spec fn df_key() -> Re { cat(Re::Cls(key_cls()), star(key_cls())) }
pub open spec fn df_eq() -> Re { cat(ch('='), star(val_cls())) }
pub open spec fn df_def() -> Re { cat(df_key(), cat(star(Cls::Space), df_eq())) }
pub open spec fn df_semi() -> Re { cat(ch(';'), star(Cls::Space)) }
pub open spec fn df_item() -> Re { cat(opt(df_def()), df_semi()) }
pub open spec fn df_items() -> Re { Re::Star(true, Box::new(df_item())) }
pub open spec fn ast_check() -> ReAst { ReAst { re: cat(Re::Start, cat(star(Cls::Space), cat(df_items(), Re::End))), groups: 1 } }

proof fn lm_cls(c: char)
    ensures sp_cls(key_cls(), c) == sp_key_char(c), sp_cls(val_cls(), c) == (c != ';'), sp_cls(Cls::Space, c) == sp_ws(c)
{
    reveal_with_fuel(sp_cls, 5);
    assert(c as u32 == 59 <==> c == ';'); assert(c as u32 == 61 <==> c == '=');
}
proof fn lm_cat(a: Re, b: Re, k: Stk, t: Seq<char>, i: int, c: Caps)
    ensures re_run(then(cat(a, b), k), t, i, c) == re_run(then(a, then(b, k)), t, i, c)
{ reveal_with_fuel(re_run, 2); }
proof fn lm_ch(x: char, k: Stk, t: Seq<char>, i: int, c: Caps)
    requires 0 <= i <= t.len()
    ensures re_run(then(ch(x), k), t, i, c) == (if i < t.len() && t[i] == x { re_run(k, t, i + 1, c) } else { None })
{
    reveal_with_fuel(re_run, 2);
    reveal_with_fuel(sp_cls, 2);
    if i < t.len() { assert(t[i] as u32 == x as u32 <==> t[i] == x); }
}
/// a definition: position of its `=`, if it is one, when its key begins at i
pub open spec fn eq_at(t: Seq<char>, i: int) -> Option<int> {
    let f = run_end(Cls::Space, t, run_end(key_cls(), t, i));
    if i < t.len() && sp_key_char(t[i]) && f < t.len() && t[f] == '=' { Some(f) } else { None }
}
/// where the text up to `;` ends
pub open spec fn semi(t: Seq<char>, i: int) -> int { run_end(val_cls(), t, i) }

/// key and space and then what begins with `=`
proof fn lm_key_eq(k: Stk, ks: Stk, t: Seq<char>, i: int, c: Caps)
    requires 0 <= i < t.len(), sp_key_char(t[i]), ks == then(star(Cls::Space), k),
        forall|j: int, c2: Caps| 0 <= j <= t.len() && (j == t.len() || t[j] != '=') ==> #[trigger] re_run(k, t, j, c2) is None
    ensures re_run(then(star(key_cls()), ks), t, i + 1, c) == (match eq_at(t, i) { Some(f) => re_run(k, t, f, c), None => None })
{
    let e = run_end(key_cls(), t, i);
    lm_cls(t[i]);
    lm_run_end(key_cls(), t, i);
    lm_run_end(key_cls(), t, i + 1);
    let f = run_end(Cls::Space, t, e);
    lm_run_end(Cls::Space, t, e);
    assert forall|l: int| i + 1 <= l < e implies #[trigger] re_run(ks, t, l, c) is None by {
        lm_cls(t[l]);
        assert(sp_cls(key_cls(), t[l]));
        assert(run_end(Cls::Space, t, l) == l);
        lm_star_max(Cls::Space, k, t, l, c);
    }
    lm_star_max(key_cls(), ks, t, i + 1, c);
    assert forall|l: int| e <= l < f implies #[trigger] re_run(k, t, l, c) is None by { assert(sp_cls(Cls::Space, t[l])); }
    lm_star_max(Cls::Space, k, t, e, c);
}
proof fn lm_semi_pos(t: Seq<char>, i: int)
    requires 0 <= i <= t.len()
    ensures i <= semi(t, i) <= t.len(), semi(t, i) < t.len() ==> t[semi(t, i)] == ';', forall|j: int| i <= j < semi(t, i) ==> #[trigger] t[j] != ';', forall|j: int| i <= j <= semi(t, i) ==> #[trigger] semi(t, j) == semi(t, i)
{
    lm_run_end(val_cls(), t, i);
    if semi(t, i) < t.len() { lm_cls(t[semi(t, i)]); }
    assert forall|j: int| i <= j < semi(t, i) implies #[trigger] t[j] != ';' by { lm_cls(t[j]); assert(sp_cls(val_cls(), t[j])); }
}
/// one item of the list from a place which is not space, followed by k, which refuses to begin with space
proof fn lm_item(k: Stk, t: Seq<char>, i: int, c: Caps)
    requires 0 <= i <= t.len(),
        i < t.len() ==> !sp_ws(t[i]),
        forall|j: int| i < j < t.len() && sp_ws(t[j]) ==> #[trigger] re_run(k, t, j, c) is None
    ensures ({
        let d = semi(t, i);
        re_run(then(df_item(), k), t, i, c) == (if d < t.len() && (d == i || eq_at(t, i) is Some && eq_at(t, i)->0 < d) { re_run(k, t, run_end(Cls::Space, t, d + 1), c) } else { None })
    }), eq_at(t, i) is Some && semi(t, i) < t.len() ==> eq_at(t, i)->0 < semi(t, i)
{
    let n = t.len() as int;
    let d = semi(t, i);
    lm_semi_pos(t, i);
    let kw = then(star(Cls::Space), k);
    let ks = then(df_semi(), k);
    assert(forall|j: int| 0 <= j <= n ==> re_run(ks, t, j, c) == #[trigger] re_run(then(ch(';'), kw), t, j, c)) by { reveal_with_fuel(re_run, 2); }
    assert forall|j: int| 0 <= j <= n implies #[trigger] re_run(ks, t, j, c) == (if j < n && t[j] == ';' { re_run(kw, t, j + 1, c) } else { None }) by {
        lm_ch(';', kw, t, j, c);
        assert(re_run(ks, t, j, c) == re_run(then(ch(';'), kw), t, j, c));
    }
    if d < n {
        let m = run_end(Cls::Space, t, d + 1);
        lm_run_end(Cls::Space, t, d + 1);
        assert forall|l: int| d + 1 <= l < m implies #[trigger] re_run(k, t, l, c) is None by { assert(sp_cls(Cls::Space, t[l])); }
        lm_star_max(Cls::Space, k, t, d + 1, c);
        assert(re_run(kw, t, d + 1, c) == re_run(k, t, m, c));
    }
    let a = re_run(then(df_def(), ks), t, i, c);
    let b = re_run(ks, t, i, c);
    assert(re_run(then(df_item(), k), t, i, c) == or_else(a, b)) by { reveal_with_fuel(re_run, 3); }
    if i < n && sp_key_char(t[i]) {
        lm_cls(t[i]);
        let kv = then(df_eq(), ks);
        let kv2 = then(star(val_cls()), ks);
        assert forall|j: int, c2: Caps| 0 <= j <= n implies #[trigger] re_run(kv, t, j, c2) == (if j < n && t[j] == '=' { re_run(kv2, t, j + 1, c2) } else { None }) by {
            lm_ch('=', kv2, t, j, c2);
            reveal_with_fuel(re_run, 2);
        }
        lm_key_eq(kv, then(star(Cls::Space), kv), t, i, c);
        assert(a == re_run(then(star(key_cls()), then(star(Cls::Space), kv)), t, i + 1, c)) by {
            assert(a == re_run(then(df_key(), then(cat(star(Cls::Space), df_eq()), ks)), t, i, c)) by { reveal_with_fuel(re_run, 2); }
            let kx = then(cat(star(Cls::Space), df_eq()), ks);
            assert(re_run(then(df_key(), kx), t, i, c) == re_run(then(star(key_cls()), kx), t, i + 1, c)) by { reveal_with_fuel(re_run, 3); }
            lm_kx(ks, kv, t, i + 1, c);
        }
        match eq_at(t, i) {
            Some(f) => {
                let e = run_end(key_cls(), t, i);
                lm_run_end(key_cls(), t, i);
                lm_run_end(Cls::Space, t, e);
                // no `;` before `=`
                assert(f < d || d == n) by { if d < n && d <= f { lm_cls(t[d]); if d < e { assert(sp_cls(key_cls(), t[d])); } else if d < f { assert(sp_cls(Cls::Space, t[d])); } } }
                if f >= d { assert(d == n); assert(t[f] == '='); }
                assert(semi(t, f + 1) == d);
                lm_semi_pos(t, f + 1);
                assert forall|l: int| f + 1 <= l < d implies #[trigger] re_run(ks, t, l, c) is None by {}
                lm_star_max(val_cls(), ks, t, f + 1, c);
            }
            None => {}
        }
    } else {
        assert(a is None) by { reveal_with_fuel(re_run, 4); if i < n { lm_cls(t[i]); } }
    }
}
/// `(a b) k` is `a (b k)` under a repetition
proof fn lm_kx(ks: Stk, kv: Stk, t: Seq<char>, i: int, c: Caps)
    requires 0 <= i <= t.len(), kv == then(df_eq(), ks)
    ensures re_run(then(star(key_cls()), then(cat(star(Cls::Space), df_eq()), ks)), t, i, c) == re_run(then(star(key_cls()), then(star(Cls::Space), kv)), t, i, c)
    decreases t.len() - i
{
    let k1 = then(cat(star(Cls::Space), df_eq()), ks);
    let k2 = then(star(Cls::Space), kv);
    lm_star_step(key_cls(), k1, t, i, c);
    lm_star_step(key_cls(), k2, t, i, c);
    assert(re_run(k1, t, i, c) == re_run(k2, t, i, c)) by { reveal_with_fuel(re_run, 2); }
    if i < t.len() && sp_cls(key_cls(), t[i]) { lm_kx(ks, kv, t, i + 1, c); }
}
/// a run of characters, within a piece of the text
proof fn lm_run_piece(x: Cls, f: spec_fn(char) -> bool, t: Seq<char>, i: int, d: int)
    requires 0 <= i <= run_end(x, t, i) <= d <= t.len(), forall|c: char| #[trigger] f(c) == sp_cls(x, c)
    ensures sp_run_len(t.subrange(i, d), f) == run_end(x, t, i) - i
    decreases t.len() - i
{
    let s = t.subrange(i, d);
    lm_run_end(x, t, i);
    if i < d {
        assert(s[0] == t[i]);
        assert(f(t[i]) == sp_cls(x, t[i]));
        if sp_cls(x, t[i]) { lm_run_end(x, t, i + 1); assert(s.skip(1) =~= t.subrange(i + 1, d)); lm_run_piece(x, f, t, i + 1, d); }
    }
}
proof fn lm_trim_piece(t: Seq<char>, i: int, d: int)
    requires 0 <= i <= run_end(Cls::Space, t, i) <= d <= t.len()
    ensures sp_trim_start(t.subrange(i, d)) == t.subrange(run_end(Cls::Space, t, i), d)
    decreases t.len() - i
{
    let s = t.subrange(i, d);
    lm_run_end(Cls::Space, t, i);
    if i < d {
        assert(s[0] == t[i]);
        if sp_ws(t[i]) { lm_run_end(Cls::Space, t, i + 1); assert(s.skip(1) =~= t.subrange(i + 1, d)); lm_trim_piece(t, i + 1, d); }
    }
}
/// a definition between i and the next `;`
proof fn lm_def(t: Seq<char>, i: int)
    requires 0 <= i < semi(t, i) < t.len()
    ensures sp_def(t.subrange(i, semi(t, i))) == (match eq_at(t, i) {
        Some(f) => Some(Def { key: t.subrange(i, run_end(key_cls(), t, i)), value: sp_trim(t.subrange(f + 1, semi(t, i))) }),
        None => None,
    }), eq_at(t, i) is Some ==> i < run_end(key_cls(), t, i) <= eq_at(t, i)->0 < semi(t, i) && t[eq_at(t, i)->0] == '='
{
    let d = semi(t, i);
    let s = t.subrange(i, d);
    lm_semi_pos(t, i);
    lm_run_end(key_cls(), t, i);
    let e = run_end(key_cls(), t, i);
    lm_cls(t[i]);
    lm_cls(t[d]);
    if d < e { assert(sp_cls(key_cls(), t[d])); }
    assert forall|c: char| #[trigger] sp_key_char(c) == sp_cls(key_cls(), c) by { lm_cls(c); }
    lm_run_piece(key_cls(), |c: char| sp_key_char(c), t, i, d);
    lm_run_end(Cls::Space, t, e);
    let f = run_end(Cls::Space, t, e);
    if d < f { assert(sp_cls(Cls::Space, t[d])); }
    assert(s.skip(e - i) =~= t.subrange(e, d));
    lm_trim_piece(t, e, d);
    let r = t.subrange(f, d);
    assert(s.take(e - i) =~= t.subrange(i, e));
    if f < d { assert(r[0] == t[f]); assert(r.skip(1) =~= t.subrange(f + 1, d)); }
    if e > i { assert(sp_cls(key_cls(), t[i])); }
}
/// the definitions of the text from a place on
proof fn lm_defs_at(t: Seq<char>, i: int)
    requires 0 <= i <= t.len()
    ensures
        sp_defs(t.skip(i)) == sp_defs(t.skip(run_end(Cls::Space, t, i))),
        i < t.len() && !sp_ws(t[i]) ==> sp_defs(t.skip(i)) == ({
            let d = semi(t, i);
            if d >= t.len() { None::<Seq<Def>> } else { match sp_defs(t.skip(d + 1)) {
                None => None,
                Some(rest) => if d == i { Some(rest) } else { match sp_def(t.subrange(i, d)) { None => None, Some(f) => Some(seq![f] + rest) } },
            } }
        }),
        i == t.len() ==> sp_defs(t.skip(i)) == Some(Seq::<Def>::empty()),
{
    let n = t.len() as int;
    let w = run_end(Cls::Space, t, i);
    lm_run_end(Cls::Space, t, i);
    lm_trim_start(t, i);
    lm_trim_start(t, w);
    lm_semi_pos(t, w);
    let u = t.skip(w);
    let d = semi(t, w);
    let p = |c: char| c != ';';
    assert forall|c: char| #[trigger] p(c) == sp_cls(val_cls(), c) by { lm_cls(c); }
    lm_run_piece(val_cls(), p, t, w, n);
    assert(t.subrange(w, n) =~= u);
    assert(sp_run_len(u, |c: char| c != ';') == d - w);
    if d < n { assert(u.skip(d - w + 1) =~= t.skip(d + 1)); assert(u.take(d - w) =~= t.subrange(w, d)); }
    reveal_with_fuel(sp_defs, 2);
    if i == n { assert(t.skip(n).len() == 0); }
}

// ---- the check

pub open spec fn df_end() -> Stk { then(Re::End, Stk::Nil) }
pub open spec fn df_again(i: int) -> Stk { Stk::Again(i, true, Box::new(df_item()), Box::new(df_end())) }
proof fn lm_end(t: Seq<char>, i: int, c: Caps)
    ensures re_run(df_end(), t, i, c) == (if i == t.len() { Some((i, c)) } else { None })
{ reveal_with_fuel(re_run, 3); }
proof fn lm_items_step(t: Seq<char>, i: int, c: Caps)
    requires 0 <= i <= t.len()
    ensures re_run(then(df_items(), df_end()), t, i, c) == or_else(re_run(then(df_item(), df_again(i)), t, i, c), re_run(df_end(), t, i, c))
{ reveal_with_fuel(re_run, 2); }
/// no item begins with space
proof fn lm_items_ws(t: Seq<char>, i: int, c: Caps)
    requires 0 <= i < t.len(), sp_ws(t[i])
    ensures re_run(then(df_items(), df_end()), t, i, c) is None
{
    lm_items_step(t, i, c);
    lm_end(t, i, c);
    lm_cls(t[i]);
    let k = df_again(i);
    let ks = then(df_semi(), k);
    let a = re_run(then(df_def(), ks), t, i, c);
    let b = re_run(ks, t, i, c);
    assert(re_run(then(df_item(), k), t, i, c) == or_else(a, b)) by { reveal_with_fuel(re_run, 3); }
    assert(a is None) by { reveal_with_fuel(re_run, 4); }
    lm_ch(';', then(star(Cls::Space), k), t, i, c);
    assert(b == re_run(then(ch(';'), then(star(Cls::Space), k)), t, i, c)) by { reveal_with_fuel(re_run, 2); }
}
proof fn lm_items(t: Seq<char>, i: int, c: Caps)
    requires 0 <= i <= t.len(), i < t.len() ==> !sp_ws(t[i])
    ensures re_run(then(df_items(), df_end()), t, i, c) is Some <==> sp_defs(t.skip(i)) is Some
    decreases t.len() - i
{
    let n = t.len() as int;
    let k = df_again(i);
    lm_items_step(t, i, c);
    lm_end(t, i, c);
    lm_defs_at(t, i);
    if i < n {
        assert forall|j: int| 0 <= j <= n && j != i implies #[trigger] re_run(k, t, j, c) == re_run(then(df_items(), df_end()), t, j, c) by { reveal_with_fuel(re_run, 2); }
        assert forall|j: int| i < j < n && sp_ws(t[j]) implies #[trigger] re_run(k, t, j, c) is None by { lm_items_ws(t, j, c); }
        lm_item(k, t, i, c);
        let d = semi(t, i);
        lm_semi_pos(t, i);
        if d < n {
            let m = run_end(Cls::Space, t, d + 1);
            lm_run_end(Cls::Space, t, d + 1);
            lm_items(t, m, c);
            lm_defs_at(t, d + 1);
            if d > i { lm_def(t, i); }
        }
    }
}
pub broadcast proof fn lm_check(pat: Seq<char>)
    requires sp_re_ast(pat) == Some(ast_check())
    ensures #[trigger] sp_re_check(pat)
{
    assert forall|t: Seq<char>| #[trigger] sp_re_captures(pat, t) is Some <==> sp_defs(t) is Some by {
        let c: Caps = Map::empty();
        let w = run_end(Cls::Space, t, 0);
        let r = cat(df_items(), Re::End);
        let k = then(r, Stk::Nil);
        lm_anchored(cat(star(Cls::Space), r), t, 0);
        lm_cat(star(Cls::Space), r, Stk::Nil, t, 0, c);
        lm_run_end(Cls::Space, t, 0);
        assert forall|l: int| 0 <= l <= t.len() implies #[trigger] re_run(k, t, l, c) == re_run(then(df_items(), df_end()), t, l, c) by { lm_cat(df_items(), Re::End, Stk::Nil, t, l, c); }
        assert forall|l: int| 0 <= l < w implies #[trigger] re_run(k, t, l, c) is None by { assert(sp_cls(Cls::Space, t[l])); lm_items_ws(t, l, c); }
        lm_star_max(Cls::Space, k, t, 0, c);
        lm_items(t, w, c);
        lm_defs_at(t, 0);
        assert(t.skip(0) =~= t);
    }
}

// ---- the search for definitions

pub open spec fn lazy(a: Cls) -> Re { Re::Star(false, Box::new(Re::Cls(a))) }
pub open spec fn mp_end() -> Re { cat(star(Cls::Space), ch(';')) }
pub open spec fn mp_val() -> Re { cat(cap(2, lazy(val_cls())), mp_end()) }
pub open spec fn mp_eq() -> Re { cat(ch('='), cat(star(Cls::Space), mp_val())) }
pub open spec fn mp_ws() -> Re { cat(star(Cls::Space), mp_eq()) }
pub open spec fn ast_map() -> ReAst { ReAst { re: cat(cap(1, df_key()), mp_ws()), groups: 3 } }
proof fn lm_lazy_step(x: Cls, k: Stk, t: Seq<char>, i: int, c: Caps)
    requires 0 <= i <= t.len()
    ensures re_run(then(lazy(x), k), t, i, c) == or_else(re_run(k, t, i, c), if i < t.len() && sp_cls(x, t[i]) { re_run(then(lazy(x), k), t, i + 1, c) } else { None })
{
    reveal_with_fuel(re_run, 4);
}
/// the shortest repetition
proof fn lm_lazy(x: Cls, k: Stk, t: Seq<char>, i: int, c: Caps, m: int)
    requires 0 <= i <= m <= run_end(x, t, i), i <= t.len(), re_run(k, t, m, c) is Some, forall|l: int| i <= l < m ==> #[trigger] re_run(k, t, l, c) is None
    ensures re_run(then(lazy(x), k), t, i, c) == re_run(k, t, m, c)
    decreases m - i
{
    lm_run_end(x, t, i);
    lm_lazy_step(x, k, t, i, c);
    if i < m { lm_run_end(x, t, i + 1); lm_lazy(x, k, t, i + 1, c, m); }
}
proof fn lm_mp_end(t: Seq<char>, i: int, c: Caps)
    requires 0 <= i <= t.len()
    ensures re_run(one(mp_end()), t, i, c) == (if semi(t, i) < t.len() && run_end(Cls::Space, t, i) == semi(t, i) { Some((semi(t, i) + 1, c)) } else { None })
{
    let m = run_end(Cls::Space, t, i);
    let k = one(ch(';'));
    lm_run_end(Cls::Space, t, i);
    lm_semi_pos(t, i);
    lm_cat(star(Cls::Space), ch(';'), Stk::Nil, t, i, c);
    assert forall|l: int| 0 <= l <= t.len() implies #[trigger] re_run(k, t, l, c) == (if l < t.len() && t[l] == ';' { Some((l + 1, c)) } else { None }) by { lm_ch(';', Stk::Nil, t, l, c); reveal_with_fuel(re_run, 1); }
    assert forall|l: int| i <= l < m implies #[trigger] re_run(k, t, l, c) is None by { assert(sp_cls(Cls::Space, t[l])); }
    lm_star_max(Cls::Space, k, t, i, c);
    let d = semi(t, i);
    if m < d { assert(t[m] != ';'); }
    if d < m { assert(sp_cls(Cls::Space, t[d])); }
}
/// the value, from a place which is not space
proof fn lm_mp_val(t: Seq<char>, i: int, c: Caps)
    requires 0 <= i <= semi(t, i) < t.len(), !sp_ws(t[i])
    ensures ({
        let d = semi(t, i);
        let e = i + trim_len(t.subrange(i, d));
        i <= e <= d && re_run(one(mp_val()), t, i, c) == Some((d + 1, c.insert(2, (i, e))))
    })
{
    let d = semi(t, i);
    let s = t.subrange(i, d);
    let e = i + trim_len(s);
    lm_trim_end(s);
    lm_semi_pos(t, i);
    let k = Stk::Close(2, i, Box::new(one(mp_end())));
    assert(re_run(one(mp_val()), t, i, c) == re_run(then(lazy(val_cls()), k), t, i, c)) by { reveal_with_fuel(re_run, 3); }
    assert forall|l: int| i <= l <= d implies #[trigger] re_run(k, t, l, c) == (if run_end(Cls::Space, t, l) == d { Some((d + 1, c.insert(2, (i, l)))) } else { None }) by {
        lm_mp_end(t, l, c.insert(2, (i, l)));
        assert(semi(t, l) == d);
        assert(re_run(k, t, l, c) == re_run(one(mp_end()), t, l, c.insert(2, (i, l)))) by { reveal_with_fuel(re_run, 2); }
    }
    assert(run_end(Cls::Space, t, e) == d) by {
        lm_run_end(Cls::Space, t, e);
        let m = run_end(Cls::Space, t, e);
        if m < d { assert(s[m - i] == t[m]); assert(sp_ws(s[m - i])); }
        if d < m { assert(sp_cls(Cls::Space, t[d])); }
    }
    assert forall|l: int| i <= l < e implies #[trigger] re_run(k, t, l, c) is None by {
        lm_run_end(Cls::Space, t, l);
        if run_end(Cls::Space, t, l) == d { assert(sp_cls(Cls::Space, t[e - 1])); assert(s[e - 1 - i] == t[e - 1]); }
    }
    lm_lazy(val_cls(), k, t, i, c, e);
}
proof fn lm_mp_eq(t: Seq<char>, i: int, c: Caps)
    requires 0 <= i <= t.len()
    ensures
        i >= t.len() || t[i] != '=' ==> re_run(one(mp_eq()), t, i, c) is None,
        i < t.len() && t[i] == '=' && semi(t, i + 1) < t.len() ==> ({
            let d = semi(t, i + 1);
            let g = run_end(Cls::Space, t, i + 1);
            let e = g + trim_len(t.subrange(g, d));
            i < g <= e <= d && sp_trim(t.subrange(i + 1, d)) == t.subrange(g, e) && re_run(one(mp_eq()), t, i, c) == Some((d + 1, c.insert(2, (g, e))))
        })
{
    let kw = one(cat(star(Cls::Space), mp_val()));
    lm_cat(ch('='), cat(star(Cls::Space), mp_val()), Stk::Nil, t, i, c);
    lm_ch('=', kw, t, i, c);
    if i < t.len() && t[i] == '=' && semi(t, i + 1) < t.len() {
        let d = semi(t, i + 1);
        let g = run_end(Cls::Space, t, i + 1);
        lm_semi_pos(t, i + 1);
        lm_run_end(Cls::Space, t, i + 1);
        if d < g { assert(sp_cls(Cls::Space, t[d])); }
        lm_cat(star(Cls::Space), mp_val(), Stk::Nil, t, i + 1, c);
        assert(semi(t, g) == d);
        lm_mp_val(t, g, c);
        lm_star_max(Cls::Space, one(mp_val()), t, i + 1, c);
        lm_trim_piece(t, i + 1, d);
        let s = t.subrange(g, d);
        lm_trim_end(s);
        assert(s.take(trim_len(s)) =~= t.subrange(g, g + trim_len(s)));
    }
}
proof fn lm_mp_ws(t: Seq<char>, i: int, c: Caps)
    requires 0 <= i <= t.len()
    ensures re_run(one(mp_ws()), t, i, c) == ({ let f = run_end(Cls::Space, t, i); if f < t.len() && t[f] == '=' { re_run(one(mp_eq()), t, f, c) } else { None } })
{
    let f = run_end(Cls::Space, t, i);
    lm_run_end(Cls::Space, t, i);
    lm_cat(star(Cls::Space), mp_eq(), Stk::Nil, t, i, c);
    assert forall|l: int| i <= l < f implies #[trigger] re_run(one(mp_eq()), t, l, c) is None by { lm_mp_eq(t, l, c); assert(sp_cls(Cls::Space, t[l])); }
    lm_mp_eq(t, f, c);
    lm_star_max(Cls::Space, one(mp_eq()), t, i, c);
}
pub open spec fn mp_caps(t: Seq<char>, i: int) -> Caps {
    let g = run_end(Cls::Space, t, eq_at(t, i)->0 + 1);
    Map::<int, (int, int)>::empty().insert(1, (i, run_end(key_cls(), t, i))).insert(2, (g, g + trim_len(t.subrange(g, semi(t, i)))))
}
proof fn lm_mp_at(t: Seq<char>, i: int)
    requires 0 <= i <= t.len()
    ensures
        i >= t.len() || !sp_key_char(t[i]) ==> re_run(one(ast_map().re), t, i, Map::empty()) is None,
        semi(t, i) < t.len() && eq_at(t, i) is Some ==> re_run(one(ast_map().re), t, i, Map::empty()) == Some((semi(t, i) + 1, mp_caps(t, i))),
{
    let c: Caps = Map::empty();
    let ky = Stk::Close(1, i, Box::new(one(mp_ws())));
    let kk = then(star(key_cls()), ky);
    assert(re_run(one(ast_map().re), t, i, c) == re_run(then(Re::Cls(key_cls()), kk), t, i, c)) by { reveal_with_fuel(re_run, 4); }
    assert(re_run(then(Re::Cls(key_cls()), kk), t, i, c) == (if i < t.len() && sp_cls(key_cls(), t[i]) { re_run(kk, t, i + 1, c) } else { None })) by { reveal_with_fuel(re_run, 2); }
    if i < t.len() { lm_cls(t[i]); }
    if semi(t, i) < t.len() && eq_at(t, i) is Some {
        let f = eq_at(t, i)->0;
        let e = run_end(key_cls(), t, i);
        let d = semi(t, i);
        lm_run_end(key_cls(), t, i);
        lm_run_end(key_cls(), t, i + 1);
        lm_semi_pos(t, i);
        if d == i { assert(t[d] == ';'); }
        lm_def(t, i);
        assert forall|l: int| i <= l <= t.len() implies #[trigger] re_run(ky, t, l, c) == re_run(one(mp_ws()), t, l, c.insert(1, (i, l))) by { reveal_with_fuel(re_run, 2); }
        assert forall|l: int| i + 1 <= l < e implies #[trigger] re_run(ky, t, l, c) is None by {
            lm_mp_ws(t, l, c.insert(1, (i, l)));
            lm_cls(t[l]);
            assert(sp_cls(key_cls(), t[l]));
            assert(run_end(Cls::Space, t, l) == l);
        }
        lm_star_max(key_cls(), ky, t, i + 1, c);
        lm_mp_ws(t, e, c.insert(1, (i, e)));
        assert(semi(t, f + 1) == d);
        lm_mp_eq(t, f, c.insert(1, (i, e)));
    }
}
proof fn lm_mp_find(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(), sp_defs(t.skip(i)) is Some
    ensures match re_find(ast_map().re, t, i) { Some((s, e, c)) => i <= s < e <= t.len(), None => true }
    decreases t.len() - i
{
    lm_mp_at(t, i);
    if i < t.len() {
        lm_mp_step(t, i);
        if sp_key_char(t[i]) { lm_semi_pos(t, i); } else { lm_mp_find(t, i + 1); }
    }
}
/// what the definitions from i on are, by what is at i
proof fn lm_mp_step(t: Seq<char>, i: int)
    requires 0 <= i < t.len(), sp_defs(t.skip(i)) is Some
    ensures
        sp_key_char(t[i]) ==> i < semi(t, i) < t.len() && eq_at(t, i) is Some && sp_defs(t.skip(semi(t, i) + 1)) is Some && sp_defs(t.skip(i))->0 == seq![Def {
            key: t.subrange(i, run_end(key_cls(), t, i)), value: sp_trim(t.subrange(eq_at(t, i)->0 + 1, semi(t, i))) }] + sp_defs(t.skip(semi(t, i) + 1))->0,
        !sp_key_char(t[i]) ==> sp_defs(t.skip(i + 1)) == sp_defs(t.skip(i)),
{
    lm_defs_at(t, i);
    lm_semi_pos(t, i);
    if sp_ws(t[i]) {
        lm_defs_at(t, i + 1);
        lm_run_end(Cls::Space, t, i);
        assert(run_end(Cls::Space, t, i) == run_end(Cls::Space, t, i + 1));
    } else if t[i] != ';' {
        lm_cls(t[i]);
        if semi(t, i) == i { assert(!sp_cls(val_cls(), t[i])); }
        lm_def(t, i);
    } else {
        assert(semi(t, i) == i) by { if i < semi(t, i) { assert(t[i] != ';'); } }
    }
}
proof fn lm_mp_all(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(), sp_defs(t.skip(i)) is Some
    ensures sp_hits_defs(re_hits(ast_map(), t, i), sp_defs(t.skip(i))->0)
    decreases t.len() - i
{
    let a = ast_map();
    let n = t.len() as int;
    let h = re_hits(a, t, i);
    lm_mp_at(t, i);
    lm_mp_find(t, i);
    if i == n {
        lm_defs_at(t, i);
    } else {
        lm_mp_step(t, i);
        if sp_key_char(t[i]) {
            let d = semi(t, i);
            let f = eq_at(t, i)->0;
            let e = run_end(key_cls(), t, i);
            let c = mp_caps(t, i);
            let g = run_end(Cls::Space, t, f + 1);
            lm_mp_all(t, d + 1);
            lm_def(t, i);
            lm_semi_pos(t, i);
            assert(semi(t, f + 1) == d);
            lm_mp_eq(t, f, Map::empty());
            let hit = ReHit { gap: t.subrange(i, i), groups: re_groups(t, i, d + 1, c, 3) };
            let h2 = re_hits(a, t, d + 1);
            assert(h == seq![hit] + h2);
            assert(hit.groups[1] == Some(t.subrange(i, e)));
            assert(hit.groups[2] == Some(t.subrange(g, g + trim_len(t.subrange(g, d)))));
            let df = sp_defs(t.skip(i))->0;
            let df2 = sp_defs(t.skip(d + 1))->0;
            assert forall|j: int| 0 <= j < h.len() implies (#[trigger] h[j]).groups.len() == 3 && h[j].groups[1] == Some(df[j].key) && h[j].groups[2] == Some(df[j].value) by {
                if j > 0 { assert(h[j] == h2[j - 1]); assert(df[j] == df2[j - 1]); }
            }
        } else {
            lm_mp_all(t, i + 1);
            lm_mp_find(t, i + 1);
            let h1 = re_hits(a, t, i + 1);
            assert(re_find(a.re, t, i) == re_find(a.re, t, i + 1));
            match re_find(a.re, t, i + 1) {
                None => {}
                Some((s, e, c)) => {
                    let tail = re_hits(a, t, e);
                    assert(h =~= seq![ReHit { gap: t.subrange(i, s), groups: re_groups(t, s, e, c, 3) }] + tail);
                    assert(h1 =~= seq![ReHit { gap: t.subrange(i + 1, s), groups: re_groups(t, s, e, c, 3) }] + tail);
                    let df = sp_defs(t.skip(i))->0;
                    assert forall|j: int| 0 <= j < h.len() implies (#[trigger] h[j]).groups.len() == 3 && h[j].groups[1] == Some(df[j].key) && h[j].groups[2] == Some(df[j].value) by {
                        assert(h1[j].groups == h[j].groups) by { if j > 0 { assert(h[j] == tail[j - 1]); assert(h1[j] == tail[j - 1]); } }
                    }
                }
            }
        }
    }
}
pub broadcast proof fn lm_map(pat: Seq<char>)
    requires sp_re_ast(pat) == Some(ast_map())
    ensures #[trigger] sp_re_map(pat)
{
    assert forall|t: Seq<char>| sp_defs(t) is Some implies sp_hits_defs(#[trigger] sp_re_all(pat, t), sp_defs(t)->0) by {
        assert(t.skip(0) =~= t);
        lm_mp_all(t, 0);
    }
}

pub broadcast group relemmas { lm_escape, lm_comment, lm_message, lm_check, lm_map }
