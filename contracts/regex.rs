// Regular expressions: their trees and their leftmost-first matching, as the documentation of
// the regex crate defines it (the match a backtracking engine would find first).
use vstd::prelude::*;
use crate::spec::*;

pub ghost enum Cls { None, Space, Digit, Range(u32, u32), Or(Box<Cls>, Box<Cls>), Not(Box<Cls>) }
pub ghost enum Re {
    Empty,
    Cls(Cls),
    Lit(Seq<char>),
    /// beginning and end of the text
    Start, End,
    Cap(int, Box<Re>),
    Cat(Box<Re>, Box<Re>),
    /// the first alternative is preferred
    Alt(Box<Re>, Box<Re>),
    /// greedy: the presence is preferred
    Opt(bool, Box<Re>),
    Star(bool, Box<Re>),
}
pub ghost struct ReAst { pub re: Re, pub groups: int }

pub open spec fn sp_cls(k: Cls, c: char) -> bool decreases k {
    match k {
        Cls::None => false,
        Cls::Space => sp_ws(c),
        Cls::Digit => crate::extracted::sp_udigit(c),
        Cls::Range(a, b) => a <= c as u32 <= b,
        Cls::Or(x, y) => sp_cls(*x, c) || sp_cls(*y, c),
        Cls::Not(x) => !sp_cls(*x, c),
    }
}

/// what is still to be matched
pub ghost enum Stk {
    Nil,
    Re(Re, Box<Stk>),
    /// end of a group, with its beginning
    Close(int, int, Box<Stk>),
    /// end of one turn of a repetition, with its beginning
    Again(int, bool, Box<Re>, Box<Stk>),
}
pub type Caps = Map<int, (int, int)>;

pub open spec fn re_size(r: Re) -> nat decreases r {
    match r {
        Re::Empty | Re::Cls(_) | Re::Lit(_) | Re::Start | Re::End => 1,
        Re::Cap(_, a) => 2 + re_size(*a),
        Re::Cat(a, b) | Re::Alt(a, b) => 1 + re_size(*a) + re_size(*b),
        Re::Opt(_, a) => 1 + re_size(*a),
        Re::Star(_, a) => 3 + re_size(*a),
    }
}
pub open spec fn stk_size(s: Stk, i: int) -> nat decreases s {
    match s {
        Stk::Nil => 0,
        Stk::Re(r, k) => re_size(r) + stk_size(*k, i),
        Stk::Close(_, _, k) => 1 + stk_size(*k, i),
        Stk::Again(i0, _, r, k) => (if i0 == i { 1 } else { 5 + re_size(*r) }) + stk_size(*k, i),
    }
}
pub open spec fn or_else(a: Option<(int, Caps)>, b: Option<(int, Caps)>) -> Option<(int, Caps)> { if a is Some { a } else { b } }
/// The preferred match of the stack from position i on: its end and its groups
pub open spec fn re_run(s: Stk, t: Seq<char>, i: int, c: Caps) -> Option<(int, Caps)>
    decreases t.len() - i, stk_size(s, i) via re_run_dec
{
    match s {
        Stk::Nil => Some((i, c)),
        Stk::Close(n, i0, k) => re_run(*k, t, i, c.insert(n, (i0, i))),
        Stk::Again(i0, g, r, k) => if i == i0 { re_run(*k, t, i, c) } else { re_run(Stk::Re(Re::Star(g, r), k), t, i, c) },
        Stk::Re(r, k) => match r {
            Re::Empty => re_run(*k, t, i, c),
            Re::Cls(x) => if 0 <= i < t.len() && sp_cls(x, t[i]) { re_run(*k, t, i + 1, c) } else { None },
            Re::Lit(l) => if 0 <= i && i + l.len() <= t.len() && t.subrange(i, i + l.len()) == l { re_run(*k, t, i + l.len(), c) } else { None },
            Re::Start => if i == 0 { re_run(*k, t, i, c) } else { None },
            Re::End => if i == t.len() { re_run(*k, t, i, c) } else { None },
            Re::Cap(n, a) => re_run(Stk::Re(*a, Box::new(Stk::Close(n, i, k))), t, i, c),
            Re::Cat(a, b) => re_run(Stk::Re(*a, Box::new(Stk::Re(*b, k))), t, i, c),
            Re::Alt(a, b) => or_else(re_run(Stk::Re(*a, k), t, i, c), re_run(Stk::Re(*b, k), t, i, c)),
            Re::Opt(g, a) => if g { or_else(re_run(Stk::Re(*a, k), t, i, c), re_run(*k, t, i, c)) } else { or_else(re_run(*k, t, i, c), re_run(Stk::Re(*a, k), t, i, c)) },
            Re::Star(g, a) => {
                let more = re_run(Stk::Re(*a, Box::new(Stk::Again(i, g, a, k))), t, i, c);
                if g { or_else(more, re_run(*k, t, i, c)) } else { or_else(re_run(*k, t, i, c), more) }
            }
        },
    }
}
#[via_fn]
proof fn re_run_dec(s: Stk, t: Seq<char>, i: int, c: Caps) {
    reveal_with_fuel(stk_size, 4);
    reveal_with_fuel(re_size, 3);
}
/// The leftmost match at or after position i: beginning, end, groups
pub open spec fn re_find(r: Re, t: Seq<char>, i: int) -> Option<(int, int, Caps)> decreases t.len() - i {
    match re_run(Stk::Re(r, Box::new(Stk::Nil)), t, i, Map::empty()) {
        Some((e, c)) => Some((i, e, c)),
        None => if i < t.len() { re_find(r, t, i + 1) } else { None },
    }
}
pub open spec fn re_group(t: Seq<char>, s: int, e: int, c: Caps, n: int) -> Option<Seq<char>> {
    if n == 0 { Some(t.subrange(s, e)) } else if c.contains_key(n) { Some(t.subrange(c[n].0, c[n].1)) } else { None }
}
pub open spec fn re_groups(t: Seq<char>, s: int, e: int, c: Caps, groups: int) -> Seq<Option<Seq<char>>> { Seq::new(groups as nat, |n: int| re_group(t, s, e, c, n)) }
/// All the matches from position i on (of an expression that matches no empty text)
pub open spec fn re_hits(r: ReAst, t: Seq<char>, i: int) -> Seq<ReHit> decreases t.len() - i {
    match re_find(r.re, t, i) {
        Some((s, e, c)) => if i < e <= t.len() { seq![ReHit { gap: t.subrange(i, s), groups: re_groups(t, s, e, c, r.groups) }] + re_hits(r, t, e) } else { re_beyond(r, t, i) },
        None => Seq::empty(),
    }
}
pub open spec fn re_rest(r: ReAst, t: Seq<char>, i: int) -> Seq<char> decreases t.len() - i {
    match re_find(r.re, t, i) {
        Some((s, e, c)) => if i < e <= t.len() { re_rest(r, t, e) } else { re_beyond_rest(r, t, i) },
        None => t.skip(i),
    }
}
/// empty matches: not specified
pub uninterp spec fn re_beyond(r: ReAst, t: Seq<char>, i: int) -> Seq<ReHit>;
pub uninterp spec fn re_beyond_rest(r: ReAst, t: Seq<char>, i: int) -> Seq<char>;
