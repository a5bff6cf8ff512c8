// More of the standard library: not used by the crate as it is, but by code it may be changed
// into. Trusted, as shim.rs is; where there is no simple description the result is an
// uninterpreted function of the arguments, from which nothing can be proved.
use vstd::prelude::*;
use crate::spec::*;
use crate::shim::*;

pub open spec fn sp_drop_while(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char> decreases s.len() {
    if s.len() > 0 && p(s[0]) { sp_drop_while(s.skip(1), p) } else { s }
}
pub open spec fn sp_drop_end_while(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char> decreases s.len() {
    if s.len() > 0 && p(s.last()) { sp_drop_end_while(s.drop_last(), p) } else { s }
}
/// the last place of c
pub open spec fn sp_last_at(s: Seq<char>, c: char, i: int) -> bool { 0 <= i < s.len() && s[i] == c && forall|j: int| i < j < s.len() ==> s[j] != c }
pub open spec fn sp_splitn(s: Seq<char>, p: spec_fn(char) -> bool, n: int) -> Seq<Seq<char>> decreases n {
    if n <= 0 { Seq::empty() } else if n == 1 { seq![s] } else {
        let a = sp_split(s, p);
        if a.len() <= 1 { a } else { seq![a[0]] + sp_splitn(s.skip(a[0].len() as int + 1), p, n - 1) }
    }
}
/// `str::lines`
pub open spec fn sp_str_lines(s: Seq<char>) -> Seq<Seq<char>> {
    let a = sp_split(s, sp_is('\n'));
    let b = if a.last().len() == 0 { a.drop_last() } else { a };
    b.map(|i: int, l: Seq<char>| if l.len() > 0 && l.last() == '\r' && i + 1 < a.len() { l.drop_last() } else { l })
}
pub open spec fn sp_ascii_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0c' }
pub open spec fn sp_ascii_lower(c: char) -> char { if 'A' <= c && c <= 'Z' { (c as u32 + 32) as u8 as char } else { c } }
pub open spec fn sp_ascii_upper(c: char) -> char { if 'a' <= c && c <= 'z' { (c as u32 - 32) as u8 as char } else { c } }
pub open spec fn sp_ascii_lowers(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| sp_ascii_lower(c)) }
pub open spec fn sp_ascii_uppers(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| sp_ascii_upper(c)) }
pub uninterp spec fn sp_upper(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn sp_bytes(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn sp_replaced(s: Seq<char>, what: Seq<char>, n: Option<int>, to: Seq<char>) -> Seq<char>;
pub uninterp spec fn sp_split_str(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn sp_matches_str(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn sp_trim_str(s: Seq<char>, p: Seq<char>, start: bool) -> Seq<char>;
pub open spec fn sp_flat(s: Seq<Seq<char>>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { sp_flat(s.drop_last()) + s.last() } }

/// a pattern with which a text can be cut
pub trait VPat {
    spec fn cut(&self, s: Seq<char>) -> Seq<Seq<char>>;
    spec fn cutn(&self, s: Seq<char>, n: int) -> Seq<Seq<char>>;
    spec fn t_start(&self, s: Seq<char>) -> Seq<char>;
    spec fn t_end(&self, s: Seq<char>) -> Seq<char>;
    spec fn found(&self, s: Seq<char>) -> Seq<Seq<char>>;
    spec fn at_start(&self, s: Seq<char>) -> bool;
    spec fn at_end(&self, s: Seq<char>) -> bool;
    spec fn inside(&self, s: Seq<char>) -> bool;
    spec fn repl(&self, s: Seq<char>, n: Option<int>, to: Seq<char>) -> Seq<char>;
}
pub uninterp spec fn sp_found(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<Seq<char>>;
pub uninterp spec fn sp_repl(s: Seq<char>, p: spec_fn(char) -> bool, n: Option<int>, to: Seq<char>) -> Seq<char>;
impl<P: VCharPred> VPat for P {
    open spec fn cut(&self, s: Seq<char>) -> Seq<Seq<char>> { sp_split(s, self.pred()) }
    open spec fn cutn(&self, s: Seq<char>, n: int) -> Seq<Seq<char>> { sp_splitn(s, self.pred(), n) }
    open spec fn t_start(&self, s: Seq<char>) -> Seq<char> { sp_drop_while(s, self.pred()) }
    open spec fn t_end(&self, s: Seq<char>) -> Seq<char> { sp_drop_end_while(s, self.pred()) }
    open spec fn found(&self, s: Seq<char>) -> Seq<Seq<char>> { sp_found(s, self.pred()) }
    open spec fn at_start(&self, s: Seq<char>) -> bool { s.len() > 0 && (self.pred())(s[0]) }
    open spec fn at_end(&self, s: Seq<char>) -> bool { s.len() > 0 && (self.pred())(s.last()) }
    open spec fn inside(&self, s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (self.pred())(#[trigger] s[i]) }
    open spec fn repl(&self, s: Seq<char>, n: Option<int>, to: Seq<char>) -> Seq<char> { sp_repl(s, self.pred(), n, to) }
}
pub open spec fn sp_one_of(a: Seq<char>) -> spec_fn(char) -> bool { |c: char| a.contains(c) }
impl<const N: usize> VCharPred for [char; N] { open spec fn pred(&self) -> spec_fn(char) -> bool { sp_one_of(self@) } }
impl<'a> VCharPred for &'a [char] { open spec fn pred(&self) -> spec_fn(char) -> bool { sp_one_of((*self)@) } }
impl<'a, const N: usize> VCharPred for &'a [char; N] { open spec fn pred(&self) -> spec_fn(char) -> bool { sp_one_of((*self)@) } }
impl<'b> VPat for &'b str {
    open spec fn cut(&self, s: Seq<char>) -> Seq<Seq<char>> { if (*self)@.len() == 1 { sp_split(s, sp_is((*self)@[0])) } else { sp_split_str(s, (*self)@) } }
    uninterp spec fn cutn(&self, s: Seq<char>, n: int) -> Seq<Seq<char>>;
    open spec fn t_start(&self, s: Seq<char>) -> Seq<char> { if (*self)@.len() == 1 { sp_drop_while(s, sp_is((*self)@[0])) } else { sp_trim_str(s, (*self)@, true) } }
    open spec fn t_end(&self, s: Seq<char>) -> Seq<char> { if (*self)@.len() == 1 { sp_drop_end_while(s, sp_is((*self)@[0])) } else { sp_trim_str(s, (*self)@, false) } }
    open spec fn found(&self, s: Seq<char>) -> Seq<Seq<char>> { sp_matches_str(s, (*self)@) }
    open spec fn at_start(&self, s: Seq<char>) -> bool { (*self)@.is_prefix_of(s) }
    open spec fn at_end(&self, s: Seq<char>) -> bool { (*self)@.is_suffix_of(s) }
    open spec fn inside(&self, s: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - (*self)@.len() && #[trigger] s.subrange(i, i + (*self)@.len()) == (*self)@ }
    open spec fn repl(&self, s: Seq<char>, n: Option<int>, to: Seq<char>) -> Seq<char> { sp_replaced(s, (*self)@, n, to) }
}
pub trait StrY {
    spec fn yv(&self) -> Seq<char>;
    fn v_split<'a, P: VPat>(&'a self, p: P) -> (ret: VIter<&'a str>) ensures sp_texts(ret.rem()) == p.cut(self.yv());
    fn v_splitn<'a, P: VPat>(&'a self, n: usize, p: P) -> (ret: VIter<&'a str>) ensures sp_texts(ret.rem()) == p.cutn(self.yv(), n as int);
    fn v_rsplit<'a, P: VPat>(&'a self, p: P) -> (ret: VIter<&'a str>) ensures sp_texts(ret.rem()) == p.cut(self.yv()).reverse();
    fn v_split_terminator<'a, P: VPat>(&'a self, p: P) -> (ret: VIter<&'a str>)
        ensures ({ let a = p.cut(self.yv()); sp_texts(ret.rem()) == (if a.len() > 0 && a.last().len() == 0 { a.drop_last() } else { a }) });
    fn v_split_ascii_whitespace<'a>(&'a self) -> (ret: VIter<&'a str>)
        ensures sp_texts(ret.rem()) == sp_non_empty(sp_split(self.yv(), |c: char| sp_ascii_ws(c)));
    fn v_split_by<'a, F: Fn(char) -> bool>(&'a self, f: F) -> (ret: VIter<&'a str>)
        requires forall|c: char| call_requires(f, (c,))
        ensures exists|p: spec_fn(char) -> bool| (forall|c: char| call_ensures(f, (c,), #[trigger] p(c))) && sp_texts(ret.rem()) == #[trigger] sp_split(self.yv(), p);
    fn v_lines<'a>(&'a self) -> (ret: VIter<&'a str>) ensures sp_texts(ret.rem()) == sp_str_lines(self.yv());
    fn v_matches<'a, P: VPat>(&'a self, p: P) -> (ret: VIter<&'a str>) ensures sp_texts(ret.rem()) == p.found(self.yv());
    fn v_trim_start_matches<P: VPat>(&self, p: P) -> (ret: &str) ensures ret@ == p.t_start(self.yv());
    fn v_trim_end_matches<P: VPat>(&self, p: P) -> (ret: &str) ensures ret@ == p.t_end(self.yv());
    fn v_trim_matches<P: VPat>(&self, p: P) -> (ret: &str) ensures ret@ == p.t_end(p.t_start(self.yv()));
    fn v_starts_with<P: VPat>(&self, p: P) -> (ret: bool) ensures ret == p.at_start(self.yv());
    fn v_ends_with<P: VPat>(&self, p: P) -> (ret: bool) ensures ret == p.at_end(self.yv());
    fn v_contains<P: VPat>(&self, p: P) -> (ret: bool) ensures ret == p.inside(self.yv());
    fn v_rfind(&self, c: char) -> (ret: Option<usize>)
        ensures match ret {
            None => !self.yv().contains(c),
            Some(n) => n < usize::MAX && exists|i: int| #[trigger] sp_last_at(self.yv(), c, i) && sp_off(self.yv(), i) == n,
        };
    fn v_rsplit_once(&self, c: char) -> (ret: Option<(&str, &str)>)
        ensures match ret {
            None => !self.yv().contains(c),
            Some((a, b)) => exists|i: int| #[trigger] sp_last_at(self.yv(), c, i) && a@ == self.yv().take(i) && b@ == self.yv().skip(i + 1),
        };
    fn v_char_indices(&self) -> (ret: VIter<(usize, char)>)
        ensures ret.rem().len() == self.yv().len(), forall|i: int| 0 <= i < ret.rem().len() ==> (#[trigger] ret.rem()[i]).0 == sp_off(self.yv(), i) && ret.rem()[i].1 == self.yv()[i];
    fn v_bytes(&self) -> (ret: VIter<u8>) ensures ret.rem() == sp_bytes(self.yv());
    fn v_replace<P: VPat>(&self, p: P, to: &str) -> (ret: String) ensures ret@ == p.repl(self.yv(), None, to@);
    fn v_replacen<P: VPat>(&self, p: P, to: &str, n: usize) -> (ret: String) ensures ret@ == p.repl(self.yv(), Some(n as int), to@);
}
impl StrY for str {
    open spec fn yv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_split<'a, P: VPat>(&'a self, p: P) -> (ret: VIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_splitn<'a, P: VPat>(&'a self, n: usize, p: P) -> (ret: VIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_rsplit<'a, P: VPat>(&'a self, p: P) -> (ret: VIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_split_terminator<'a, P: VPat>(&'a self, p: P) -> (ret: VIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_split_ascii_whitespace<'a>(&'a self) -> (ret: VIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_split_by<'a, F: Fn(char) -> bool>(&'a self, f: F) -> (ret: VIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_lines<'a>(&'a self) -> (ret: VIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_matches<'a, P: VPat>(&'a self, p: P) -> (ret: VIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start_matches<P: VPat>(&self, p: P) -> (ret: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end_matches<P: VPat>(&self, p: P) -> (ret: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_matches<P: VPat>(&self, p: P) -> (ret: &str) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (ret: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with<P: VPat>(&self, p: P) -> (ret: bool) { unimplemented!() }
    #[verifier::external_body] fn v_contains<P: VPat>(&self, p: P) -> (ret: bool) { unimplemented!() }
    #[verifier::external_body] fn v_rfind(&self, c: char) -> (ret: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_rsplit_once(&self, c: char) -> (ret: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn v_char_indices(&self) -> (ret: VIter<(usize, char)>) { unimplemented!() }
    #[verifier::external_body] fn v_bytes(&self) -> (ret: VIter<u8>) { unimplemented!() }
    #[verifier::external_body] fn v_replace<P: VPat>(&self, p: P, to: &str) -> (ret: String) { unimplemented!() }
    #[verifier::external_body] fn v_replacen<P: VPat>(&self, p: P, to: &str, n: usize) -> (ret: String) { unimplemented!() }
}
pub assume_specification [str::eq_ignore_ascii_case] (a: &str, b: &str) -> (ret: bool) ensures ret == (sp_ascii_lowers(a@) == sp_ascii_lowers(b@));
pub assume_specification [str::to_ascii_lowercase] (a: &str) -> (ret: String) ensures ret@ == sp_ascii_lowers(a@);
pub assume_specification [str::to_ascii_uppercase] (a: &str) -> (ret: String) ensures ret@ == sp_ascii_uppers(a@);
pub assume_specification [str::to_uppercase] (a: &str) -> (ret: String) ensures ret@ == sp_upper(a@);
pub trait StrZ { spec fn wv(&self) -> Seq<char>; fn v_repeat(&self, n: usize) -> (ret: String) requires n <= 65536 ensures ret@ == sp_flat(Seq::new(n as nat, |i: int| self.wv())); }
impl StrZ for str { open spec fn wv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_repeat(&self, n: usize) -> (ret: String) { unimplemented!() } }
// sp_flat(Seq::new(n as nat, |i: int| a@));
pub assume_specification [str::trim_ascii] (s: &str) -> (ret: &str) ensures ret@ == sp_drop_end_while(sp_drop_while(s@, |c: char| sp_ascii_ws(c)), |c: char| sp_ascii_ws(c));
pub assume_specification [str::trim_ascii_start] (s: &str) -> (ret: &str) ensures ret@ == sp_drop_while(s@, |c: char| sp_ascii_ws(c));
pub assume_specification [str::trim_ascii_end] (s: &str) -> (ret: &str) ensures ret@ == sp_drop_end_while(s@, |c: char| sp_ascii_ws(c));

// ---- characters

pub uninterp spec fn sp_alphabetic(c: char) -> bool;
pub uninterp spec fn sp_numeric(c: char) -> bool;
pub uninterp spec fn sp_uppercase(c: char) -> bool;
pub uninterp spec fn sp_lowercase(c: char) -> bool;
pub assume_specification [char::is_alphabetic] (c: char) -> (ret: bool) ensures ret == sp_alphabetic(c);
pub assume_specification [char::is_numeric] (c: char) -> (ret: bool) ensures ret == sp_numeric(c);
pub assume_specification [char::is_alphanumeric] (c: char) -> (ret: bool) ensures ret == (sp_alphabetic(c) || sp_numeric(c));
pub assume_specification [char::is_uppercase] (c: char) -> (ret: bool) ensures ret == sp_uppercase(c);
pub assume_specification [char::is_lowercase] (c: char) -> (ret: bool) ensures ret == sp_lowercase(c);
pub assume_specification [char::is_control] (c: char) -> (ret: bool) ensures ret == ((c as u32) < 32 || 127 <= (c as u32) < 160);
pub assume_specification [char::is_ascii] (c: &char) -> (ret: bool) ensures ret == ((*c as u32) < 128);
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (ret: bool) ensures ret == ('a' <= *c && *c <= 'z' || 'A' <= *c && *c <= 'Z');
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (ret: bool) ensures ret == ('a' <= *c && *c <= 'z' || 'A' <= *c && *c <= 'Z' || sp_is_digit(*c));
pub assume_specification [char::is_ascii_lowercase] (c: &char) -> (ret: bool) ensures ret == ('a' <= *c && *c <= 'z');
pub assume_specification [char::is_ascii_uppercase] (c: &char) -> (ret: bool) ensures ret == ('A' <= *c && *c <= 'Z');
pub assume_specification [char::is_ascii_control] (c: &char) -> (ret: bool) ensures ret == ((*c as u32) < 32 || *c as u32 == 127);
pub assume_specification [char::is_ascii_graphic] (c: &char) -> (ret: bool) ensures ret == (32 < (*c as u32) < 127);
pub assume_specification [char::to_ascii_lowercase] (c: &char) -> (ret: char) ensures ret == sp_ascii_lower(*c);
pub assume_specification [char::to_ascii_uppercase] (c: &char) -> (ret: char) ensures ret == sp_ascii_upper(*c);
pub assume_specification [char::eq_ignore_ascii_case] (a: &char, b: &char) -> (ret: bool) ensures ret == (sp_ascii_lower(*a) == sp_ascii_lower(*b));
pub assume_specification [char::is_digit] (c: char, radix: u32) -> (ret: bool) requires 2 <= radix <= 36 ensures radix == 10 ==> ret == sp_is_digit(c);
pub assume_specification [char::to_digit] (c: char, radix: u32) -> (ret: Option<u32>) requires 2 <= radix <= 36
    ensures radix == 10 ==> ret == (if sp_is_digit(c) { Some((c as u32 - '0' as u32) as u32) } else { None });

// ---- numbers

pub assume_specification [i64::abs] (a: i64) -> (ret: i64) requires a != i64::MIN ensures ret == (if a < 0 { -a } else { a as int });
pub assume_specification [i64::unsigned_abs] (a: i64) -> (ret: u64) ensures ret == (if a < 0 { -a } else { a as int });
pub open spec fn sp_sat(n: int) -> int { if n > i64::MAX { i64::MAX as int } else if n < i64::MIN { i64::MIN as int } else { n } }
pub assume_specification [i64::saturating_add] (a: i64, b: i64) -> (ret: i64) ensures ret == sp_sat(a + b);
pub assume_specification [i64::saturating_sub] (a: i64, b: i64) -> (ret: i64) ensures ret == sp_sat(a - b);
pub assume_specification [i64::saturating_mul] (a: i64, b: i64) -> (ret: i64) ensures ret == sp_sat(a * b);
pub assume_specification [i64::saturating_neg] (a: i64) -> (ret: i64) ensures ret == sp_sat(-a);
pub assume_specification [i64::wrapping_abs] (a: i64) -> (ret: i64) ensures ret == (if a < 0 { sp_wrap(-a) } else { a as int });
pub assume_specification [i64::div_euclid] (a: i64, b: i64) -> (ret: i64) requires b != 0, !(a == i64::MIN && b == -1) ensures ret == a as int / b as int;
pub assume_specification [i64::rem_euclid] (a: i64, b: i64) -> (ret: i64) requires b != 0, !(a == i64::MIN && b == -1) ensures ret == a as int % b as int;
pub assume_specification [i64::overflowing_abs] (a: i64) -> (ret: (i64, bool)) ensures ret.0 == (if a < 0 { sp_wrap(-a) } else { a as int });

/// `checked_div`, `checked_rem`, `checked_neg`, `checked_abs` (Verus's own specification of the signed ones leaves cases open)
pub trait VChecked: Sized {
    fn v_checked_div(self, b: Self) -> (ret: Option<Self>);
    fn v_checked_rem(self, b: Self) -> (ret: Option<Self>);
}
impl VChecked for i64 {
    #[verifier::external_body]
    fn v_checked_div(self, b: i64) -> (ret: Option<i64>)
        ensures ret.is_none() == (b == 0 || (self == i64::MIN && b == -1)), ret.is_some() ==> ret.unwrap() == sp_tdiv(self as int, b as int) && ret.unwrap() == sp_wrap(sp_tdiv(self as int, b as int))
    { self.checked_div(b) }
    #[verifier::external_body]
    fn v_checked_rem(self, b: i64) -> (ret: Option<i64>)
        ensures ret.is_none() == (b == 0 || (self == i64::MIN && b == -1)), ret.is_some() ==> ret.unwrap() == sp_trem(self as int, b as int) && ret.unwrap() == sp_wrap(sp_trem(self as int, b as int)),
            b == -1 ==> sp_wrap(sp_trem(self as int, b as int)) == 0
    { self.checked_rem(b) }
}
macro_rules! v_checked_unsigned { ($($t:ty)*) => { verus! { $(
impl VChecked for $t {
    #[verifier::external_body]
    fn v_checked_div(self, b: $t) -> (ret: Option<$t>) ensures ret == (if b == 0 { None } else { Some((self / b) as $t) }) { self.checked_div(b) }
    #[verifier::external_body]
    fn v_checked_rem(self, b: $t) -> (ret: Option<$t>) ensures ret == (if b == 0 { None } else { Some((self % b) as $t) }) { self.checked_rem(b) }
} )* } } }
v_checked_unsigned! { u8 u16 u32 u64 usize }

pub open spec fn sp_parsed(s: Seq<char>, min: int, max: int) -> Option<int> {
    if min < 0 && s.len() > 0 && s[0] == '-' {
        if s.len() > 1 && s[1] == '+' { None } else { match sp_undec(s.skip(1)) { Some(n) => if -(n as int) >= min { Some(-(n as int)) } else { None }, None => None } }
    } else { match sp_undec(s) { Some(n) => if n as int <= max { Some(n as int) } else { None }, None => None } }
}
impl VParse for u8 { open spec fn parsed(s: Seq<char>) -> Option<u8> { match sp_parsed(s, 0, u8::MAX as int) { Some(n) => Some(n as u8), None => None } } }
impl VParse for u16 { open spec fn parsed(s: Seq<char>) -> Option<u16> { match sp_parsed(s, 0, u16::MAX as int) { Some(n) => Some(n as u16), None => None } } }
impl VParse for u32 { open spec fn parsed(s: Seq<char>) -> Option<u32> { match sp_parsed(s, 0, u32::MAX as int) { Some(n) => Some(n as u32), None => None } } }
impl VParse for u64 { open spec fn parsed(s: Seq<char>) -> Option<u64> { match sp_parsed(s, 0, u64::MAX as int) { Some(n) => Some(n as u64), None => None } } }
impl VParse for u128 { open spec fn parsed(s: Seq<char>) -> Option<u128> { match sp_parsed(s, 0, u128::MAX as int) { Some(n) => Some(n as u128), None => None } } }
impl VParse for i8 { open spec fn parsed(s: Seq<char>) -> Option<i8> { match sp_parsed(s, i8::MIN as int, i8::MAX as int) { Some(n) => Some(n as i8), None => None } } }
impl VParse for i16 { open spec fn parsed(s: Seq<char>) -> Option<i16> { match sp_parsed(s, i16::MIN as int, i16::MAX as int) { Some(n) => Some(n as i16), None => None } } }
impl VParse for i32 { open spec fn parsed(s: Seq<char>) -> Option<i32> { match sp_parsed(s, i32::MIN as int, i32::MAX as int) { Some(n) => Some(n as i32), None => None } } }
impl VParse for i128 { open spec fn parsed(s: Seq<char>) -> Option<i128> { match sp_parsed(s, i128::MIN as int, i128::MAX as int) { Some(n) => Some(n as i128), None => None } } }
impl VDbg for str { uninterp spec fn dbg(&self) -> Seq<char>; }
impl VDbg for char { uninterp spec fn dbg(&self) -> Seq<char>; }
impl VDbg for usize { open spec fn dbg(&self) -> Seq<char> { self.disp() } }

// ---- options, results

pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (r: Result<T, E>, d: T) -> (ret: T) ensures ret == (match r { Ok(v) => v, Err(_) => d });
pub assume_specification<T> [Option::<T>::xor] (a: Option<T>, b: Option<T>) -> (ret: Option<T>)
    ensures ret == (match (a, b) { (Some(x), None) => Some(x), (None, Some(y)) => Some(y), _ => None });

// ---- vectors

pub uninterp spec fn sp_sorted<T>(s: Seq<T>) -> Seq<T>;
pub uninterp spec fn sp_dedup<T>(s: Seq<T>) -> Seq<T>;
pub assume_specification<T: std::cmp::Ord> [<[T]>::sort] (v: &mut [T]) ensures final(v)@ == sp_sorted(old(v)@);
pub assume_specification<T> [<[T]>::reverse] (v: &mut [T]) ensures final(v)@ == old(v)@.reverse();
pub assume_specification<T> [<[T]>::swap] (v: &mut [T], a: usize, b: usize) requires a < old(v)@.len(), b < old(v)@.len()
    ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]);
pub assume_specification<T: std::cmp::PartialEq, A: std::alloc::Allocator> [Vec::<T, A>::dedup] (v: &mut Vec<T, A>) ensures final(v)@ == sp_dedup(old(v)@);
pub trait VecZ<T> { spec fn rseq(&self) -> Seq<T>; fn v_resize(&mut self, n: usize, x: T) where T: Clone
    requires n <= 65536
    ensures final(self).rseq().len() == n, forall|i: int| 0 <= i < n && i < old(self).rseq().len() ==> #[trigger] final(self).rseq()[i] == old(self).rseq()[i], forall|i: int| old(self).rseq().len() <= i < n ==> cloned(x, #[trigger] final(self).rseq()[i]); }
impl<T> VecZ<T> for Vec<T> { open spec fn rseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_resize(&mut self, n: usize, x: T) where T: Clone { unimplemented!() } }
pub trait VecY<T> {
    spec fn yseq(&self) -> Seq<T>;
    fn v_retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).yseq().len() ==> call_requires(f, (&#[trigger] old(self).yseq()[i],))
        ensures exists|m: Seq<bool>| m.len() == old(self).yseq().len() && final(self).yseq() == #[trigger] sp_keep(old(self).yseq(), m) && forall|i: int| 0 <= i < m.len() ==> call_ensures(f, (&old(self).yseq()[i],), #[trigger] m[i]);
}
impl<T> VecY<T> for Vec<T> {
    open spec fn yseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_retain<F: Fn(&T) -> bool>(&mut self, f: F) { unimplemented!() }
}
pub trait SliceY<T> {
    spec fn zseq(&self) -> Seq<T>;
    fn v_to_vec(&self) -> (ret: Vec<T>) where T: Clone ensures ret@.len() == self.zseq().len(), forall|i: int| 0 <= i < ret@.len() ==> cloned(self.zseq()[i], #[trigger] ret@[i]), sp_faithful::<T>() ==> ret@ == self.zseq();
    fn v_chunks(&self, n: usize) -> (ret: VIter<&[T]>) requires n > 0;
    fn v_windows(&self, n: usize) -> (ret: VIter<&[T]>) requires n > 0;
}
impl<T> SliceY<T> for [T] {
    open spec fn zseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_to_vec(&self) -> (ret: Vec<T>) where T: Clone { unimplemented!() }
    #[verifier::external_body] fn v_chunks(&self, n: usize) -> (ret: VIter<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn v_windows(&self, n: usize) -> (ret: VIter<&[T]>) { unimplemented!() }
}
impl<'a> VJoin for [&'a str] {
    open spec fn joined(&self, sep: Seq<char>) -> Seq<char> { sp_join(sp_texts(self@), sep) }
    #[verifier::external_body] fn v_join(&self, sep: &str) -> (ret: String) { unimplemented!() }
}
impl VJoin for [String] {
    open spec fn joined(&self, sep: Seq<char>) -> Seq<char> { sp_join(sp_strs(self@), sep) }
    #[verifier::external_body] fn v_join(&self, sep: &str) -> (ret: String) { unimplemented!() }
}
impl<'a> VJoin for Vec<&'a str> {
    open spec fn joined(&self, sep: Seq<char>) -> Seq<char> { sp_join(sp_texts(self@), sep) }
    #[verifier::external_body] fn v_join(&self, sep: &str) -> (ret: String) { unimplemented!() }
}

// ---- texts under construction

/// the text of the i-th character begins at byte n
pub assume_specification [String::insert] (s: &mut String, n: usize, c: char)
    requires exists|i: int| 0 <= i <= old(s)@.len() && #[trigger] sp_off(old(s)@, i) == n
    ensures forall|i: int| 0 <= i <= old(s)@.len() && #[trigger] sp_off(old(s)@, i) == n ==> final(s)@ == old(s)@.insert(i, c);
pub assume_specification [String::insert_str] (s: &mut String, n: usize, t: &str)
    requires exists|i: int| 0 <= i <= old(s)@.len() && #[trigger] sp_off(old(s)@, i) == n
    ensures forall|i: int| 0 <= i <= old(s)@.len() && #[trigger] sp_off(old(s)@, i) == n ==> final(s)@ == old(s)@.take(i) + t@ + old(s)@.skip(i);
pub assume_specification [String::truncate] (s: &mut String, n: usize)
    requires n <= sp_off(old(s)@, old(s)@.len() as int) ==> exists|i: int| 0 <= i <= old(s)@.len() && #[trigger] sp_off(old(s)@, i) == n
    ensures n >= sp_off(old(s)@, old(s)@.len() as int) ==> final(s)@ == old(s)@,
        forall|i: int| 0 <= i <= old(s)@.len() && #[trigger] sp_off(old(s)@, i) == n ==> final(s)@ == old(s)@.take(i);
pub trait VPiece { spec fn piece(&self) -> Seq<char>; }
impl VPiece for char { open spec fn piece(&self) -> Seq<char> { seq![*self] } }
impl VPiece for String { open spec fn piece(&self) -> Seq<char> { self@ } }
impl<'a> VPiece for &'a str { open spec fn piece(&self) -> Seq<char> { (*self)@ } }
impl<'a> VPiece for &'a char { open spec fn piece(&self) -> Seq<char> { seq![**self] } }
pub open spec fn sp_pieces<T: VPiece>(s: Seq<T>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { sp_pieces(s.drop_last()) + s.last().piece() } }
impl<T: VPiece> VFrom<T> for String { open spec fn from_items(&self, s: Seq<T>) -> bool { self@ == sp_pieces(s) } }
impl<T, C: VFrom<T>> VFrom<Option<T>> for Option<C> {
    open spec fn from_items(&self, s: Seq<Option<T>>) -> bool {
        if exists|i: int| 0 <= i < s.len() && #[trigger] s[i] is None { self is None } else { self is Some && self->0.from_items(sp_somes(s)) }
    }
}
impl<T: VKey> VFrom<T> for HashSet<T> { open spec fn from_items(&self, s: Seq<T>) -> bool { forall|k: Seq<char>| #[trigger] self@.contains(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).kv() == k } }
pub trait StringY { fn v_extend<T: VPiece, I: VInto<T>>(&mut self, it: I) ensures final(self).view_() == old(self).view_() + sp_pieces(it.items()); spec fn view_(&self) -> Seq<char>; }
impl StringY for String { open spec fn view_(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_extend<T: VPiece, I: VInto<T>>(&mut self, it: I) { unimplemented!() } }
impl<T, const N: usize> VInto<T> for [T; N] { open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_into(self) -> (ret: VIter<T>) { unimplemented!() } }
impl<T> VInto<T> for Option<T> { open spec fn items(&self) -> Seq<T> { match *self { Some(x) => seq![x], None => Seq::empty() } } #[verifier::external_body] fn v_into(self) -> (ret: VIter<T>) { unimplemented!() } }
pub trait OptY<T>: Sized { spec fn oitems(&self) -> Seq<T>; fn v_into_iter(self) -> (ret: VIter<T>) ensures ret.rem() == self.oitems(); }
impl<T> OptY<T> for Option<T> { open spec fn oitems(&self) -> Seq<T> { match *self { Some(x) => seq![x], None => Seq::empty() } } #[verifier::external_body] fn v_into_iter(self) -> (ret: VIter<T>) { unimplemented!() } }

// ---- iterators

pub open spec fn sp_flat_items<U, B: VInto<U>>(r: Seq<B>) -> Seq<U> decreases r.len() { if r.len() == 0 { Seq::empty() } else { sp_flat_items::<U, B>(r.drop_last()) + r.last().items() } }
pub uninterp spec fn sp_max<T>(s: Seq<T>, max: bool) -> Option<T>;
pub uninterp spec fn sp_sum<T, S>(s: Seq<T>) -> S;
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn rev(self) -> (ret: VIter<T>) ensures ret.rem() == self.rem().reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (ret: Option<T>)
        ensures
            old(self).rem().len() == 0 ==> ret is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> ret == Some(old(self).rem().last()) && final(self).rem() == old(self).rem().drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip_while<F: Fn(&T) -> bool>(self, f: F) -> (ret: VIter<T>)
        requires forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (&#[trigger] self.rem()[i],))
        ensures exists|n: int| 0 <= n <= self.rem().len() && ret.rem() == #[trigger] self.rem().skip(n) && (forall|i: int| 0 <= i < n ==> call_ensures(f, (&#[trigger] self.rem()[i],), true)) && (n < self.rem().len() ==> call_ensures(f, (&self.rem()[n],), false)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_while<F: Fn(&T) -> bool>(self, f: F) -> (ret: VIter<T>)
        requires forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (&#[trigger] self.rem()[i],))
        ensures exists|n: int| 0 <= n <= self.rem().len() && ret.rem() == #[trigger] self.rem().take(n) && (forall|i: int| 0 <= i < n ==> call_ensures(f, (&#[trigger] self.rem()[i],), true)) && (n < self.rem().len() ==> call_ensures(f, (&self.rem()[n],), false)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain<I: VInto<T>>(self, o: I) -> (ret: VIter<T>) ensures ret.rem() == self.rem() + o.items() { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U, I: VInto<U>>(self, o: I) -> (ret: VIter<(T, U)>)
        ensures ret.rem().len() == (if self.rem().len() <= o.items().len() { self.rem().len() } else { o.items().len() }), forall|i: int| 0 <= i < ret.rem().len() ==> #[trigger] ret.rem()[i] == (self.rem()[i], o.items()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn position<F: Fn(T) -> bool>(&mut self, f: F) -> (ret: Option<usize>)
        requires forall|i: int| 0 <= i < old(self).rem().len() ==> call_requires(f, (#[trigger] old(self).rem()[i],))
        ensures match ret {
            None => forall|i: int| 0 <= i < old(self).rem().len() ==> call_ensures(f, (#[trigger] old(self).rem()[i],), false),
            Some(n) => n < old(self).rem().len() && call_ensures(f, (old(self).rem()[n as int],), true) && forall|i: int| 0 <= i < n ==> call_ensures(f, (#[trigger] old(self).rem()[i],), false),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(&mut self, f: F) -> (ret: Option<T>)
        requires forall|i: int| 0 <= i < old(self).rem().len() ==> call_requires(f, (&#[trigger] old(self).rem()[i],))
        ensures match ret {
            None => final(self).rem().len() == 0 && forall|i: int| 0 <= i < old(self).rem().len() ==> call_ensures(f, (&#[trigger] old(self).rem()[i],), false),
            Some(x) => exists|n: int| 0 <= n < old(self).rem().len() && x == old(self).rem()[n] && final(self).rem() == #[trigger] old(self).rem().skip(n + 1) && call_ensures(f, (&old(self).rem()[n],), true) && forall|i: int| 0 <= i < n ==> call_ensures(f, (&#[trigger] old(self).rem()[i],), false),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find_map<B, F: Fn(T) -> Option<B>>(&mut self, f: F) -> (ret: Option<B>)
        requires forall|i: int| 0 <= i < old(self).rem().len() ==> call_requires(f, (#[trigger] old(self).rem()[i],))
        ensures match ret {
            None => forall|i: int| 0 <= i < old(self).rem().len() ==> call_ensures(f, (#[trigger] old(self).rem()[i],), None),
            Some(x) => exists|n: int| 0 <= n < old(self).rem().len() && final(self).rem() == #[trigger] old(self).rem().skip(n + 1) && call_ensures(f, (old(self).rem()[n],), Some(x)) && forall|i: int| 0 <= i < n ==> call_ensures(f, (#[trigger] old(self).rem()[i],), None),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fold<B, F: Fn(B, T) -> B>(self, b: B, f: F) -> (ret: B)
        requires forall|x: B, i: int| 0 <= i < self.rem().len() ==> #[trigger] call_requires(f, (x, self.rem()[i]))
        ensures exists|st: Seq<B>| st.len() == self.rem().len() + 1 && #[trigger] st[0] == b && st.last() == ret && forall|i: int| 0 <= i < self.rem().len() ==> call_ensures(f, (st[i], #[trigger] self.rem()[i]), st[i + 1]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flat_map<U, B: VInto<U>, F: Fn(T) -> B>(self, f: F) -> (ret: VIter<U>)
        requires forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (#[trigger] self.rem()[i],))
        ensures exists|r: Seq<B>| r.len() == self.rem().len() && ret.rem() == #[trigger] sp_flat_items::<U, B>(r) && forall|i: int| 0 <= i < r.len() ==> call_ensures(f, (self.rem()[i],), #[trigger] r[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self) -> (ret: Option<T>) ensures ret == sp_max(self.rem(), true) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self) -> (ret: Option<T>) ensures ret == sp_max(self.rem(), false) { unimplemented!() }
    #[verifier::external_body]
    pub fn sum<S>(self) -> (ret: S) ensures ret == sp_sum::<T, S>(self.rem()) { unimplemented!() }
}
pub trait IterRefs<T> { spec fn refs(&self) -> Seq<&T>;
    fn cloned(self) -> (ret: VIter<T>) where Self: Sized, T: Clone ensures ret.rem().len() == self.refs().len(), forall|i: int| 0 <= i < ret.rem().len() ==> cloned(*self.refs()[i], #[trigger] ret.rem()[i]), sp_faithful::<T>() ==> ret.rem() == sp_deref(self.refs());
    fn copied(self) -> (ret: VIter<T>) where Self: Sized, T: Copy ensures ret.rem().len() == self.refs().len(), forall|i: int| 0 <= i < ret.rem().len() ==> #[trigger] ret.rem()[i] == *self.refs()[i], ret.rem() == sp_deref(self.refs());
}
impl<'a, T> IterRefs<T> for VIter<&'a T> { open spec fn refs(&self) -> Seq<&T> { self.rem() }
    #[verifier::external_body] fn cloned(self) -> (ret: VIter<T>) where T: Clone { unimplemented!() }
    #[verifier::external_body] fn copied(self) -> (ret: VIter<T>) where T: Copy { unimplemented!() }
}

// ---- memory asked for in advance

/// What may be reserved at once: 64 KiB, or 16 times any text or list that is in memory anyway.
/// A number that only the input states is not bounded by it.
pub uninterp spec fn sp_room() -> int;
pub broadcast axiom fn ax_room() ensures #[trigger] sp_room() >= 65536;
/// `len`
pub trait VLen { spec fn lenv(&self) -> int; spec fn emptyv(&self) -> bool; fn v_len(&self) -> (ret: usize) ensures ret == self.lenv(), ret == 0 <==> self.emptyv(), ret * 16 <= sp_room(); }
impl VLen for str { open spec fn lenv(&self) -> int { sp_off(self@, self@.len() as int) } open spec fn emptyv(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn v_len(&self) -> (ret: usize) { unimplemented!() } }
impl VLen for String { open spec fn lenv(&self) -> int { sp_off(self@, self@.len() as int) } open spec fn emptyv(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn v_len(&self) -> (ret: usize) { unimplemented!() } }
impl<T> VLen for Vec<T> { open spec fn lenv(&self) -> int { self@.len() as int } open spec fn emptyv(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn v_len(&self) -> (ret: usize) { unimplemented!() } }
impl<T> VLen for [T] { open spec fn lenv(&self) -> int { self@.len() as int } open spec fn emptyv(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn v_len(&self) -> (ret: usize) { unimplemented!() } }
impl<T, const N: usize> VLen for [T; N] { open spec fn lenv(&self) -> int { N as int } open spec fn emptyv(&self) -> bool { self.lenv() == 0 } #[verifier::external_body] fn v_len(&self) -> (ret: usize) { unimplemented!() } }
impl<T> VLen for VIter<T> { open spec fn lenv(&self) -> int { self.rem().len() as int } open spec fn emptyv(&self) -> bool { self.lenv() == 0 } #[verifier::external_body] fn v_len(&self) -> (ret: usize) { unimplemented!() } }
impl<K: VKey, V> VLen for HashMap<K, V> { open spec fn lenv(&self) -> int { self@.dom().len() as int } open spec fn emptyv(&self) -> bool { self.lenv() == 0 } #[verifier::external_body] fn v_len(&self) -> (ret: usize) { unimplemented!() } }
impl<K: VKey> VLen for HashSet<K> { open spec fn lenv(&self) -> int { self@.len() as int } open spec fn emptyv(&self) -> bool { self.lenv() == 0 } #[verifier::external_body] fn v_len(&self) -> (ret: usize) { unimplemented!() } }
impl<'t> VLen for Captures<'t> { open spec fn lenv(&self) -> int { self.groups().len() as int } open spec fn emptyv(&self) -> bool { self.lenv() == 0 } #[verifier::external_body] fn v_len(&self) -> (ret: usize) { unimplemented!() } }
#[verifier::external_body]
pub fn vec_with_capacity<T>(n: usize) -> (ret: Vec<T>) requires n <= sp_room() ensures ret@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn string_with_capacity(n: usize) -> (ret: String) requires n <= sp_room() ensures ret@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn map_with_capacity<K: VKey, V>(n: usize) -> (ret: HashMap<K, V>) requires n <= sp_room() ensures ret@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn set_with_capacity<K: VKey>(n: usize) -> (ret: HashSet<K>) requires n <= sp_room() ensures ret@ == Set::<Seq<char>>::empty() { unimplemented!() }
pub trait VReserve: Sized { fn v_reserve(&mut self, n: usize) requires n <= sp_room() ensures *final(self) == *old(self); }
impl<T> VReserve for Vec<T> { #[verifier::external_body] fn v_reserve(&mut self, n: usize) { unimplemented!() } }
impl VReserve for String { #[verifier::external_body] fn v_reserve(&mut self, n: usize) { unimplemented!() } }
impl<K: VKey, V> VReserve for HashMap<K, V> { #[verifier::external_body] fn v_reserve(&mut self, n: usize) { unimplemented!() } }
impl<K: VKey> VReserve for HashSet<K> { #[verifier::external_body] fn v_reserve(&mut self, n: usize) { unimplemented!() } }

// ---- parts of lists
pub trait VPart<T> {
    spec fn pv(&self) -> Seq<T>;
    fn v_range(&self, a: usize, b: usize) -> (ret: &[T]) requires a <= b <= self.pv().len() ensures ret@ == self.pv().subrange(a as int, b as int);
    fn v_from(&self, a: usize) -> (ret: &[T]) requires a <= self.pv().len() ensures ret@ == self.pv().skip(a as int);
    fn v_to(&self, b: usize) -> (ret: &[T]) requires b <= self.pv().len() ensures ret@ == self.pv().take(b as int);
    fn v_split_at(&self, a: usize) -> (ret: (&[T], &[T])) requires a <= self.pv().len() ensures ret.0@ == self.pv().take(a as int), ret.1@ == self.pv().skip(a as int);
}
impl<T> VPart<T> for [T] {
    open spec fn pv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_range(&self, a: usize, b: usize) -> (ret: &[T]) { unimplemented!() }
    #[verifier::external_body] fn v_from(&self, a: usize) -> (ret: &[T]) { unimplemented!() }
    #[verifier::external_body] fn v_to(&self, b: usize) -> (ret: &[T]) { unimplemented!() }
    #[verifier::external_body] fn v_split_at(&self, a: usize) -> (ret: (&[T], &[T])) { unimplemented!() }
}

// ---- ranges as iterators
#[verifier::external_body]
pub fn v_range_of(a: usize, b: usize) -> (ret: VIter<usize>) ensures ret.rem() == Seq::new((if b > a { b - a } else { 0 }) as nat, |i: int| (a + i) as usize) { unimplemented!() }
#[verifier::external_body]
pub fn v_range_to(a: usize, b: usize) -> (ret: VIter<usize>) ensures ret.rem() == Seq::new((if b >= a { b - a + 1 } else { 0 }) as nat, |i: int| (a + i) as usize) { unimplemented!() }
