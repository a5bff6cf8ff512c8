// Stubs standing for the standard library and the dependencies of the crate, with the
// contracts assumed for them. Nothing in this file is proved: it is the trusted base.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::spec::*;
pub use crate::more::*;

/// No effect: tells the verifier that the borrow of `x` is over
pub fn touch<T>(x: &mut T) ensures *final(x) == *old(x) {}
/// The first argument (fixes the type of an integer literal)
pub fn same<T>(a: T, b: T) -> (ret: T) ensures ret == a { a }

// ---- strings

pub broadcast axiom fn ax_string_ext(a: String, b: String)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub broadcast axiom fn ax_str_ext(a: &str, b: &str)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub broadcast axiom fn ax_eq_string_str1() ensures #[trigger] <String as PartialEqSpec<&'static str>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq_string_str2<'a>(a: &String, b: &&'a str) ensures #[trigger] <String as PartialEqSpec<&'a str>>::eq_spec(a,b) == (a@ == b@);
pub broadcast axiom fn ax_eq_string1() ensures #[trigger] <String as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn ax_eq_string2(a: &String, b: &String) ensures #[trigger] <String as PartialEqSpec>::eq_spec(a,b) == (a@ == b@);
pub broadcast axiom fn ax_eq_string_str3() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq_string_str4(a: &String, b: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(a,b) == (a@ == b@);
pub broadcast axiom fn ax_eq_str1() ensures #[trigger] <str as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq_str2(a: &str, b: &str) ensures #[trigger] <str as PartialEqSpec<str>>::eq_spec(a,b) == (a@ == b@);


// ---- machine integers

pub assume_specification [i64::overflowing_add] (a: i64, b: i64) -> (ret: (i64, bool)) ensures ret.0 == sp_wrap(a + b);
pub assume_specification [i64::overflowing_sub] (a: i64, b: i64) -> (ret: (i64, bool)) ensures ret.0 == sp_wrap(a - b);
pub assume_specification [i64::overflowing_mul] (a: i64, b: i64) -> (ret: (i64, bool)) ensures ret.0 == sp_wrap(a * b);
pub assume_specification [i64::overflowing_neg] (a: i64) -> (ret: (i64, bool)) ensures ret.0 == sp_wrap(-a);
pub assume_specification [i64::overflowing_div] (a: i64, b: i64) -> (ret: (i64, bool))
    requires b != 0 ensures ret.0 == sp_wrap(sp_tdiv(a as int, b as int));
pub assume_specification [i64::overflowing_rem] (a: i64, b: i64) -> (ret: (i64, bool))
    requires b != 0 ensures ret.0 == sp_wrap(sp_trem(a as int, b as int));
pub assume_specification [i64::wrapping_neg] (a: i64) -> (ret: i64) ensures ret == sp_wrap(-a);
pub assume_specification [i64::wrapping_div] (a: i64, b: i64) -> (ret: i64) requires b != 0 ensures ret == sp_wrap(sp_tdiv(a as int, b as int));
pub assume_specification [i64::wrapping_rem] (a: i64, b: i64) -> (ret: i64) requires b != 0 ensures ret == sp_wrap(sp_trem(a as int, b as int));
pub assume_specification [i64::is_negative] (a: i64) -> (ret: bool) ensures ret == (a < 0);
pub assume_specification [i64::is_positive] (a: i64) -> (ret: bool) ensures ret == (a > 0);
pub assume_specification [i64::signum] (a: i64) -> (ret: i64) ensures ret == (if a > 0 { 1i64 } else if a < 0 { -1i64 } else { 0i64 });

/// `a / b` and `a % b` on `i64` (plural::formula only; Verus's own encoding of the signed operators is not used there)
#[verifier::external_body]
pub fn v_div_i64(a: i64, b: i64) -> (ret: i64) requires b != 0, !(a == i64::MIN && b == -1) ensures ret == sp_tdiv(a as int, b as int), ret == sp_wrap(sp_tdiv(a as int, b as int))
{ a / b }
#[verifier::external_body]
pub fn v_rem_i64(a: i64, b: i64) -> (ret: i64) requires b != 0, !(a == i64::MIN && b == -1) ensures ret == sp_trem(a as int, b as int), ret == sp_wrap(sp_trem(a as int, b as int))
{ a % b }

/// `i64::from(b)`
pub broadcast axiom fn ax_from_bool1() ensures #[trigger] <i64 as vstd::std_specs::convert::FromSpec<bool>>::obeys_from_spec();
pub broadcast axiom fn ax_from_bool2(b: bool) ensures #[trigger] <i64 as vstd::std_specs::convert::FromSpec<bool>>::from_spec(b) == (if b { 1i64 } else { 0i64 });
pub broadcast group shim_axioms {
    ax_from_bool1, ax_from_bool2,
    ax_string_ext, ax_str_ext,
    ax_eq_string_str1, ax_eq_string_str2, ax_eq_string1, ax_eq_string2, ax_eq_string_str3, ax_eq_string_str4, ax_eq_str1, ax_eq_str2,
    ax_pat_char, ax_pat_str, ax_pat_string, ax_cloned_rc, ax_cloned_string,
}


// ---- more of the standard library

pub assume_specification<T> [std::mem::replace::<T>] (dest: &mut T, src: T) -> (ret: T) ensures ret == *old(dest), *final(dest) == src;
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (ret: Option<T>) ensures ret == *old(o), *final(o) == Some(v);
/// `Option::as_deref`
pub trait OptD { type To: ?Sized; spec fn shows(&self, r: &Self::To) -> bool; spec fn there(&self) -> bool;
    fn v_as_deref(&self) -> (ret: Option<&Self::To>) ensures ret is Some <==> self.there(), ret is Some ==> self.shows(ret->0); }
impl OptD for Option<String> { type To = str; open spec fn shows(&self, r: &str) -> bool { r@ == (*self)->0@ } open spec fn there(&self) -> bool { self is Some }
    #[verifier::external_body] fn v_as_deref(&self) -> Option<&str> { unimplemented!() } }
impl<T> OptD for Option<std::rc::Rc<T>> { type To = T; open spec fn shows(&self, r: &T) -> bool { *r == *((*self)->0) } open spec fn there(&self) -> bool { self is Some }
    #[verifier::external_body] fn v_as_deref(&self) -> Option<&T> { unimplemented!() } }
impl<T> OptD for Option<Box<T>> { type To = T; open spec fn shows(&self, r: &T) -> bool { *r == *((*self)->0) } open spec fn there(&self) -> bool { self is Some }
    #[verifier::external_body] fn v_as_deref(&self) -> Option<&T> { unimplemented!() } }
pub assume_specification<T> [bool::then_some::<T>] (b: bool, v: T) -> (ret: Option<T>) ensures ret == (if b { Some(v) } else { None });
pub assume_specification<T: Copy> [Option::<&T>::copied] (o: Option<&T>) -> (ret: Option<T>) ensures ret == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T, E> [Option::<Result<T, E>>::transpose] (o: Option<Result<T, E>>) -> (ret: Result<Option<T>, E>)
    ensures ret == (match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) });
pub assume_specification<T, E> [Result::<Option<T>, E>::transpose] (o: Result<Option<T>, E>) -> (ret: Option<Result<T, E>>)
    ensures ret == (match o { Ok(Some(x)) => Some(Ok::<T, E>(x)), Ok(None) => None, Err(e) => Some(Err::<T, E>(e)) });
/// the text that `replace_all` gives is a `String` here, not a `Cow`
pub trait CowX: Sized { spec fn owned(&self) -> Seq<char>; fn v_into_owned(self) -> (ret: String) ensures ret@ == self.owned(); }
impl CowX for String { open spec fn owned(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_into_owned(self) -> (ret: String) { self } }
pub assume_specification<T> [Option::<Option<T>>::flatten] (o: Option<Option<T>>) -> (ret: Option<T>) ensures ret == (match o { Some(x) => x, None => None });
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (ret: Option<T>) ensures ret == (if a is Some { a } else { b });
pub assume_specification<T, U> [Option::<T>::and] (a: Option<T>, b: Option<U>) -> (ret: Option<U>) ensures ret == (if a is Some { b } else { None });
pub assume_specification<T, U> [Option::<T>::zip] (a: Option<T>, b: Option<U>) -> (ret: Option<(T, U)>) ensures ret == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None });
pub assume_specification<T: Default> [std::mem::take::<T>] (d: &mut T) -> (ret: T) ensures ret == *old(d), call_ensures(T::default, (), *final(d));
pub assume_specification [char::is_ascii_digit] (c: &char) -> (ret: bool) ensures ret == sp_is_digit(*c);
pub assume_specification [char::is_ascii_whitespace] (c: &char) -> (ret: bool) ensures ret == (*c == ' ' || *c == '\t' || *c == '\n' || *c == '\r' || *c == '\x0c');
/// a clone of a pointer, and that of a text, is the same
pub broadcast axiom fn ax_cloned_string(a: String, b: String) requires #[trigger] vstd::pervasive::cloned(a, b) ensures a == b;
/// the things pointed to
pub open spec fn sp_deref<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
/// clones of the type equal what they are made from
pub open spec fn sp_faithful<T: Clone>() -> bool { forall|a: T, b: T| #[trigger] vstd::pervasive::cloned(a, b) ==> a == b }
pub broadcast axiom fn ax_cloned_rc<T>(a: std::rc::Rc<T>, b: std::rc::Rc<T>) requires #[trigger] vstd::pervasive::cloned(a, b) ensures a == b;
pub trait OptX<T> { fn v_as_ref(&self) -> (ret: Option<&T>) ensures self.ov() is None ==> ret is None, self.ov() is Some ==> ret is Some && *(ret->0) == self.ov()->0; spec fn ov(&self) -> Option<T>; }
impl<T> OptX<T> for Option<T> { open spec fn ov(&self) -> Option<T> { *self }  fn v_as_ref(&self) -> (ret: Option<&T>) { self.as_ref() } }
impl OptS for String { fn v_as_ref(&self) -> (ret: &str) { self.as_str() } open spec fn txt(&self) -> Seq<char> { self@ } }
pub trait OptS { spec fn txt(&self) -> Seq<char>; fn v_as_ref(&self) -> (ret: &str) ensures ret@ == self.txt(); }
pub trait RcX<T> { fn v_as_ref(&self) -> (ret: &T) ensures *ret == self.rv(); spec fn rv(&self) -> T; }
impl<T> RcX<T> for std::rc::Rc<T> { open spec fn rv(&self) -> T { **self } fn v_as_ref(&self) -> (ret: &T) { &**self } }
impl<T> RcX<T> for Box<T> { open spec fn rv(&self) -> T { **self } fn v_as_ref(&self) -> (ret: &T) { &**self } }
pub assume_specification [str::trim] (s: &str) -> (ret: &str) ensures ret@ == sp_trim(s@);

#[verifier::external_trait_specification]
pub trait ExPattern: Sized { type ExternalTraitSpecificationFor: std::str::pattern::Pattern; }
/// text pattern which is a constant string, and that string
pub uninterp spec fn sp_pat_ok<P>(p: P) -> bool;
pub uninterp spec fn sp_pat<P>(p: P) -> Seq<char>;
pub broadcast axiom fn ax_pat_char(c: char) ensures #![trigger sp_pat(c)] #![trigger sp_pat_ok(c)] sp_pat_ok(c) && sp_pat(c) == seq![c];
pub broadcast axiom fn ax_pat_str(c: &str) ensures #![trigger sp_pat(c)] #![trigger sp_pat_ok(c)] sp_pat_ok(c) && sp_pat(c) == c@;
pub broadcast axiom fn ax_pat_string(c: &String) ensures #![trigger sp_pat(c)] #![trigger sp_pat_ok(c)] sp_pat_ok(c) && sp_pat(c) == c@;
pub assume_specification<P: std::str::pattern::Pattern> [str::starts_with::<P>] (s: &str, p: P) -> (ret: bool)
    ensures sp_pat_ok(p) ==> ret == sp_pat(p).is_prefix_of(s@);
pub assume_specification<P: std::str::pattern::Pattern> [str::ends_with::<P>] (s: &str, p: P) -> (ret: bool)
    where for<'a> P::Searcher<'a>: std::str::pattern::ReverseSearcher<'a>,
    ensures sp_pat_ok(p) ==> ret == sp_pat(p).is_suffix_of(s@);
pub assume_specification<'a, P: std::str::pattern::Pattern> [str::strip_prefix::<P>] (s: &'a str, p: P) -> (ret: Option<&'a str>)
    ensures sp_pat_ok(p) ==> if sp_pat(p).is_prefix_of(s@) { ret is Some && ret->0@ == s@.skip(sp_pat(p).len() as int) } else { ret is None };
pub assume_specification<'a, P: std::str::pattern::Pattern> [str::strip_suffix::<P>] (s: &'a str, p: P) -> (ret: Option<&'a str>)
    where for<'b> P::Searcher<'b>: std::str::pattern::ReverseSearcher<'b>,
    ensures sp_pat_ok(p) ==> if sp_pat(p).is_suffix_of(s@) { ret is Some && ret->0@ == s@.take(s@.len() - sp_pat(p).len()) } else { ret is None };
pub assume_specification [str::trim_start] (s: &str) -> (ret: &str) ensures ret@ == sp_trim_start(s@);
pub assume_specification [str::trim_end] (s: &str) -> (ret: &str) ensures ret@ == sp_trim_end(s@);
pub assume_specification [String::len] (s: &String) -> (ret: usize) ensures ret == sp_off(s@, s@.len() as int), ret == 0 <==> s@.len() == 0;

#[verifier::external_body]
pub fn str_add(a: String, b: &str) -> (ret: String) ensures ret@ == a@ + b@ { unimplemented!() }
/// `String::from`
#[verifier::external_body]
pub fn string_from(a: &str) -> (ret: String) ensures ret@ == a@ { unimplemented!() }

/// `Into`, between texts
pub trait VTextInto<T>: Sized { spec fn gives(self, r: T) -> bool; fn v_into_text(self) -> (ret: T) ensures self.gives(ret); }
impl<'a> VTextInto<String> for &'a str { open spec fn gives(self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn v_into_text(self) -> (ret: String) { unimplemented!() } }
impl<'a> VTextInto<String> for &'a String { open spec fn gives(self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn v_into_text(self) -> (ret: String) { unimplemented!() } }
impl VTextInto<String> for String { open spec fn gives(self, r: String) -> bool { r == self } fn v_into_text(self) -> (ret: String) { self } }
impl<T> VTextInto<Option<T>> for T { open spec fn gives(self, r: Option<T>) -> bool { r == Some(self) } fn v_into_text(self) -> (ret: Option<T>) { Some(self) } }
impl VTextInto<ParseError<usize, String, String>> for String { open spec fn gives(self, r: ParseError<usize, String, String>) -> bool { true } #[verifier::external_body] fn v_into_text(self) -> (ret: ParseError<usize, String, String>) { unimplemented!() } }

/// What `Display` writes
pub trait VDisp { spec fn disp(&self) -> Seq<char>; }
impl VDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VDisp for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } }
impl VDisp for usize { open spec fn disp(&self) -> Seq<char> { sp_dec(*self as nat) } }
impl<'a, T: VDisp + ?Sized> VDisp for &'a T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
impl VDisp for Unspecified { uninterp spec fn disp(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn fmt1<A: VDisp>(s0: &str, a: &A, s1: &str) -> (ret: String) ensures ret@ == s0@ + a.disp() + s1@ { unimplemented!() }
#[verifier::external_body]
pub fn fmt2<A: VDisp, B: VDisp>(s0: &str, a: &A, s1: &str, b: &B, s2: &str) -> (ret: String) ensures ret@ == s0@ + a.disp() + s1@ + b.disp() + s2@ { unimplemented!() }
#[verifier::external_body]
pub fn fmt4<A: VDisp, B: VDisp, C: VDisp, D: VDisp>(s0: &str, a: &A, s1: &str, b: &B, s2: &str, c: &C, s3: &str, d: &D, s4: &str) -> (ret: String) ensures ret@ == s0@ + a.disp() + s1@ + b.disp() + s2@ + c.disp() + s3@ + d.disp() + s4@ { unimplemented!() }
#[verifier::external_body]
pub fn fmt3<A: VDisp, B: VDisp, C: VDisp>(s0: &str, a: &A, s1: &str, b: &B, s2: &str, c: &C, s3: &str) -> (ret: String) ensures ret@ == s0@ + a.disp() + s1@ + b.disp() + s2@ + c.disp() + s3@ { unimplemented!() }

pub trait VToString { fn v_to_string(&self) -> (ret: String) ensures ret@ == self.tos(); spec fn tos(&self) -> Seq<char>; }
impl<T: VDisp + ?Sized> VToString for T {
    open spec fn tos(&self) -> Seq<char> { self.disp() }
    #[verifier::external_body]
    fn v_to_string(&self) -> (ret: String) { unimplemented!() }
}

// ---- formatters

/// What `Debug` writes
pub trait VDbg { spec fn dbg(&self) -> Seq<char>; }
impl<'a, T: VDbg + ?Sized> VDbg for &'a T { open spec fn dbg(&self) -> Seq<char> { (**self).dbg() } }
/// `{:?}`
pub struct Dbg<'a, T: VDbg + ?Sized>(pub &'a T);
impl<'a, T: VDbg + ?Sized> VDisp for Dbg<'a, T> { open spec fn disp(&self) -> Seq<char> { self.0.dbg() } }
/// `std::fmt::Formatter`: what was written (a failed write is only known to have failed)
#[verifier::external_body]
pub struct Formatter<'a> { inner: std::marker::PhantomData<&'a ()> }
#[verifier::external_body]
pub struct FmtError { inner: () }
pub type FmtResult = Result<(), FmtError>;
impl<'a> Formatter<'a> {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (ret: FmtResult) ensures ret is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn write_fmt(&mut self, s: String) -> (ret: FmtResult) ensures ret is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn alternate(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn width(&self) -> Option<usize> { unimplemented!() }
    #[verifier::external_body]
    pub fn precision(&self) -> Option<usize> { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (ret: FmtResult) ensures ret is Ok ==> final(self)@ == old(self)@ + seq![c] { unimplemented!() }
}
pub trait Display: VDisp { fn fmt(&self, f: &mut Formatter) -> (ret: FmtResult) ensures ret is Ok ==> final(f)@ =~= old(f)@ + self.disp(); }
pub trait Debug: VDbg { fn fmt(&self, f: &mut Formatter) -> (ret: FmtResult) ensures ret is Ok ==> final(f)@ =~= old(f)@ + self.dbg(); }
impl VDisp for IoError { uninterp spec fn disp(&self) -> Seq<char>; }
impl VDbg for IoError { uninterp spec fn dbg(&self) -> Seq<char>; }
impl Display for str { #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> FmtResult { unimplemented!() } }
impl Display for String { #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> FmtResult { unimplemented!() } }
impl Display for char { #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> FmtResult { unimplemented!() } }
impl Display for usize { #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> FmtResult { unimplemented!() } }
impl<'a, T: Display + ?Sized> Display for &'a T { #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> FmtResult { unimplemented!() } }
impl Display for IoError { #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> FmtResult { unimplemented!() } }
impl Debug for IoError { #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> FmtResult { unimplemented!() } }
/// `std::error::Error`; a source that is a system error is its only use in this crate
pub trait StdError { fn source(&self) -> Option<&IoError>; }
pub enum ErrorKind { Other, InvalidData, InvalidInput, UnexpectedEof, NotFound, PermissionDenied, Interrupted, Unsupported, OutOfMemory, WouldBlock, TimedOut, BrokenPipe, ConnectionRefused,
    ConnectionReset, ConnectionAborted, NotConnected, HostUnreachable, NetworkUnreachable, NetworkDown, AddrInUse, AddrNotAvailable, AlreadyExists, NotADirectory, IsADirectory, WriteZero, StorageFull,
    FileTooLarge, ResourceBusy, Deadlock, NotSeekable, Unlisted }
impl Clone for ErrorKind { #[verifier::external_body] fn clone(&self) -> (ret: Self) ensures ret == *self { unimplemented!() } }
impl Copy for ErrorKind {}
impl PartialEq for ErrorKind { #[verifier::external_body] fn eq(&self, other: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other } }
impl IoError {
    pub uninterp spec fn sp_kind(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (ret: ErrorKind) ensures ret == self.sp_kind() { unimplemented!() }
    /// a system error made of another error has its text and holds it
    #[verifier::external_body]
    pub fn new<E: VDisp + VDbg>(kind: ErrorKind, e: E) -> (ret: IoError) ensures ret.sp_kind() == kind, ret.disp() == e.disp(), ret.holds(e) { unimplemented!() }
    #[verifier::external_body]
    pub fn other<E: VDisp + VDbg>(e: E) -> (ret: IoError) ensures ret.sp_kind() == ErrorKind::Other, ret.disp() == e.disp(), ret.holds(e) { unimplemented!() }
    pub uninterp spec fn holds<E>(&self, e: E) -> bool;
}

/// An error of the standard library or of a dependency, whose text is not specified
#[verifier::external_body]
#[derive(Debug)]
pub struct Unspecified { inner: () }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(C)]
pub struct ParseError<A, B, C> { inner: std::marker::PhantomData<(A, B, C)> }
impl From<String> for ParseError<usize, String, String> { #[verifier::external_body] fn from(e: String) -> Self { unimplemented!() } }
impl<A, B, C> VDisp for ParseError<A, B, C> { uninterp spec fn disp(&self) -> Seq<char>; }

/// `s[a..b]` on byte offsets: the offsets must be character boundaries
pub trait VSlice {
    spec fn bounds(&self, a: int) -> bool;
    spec fn chars_view(&self) -> Seq<char>;
    fn v_range(&self, a: usize, b: usize) -> (ret: &Self)
        requires self.bounds(a as int), self.bounds(b as int), a <= b
        ensures ret.chars_view().len() <= self.chars_view().len(), forall|i: int, j: int| 0 <= i <= j <= self.chars_view().len() && sp_off(self.chars_view(), i) == a && sp_off(self.chars_view(), j) == b ==> ret.chars_view() == #[trigger] self.chars_view().subrange(i, j);
    fn v_from(&self, a: usize) -> (ret: &Self)
        requires self.bounds(a as int)
        ensures ret.chars_view().len() <= self.chars_view().len(), forall|i: int| 0 <= i <= self.chars_view().len() && #[trigger] sp_off(self.chars_view(), i) == a ==> ret.chars_view() == self.chars_view().skip(i);
    fn v_to(&self, b: usize) -> (ret: &Self)
        requires self.bounds(b as int)
        ensures ret.chars_view().len() <= self.chars_view().len(), forall|i: int| 0 <= i <= self.chars_view().len() && #[trigger] sp_off(self.chars_view(), i) == b ==> ret.chars_view() == self.chars_view().take(i);
    /// `split_at`
    fn v_split_at(&self, a: usize) -> (ret: (&Self, &Self))
        requires self.bounds(a as int)
        ensures ret.0.chars_view().len() <= self.chars_view().len(), ret.1.chars_view().len() <= self.chars_view().len(),
            forall|i: int| 0 <= i <= self.chars_view().len() && #[trigger] sp_off(self.chars_view(), i) == a ==> ret.0.chars_view() == self.chars_view().take(i) && ret.1.chars_view() == self.chars_view().skip(i);
}
impl VSlice for str {
    open spec fn bounds(&self, a: int) -> bool { exists|i: int| 0 <= i <= self@.len() && #[trigger] sp_off(self@, i) == a }
    open spec fn chars_view(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_range(&self, a: usize, b: usize) -> (ret: &Self) { unimplemented!() }
    #[verifier::external_body]
    fn v_from(&self, a: usize) -> (ret: &Self) { unimplemented!() }
    #[verifier::external_body]
    fn v_to(&self, b: usize) -> (ret: &Self) { unimplemented!() }
    #[verifier::external_body]
    fn v_split_at(&self, a: usize) -> (ret: (&Self, &Self)) { unimplemented!() }
}

pub trait StrX {
    spec fn sv(&self) -> Seq<char>;
    /// `find` of a character
    fn v_find(&self, c: char) -> (ret: Option<usize>)
        ensures match ret {
            None => !self.sv().contains(c),
            Some(n) => n < usize::MAX && exists|i: int| #[trigger] sp_first(self.sv(), c, i) && sp_off(self.sv(), i) == n,
        };
    fn v_find_by<F: Fn(char) -> bool>(&self, f: F) -> (ret: Option<usize>)
        requires forall|i: int| 0 <= i < self.sv().len() ==> call_requires(f, (#[trigger] self.sv()[i],))
        ensures match ret {
            None => forall|i: int| 0 <= i < self.sv().len() ==> call_ensures(f, (#[trigger] self.sv()[i],), false),
            Some(n) => n < usize::MAX && exists|i: int| 0 <= i < self.sv().len() && call_ensures(f, (#[trigger] self.sv()[i],), true) && sp_off(self.sv(), i) == n
                && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] self.sv()[j],), false),
        };
    /// `split_once` on a character
    fn v_split_once(&self, c: char) -> (ret: Option<(&str, &str)>)
        ensures match ret {
            None => !self.sv().contains(c),
            Some((a, b)) => exists|i: int| #[trigger] sp_first(self.sv(), c, i) && a@ == self.sv().take(i) && b@ == self.sv().skip(i + 1),
        };
    fn v_split_whitespace<'a>(&'a self) -> (ret: VIter<&'a str>)
        ensures sp_texts(ret.rem()) == sp_non_empty(sp_split(self.sv(), sp_is_ws()));
    fn v_contains_str(&self, p: &str) -> (ret: bool)
        ensures ret == exists|i: int| 0 <= i <= self.sv().len() - p@.len() && #[trigger] self.sv().subrange(i, i + p@.len()) == p@;
    fn v_contains_by<F: Fn(char) -> bool>(&self, f: F) -> (ret: bool)
        requires forall|i: int| 0 <= i < self.sv().len() ==> call_requires(f, (#[trigger] self.sv()[i],))
        ensures
            ret ==> exists|i: int| 0 <= i < self.sv().len() && call_ensures(f, (#[trigger] self.sv()[i],), true),
            !ret ==> forall|i: int| 0 <= i < self.sv().len() ==> call_ensures(f, (#[trigger] self.sv()[i],), false);
    fn v_chars(&self) -> (ret: VIter<char>) ensures ret.rem() == self.sv();
    fn v_parse<N: VParse>(&self) -> (ret: Result<N, Unspecified>)
        ensures match N::parsed(self.sv()) { Some(n) => ret == Ok::<N, Unspecified>(n), None => ret is Err };
}
impl StrX for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_find(&self, c: char) -> (ret: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn v_find_by<F: Fn(char) -> bool>(&self, f: F) -> (ret: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn v_split_once(&self, c: char) -> (ret: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body]
    fn v_split_whitespace<'a>(&'a self) -> (ret: VIter<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn v_contains_str(&self, p: &str) -> (ret: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_contains_by<F: Fn(char) -> bool>(&self, f: F) -> (ret: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_chars(&self) -> (ret: VIter<char>) { unimplemented!() }
    #[verifier::external_body]
    fn v_parse<N: VParse>(&self) -> (ret: Result<N, Unspecified>) { unimplemented!() }
}
/// classes of characters: one character, `char::is_whitespace`, or a closure
pub trait VCharPred { spec fn pred(&self) -> spec_fn(char) -> bool; }
impl VCharPred for char { open spec fn pred(&self) -> spec_fn(char) -> bool { sp_is(*self) } }
pub struct WsPred {}
impl VCharPred for WsPred { open spec fn pred(&self) -> spec_fn(char) -> bool { sp_is_ws() } }
pub trait VParse: Sized { spec fn parsed(s: Seq<char>) -> Option<Self>; }
impl VParse for usize { open spec fn parsed(s: Seq<char>) -> Option<usize> { match sp_undec(s) { Some(n) => if n <= usize::MAX { Some(n as usize) } else { None }, None => None } } }
impl VParse for i64 { open spec fn parsed(s: Seq<char>) -> Option<i64> {
    if s.len() > 0 && s[0] == '-' {
        if s.len() > 1 && s[1] == '+' { None } else { match sp_undec(s.skip(1)) { Some(n) => if n <= 0x8000_0000_0000_0000 { Some((-(n as int)) as i64) } else { None }, None => None } }
    } else { match sp_undec(s) { Some(n) => if n <= 0x7fff_ffff_ffff_ffff { Some(n as i64) } else { None }, None => None } }
} }

// ---- maps and sets of strings

pub trait VKey { spec fn kv(&self) -> Seq<char>; }
impl VKey for str { open spec fn kv(&self) -> Seq<char> { self@ } }
impl VKey for String { open spec fn kv(&self) -> Seq<char> { self@ } }
impl<'a, T: VKey + ?Sized> VKey for &'a T { open spec fn kv(&self) -> Seq<char> { (**self).kv() } }
/// `std::collections::HashMap` with string keys
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { inner: std::marker::PhantomData<(K, V)> }
pub open spec fn sp_insert_all<K: VKey, V>(m: Map<Seq<char>, V>, s: Seq<(K, V)>) -> Map<Seq<char>, V> decreases s.len() {
    if s.len() == 0 { m } else { sp_insert_all(m, s.drop_last()).insert(s.last().0.kv(), s.last().1) }
}
/// s lists the map, each key once
pub open spec fn sp_listing<K: VKey, V>(m: Map<Seq<char>, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i].0.kv()) && m[s[i].0.kv()] == s[i].1
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0.kv() == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].0.kv() != #[trigger] s[j].0.kv()
}
impl<K: VKey, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VKey + ?Sized>(&self, k: &Q) -> (ret: Option<&V>)
        ensures self@.contains_key(k.kv()) ==> ret is Some && *(ret->0) == self@[k.kv()], !self@.contains_key(k.kv()) ==> ret is None
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VKey + ?Sized>(&self, k: &Q) -> (ret: bool) ensures ret == self@.contains_key(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (ret: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.kv(), v), ret == (if old(self)@.contains_key(k.kv()) { Some(old(self)@[k.kv()]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_extend(&mut self, it: VIter<(K, V)>) ensures final(self)@ == sp_insert_all(old(self)@, it.rem()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_into_iter(self) -> (ret: VIter<(K, V)>) ensures sp_listing(self@, ret.rem()) { unimplemented!() }
}
/// `Default` for the values of maps
pub trait VDefault: Sized { spec fn is_default(&self) -> bool; }
impl<T> VDefault for Vec<T> { open spec fn is_default(&self) -> bool { self@ == Seq::<T>::empty() } }
impl VDefault for String { open spec fn is_default(&self) -> bool { self@ == Seq::<char>::empty() } }
impl<T> VDefault for Option<T> { open spec fn is_default(&self) -> bool { self is None } }
impl VDefault for usize { open spec fn is_default(&self) -> bool { *self == 0 } }
impl VDefault for bool { open spec fn is_default(&self) -> bool { !*self } }
/// `std::collections::hash_map::Entry`
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HEntry<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
impl<'a, K: VKey, V> HEntry<'a, K, V> {
    pub open spec fn known(self) -> bool { (*self.m)@.contains_key(self.k.kv()) }
    #[verifier::external_body]
    pub fn or_default(self) -> (ret: &'a mut V) where V: VDefault
        ensures old(self.m)@.contains_key(self.k.kv()) ==> *ret == old(self.m)@[self.k.kv()], !old(self.m)@.contains_key(self.k.kv()) ==> ret.is_default(),
            final(self.m)@ == old(self.m)@.insert(self.k.kv(), *final(ret))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (ret: &'a mut V)
        ensures *ret == (if old(self.m)@.contains_key(self.k.kv()) { old(self.m)@[self.k.kv()] } else { v }),
            final(self.m)@ == old(self.m)@.insert(self.k.kv(), *final(ret))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (ret: &'a mut V)
        requires !old(self.m)@.contains_key(self.k.kv()) ==> call_requires(f, ())
        ensures old(self.m)@.contains_key(self.k.kv()) ==> *ret == old(self.m)@[self.k.kv()], !old(self.m)@.contains_key(self.k.kv()) ==> call_ensures(f, (), *ret),
            final(self.m)@ == old(self.m)@.insert(self.k.kv(), *final(ret))
    { unimplemented!() }
}
impl<K: VKey, V> HashMap<K, V> {
    pub fn entry(&mut self, k: K) -> (ret: HEntry<'_, K, V>) ensures *ret.m == *old(self), *final(ret.m) == *final(self), ret.k == k { HEntry { m: self, k } }
    #[verifier::external_body]
    pub fn get_mut<Q: VKey + ?Sized>(&mut self, k: &Q) -> (ret: Option<&mut V>)
        ensures match ret { Some(r) => old(self)@.contains_key(k.kv()) && *r == old(self)@[k.kv()] && final(self)@ == old(self)@.insert(k.kv(), *final(r)), None => !old(self)@.contains_key(k.kv()) && *final(self) == *old(self) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VKey + ?Sized>(&mut self, k: &Q) -> (ret: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.kv()), ret == (if old(self)@.contains_key(k.kv()) { Some(old(self)@[k.kv()]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (ret: bool) ensures ret == (self@ == Map::<Seq<char>, V>::empty()) { unimplemented!() }
}
/// `std::collections::HashSet` of strings
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { inner: std::marker::PhantomData<T> }
impl<T: VKey> HashSet<T> {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: T) -> (ret: bool) ensures final(self)@ == old(self)@.insert(k.kv()), ret == !old(self)@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: VKey + ?Sized>(&self, k: &Q) -> (ret: bool) ensures ret == self@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_extend<I: VInto<T>>(&mut self, it: I)
        ensures forall|k: Seq<char>| #[trigger] final(self)@.contains(k) <==> old(self)@.contains(k) || exists|i: int| 0 <= i < it.items().len() && (#[trigger] it.items()[i]).kv() == k
    { unimplemented!() }
}
impl<T: VKey> Default for HashSet<T> {
    #[verifier::external_body]
    fn default() -> (ret: Self) ensures ret@ == Set::<Seq<char>>::empty() { unimplemented!() }
}
pub trait CharX { fn v_is_whitespace(&self) -> (ret: bool) ensures ret == sp_ws(self.cv()); spec fn cv(&self) -> char; }
impl CharX for char {
    open spec fn cv(&self) -> char { *self }
    #[verifier::external_body]
    fn v_is_whitespace(&self) -> (ret: bool) { unimplemented!() }
}

// ---- iterators

/// `std::iter::Iterator`, restricted to what the crate implements: `rem` is what is still to
/// come, as values (`S`)
pub trait Iterator: Sized {
    type Item;
    type S;
    spec fn iv(x: Self::Item) -> Self::S;
    spec fn rem(&self) -> Seq<Self::S>;
    spec fn wf(&self) -> bool;
    fn next(&mut self) -> (ret: Option<Self::Item>)
        requires old(self).wf()
        ensures
            final(self).wf(),
            old(self).rem().len() == 0 ==> ret is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> ret is Some && Self::iv(ret->0) == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1);
}
pub trait IterX: Iterator {
    fn peekable(self) -> (ret: Peekable<Self>)
        requires self.wf()
        ensures ret.rem() == self.rem();
}
impl<I: Iterator> IterX for I {
    #[verifier::external_body]
    fn peekable(self) -> (ret: Peekable<Self>) { unimplemented!() }
}

/// `std::iter::Peekable` over an iterator which keeps the contract above
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct Peekable<I: Iterator> { inner: std::marker::PhantomData<I> }
impl<I: Iterator> Peekable<I> {
    pub uninterp spec fn rem(&self) -> Seq<I::S>;
    #[verifier::external_body]
    pub fn peek(&mut self) -> (ret: Option<&I::Item>)
        ensures
            final(self).rem() == old(self).rem(),
            old(self).rem().len() == 0 ==> ret is None,
            old(self).rem().len() > 0 ==> ret is Some && I::iv(*(ret->0)) == old(self).rem()[0],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (ret: Option<I::Item>)
        ensures
            old(self).rem().len() == 0 ==> ret is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> ret is Some && I::iv(ret->0) == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
    { unimplemented!() }
}

/// Every iterator made by the standard library: the sequence of its items
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { inner: std::marker::PhantomData<T> }
impl<T> VIter<T> {
    pub uninterp spec fn rem(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (ret: Option<T>)
        ensures
            old(self).rem().len() == 0 ==> ret is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> ret == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (ret: VIter<B>)
        requires forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (#[trigger] self.rem()[i],))
        ensures ret.rem().len() == self.rem().len(),
            forall|i: int| 0 <= i < self.rem().len() ==> call_ensures(f, (self.rem()[i],), #[trigger] ret.rem()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (ret: VIter<T>)
        requires forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (&#[trigger] self.rem()[i],))
        ensures exists|m: Seq<bool>| m.len() == self.rem().len() && ret.rem() == #[trigger] sp_keep(self.rem(), m) && forall|i: int| 0 <= i < m.len() ==> call_ensures(f, (&self.rem()[i],), #[trigger] m[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<B, F: Fn(T) -> Option<B>>(self, f: F) -> (ret: VIter<B>)
        requires forall|i: int| 0 <= i < self.rem().len() ==> call_requires(f, (#[trigger] self.rem()[i],))
        ensures exists|r: Seq<Option<B>>| r.len() == self.rem().len() && ret.rem() == sp_somes(r) && forall|i: int| 0 <= i < r.len() ==> call_ensures(f, (self.rem()[i],), #[trigger] r[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (ret: Option<T>)
        ensures
            n < old(self).rem().len() ==> ret == Some(old(self).rem()[n as int]) && final(self).rem() == old(self).rem().skip(n + 1),
            n >= old(self).rem().len() ==> ret is None && final(self).rem() == Seq::<T>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (ret: Option<T>) ensures ret == (if self.rem().len() == 0 { None } else { Some(self.rem().last()) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (ret: usize) ensures ret == self.rem().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (ret: VIter<T>) ensures ret.rem() == (if n <= self.rem().len() { self.rem().skip(n as int) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (ret: VIter<T>) ensures ret.rem() == (if n <= self.rem().len() { self.rem().take(n as int) } else { self.rem() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (ret: VIter<(usize, T)>)
        ensures ret.rem().len() == self.rem().len(), forall|i: int| 0 <= i < self.rem().len() ==> #[trigger] ret.rem()[i] == (i as usize, self.rem()[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: VFrom<T>>(self) -> (ret: C) ensures ret.from_items(self.rem()) { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(&mut self, f: F) -> (ret: bool)
        requires forall|i: int| 0 <= i < old(self).rem().len() ==> call_requires(f, (#[trigger] old(self).rem()[i],))
        ensures
            ret ==> forall|i: int| 0 <= i < old(self).rem().len() ==> call_ensures(f, (#[trigger] old(self).rem()[i],), true),
            !ret ==> exists|i: int| 0 <= i < old(self).rem().len() && call_ensures(f, (#[trigger] old(self).rem()[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(&mut self, f: F) -> (ret: bool)
        requires forall|i: int| 0 <= i < old(self).rem().len() ==> call_requires(f, (#[trigger] old(self).rem()[i],))
        ensures
            !ret ==> forall|i: int| 0 <= i < old(self).rem().len() ==> call_ensures(f, (#[trigger] old(self).rem()[i],), false),
            ret ==> exists|i: int| 0 <= i < old(self).rem().len() && call_ensures(f, (#[trigger] old(self).rem()[i],), true),
    { unimplemented!() }
}
/// The values of the `Some`
pub open spec fn sp_somes<B>(r: Seq<Option<B>>) -> Seq<B> decreases r.len() {
    if r.len() == 0 { Seq::empty() } else { match r.last() { Some(v) => sp_somes(r.drop_last()).push(v), None => sp_somes(r.drop_last()) } }
}
/// `FromIterator`
pub trait VFrom<T>: Sized { spec fn from_items(&self, s: Seq<T>) -> bool; }
impl<T> VFrom<T> for Vec<T> { open spec fn from_items(&self, s: Seq<T>) -> bool { self@ == s } }
impl<K: VKey, V> VFrom<(K, V)> for HashMap<K, V> { open spec fn from_items(&self, s: Seq<(K, V)>) -> bool { self@ == sp_insert_all(Map::<Seq<char>, V>::empty(), s) } }
/// What a `for` loop iterates on
pub trait VInto<T>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn v_into(self) -> (ret: VIter<T>) ensures ret.rem() == self.items();
}
impl<T> VInto<T> for VIter<T> {
    open spec fn items(&self) -> Seq<T> { self.rem() }
    fn v_into(self) -> (ret: VIter<T>) { self }
}
impl<T> VInto<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_into(self) -> (ret: VIter<T>) { unimplemented!() }
}
impl<'a, T> VInto<&'a T> for &'a Vec<T> {
    open spec fn items(&self) -> Seq<&'a T> { self@.map_values(|t: T| &t) }
    #[verifier::external_body]
    fn v_into(self) -> (ret: VIter<&'a T>) { unimplemented!() }
}

pub trait VecX<T> {
    spec fn vseq(&self) -> Seq<T>;
    fn v_iter(&self) -> (ret: VIter<&T>)
        ensures ret.rem().len() == self.vseq().len(), forall|i: int| #![trigger ret.rem()[i]] #![trigger self.vseq()[i]] 0 <= i < ret.rem().len() ==> *(ret.rem()[i]) == self.vseq()[i], sp_deref(ret.rem()) == self.vseq();
    fn v_extend_from_slice(&mut self, other: &Vec<T>) where T: Clone
        ensures sp_faithful::<T>() ==> final(self).vseq() == old(self).vseq() + other@;
    fn v_extend<I: VInto<T>>(&mut self, it: I)
        ensures final(self).vseq() == old(self).vseq() + it.items();
}
impl<T> VecX<T> for Vec<T> {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter(&self) -> (ret: VIter<&T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_extend_from_slice(&mut self, other: &Vec<T>) where T: Clone { unimplemented!() }
    #[verifier::external_body]
    fn v_extend<I: VInto<T>>(&mut self, it: I) { unimplemented!() }
}
pub trait SliceX<T> {
    spec fn sseq(&self) -> Seq<T>;
    fn v_iter(&self) -> (ret: VIter<&T>)
        ensures ret.rem().len() == self.sseq().len(), forall|i: int| #![trigger ret.rem()[i]] #![trigger self.sseq()[i]] 0 <= i < ret.rem().len() ==> *(ret.rem()[i]) == self.sseq()[i], sp_deref(ret.rem()) == self.sseq();
}
impl<T> SliceX<T> for [T] {
    open spec fn sseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter(&self) -> (ret: VIter<&T>) { unimplemented!() }
}

pub trait VJoin { fn v_join(&self, sep: &str) -> (ret: String) ensures ret@ == self.joined(sep@); spec fn joined(&self, sep: Seq<char>) -> Seq<char>; }
impl VJoin for Vec<String> {
    open spec fn joined(&self, sep: Seq<char>) -> Seq<char> { sp_join(sp_strs(self@), sep) }
    #[verifier::external_body]
    fn v_join(&self, sep: &str) -> (ret: String) { unimplemented!() }
}

// ---- input

pub trait Read {}
pub trait BufRead {}
/// `std::io::Error`
#[verifier::external_body]
#[derive(Debug)]
pub struct IoError { inner: std::io::Error }
#[verifier::external]
impl std::fmt::Display for IoError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
#[verifier::external]
impl std::error::Error for IoError {}

#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct BufReader<R> { inner: std::marker::PhantomData<R> }
#[verifier::external_body]
#[verifier::reject_recursive_types(B)]
pub struct Lines<B> { inner: std::marker::PhantomData<B> }
/// what a source delivers, however it is cut into chunks: its bytes, and the error after them, if any
pub uninterp spec fn sp_data<R>(r: R) -> Seq<u8>;
pub uninterp spec fn sp_fault<R>(r: R) -> Option<IoError>;
/// what would come if one read on after the error
pub uninterp spec fn sp_beyond<R>(r: R) -> Seq<Result<String, IoError>>;
/// UTF-8
pub uninterp spec fn sp_decode(b: Seq<u8>) -> Result<String, IoError>;
/// place of the first line feed; the length when there is none
pub open spec fn sp_lf(d: Seq<u8>) -> int decreases d.len() { if d.len() == 0 || d[0] == 10 { 0 } else { 1 + sp_lf(d.skip(1)) } }
/// without the carriage return that ends it
pub open spec fn sp_chomp(d: Seq<u8>) -> Seq<u8> { if d.len() > 0 && d.last() == 13 { d.drop_last() } else { d } }
/// The lines of some bytes, as `std::io::BufRead::lines` delivers them: ended by LF or CRLF, the last one possibly not
pub open spec fn sp_byte_lines(d: Seq<u8>, fault: Option<IoError>, beyond: Seq<Result<String, IoError>>) -> Seq<Result<String, IoError>> decreases d.len() {
    let i = sp_lf(d);
    if 0 <= i < d.len() { seq![sp_decode(sp_chomp(d.take(i)))] + sp_byte_lines(d.skip(i + 1), fault, beyond) }
    else {
        match fault {
            Some(e) => seq![Err(e)] + beyond,
            None => if d.len() == 0 { Seq::empty() } else { seq![sp_decode(d)] },
        }
    }
}
pub open spec fn sp_lines_of<R>(r: R) -> Seq<Result<String, IoError>> { sp_byte_lines(sp_data(r), sp_fault(r), sp_beyond(r)) }
impl<R: Read> BufReader<R> {
    pub uninterp spec fn src(&self) -> R;
    #[verifier::external_body]
    pub fn new(r: R) -> (ret: Self) ensures ret.src() == r { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize, r: R) -> (ret: Self) ensures ret.src() == r { unimplemented!() }
    #[verifier::external_body]
    pub fn v_lines(self) -> (ret: Lines<Self>) ensures ret.rem() == sp_lines_of(self.src()), ret.rem().len() < 0xffff_ffff_ffff_0000, sp_text_lines(ret.rem()) { unimplemented!() }
}
impl<B> Lines<B> {
    pub uninterp spec fn rem(&self) -> Seq<Result<String, IoError>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (ret: Option<Result<String, IoError>>)
        ensures
            old(self).rem().len() == 0 ==> ret is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> ret == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1),
    { unimplemented!() }
}

// ---- regular expressions

#[verifier::external_body]
pub struct Regex { inner: () }
#[verifier::external_body]
#[derive(Debug)]
pub struct ReError { inner: () }
#[verifier::external_body]

pub struct Captures<'t> { inner: &'t str }
#[verifier::external_body]
pub struct Match<'t> { inner: &'t str }
impl Regex {
    pub uninterp spec fn pat(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(pat: &str) -> (ret: Result<Regex, ReError>)
        ensures sp_re_valid(pat@) ==> ret is Ok, ret is Ok ==> ret->Ok_0.pat() == pat@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn captures<'t>(&self, text: &'t str) -> (ret: Option<Captures<'t>>)
        ensures match sp_re_captures(self.pat(), text@) { None => ret is None, Some(g) => ret is Some && ret->0.groups() == g }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, text: &str) -> (ret: bool)
        ensures ret == (sp_re_captures(self.pat(), text@) is Some)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn captures_iter<'t>(&self, text: &'t str) -> (ret: VIter<Captures<'t>>)
        ensures ret.rem().len() == sp_re_all(self.pat(), text@).len(),
            forall|i: int| 0 <= i < ret.rem().len() ==> (#[trigger] ret.rem()[i]).groups() == sp_re_all(self.pat(), text@)[i].groups,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_replace_all<'t, F: Fn(&Captures<'t>) -> String>(&self, text: &'t str, f: F) -> (ret: String)
        requires forall|c: &Captures<'t>| #![trigger c.groups()] (exists|i: int| 0 <= i < sp_re_all(self.pat(), text@).len() && c.groups() == #[trigger] sp_re_all(self.pat(), text@)[i].groups) ==> call_requires(f, (c,))
        ensures forall|g: spec_fn(Seq<Option<Seq<char>>>) -> Seq<char>| (forall|c: &Captures<'t>, r: String| (#[trigger] call_ensures(f, (c,), r)) && (exists|i: int| 0 <= i < sp_re_all(self.pat(), text@).len() && c.groups() == #[trigger] sp_re_all(self.pat(), text@)[i].groups) ==> r@ == g(c.groups()))
            ==> ret@ == #[trigger] sp_re_glue(sp_re_all(self.pat(), text@), g) + sp_re_tail(self.pat(), text@),
    { unimplemented!() }
}
impl<'t> Captures<'t> {
    pub uninterp spec fn groups(&self) -> Seq<Option<Seq<char>>>;
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (ret: Option<Match<'t>>)
        ensures
            i >= self.groups().len() ==> ret is None,
            i < self.groups().len() ==> match self.groups()[i as int] { None => ret is None, Some(s) => ret is Some && ret->0.text() == s },
    { unimplemented!() }
}
impl<'t> Match<'t> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (ret: &'t str) ensures ret@ == self.text() { unimplemented!() }
}

// ---- languages

#[verifier::external_body]
pub struct LanguageRange<'a> { inner: &'a str }
#[verifier::external_body]
pub struct LangError { inner: () }
impl<'a> LanguageRange<'a> {
    pub uninterp spec fn lang(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn invariant() -> (ret: LanguageRange<'static>) ensures ret.lang() == sp_lang_invariant() { unimplemented!() }
    #[verifier::external_body]
    pub fn new(s: &'a str) -> (ret: Result<LanguageRange<'a>, LangError>)
        ensures match sp_lang_new(s@) { None => ret is Err, Some(l) => ret is Ok && ret->Ok_0.lang() == l } { unimplemented!() }
    #[verifier::external_body]
    pub fn from_unix(s: &str) -> (ret: Result<LanguageRange<'static>, LangError>)
        ensures match sp_lang_unix(s@) { None => ret is Err, Some(l) => ret is Ok && ret->Ok_0.lang() == l } { unimplemented!() }
    #[verifier::external_body]
    pub fn into_static(self) -> (ret: LanguageRange<'static>) ensures ret.lang() == self.lang() { unimplemented!() }
}
