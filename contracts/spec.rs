// Specification functions: what the properties say, independently of the code.
use vstd::prelude::*;
use crate::plural::formula::node::*;
use crate::plural::formula::*;
use crate::plural::*;
use crate::plural::plural::*;
use crate::enums::*;
use crate::enums::message::*;
use crate::comment::*;
use crate::note::*;
use crate::unit::*;
use crate::error::Error;
use crate::po::line::PoLine;
use crate::regex::*;
use crate::extracted::sp_udigit;

// ---- signed 64-bit arithmetic, C rules

pub open spec fn sp_wrap(x: int) -> int {
    let m = x % 0x1_0000_0000_0000_0000;
    if m >= 0x8000_0000_0000_0000 { m - 0x1_0000_0000_0000_0000 } else { m }
}
/// division truncated toward zero (b != 0)
pub open spec fn sp_tdiv(a: int, b: int) -> int {
    let q = (if a < 0 { -a } else { a }) / (if b < 0 { -b } else { b });
    if (a < 0) == (b < 0) { q } else { -q }
}
/// its remainder: the sign of a
pub open spec fn sp_trem(a: int, b: int) -> int {
    let r = (if a < 0 { -a } else { a }) % (if b < 0 { -b } else { b });
    if a < 0 { -r } else { r }
}
pub open spec fn sp_bool(b: bool) -> int { if b { 1 } else { 0 } }

/// The value of a plural formula
pub open spec fn sp_eval(f: Node, n: int) -> int
    decreases f
{
    match f {
        Node::Var => n,
        Node::Num(v) => v as int,
        Node::UnOp { op, rhs } => {
            let r = sp_eval(*rhs, n);
            match op {
                UnOp::Neg => sp_wrap(-r),
                UnOp::Not => sp_bool(r == 0),
            }
        }
        Node::BinOp { op, lhs, rhs } => {
            let a = sp_eval(*lhs, n);
            let b = sp_eval(*rhs, n);
            match op {
                BinOp::Add => sp_wrap(a + b),
                BinOp::Sub => sp_wrap(a - b),
                BinOp::Mul => sp_wrap(a * b),
                BinOp::Div => if b == 0 { if a < 0 { -0x8000_0000_0000_0000 } else { 0x7fff_ffff_ffff_ffff } } else { sp_wrap(sp_tdiv(a, b)) },
                BinOp::Mod => if b == 0 { a } else { sp_wrap(sp_trem(a, b)) },
                BinOp::And => sp_bool(a != 0 && b != 0),
                BinOp::Or => sp_bool(a != 0 || b != 0),
                BinOp::Eq => sp_bool(a == b),
                BinOp::Ne => sp_bool(a != b),
                BinOp::Lt => sp_bool(a < b),
                BinOp::Lte => sp_bool(a <= b),
                BinOp::Gt => sp_bool(a > b),
                BinOp::Gte => sp_bool(a >= b),
            }
        }
        Node::Cond { test, if_true, if_false } =>
            if sp_eval(*test, n) != 0 { sp_eval(*if_true, n) } else { sp_eval(*if_false, n) },
    }
}

/// The index of the plural form for `n`, if any
pub open spec fn sp_index(f: PluralForms, n: int) -> Option<int> {
    let v = sp_eval(f.formula.expr, n);
    if 0 <= v < f.count { Some(v) } else { None }
}

// ---- plural texts and messages

pub open spec fn sp_os(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn sp_oss(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// texts of a list of strings
pub open spec fn sp_texts(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
pub open spec fn sp_strs(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn sp_vs(v: Vec<String>) -> Seq<Seq<char>> { sp_strs(v@) }

/// Text of a plural entry for a count: the translation whose index the formula gives
pub open spec fn sp_plural_text(p: Plural, n: int) -> Option<Seq<char>> {
    match p.forms {
        None => None,
        Some(f) => match sp_index(*f, n) {
            None => None,
            Some(i) => if i < p.values@.len() { Some(p.values@[i]@) } else { None },
        },
    }
}
pub open spec fn sp_first_text(p: Plural) -> Seq<char> { if p.values@.len() > 0 { p.values@[0]@ } else { Seq::empty() } }
pub open spec fn sp_plural_blank(p: Plural) -> bool { forall|i: int| 0 <= i < p.values@.len() ==> (#[trigger] p.values@[i])@.len() == 0 }
pub open spec fn sp_is_empty(m: Message) -> bool { match m { Message::Simple { id, .. } => id@.len() == 0, _ => false } }
pub open spec fn sp_otext(t: Option<String>) -> Seq<char> { match t { Some(s) => s@, None => Seq::empty() } }
pub open spec fn sp_is_blank(m: Message) -> bool {
    match m { Message::Simple { text, .. } => sp_otext(text).len() == 0, Message::Plural(p) => sp_plural_blank(p) }
}
pub open spec fn sp_id(m: Message) -> Seq<char> { match m { Message::Simple { id, .. } => id@, Message::Plural(p) => p.singular@ } }
pub open spec fn sp_text(m: Message) -> Seq<char> { match m { Message::Simple { text, .. } => sp_otext(text), Message::Plural(p) => sp_first_text(p) } }
pub open spec fn sp_plural_id(m: Message) -> Option<Seq<char>> { match m { Message::Simple { .. } => None, Message::Plural(p) => Some(p.plural@) } }
pub open spec fn sp_text_for(m: Message, n: int) -> Option<Seq<char>> {
    match m { Message::Simple { text, .. } => sp_oss(text), Message::Plural(p) => sp_plural_text(p, n) }
}
/// Equality of messages
pub open spec fn sp_msg_eq(a: Message, b: Message) -> bool {
    match (a, b) {
        (Message::Simple { id: ia, text: ta }, Message::Simple { id: ib, text: tb }) => ia@ == ib@ && sp_otext(ta) == sp_otext(tb),
        (Message::Plural(p), Message::Plural(q)) => p.singular@ == q.singular@ && p.plural@ == q.plural@,
        _ => false,
    }
}

// ---- units, as values

pub ghost enum SMessage {
    Simple { id: Seq<char>, text: Option<Seq<char>> },
    Plural { singular: Seq<char>, plural: Seq<char>, values: Seq<Seq<char>>, forms: Option<SForms> },
}
pub ghost struct SForms { pub expr: Node, pub count: nat, pub definition: Seq<char>, pub formula: Seq<char> }
pub ghost struct SNote { pub origin: Origin, pub value: Seq<char> }
pub ghost struct SComment { pub kind: char, pub text: Seq<char> }
pub ghost struct SUnit {
    pub context: Option<Seq<char>>,
    pub message: SMessage,
    pub prev_context: Option<Seq<char>>,
    pub prev_message: SMessage,
    pub flags: Set<Seq<char>>,
    pub notes: Seq<SNote>,
    pub locations: Seq<Seq<char>>,
    pub comments: Seq<SComment>,
    pub state: State,
    pub obsolete: bool,
}
pub open spec fn sp_forms(f: Option<std::rc::Rc<PluralForms>>) -> Option<SForms> { match f { Some(f) => Some(sp_pforms(*f)), None => None } }
pub open spec fn sp_pforms(f: PluralForms) -> SForms { SForms { expr: f.formula.expr, count: f.count as nat, definition: f.definition@, formula: f.formula_source@ } }
pub open spec fn sp_note(n: Note) -> SNote { SNote { origin: n.origin, value: n.value@ } }
pub open spec fn sp_notes(n: Vec<Note>) -> Seq<SNote> { n@.map_values(|n: Note| sp_note(n)) }
pub open spec fn sp_comment(n: Comment) -> SComment { SComment { kind: n.kind, text: n.content@ } }
pub open spec fn sp_comments_of(n: Vec<Comment>) -> Seq<SComment> { n@.map_values(|n: Comment| sp_comment(n)) }
pub open spec fn sp_message(m: Message) -> SMessage {
    match m {
        Message::Simple { id, text } => SMessage::Simple { id: id@, text: sp_oss(text) },
        Message::Plural(p) => SMessage::Plural { singular: p.singular@, plural: p.plural@, values: sp_vs(p.values), forms: sp_forms(p.forms) },
    }
}
pub open spec fn sp_unit(u: Unit) -> SUnit {
    SUnit {
        context: sp_oss(u.context), message: sp_message(u.message), prev_context: sp_oss(u.prev_context), prev_message: sp_message(u.prev_message),
        flags: u.flags@, notes: sp_notes(u.notes), locations: sp_vs(u.locations), comments: sp_comments_of(u.comments), state: u.state, obsolete: u.obsolete,
    }
}
pub open spec fn sp_no_message() -> SMessage { SMessage::Simple { id: Seq::empty(), text: None } }
/// nothing read yet
pub open spec fn sp_unit0() -> SUnit {
    SUnit {
        context: None, message: sp_no_message(), prev_context: None, prev_message: sp_no_message(),
        flags: Set::empty(), notes: Seq::empty(), locations: Seq::empty(), comments: Seq::empty(), state: State::Empty, obsolete: false,
    }
}

// ---- lines and errors, as values

pub ghost enum SLine {
    Blank,
    Comment(int, char, Seq<char>),
    Message(int, Seq<char>, Seq<char>, Seq<char>),
    Continuation(int, Seq<char>, Seq<char>),
}
pub ghost enum SError {
    Io(int, crate::shim::IoError),
    Parse(int, Seq<char>, Seq<char>),
    Unexpected(int, Seq<char>),
    PluralForms(Seq<char>),
}
pub open spec fn sp_line(l: PoLine) -> SLine {
    match l {
        PoLine::Blank => SLine::Blank,
        PoLine::Comment(n, c, s) => SLine::Comment(n as int, c, s@),
        PoLine::Message(n, p, t, s) => SLine::Message(n as int, p@, t@, s@),
        PoLine::Continuation(n, p, s) => SLine::Continuation(n as int, p@, s@),
    }
}
pub open spec fn sp_err(e: Error) -> SError {
    match e {
        Error::Io(n, e) => SError::Io(n as int, e),
        Error::Parse(n, a, b) => SError::Parse(n as int, a@, b@),
        Error::Unexpected(n, a) => SError::Unexpected(n as int, a@),
        Error::PluralForms(a) => SError::PluralForms(a@),
    }
}
/// number of a line
pub open spec fn sp_line_no(l: SLine) -> int { match l { SLine::Blank => 0, SLine::Comment(n, _, _) => n, SLine::Message(n, _, _, _) => n, SLine::Continuation(n, _, _) => n } }
/// what remains of the input: its lines, with numbers, up to the end or the first error
/// the text of an error; a system error with its `Debug` text when `dbg`
pub open spec fn sp_error_text(e: Error, dbg: bool) -> Seq<char> {
    match e {
        Error::Io(n, e) => {
            let t = if dbg { crate::shim::VDbg::dbg(&e) } else { crate::shim::VDisp::disp(&e) };
            if n == 0 { t } else { t + " at line "@ + sp_dec(n as nat) }
        }
        Error::Unexpected(n, m) => if n == 0 { "Unexpected error: "@ + m@ } else { "Unexpected error at line "@ + sp_dec(n as nat) + ": "@ + m@ },
        Error::PluralForms(m) => "Error in plurals forms: "@ + m@,
        Error::Parse(n, got, want) => "Parse error at line "@ + sp_dec(n as nat)
            + (if want@.len() == 0 { Seq::empty() } else { " expected ‘"@ + want@ + "’"@ })
            + (if got@.len() == 0 { Seq::empty() } else { ", got ‘"@ + got@ + "’"@ }),
    }
}
pub type Rem = Seq<Result<SLine, SError>>;
pub open spec fn sp_rl(r: Result<PoLine, Error>) -> Result<SLine, SError> { match r { Ok(l) => Ok(sp_line(l)), Err(e) => Err(sp_err(e)) } }
pub open spec fn sp_runit(r: Result<(), Error>) -> Result<(), SError> { match r { Ok(_) => Ok(()), Err(e) => Err(sp_err(e)) } }
pub open spec fn sp_rol(r: Result<Option<PoLine>, Error>) -> Result<Option<SLine>, SError> {
    match r { Ok(Some(l)) => Ok(Some(sp_line(l))), Ok(None) => Ok(None), Err(e) => Err(sp_err(e)) }
}
pub open spec fn sp_ros(r: Result<Option<String>, Error>) -> Result<Option<Seq<char>>, SError> {
    match r { Ok(o) => Ok(sp_oss(o)), Err(e) => Err(sp_err(e)) }
}
pub open spec fn sp_rom(r: Result<Option<Message>, Error>) -> Result<Option<SMessage>, SError> {
    match r { Ok(Some(m)) => Ok(Some(sp_message(m))), Ok(None) => Ok(None), Err(e) => Err(sp_err(e)) }
}
pub open spec fn sp_rou(r: Result<Option<Unit>, Error>) -> Result<Option<SUnit>, SError> {
    match r { Ok(Some(m)) => Ok(Some(sp_unit(m))), Ok(None) => Ok(None), Err(e) => Err(sp_err(e)) }
}
pub open spec fn sp_oru(r: Option<Result<Unit, Error>>) -> Option<Result<SUnit, SError>> {
    match r { Some(Ok(m)) => Some(Ok(sp_unit(m))), None => None, Some(Err(e)) => Some(Err(sp_err(e))) }
}

// ---- fields of an entry

pub open spec fn sp_tilde(p: Seq<char>) -> bool { p.len() > 0 && p[0] == '~' }

/// The continuation lines with this marker, appended
pub open spec fn sp_conts(rem: Rem, prefix: Seq<char>, acc: Seq<char>) -> (Result<Option<Seq<char>>, SError>, Rem) decreases rem.len() {
    if rem.len() == 0 { (Ok(Some(acc)), rem) }
    else {
        match rem[0] {
            Err(e) => (Err(e), rem.skip(1)),
            Ok(SLine::Continuation(_, p, s)) => if p == prefix { sp_conts(rem.skip(1), prefix, acc + s) } else { (Ok(Some(acc)), rem) },
            _ => (Ok(Some(acc)), rem),
        }
    }
}
/// The value of a keyword, if its line comes next
pub open spec fn sp_field(rem: Rem, tag: Seq<char>, obs: bool) -> (Result<Option<Seq<char>>, SError>, Rem) {
    if rem.len() == 0 { (Ok(None), rem) }
    else {
        match rem[0] {
            Err(e) => (Err(e), rem.skip(1)),
            Ok(SLine::Message(_, p, t, s)) => if t == tag && sp_tilde(p) == obs { sp_conts(rem.skip(1), p, s) } else { (Ok(None), rem) },
            _ => (Ok(None), rem),
        }
    }
}
/// What a missing keyword means: an error about the line found, or nothing at the end of the input
pub open spec fn sp_expected(rem: Rem, exp: Seq<char>) -> (Result<(), SError>, Rem) {
    if rem.len() == 0 { (Ok(()), rem) }
    else {
        match rem[0] {
            Err(e) => (Err(e), rem.skip(1)),
            Ok(SLine::Blank) => (Ok(()), rem),
            Ok(SLine::Message(n, p, _, _)) => (Err(SError::Parse(n, p, exp)), rem),
            Ok(SLine::Continuation(n, _, _)) => (Err(SError::Parse(n, "\""@, exp)), rem),
            Ok(SLine::Comment(n, c, _)) => (Err(SError::Parse(n, "#"@ + seq![c], exp)), rem),
        }
    }
}
pub open spec fn sp_msgstr(i: int) -> Seq<char> { "msgstr["@ + sp_dec(i as nat) + "]"@ }
/// msgstr[i], msgstr[i+1], ... up to the first one missing or the number of forms
pub open spec fn sp_plurals(rem: Rem, obs: bool, i: int, count: int, acc: Seq<Seq<char>>) -> (Result<Seq<Seq<char>>, SError>, Rem) decreases count - i {
    if i >= count { (Ok(acc), rem) }
    else {
        let (a, r) = sp_field(rem, sp_msgstr(i), obs);
        match a {
            Err(e) => (Err(e), r),
            Ok(None) => (Ok(acc), r),
            Ok(Some(v)) => sp_plurals(r, obs, i + 1, count, acc.push(v)),
        }
    }
}
pub open spec fn sp_count(forms: Option<SForms>) -> int { match forms { Some(f) => f.count as int, None => 2 } }
/// The message of an entry, from its identifiers on
pub open spec fn sp_new_message(rem: Rem, obs: bool, forms: Option<SForms>, id: Option<Seq<char>>, pl: Option<Seq<char>>) -> (Result<Option<SMessage>, SError>, Rem) {
    match (id, pl) {
        (None, _) => (Ok(Some(sp_no_message())), rem),
        (Some(id), None) => {
            let (a, r) = sp_field(rem, "msgstr"@, obs);
            match a {
                Err(e) => (Err(e), r),
                Ok(Some(text)) => (Ok(Some(SMessage::Simple { id, text: if text.len() == 0 { None } else { Some(text) } })), r),
                Ok(None) => {
                    let (b, q) = sp_expected(r, "msgstr"@);
                    (match b { Err(e) => Err(e), Ok(_) => Ok(None) }, q)
                }
            }
        }
        (Some(id), Some(pl)) => {
            let (a, r) = sp_plurals(rem, obs, 0, sp_count(forms), Seq::empty());
            match a {
                Err(e) => (Err(e), r),
                Ok(values) => if values.len() == 0 {
                    let (b, q) = sp_expected(r, "msgstr[0]"@);
                    (match b { Err(e) => Err(e), Ok(_) => Ok(None) }, q)
                } else {
                    (Ok(Some(SMessage::Plural { singular: id, plural: pl, values, forms })), r)
                },
            }
        }
    }
}
pub open spec fn sp_new_previous(forms: Option<SForms>, id: Option<Seq<char>>, pl: Option<Seq<char>>) -> SMessage {
    match (id, pl) {
        (None, _) => sp_no_message(),
        (Some(id), None) => SMessage::Simple { id, text: None },
        (Some(id), Some(pl)) => SMessage::Plural { singular: id, plural: pl, values: Seq::empty(), forms },
    }
}
/// The message lines of an entry
pub open spec fn sp_fields(r0: Rem, first: bool, forms: Option<SForms>, u: SUnit) -> (Result<Option<SUnit>, SError>, Rem) {
    let obs = u.obsolete;
    let (a, r1) = sp_field(r0, "|msgctxt"@, obs);
    match a { Err(e) => (Err(e), r1), Ok(prev_context) => {
        let (b, r2) = sp_field(r1, "|msgid"@, obs);
        match b { Err(e) => (Err(e), r2), Ok(prev_id) => {
            let (c, r3) = if prev_id is Some { sp_field(r2, "|msgid_plural"@, obs) } else { (Ok(None), r2) };
            match c { Err(e) => (Err(e), r3), Ok(prev_pl) => {
                let (d, r4) = sp_field(r3, "msgctxt"@, obs);
                match d { Err(e) => (Err(e), r4), Ok(context) => {
                    let (f, r5) = sp_field(r4, "msgid"@, obs);
                    match f { Err(e) => (Err(e), r5), Ok(id) => {
                        if !first && id is None {
                            let (x, r6) = sp_expected(r5, "msgid"@);
                            (match x { Err(e) => Err(e), Ok(_) => Ok(None) }, r6)
                        } else {
                            let (g, r6) = sp_field(r5, "msgid_plural"@, obs);
                            match g { Err(e) => (Err(e), r6), Ok(pl) => {
                                let (h, r7) = sp_new_message(r6, obs, forms, id, pl);
                                match h {
                                    Err(e) => (Err(e), r7),
                                    Ok(None) => (Ok(None), r7),
                                    Ok(Some(message)) => (Ok(Some(SUnit { prev_context, prev_message: sp_new_previous(forms, prev_id, prev_pl), context, message, ..u })), r7),
                                }
                            } }
                        }
                    } }
                } }
            } }
        } }
    } }
}

// ---- text

/// the Unicode White_Space property
pub open spec fn sp_ws(c: char) -> bool {
    let u = c as u32;
    9 <= u <= 13 || u == 32 || u == 0x85 || u == 0xa0 || u == 0x1680 || 0x2000 <= u <= 0x200a || u == 0x2028 || u == 0x2029 || u == 0x202f || u == 0x205f || u == 0x3000
}
pub open spec fn sp_trim_start(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && sp_ws(s[0]) { sp_trim_start(s.skip(1)) } else { s }
}
pub open spec fn sp_trim_end(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && sp_ws(s.last()) { sp_trim_end(s.drop_last()) } else { s }
}
pub open spec fn sp_trim(s: Seq<char>) -> Seq<char> { sp_trim_end(sp_trim_start(s)) }

/// decimal writing of a number
pub open spec fn sp_dec(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![sp_digit(n)] } else { sp_dec(n / 10).push(sp_digit(n % 10)) }
}
pub open spec fn sp_digit(n: nat) -> char { (48 + n) as char }
pub open spec fn sp_is_digit(c: char) -> bool { '0' <= c <= '9' }
/// the number written by decimal digits (at least one), possibly after a `+` as `str::parse` accepts
pub open spec fn sp_undec(s: Seq<char>) -> Option<nat> {
    let t = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if t.len() > 0 && (forall|i: int| 0 <= i < t.len() ==> sp_is_digit(t[i])) { Some(sp_value(t)) } else { None }
}
pub open spec fn sp_value(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { sp_value(s.drop_last()) * 10 + (s.last() as nat - 48) as nat }
}

/// bytes of the UTF-8 encoding
pub open spec fn sp_u8len(c: char) -> int {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x1_0000 { 3 } else { 4 }
}
/// byte offset of character number i
pub open spec fn sp_off(s: Seq<char>, i: int) -> int decreases i {
    if i <= 0 { 0 } else { sp_off(s, i - 1) + sp_u8len(s[i - 1]) }
}
/// i is the first place of c
pub open spec fn sp_first(s: Seq<char>, c: char, i: int) -> bool {
    0 <= i < s.len() && s[i] == c && forall|j: int| 0 <= j < i ==> s[j] != c
}
/// pieces between the separators (always at least one)
pub open spec fn sp_split(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] }
    else {
        let rest = sp_split(s.drop_last(), p);
        if p(s.last()) { rest.push(Seq::empty()) } else { rest.drop_last().push(rest.last().push(s.last())) }
    }
}

/// classes of characters
pub open spec fn sp_is(c: char) -> spec_fn(char) -> bool { |x: char| x == c }
pub open spec fn sp_isnt(c: char) -> spec_fn(char) -> bool { |x: char| x != c }
pub open spec fn sp_is_ws() -> spec_fn(char) -> bool { |x: char| sp_ws(x) }
pub open spec fn sp_trims(s: Seq<Seq<char>>) -> Seq<Seq<char>> { s.map_values(|x: Seq<char>| sp_trim(x)) }
pub open spec fn sp_non_empty(s: Seq<Seq<char>>) -> Seq<Seq<char>> { s.filter(|x: Seq<char>| x.len() > 0) }
/// what a mask keeps
pub open spec fn sp_keep<T>(s: Seq<T>, m: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 || m.len() == 0 { Seq::empty() } else if m.last() { sp_keep(s.drop_last(), m.drop_last()).push(s.last()) } else { sp_keep(s.drop_last(), m.drop_last()) }
}
/// concatenation with a separator
pub open spec fn sp_join(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { sp_join(s.drop_last(), sep) + sep + s.last() }
}

// ---- dependencies

/// the tree that the formula grammar gives to a text
pub open spec fn sp_formula(text: Seq<char>) -> Option<Node> { crate::grammar::formula(text) }

/// the tree of a regular expression
pub uninterp spec fn sp_re_ast(pat: Seq<char>) -> Option<ReAst>;
pub open spec fn sp_re_valid(pat: Seq<char>) -> bool { sp_re_ast(pat) is Some }
/// First match of a regular expression: the texts of its groups
pub open spec fn sp_re_captures(pat: Seq<char>, text: Seq<char>) -> Option<Seq<Option<Seq<char>>>> {
    let r = sp_re_ast(pat)->0;
    match re_find(r.re, text, 0) { None => None, Some((s, e, c)) => Some(re_groups(text, s, e, c, r.groups)) }
}
/// One match of a search for all matches: the text skipped before it, and its groups
pub struct ReHit { pub gap: Seq<char>, pub groups: Seq<Option<Seq<char>>> }
pub open spec fn sp_re_all(pat: Seq<char>, text: Seq<char>) -> Seq<ReHit> { re_hits(sp_re_ast(pat)->0, text, 0) }
/// what follows the last match
pub open spec fn sp_re_tail(pat: Seq<char>, text: Seq<char>) -> Seq<char> { re_rest(sp_re_ast(pat)->0, text, 0) }
pub open spec fn sp_re_glue(hits: Seq<ReHit>, g: spec_fn(Seq<Option<Seq<char>>>) -> Seq<char>) -> Seq<char> decreases hits.len() {
    if hits.len() == 0 { Seq::empty() } else { hits[0].gap + g(hits[0].groups) + sp_re_glue(hits.skip(1), g) }
}
pub uninterp spec fn sp_lang_invariant() -> Seq<char>;
pub uninterp spec fn sp_lang_new(s: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn sp_lang_unix(s: Seq<char>) -> Option<Seq<char>>;

// ---- lines of text

pub open spec fn sp_no_nl(s: Seq<char>) -> bool { !s.contains('\n') }
pub open spec fn sp_all_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> sp_ws(#[trigger] s[i]) }
/// length of the longest beginning of s made of characters of a class
pub open spec fn sp_run_len(s: Seq<char>, p: spec_fn(char) -> bool) -> int decreases s.len() {
    if s.len() > 0 && p(s[0]) { 1 + sp_run_len(s.skip(1), p) } else { 0 }
}
/// `0`, or digits that do not begin with `0`
pub open spec fn sp_index_text(s: Seq<char>) -> bool {
    s == seq!['0'] || (s.len() > 0 && '1' <= s[0] <= '9' && forall|i: int| 1 <= i < s.len() ==> sp_udigit(#[trigger] s[i]))
}
pub open spec fn sp_keyword(k: Seq<char>) -> bool {
    ||| k == "msgctxt"@
    ||| k == "msgid"@
    ||| k == "msgid_plural"@
    ||| k == "msgstr"@
    ||| (k.len() > 8 && k.take(7) == "msgstr["@ && k.last() == ']' && sp_index_text(k.subrange(7, k.len() - 1)))
}
pub open spec fn sp_skip_ws(s: Seq<char>) -> Seq<char> { sp_trim_start(s) }
/// the marker at the beginning of a message line
pub open spec fn sp_marker(s: Seq<char>) -> Seq<char> {
    if s.len() >= 3 && s[0] == '#' && s[1] == '~' && s[2] == '|' { seq!['~', '|'] }
    else if s.len() >= 2 && s[0] == '#' && s[1] == '~' { seq!['~'] }
    else if s.len() >= 2 && s[0] == '#' && s[1] == '|' { seq!['|'] }
    else { Seq::empty() }
}
pub open spec fn sp_kw_char(c: char) -> bool { !sp_ws(c) && c != '"' }
pub ghost struct MsgLine { pub marker: Seq<char>, pub keyword: Option<Seq<char>>, pub string: Seq<char> }
/// a quoted string and nothing else but space around it: what is between the first and the last quote
pub open spec fn sp_quoted(s: Seq<char>) -> Option<Seq<char>> {
    let t = sp_trim(s);
    if t.len() >= 2 && t[0] == '"' && t.last() == '"' { Some(t.subrange(1, t.len() - 1)) } else { None }
}
/// a message line or a continuation line: marker, keyword, string, each possibly after space
pub open spec fn sp_msg_line(line: Seq<char>) -> Option<MsgLine> {
    let l = sp_trim_start(line);
    let marker = sp_marker(l);
    let l2 = sp_trim_start(if marker.len() == 0 { l } else { l.skip(1 + marker.len() as int) });
    let k = sp_run_len(l2, |c: char| sp_kw_char(c));
    if k == 0 {
        match sp_quoted(l2) { None => None, Some(string) => Some(MsgLine { marker, keyword: None, string }) }
    } else if sp_keyword(l2.take(k)) {
        match sp_quoted(l2.skip(k)) { None => None, Some(string) => Some(MsgLine { marker, keyword: Some(l2.take(k)), string }) }
    } else { None }
}
/// a comment line: its marker character and its text
pub open spec fn sp_comment_line(line: Seq<char>) -> Option<(Option<char>, Seq<char>)> {
    let l = sp_trim_start(line);
    if l.len() == 0 || l[0] != '#' { None }
    else if l.len() == 1 { Some((None, Seq::empty())) }
    else { Some((Some(l[1]), sp_trim_start(l.skip(2)))) }
}
pub open spec fn sp_escape(c: char) -> Option<char> {
    if c == 'n' { Some('\n') } else if c == 'r' { Some('\r') } else if c == 't' { Some('\t') } else if c == '"' { Some('"') } else if c == '\\' { Some('\\') } else { None }
}
/// the text that a quoted string stands for
pub open spec fn sp_unescape(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s.len() >= 2 && s[0] == '\\' && sp_escape(s[1]) is Some { seq![sp_escape(s[1])->0] + sp_unescape(s.skip(2)) }
    else { seq![s[0]] + sp_unescape(s.skip(1)) }
}
/// what a line is
pub open spec fn sp_class(line: Seq<char>, n: int) -> Result<SLine, ()> {
    if sp_all_ws(line) { Ok(SLine::Blank) }
    else {
        match sp_msg_line(line) {
            Some(m) => match m.keyword {
                None => Ok(SLine::Continuation(n, m.marker, sp_unescape(m.string))),
                Some(k) => Ok(SLine::Message(n, m.marker, if m.marker.len() > 0 && m.marker.last() == '|' { "|"@ + k } else { k }, sp_unescape(m.string))),
            },
            None => match sp_comment_line(line) {
                Some((c, text)) => Ok(SLine::Comment(n, match c { Some(c) => c, None => ' ' }, text)),
                None => Err(()),
            },
        }
    }
}
/// what the lines of the source are: numbered, without the blank ones, up to the first error
pub open spec fn sp_lines(l: Seq<Result<String, crate::shim::IoError>>, n: int) -> Rem decreases l.len() {
    if l.len() == 0 { Seq::empty() }
    else {
        match l[0] {
            Err(e) => seq![Err(SError::Io(n, e))],
            Ok(s) => match sp_class(s@, n) {
                Err(_) => seq![Err(SError::Parse(n + 1, s@, Seq::empty()))],
                Ok(SLine::Blank) => sp_lines(l.skip(1), n + 1),
                Ok(x) => seq![Ok(x)] + sp_lines(l.skip(1), n + 1),
            },
        }
    }
}
pub open spec fn sp_text_lines(l: Seq<Result<String, crate::shim::IoError>>) -> bool { forall|i: int| 0 <= i < l.len() && #[trigger] l[i] is Ok ==> sp_no_nl(l[i]->Ok_0@) }

// ---- what the regular expressions of the crate must do

pub open spec fn sp_re_message(pat: Seq<char>) -> bool {
    forall|t: Seq<char>| sp_no_nl(t) ==> match sp_msg_line(t) {
        None => #[trigger] sp_re_captures(pat, t) is None,
        Some(m) => sp_re_captures(pat, t) is Some && ({
            let g = sp_re_captures(pat, t)->0;
            &&& g.len() == 4
            &&& g[1] == (if m.marker.len() == 0 { None } else { Some(m.marker) })
            &&& g[2] == m.keyword
            &&& g[3] == Some(m.string)
        }),
    }
}
pub open spec fn sp_re_comment(pat: Seq<char>) -> bool {
    forall|t: Seq<char>| sp_no_nl(t) ==> match sp_comment_line(t) {
        None => #[trigger] sp_re_captures(pat, t) is None,
        Some((c, s)) => sp_re_captures(pat, t) is Some && ({
            let g = sp_re_captures(pat, t)->0;
            &&& g.len() == 3
            &&& g[1] == (match c { None => None, Some(c) => Some(seq![c]) })
            &&& g[2] == Some(s)
        }),
    }
}
pub open spec fn sp_esc_text(g: Seq<Option<Seq<char>>>) -> Seq<char> { seq![sp_escape(g[1]->0[0])->0] }
pub open spec fn sp_re_escape(pat: Seq<char>) -> bool {
    forall|t: Seq<char>| ({
        let h = #[trigger] sp_re_all(pat, t);
        &&& forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).groups.len() == 2 && h[i].groups[1] is Some && h[i].groups[1]->0.len() == 1 && sp_escape(h[i].groups[1]->0[0]) is Some
        &&& sp_re_glue(h, |g: Seq<Option<Seq<char>>>| sp_esc_text(g)) + sp_re_tail(pat, t) == sp_unescape(t)
    })
}

// ---- definition lists: `key = value;` repeated

pub open spec fn sp_key_char(c: char) -> bool { !sp_ws(c) && c != '=' && c != ';' }
pub ghost struct Def { pub key: Seq<char>, pub value: Seq<char> }
/// one definition, without its `;` and without leading space
pub open spec fn sp_def(s: Seq<char>) -> Option<Def> {
    let k = sp_run_len(s, |c: char| sp_key_char(c));
    let r = sp_trim_start(s.skip(k));
    if k > 0 && r.len() > 0 && r[0] == '=' { Some(Def { key: s.take(k), value: sp_trim(r.skip(1)) }) } else { None }
}
/// the definitions of a list, in order
pub open spec fn sp_defs(s: Seq<char>) -> Option<Seq<Def>> decreases s.len() {
    let t = sp_trim_start(s);
    let d = sp_run_len(t, |c: char| c != ';');
    if t.len() == 0 { Some(Seq::empty()) }
    else if d < 0 || d >= t.len() || t.len() > s.len() { None }
    else {
        match sp_defs(t.skip(d + 1)) {
            None => None,
            Some(rest) => if d == 0 { Some(rest) } else { match sp_def(t.take(d)) { None => None, Some(f) => Some(seq![f] + rest) } },
        }
    }
}
/// the last definition of a key counts
pub open spec fn sp_def_map(d: Seq<Def>) -> Map<Seq<char>, Seq<char>> decreases d.len() {
    if d.len() == 0 { Map::empty() } else { sp_def_map(d.drop_last()).insert(d.last().key, d.last().value) }
}
pub open spec fn sp_views(m: Map<Seq<char>, &str>) -> Map<Seq<char>, Seq<char>> { Map::new(m.dom(), |k: Seq<char>| m[k]@) }
pub open spec fn sp_re_check(pat: Seq<char>) -> bool { forall|t: Seq<char>| #[trigger] sp_re_captures(pat, t) is Some <==> sp_defs(t) is Some }
pub open spec fn sp_hits_defs(h: Seq<ReHit>, d: Seq<Def>) -> bool {
    h.len() == d.len() && forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).groups.len() == 3 && h[i].groups[1] == Some(d[i].key) && h[i].groups[2] == Some(d[i].value)
}
pub open spec fn sp_re_map(pat: Seq<char>) -> bool { forall|t: Seq<char>| sp_defs(t) is Some ==> sp_hits_defs(#[trigger] sp_re_all(pat, t), sp_defs(t)->0) }

// ---- plural forms

/// the tree of a formula text: no text means `n`
pub open spec fn sp_formula_of(text: Seq<char>) -> Option<Node> {
    let t = sp_trim(text);
    if t.len() == 0 { Some(Node::Var) } else { sp_formula(t) }
}
/// the plural forms that a definition gives
pub open spec fn sp_pf(text: Seq<char>) -> Option<SForms> {
    match sp_defs(text) {
        None => None,
        Some(d) => {
            let m = sp_def_map(d);
            let formula = if m.contains_key("plural"@) { m["plural"@] } else { Seq::empty() };
            let count = if m.contains_key("nplurals"@) { sp_undec(m["nplurals"@]) } else { Some(2nat) };
            match (sp_formula_of(formula), count) {
                (Some(expr), Some(count)) => if count <= usize::MAX { Some(SForms { expr, count, definition: text, formula }) } else { None },
                _ => None,
            }
        }
    }
}

// ---- entries

/// the flags of a `#,` line
pub open spec fn sp_add_flag(u: SUnit, f: Seq<char>) -> SUnit { SUnit { flags: u.flags.insert(f), state: if f == "fuzzy"@ { State::NeedsWork } else { u.state }, ..u } }
pub open spec fn sp_add_flags(u: SUnit, items: Seq<Seq<char>>) -> SUnit decreases items.len() {
    if items.len() == 0 { u } else { sp_add_flags(sp_add_flag(u, items[0]), items.skip(1)) }
}
/// what a comment line adds to its entry
pub open spec fn sp_apply(u: SUnit, kind: char, text: Seq<char>) -> SUnit {
    if kind == ',' { sp_add_flags(u, sp_trims(sp_split(text, sp_is(',')))) }
    else if kind == ':' { SUnit { locations: u.locations + sp_non_empty(sp_split(text, sp_is_ws())), ..u } }
    else if kind == '.' { SUnit { notes: u.notes.push(SNote { origin: Origin::Developer, value: text }), ..u } }
    else if kind == ' ' { SUnit { notes: u.notes.push(SNote { origin: Origin::Translator, value: text }), ..u } }
    else { SUnit { comments: u.comments.push(SComment { kind, text }), ..u } }
}
/// the comment lines that come next; an error after them counts
pub open spec fn sp_comments(rem: Rem, u: SUnit) -> (Result<SUnit, SError>, Rem) decreases rem.len() {
    if rem.len() == 0 { (Ok(u), rem) }
    else {
        match rem[0] {
            Err(e) => (Err(e), rem.skip(1)),
            Ok(SLine::Comment(_, c, s)) => sp_comments(rem.skip(1), sp_apply(u, c, s)),
            _ => (Ok(u), rem),
        }
    }
}
/// the first message line of an entry: its number, and whether it is obsolete
pub open spec fn sp_read_line(rem: Rem) -> Option<(int, bool)> {
    if rem.len() == 0 { None }
    else {
        match rem[0] {
            Ok(SLine::Message(n, p, _, _)) => Some((n, sp_tilde(p))),
            Ok(l) => Some((sp_line_no(l), false)),
            Err(_) => None,
        }
    }
}
pub open spec fn sp_smsg_empty(m: SMessage) -> bool { match m { SMessage::Simple { id, .. } => id.len() == 0, _ => false } }
pub open spec fn sp_smsg_blank(m: SMessage) -> bool {
    match m {
        SMessage::Simple { text, .. } => match text { None => true, Some(t) => t.len() == 0 },
        SMessage::Plural { values, .. } => forall|i: int| 0 <= i < values.len() ==> (#[trigger] values[i]).len() == 0,
    }
}
/// an entry: its comments, then its message lines
pub open spec fn sp_read_unit(rem: Rem, first: bool, forms: Option<SForms>) -> (Result<Option<SUnit>, SError>, Rem) {
    let (a, r) = sp_comments(rem, sp_unit0());
    match a {
        Err(e) => (Err(e), r),
        Ok(u) => match sp_read_line(r) {
            None => (Ok(None), r),
            Some((line, obsolete)) => {
                let (b, q) = sp_fields(r, first, forms, SUnit { obsolete, ..u });
                match b {
                    Err(e) => (Err(e), q),
                    Ok(None) => (Ok(None), q),
                    Ok(Some(v)) =>
                        if !first && sp_smsg_empty(v.message) { (Err(SError::Unexpected(line, "Source should not be empty"@)), q) }
                        else { (Ok(Some(SUnit { state: if v.state == State::Empty && !sp_smsg_blank(v.message) { State::Final } else { v.state }, ..v })), q) },
                }
            }
        },
    }
}
/// everything that the iteration yields from there on
pub open spec fn sp_all(rem: Rem, forms: Option<SForms>) -> Seq<Result<SUnit, SError>> decreases rem.len() {
    let (a, r) = sp_read_unit(rem, false, forms);
    match a {
        Err(e) => seq![Err(e)],
        Ok(None) => Seq::empty(),
        Ok(Some(u)) => seq![Ok(u)] + (if r.len() < rem.len() { sp_all(r, forms) } else { Seq::empty() }),
    }
}

// ---- the header

/// `key: value`
pub open spec fn sp_prop(line: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let i = sp_run_len(line, sp_isnt(':'));
    if 0 <= i < line.len() { Some((sp_trim(line.take(i)), sp_trim(line.skip(i + 1)))) } else { None }
}
/// the values of every key, in order
pub open spec fn sp_add_prop(m: Map<Seq<char>, Seq<Seq<char>>>, line: Seq<char>) -> Map<Seq<char>, Seq<Seq<char>>> {
    match sp_prop(line) {
        None => m,
        Some((k, v)) => m.insert(k, if m.contains_key(k) { m[k].push(v) } else { seq![v] }),
    }
}
pub open spec fn sp_add_props(m: Map<Seq<char>, Seq<Seq<char>>>, lines: Seq<Seq<char>>) -> Map<Seq<char>, Seq<Seq<char>>> decreases lines.len() {
    if lines.len() == 0 { m } else { sp_add_props(sp_add_prop(m, lines[0]), lines.skip(1)) }
}
pub open spec fn sp_props(lines: Seq<Seq<char>>) -> Map<Seq<char>, Seq<Seq<char>>> { sp_add_props(Map::empty(), lines) }
pub open spec fn sp_mview(m: Map<Seq<char>, Vec<String>>) -> Map<Seq<char>, Seq<Seq<char>>> { m.map_values(|v: Vec<String>| sp_strs(v@)) }
pub open spec fn sp_pview(m: Map<Seq<char>, String>) -> Map<Seq<char>, Seq<char>> { m.map_values(|v: String| v@) }
pub open spec fn sp_joins(m: Map<Seq<char>, Seq<Seq<char>>>) -> Map<Seq<char>, Seq<char>> { m.map_values(|l: Seq<Seq<char>>| sp_join(l, " "@)) }
pub ghost struct SHeader { pub props: Map<Seq<char>, Seq<char>>, pub notes: Seq<SNote>, pub comments: Seq<SComment>, pub lang: Seq<char>, pub forms: Option<SForms> }
pub open spec fn sp_header0() -> SHeader { SHeader { props: Map::empty(), notes: Seq::empty(), comments: Seq::empty(), lang: sp_lang_invariant(), forms: None } }
pub open spec fn sp_stext(m: SMessage) -> Seq<char> {
    match m {
        SMessage::Simple { text, .. } => match text { None => Seq::empty(), Some(t) => t },
        SMessage::Plural { values, .. } => if values.len() > 0 { values[0] } else { Seq::empty() },
    }
}
pub open spec fn sp_lang_for(props: Map<Seq<char>, Seq<char>>) -> Seq<char> {
    if !props.contains_key("Language"@) { sp_lang_invariant() }
    else {
        let l = props["Language"@];
        match sp_lang_new(l) { Some(x) => x, None => match sp_lang_unix(l) { Some(x) => x, None => sp_lang_invariant() } }
    }
}
/// what the header entry says; nothing when its plural forms are wrong
pub open spec fn sp_header(u: SUnit) -> Option<SHeader> {
    let props = sp_joins(sp_props(sp_split(sp_stext(u.message), sp_is('\n'))));
    let h = SHeader { props, notes: u.notes, comments: u.comments, lang: sp_lang_for(props), forms: None };
    if props.contains_key("Plural-Forms"@) && props["Plural-Forms"@].len() > 0 {
        match sp_pf(props["Plural-Forms"@]) { None => None, Some(f) => Some(SHeader { forms: Some(f), ..h }) }
    } else { Some(h) }
}
/// Opening a catalogue: the header, and what the iteration will yield. An error is given, unless the header is wrong.
pub open spec fn sp_open(rem: Rem) -> Result<(SHeader, Seq<Result<SUnit, SError>>), Option<SError>> {
    let (a, r) = sp_read_unit(rem, true, None);
    match a {
        Err(e) => Err(Some(e)),
        Ok(None) => Ok((sp_header0(), Seq::empty())),
        Ok(Some(u)) =>
            if sp_smsg_empty(u.message) {
                match sp_header(u) { None => Err(None), Some(h) => Ok((h, sp_all(r, h.forms))) }
            } else { Ok((sp_header0(), seq![Ok(u)] + sp_all(r, None))) },
    }
}
