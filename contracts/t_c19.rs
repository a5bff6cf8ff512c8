// C19 over the contracts of error.rs: what is printed, taken together
use vstd::prelude::*;
use crate::shim::*;
use crate::spec::*;
use crate::error::Error;

/// Two errors of a place and kind with the same texts print the same, and the text of an error with a line names the line
pub proof fn thm_line(e: Error, dbg: bool)
    ensures
        match e {
            Error::Io(n, x) => n > 0 ==> sp_error_text(e, dbg) == (if dbg { x.dbg() } else { x.disp() }) + (" at line "@ + sp_dec(n as nat)),
            Error::Unexpected(n, m) => n > 0 ==> sp_error_text(e, dbg) == "Unexpected error at line "@ + sp_dec(n as nat) + (": "@ + m@),
            Error::Parse(n, g, w) => ("Parse error at line "@ + sp_dec(n as nat)).is_prefix_of(sp_error_text(e, dbg)),
            Error::PluralForms(m) => m@.is_suffix_of(sp_error_text(e, dbg)),
        },
{
    match e {
        Error::Io(n, x) => {
            let t = if dbg { x.dbg() } else { x.disp() };
            assert(t + " at line "@ + sp_dec(n as nat) =~= t + (" at line "@ + sp_dec(n as nat)));
        }
        Error::Unexpected(n, m) => { assert("Unexpected error at line "@ + sp_dec(n as nat) + ": "@ + m@ =~= "Unexpected error at line "@ + sp_dec(n as nat) + (": "@ + m@)); }
        Error::Parse(n, g, w) => {
            let p = "Parse error at line "@ + sp_dec(n as nat);
            let s = sp_error_text(e, dbg);
            assert(s.subrange(0, p.len() as int) =~= p);
        }
        Error::PluralForms(m) => {
            let s = sp_error_text(e, dbg);
            assert(s.subrange(s.len() - m@.len(), s.len() as int) =~= m@);
        }
    }
}
/// Only system errors print otherwise for debugging
pub proof fn thm_debug(e: Error)
    ensures !(e is Io) ==> sp_error_text(e, true) == sp_error_text(e, false)
{}
/// What was found and what was expected stand in the text of a syntax error, in quotes, and only when there are any
pub proof fn thm_parse(n: usize, g: String, w: String)
    ensures
        g@.len() == 0 && w@.len() == 0 ==> sp_error_text(Error::Parse(n, g, w), false) == "Parse error at line "@ + sp_dec(n as nat),
        g@.len() > 0 ==> (", got ‘"@ + g@ + "’"@).is_suffix_of(sp_error_text(Error::Parse(n, g, w), false)),
        w@.len() > 0 ==> ("Parse error at line "@ + sp_dec(n as nat) + (" expected ‘"@ + w@ + "’"@)).is_prefix_of(sp_error_text(Error::Parse(n, g, w), false)),
{
    let s = sp_error_text(Error::Parse(n, g, w), false);
    let p = "Parse error at line "@ + sp_dec(n as nat);
    let x = " expected ‘"@ + w@ + "’"@;
    let y = ", got ‘"@ + g@ + "’"@;
    if g@.len() == 0 && w@.len() == 0 { assert(s =~= p); }
    if g@.len() > 0 { assert(s.subrange(s.len() - y.len(), s.len() as int) =~= y); }
    if w@.len() > 0 { assert(s.subrange(0, (p + x).len() as int) =~= p + x); }
}
