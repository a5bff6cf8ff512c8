// C02 as lemmas over the contracts of Message and Plural
use vstd::prelude::*;
use crate::shim::*;
use crate::spec::*;
use crate::enums::message::*;
use crate::plural::plural::*;
use crate::plural::forms::*;

/// the text is the stored translation number sp_index, and nothing else
pub proof fn text_of_index(p: Plural, n: int)
    ensures match p.forms {
        None => sp_plural_text(p, n) is None,
        Some(f) => match sp_index(*f, n) {
            None => sp_plural_text(p, n) is None,
            Some(i) => sp_plural_text(p, n) == (if i < p.values@.len() { Some(p.values@[i]@) } else { None }),
        },
    }
{
}
/// a simple entry has the same text for every count
pub proof fn simple_text(m: Message, a: int, b: int)
    requires m is Simple
    ensures sp_text_for(m, a) == sp_text_for(m, b), sp_text_for(m, a) is Some ==> sp_text_for(m, a)->0 == sp_text(m)
{
}
/// the first text of a plural entry that is blank is empty
pub proof fn blank_text(m: Message)
    requires sp_is_blank(m)
    ensures sp_text(m).len() == 0
{
}
