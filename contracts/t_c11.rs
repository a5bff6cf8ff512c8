// C11 as lemmas over the contracts of the reader (sp_comments, sp_read_unit)
use vstd::prelude::*;
use crate::shim::*;
use crate::spec::*;
use crate::enums::state::*;

/// nothing but comments read yet: needs-work if and only if flagged fuzzy
pub open spec fn early(u: SUnit) -> bool { u.state == (if u.flags.contains("fuzzy"@) { State::NeedsWork } else { State::Empty }) }

proof fn flags(u: SUnit, items: Seq<Seq<char>>)
    requires early(u)
    ensures early(sp_add_flags(u, items)), sp_add_flags(u, items).message == u.message
    decreases items.len()
{
    if items.len() > 0 { flags(sp_add_flag(u, items[0]), items.skip(1)); }
}
proof fn comments(rem: Rem, u: SUnit)
    requires early(u)
    ensures sp_comments(rem, u).0 is Ok ==> early(sp_comments(rem, u).0->Ok_0) && sp_comments(rem, u).0->Ok_0.message == u.message
    decreases rem.len()
{
    if rem.len() > 0 {
        match rem[0] {
            Ok(SLine::Comment(_, c, s)) => {
                if c == ',' { flags(u, sp_trims(sp_split(s, sp_is(',')))); }
                comments(rem.skip(1), sp_apply(u, c, s));
            }
            _ => {}
        }
    }
}
/// the state of every unit that is read
pub proof fn state(rem: Rem, first: bool, forms: Option<SForms>)
    ensures sp_read_unit(rem, first, forms).0 is Ok && sp_read_unit(rem, first, forms).0->Ok_0 is Some ==> ({
        let u = sp_read_unit(rem, first, forms).0->Ok_0->0;
        u.state == (if u.flags.contains("fuzzy"@) { State::NeedsWork } else if sp_smsg_blank(u.message) { State::Empty } else { State::Final })
    })
{
    comments(rem, sp_unit0());
}
/// a message is blank when it has no translation that is not empty
pub proof fn blank(m: SMessage)
    ensures sp_smsg_blank(m) <==> match m {
        SMessage::Simple { text, .. } => text is None || text->0.len() == 0,
        SMessage::Plural { values, .. } => forall|i: int| 0 <= i < values.len() ==> (#[trigger] values[i]).len() == 0,
    }
{
}
