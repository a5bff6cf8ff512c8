// C17 as lemmas over the contract of Message::eq (sp_msg_eq)
use vstd::prelude::*;
use crate::shim::*;
use crate::spec::*;
use crate::enums::message::*;

pub proof fn reflexive(a: Message) ensures sp_msg_eq(a, a) {}
pub proof fn symmetric(a: Message, b: Message) requires sp_msg_eq(a, b) ensures sp_msg_eq(b, a) {}
pub proof fn transitive(a: Message, b: Message, c: Message) requires sp_msg_eq(a, b), sp_msg_eq(b, c) ensures sp_msg_eq(a, c) {}
pub proof fn kinds(a: Message, b: Message) requires a is Simple, b is Plural ensures !sp_msg_eq(a, b), !sp_msg_eq(b, a) {}
pub proof fn missing_is_empty(a: Message, b: Message)
    requires a is Simple, b is Simple
    ensures sp_msg_eq(a, b) <==> (sp_id(a) == sp_id(b) && sp_text(a) == sp_text(b))
{
}
