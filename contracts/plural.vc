@@fn plural::formula::node::bool_to_num
ensures ret == sp_bool(b)
@@fn plural::formula::node::get_infinity
ensures ret == (if v < 0 { -0x8000_0000_0000_0000int } else { 0x7fff_ffff_ffff_ffffint })
@@fn plural::formula::node::Node::new_num
ensures ret == Node::Num(v)
@@fn plural::formula::node::Node::new_unop
ensures ret == (Node::UnOp { op, rhs: Box::new(rhs) })
@@fn plural::formula::node::Node::new_binop
ensures ret == (Node::BinOp { op, lhs: Box::new(lhs), rhs: Box::new(rhs) })
@@fn plural::formula::node::Node::new_cond
ensures ret == (Node::Cond { test: Box::new(test), if_true: Box::new(if_true), if_false: Box::new(if_false) })
@@fn plural::formula::node::Node::execute
ensures ret == sp_eval(*self, n as int)
decreases self
@@fn plural::formula::Formula::execute
ensures count <= 0x7fff_ffff_ffff_ffff ==> sp_eval(self.expr, count as int) <= 0x7fff_ffff_ffff_ffff && ret == (if sp_eval(self.expr, count as int) < 0 { None::<usize> } else { Some(sp_eval(self.expr, count as int) as usize) })
@@fn plural::forms::PluralForms::get_value
ensures count <= 0x7fff_ffff_ffff_ffff ==> (match sp_index(*self, count as int) { Some(i) => ret == Some(i as usize), None => ret is None })
@@fn plural::forms::PluralForms::get_count
ensures ret == self.count
@@fn plural::forms::PluralForms::get_definition
ensures ret@ == self.definition@
@@fn plural::forms::PluralForms::get_formula
ensures ret@ == self.formula_source@
@@fn plural::formula::Formula::parse
ensures match sp_formula_of(input@) { Some(e) => ret is Ok && ret->Ok_0.expr == e, None => ret is Err }
@@fn plural::forms::PluralForms::parse
requires parser.wf()
ensures match sp_pf(input@) { Some(f) => ret is Ok && sp_pforms(ret->Ok_0) == f, None => ret is Err }
@@drop plural::formula::Formula.PartialEq
@@drop plural::formula::Formula.Eq
@@drop plural::formula::node::Node.PartialEq
@@drop plural::formula::node::Node.Eq
@@end
@@moditems plural::formula
pub mod formula {
    use vstd::prelude::*; use crate::shim::*; use crate::spec::*; use super::node::Node;
    /// The parser that LALRPOP makes of formula.lalrpop
    pub struct FormulaParser {}
    impl FormulaParser {
        pub fn new() -> Self { FormulaParser {} }
        #[verifier::external_body]
        pub fn v_parse(&self, input: &str) -> (ret: Result<Node, ParseError<usize, String, String>>)
            ensures match sp_formula(input@) { Some(t) => ret == Ok::<Node, ParseError<usize, String, String>>(t), None => ret is Err }
        { unimplemented!() }
    }
}
@@end
@@fn plural::plural::Plural::new
ensures ret == (Plural { forms, singular, plural, values })
@@fn plural::plural::Plural::singular
ensures ret@ == self.singular@
@@fn plural::plural::Plural::plural
ensures ret@ == self.plural@
@@fn plural::plural::Plural::first
ensures ret@ == sp_first_text(*self)
@@fn plural::plural::Plural::get
ensures count <= 0x7fff_ffff_ffff_ffff ==> sp_os(ret) == sp_plural_text(*self, count as int)
@@fn plural::plural::Plural::values
ensures *ret == self.values
@@fn plural::plural::Plural::is_blank
ensures ret == sp_plural_blank(*self)
@@fn plural::plural::Plural::get_forms
ensures self.forms is None ==> ret is None, self.forms is Some ==> ret is Some && *(ret->0) == *(self.forms->0)
@@fn enums::message::Message::is_empty
ensures ret == sp_is_empty(*self)
@@fn enums::message::Message::is_simple
ensures ret == (self is Simple && !sp_is_empty(*self))
@@fn enums::message::Message::is_plural
ensures ret == (self is Plural)
@@fn enums::message::Message::is_blank
ensures ret == sp_is_blank(*self)
@@fn enums::message::Message::get_id
ensures ret@ == sp_id(*self)
@@fn enums::message::Message::get_text
ensures ret@ == sp_text(*self)
@@fn enums::message::Message::get_plural_id
ensures sp_os(ret) == sp_plural_id(*self)
@@fn enums::message::Message::get_plural_text
ensures count <= 0x7fff_ffff_ffff_ffff ==> sp_os(ret) == sp_text_for(*self, count as int)
@@fn enums::message::Message::plural
ensures match *self { Message::Plural(p) => ret is Some && *(ret->0) == p, _ => ret is None }
@@fn enums::message::Message.Default::default
ensures ret is Simple, ret->id@ == Seq::<char>::empty(), ret->text is None
@@fn enums::message::Message.PartialEq::eq
ensures ret == sp_msg_eq(*self, *other)
@@moditems enums::message
impl vstd::std_specs::cmp::PartialEqSpecImpl for Message {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { sp_msg_eq(*self, *other) }
}
@@fn comment::Comment::new
ensures ret == (Comment { kind, content })
@@fn comment::Comment::kind
ensures ret == self.kind
@@fn comment::Comment::comment
ensures ret@ == self.content@
@@fn note::Note::new
ensures ret == (Note { origin, value })
@@fn note::Note::origin
ensures *ret == self.origin
@@fn note::Note::value
ensures ret@ == self.value@
@@fn enums::state::State.Default::default
ensures ret == State::Empty
@@fn unit::Unit::context
ensures sp_os(ret) == sp_oss(self.context)
@@fn unit::Unit::message
ensures *ret == self.message
@@fn unit::Unit::prev_context
ensures sp_os(ret) == sp_oss(self.prev_context)
@@fn unit::Unit::prev_message
ensures *ret == self.prev_message
@@fn unit::Unit::flags
ensures *ret == self.flags
@@fn unit::Unit::notes
ensures *ret == self.notes
@@fn unit::Unit::locations
ensures *ret == self.locations
@@fn unit::Unit::comments
ensures *ret == self.comments
@@fn unit::Unit::state
ensures ret == self.state
@@fn unit::Unit::is_translated
ensures ret == (self.state == State::Final)
@@fn unit::Unit::is_obsolete
ensures ret == self.obsolete
@@fn unit::Unit.Default::default
ensures sp_unit(ret).context == sp_unit0().context, sp_unit(ret).message == sp_unit0().message, sp_unit(ret).prev_message == sp_unit0().prev_message,
 sp_unit(ret).flags =~= sp_unit0().flags, sp_unit(ret).notes =~= sp_unit0().notes, sp_unit(ret).locations =~= sp_unit0().locations,  sp_unit(ret).comments =~= sp_unit0().comments,
 sp_unit(ret).state == State::Empty, !ret.obsolete, sp_unit(ret) == sp_unit0()
@@end
