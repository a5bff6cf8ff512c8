// C01 as lemmas over the contracts of Node::execute and PluralForms::get_value
use vstd::prelude::*;
use crate::shim::*;
use crate::spec::*;
use crate::plural::formula::node::*;
use crate::plural::forms::*;

/// every value is a signed 64-bit integer
pub proof fn in_range(f: Node, n: int)
    requires 0 <= n <= i64::MAX
    ensures i64::MIN <= sp_eval(f, n) <= i64::MAX
    decreases f
{
    match f {
        Node::UnOp { rhs, .. } => { in_range(*rhs, n); }
        Node::BinOp { lhs, rhs, .. } => { in_range(*lhs, n); in_range(*rhs, n); }
        Node::Cond { test, if_true, if_false } => { in_range(*test, n); in_range(*if_true, n); in_range(*if_false, n); }
        _ => {}
    }
}
/// an index is only given in range
pub proof fn index_in_range(f: PluralForms, n: int)
    ensures sp_index(f, n) is Some ==> 0 <= sp_index(f, n)->0 < f.count && sp_index(f, n)->0 == sp_eval(f.formula.expr, n)
{
}
/// and is given whenever the value is in range
pub proof fn index_given(f: PluralForms, n: int)
    requires 0 <= sp_eval(f.formula.expr, n) < f.count
    ensures sp_index(f, n) == Some(sp_eval(f.formula.expr, n))
{
}
