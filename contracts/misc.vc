@@moditems error
    #[verifier::external]
    impl std::fmt::Debug for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
    impl VDisp for Error { open spec fn disp(&self) -> Seq<char> { sp_error_text(*self, false) } }
    impl vstd::std_specs::convert::FromSpecImpl<Error> for IoError { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(e: Error) -> Self; }
    impl VDbg for Error { open spec fn dbg(&self) -> Seq<char> { sp_error_text(*self, true) } }

@@fn error::Error.Display::fmt lits
@@body
proof { reveal_strlit(" at line "); assert(" at line "@ =~= Seq::<char>::empty().push(' ').push('a').push('t').push(' ').push('l').push('i').push('n').push('e').push(' ')); reveal_strlit("Unexpected error: "); assert("Unexpected error: "@ =~= Seq::<char>::empty().push('U').push('n').push('e').push('x').push('p').push('e').push('c').push('t').push('e').push('d').push(' ').push('e').push('r').push('r').push('o').push('r').push(':').push(' ')); reveal_strlit("Unexpected error at line "); assert("Unexpected error at line "@ =~= Seq::<char>::empty().push('U').push('n').push('e').push('x').push('p').push('e').push('c').push('t').push('e').push('d').push(' ').push('e').push('r').push('r').push('o').push('r').push(' ').push('a').push('t').push(' ').push('l').push('i').push('n').push('e').push(' ')); reveal_strlit(": "); assert(": "@ =~= Seq::<char>::empty().push(':').push(' ')); reveal_strlit("Error in plurals forms: "); assert("Error in plurals forms: "@ =~= Seq::<char>::empty().push('E').push('r').push('r').push('o').push('r').push(' ').push('i').push('n').push(' ').push('p').push('l').push('u').push('r').push('a').push('l').push('s').push(' ').push('f').push('o').push('r').push('m').push('s').push(':').push(' ')); reveal_strlit("Parse error at line "); assert("Parse error at line "@ =~= Seq::<char>::empty().push('P').push('a').push('r').push('s').push('e').push(' ').push('e').push('r').push('r').push('o').push('r').push(' ').push('a').push('t').push(' ').push('l').push('i').push('n').push('e').push(' ')); reveal_strlit(" expected ‘"); assert(" expected ‘"@ =~= Seq::<char>::empty().push(' ').push('e').push('x').push('p').push('e').push('c').push('t').push('e').push('d').push(' ').push('‘')); reveal_strlit(", got ‘"); assert(", got ‘"@ =~= Seq::<char>::empty().push(',').push(' ').push('g').push('o').push('t').push(' ').push('‘')); reveal_strlit("’"); assert("’"@ =~= Seq::<char>::empty().push('’')); }

@@fn error::Error.Debug::fmt lits
@@body
proof { reveal_strlit(" at line "); assert(" at line "@ =~= Seq::<char>::empty().push(' ').push('a').push('t').push(' ').push('l').push('i').push('n').push('e').push(' ')); reveal_strlit("Unexpected error: "); assert("Unexpected error: "@ =~= Seq::<char>::empty().push('U').push('n').push('e').push('x').push('p').push('e').push('c').push('t').push('e').push('d').push(' ').push('e').push('r').push('r').push('o').push('r').push(':').push(' ')); reveal_strlit("Unexpected error at line "); assert("Unexpected error at line "@ =~= Seq::<char>::empty().push('U').push('n').push('e').push('x').push('p').push('e').push('c').push('t').push('e').push('d').push(' ').push('e').push('r').push('r').push('o').push('r').push(' ').push('a').push('t').push(' ').push('l').push('i').push('n').push('e').push(' ')); reveal_strlit(": "); assert(": "@ =~= Seq::<char>::empty().push(':').push(' ')); reveal_strlit("Error in plurals forms: "); assert("Error in plurals forms: "@ =~= Seq::<char>::empty().push('E').push('r').push('r').push('o').push('r').push(' ').push('i').push('n').push(' ').push('p').push('l').push('u').push('r').push('a').push('l').push('s').push(' ').push('f').push('o').push('r').push('m').push('s').push(':').push(' ')); reveal_strlit("Parse error at line "); assert("Parse error at line "@ =~= Seq::<char>::empty().push('P').push('a').push('r').push('s').push('e').push(' ').push('e').push('r').push('r').push('o').push('r').push(' ').push('a').push('t').push(' ').push('l').push('i').push('n').push('e').push(' ')); reveal_strlit(" expected ‘"); assert(" expected ‘"@ =~= Seq::<char>::empty().push(' ').push('e').push('x').push('p').push('e').push('c').push('t').push('e').push('d').push(' ').push('‘')); reveal_strlit(", got ‘"); assert(", got ‘"@ =~= Seq::<char>::empty().push(',').push(' ').push('g').push('o').push('t').push(' ').push('‘')); reveal_strlit("’"); assert("’"@ =~= Seq::<char>::empty().push('’')); }

@@fn error::Error.StdError::source
ensures match self { Error::Io(_, e) => ret == Some(e), _ => ret is None }

@@fn error::IoError.From::from
ensures ret.sp_kind() == crate::shim::ErrorKind::Other, ret.disp() == error.disp(), ret.holds(error)
@@end
