@@fn po::line::PoLine::line
ensures ret as int == sp_line_no(sp_line(*self))
@@fn po::line::PoLine.Default::default
ensures ret is Blank

@@fn po::decoder::fetch_next
ensures ({
    let r = old(reader).rem();
    if r.len() == 0 { ret == Ok::<_, Error>(None) && final(reader).rem() == r }
    else { match r[0] {
        Ok(l) => ret is Ok && ret->Ok_0 is Some && sp_line(ret->Ok_0->0) == l && final(reader).rem() == r,
        Err(e) => ret is Err && sp_err(ret->Err_0) == e && final(reader).rem() == r.skip(1),
    } }
})
@@implitems po::decoder::Decoder
    /// the lines still to come
    spec fn rest(&self) -> Rem;
@@fn po::decoder::Decoder::parse_msg
ensures (sp_ros(ret), final(self).rest()) == sp_field(old(self).rest(), tag@, unit.obsolete)
@@fn po::decoder::Decoder::expected
ensures (sp_runit(ret), final(self).rest()) == sp_expected(old(self).rest(), exp@)
@@implitems po::decoder::Peekable.Decoder
    open spec fn rest(&self) -> Rem { self.rem() }
@@fn po::decoder::Peekable.Decoder::parse_msg touch
@@loop 0
invariant sp_conts(self.rem(), prefix@, string@) == sp_field(old(self).rem(), tag@, unit.obsolete)
ensures (sp_ros(Ok(Some(string))), self.rem()) == sp_field(old(self).rem(), tag@, unit.obsolete)
decreases self.rem().len()
@@fn po::decoder::Peekable.Decoder::expected

@@fn po::message_extractor::MessageExtractor::new
ensures ret.unit == unit, *ret.decoder == *old(decoder), *final(ret.decoder) == *final(decoder), ret.plural_forms == plural_forms
@@fn po::message_extractor::MessageExtractor::parse_msg
ensures (sp_ros(ret), final(self).decoder.rest()) == sp_field(old(self).decoder.rest(), tag@, old(self).unit.obsolete),
    final(self).unit == old(self).unit, final(self).plural_forms == old(self).plural_forms, *final(final(self).decoder) == *final(old(self).decoder)
@@fn po::message_extractor::MessageExtractor::expected
ensures (sp_runit(ret), final(self).decoder.rest()) == sp_expected(old(self).decoder.rest(), exp@),
    final(self).unit == old(self).unit, final(self).plural_forms == old(self).plural_forms, *final(final(self).decoder) == *final(old(self).decoder)
@@fn po::message_extractor::MessageExtractor::plural_forms
ensures ret == self.plural_forms
@@fn po::message_extractor::MessageExtractor::new_previous
ensures sp_message(ret) == sp_new_previous(sp_forms(self.plural_forms), sp_oss(msgid), sp_oss(msgid_pl))
@@fn po::message_extractor::MessageExtractor::new_message
ensures (sp_rom(ret), final(self).decoder.rest()) == sp_new_message(old(self).decoder.rest(), old(self).unit.obsolete, sp_forms(old(self).plural_forms), sp_oss(msgid), sp_oss(msgid_pl)),
    final(self).unit == old(self).unit, final(self).plural_forms == old(self).plural_forms, *final(final(self).decoder) == *final(old(self).decoder)
@@loop 0
invariant_except_break
    sp_plurals(self.decoder.rest(), self.unit.obsolete, vit__0 as int, count as int, sp_vs(values)) == sp_plurals(old(self).decoder.rest(), old(self).unit.obsolete, 0, count as int, Seq::empty()),
invariant
    vend__0 == count, vit__0 <= vend__0, count as int == sp_count(sp_forms(old(self).plural_forms)), sp_oss(msgid) is Some, sp_oss(msgid_pl) is Some,
    self.unit == old(self).unit, self.plural_forms == old(self).plural_forms, *final(self.decoder) == *final(old(self).decoder),
ensures (Ok::<Seq<Seq<char>>, SError>(sp_vs(values)), self.decoder.rest()) == sp_plurals(old(self).decoder.rest(), old(self).unit.obsolete, 0, count as int, Seq::empty())
decreases self.decoder.rest().len()
@@fn po::message_extractor::MessageExtractor::parse_message_fields
ensures (sp_rou(ret), final(self.decoder).rest()) == sp_fields(old(self.decoder).rest(), first, sp_forms(self.plural_forms), sp_unit(self.unit))
@@end
@@implitems po::unescape::Unescaper
    pub open spec fn wf(&self) -> bool {
        &&& sp_re_escape(self.re.pat())
        &&& sp_os(self.table[0]) == Some("\""@) && sp_os(self.table[29]) == Some("\\"@) && sp_os(self.table[38]) == Some("\n"@) && sp_os(self.table[40]) == Some("\r"@) && sp_os(self.table[41]) == Some("\t"@)
    }
@@fn po::unescape::Unescaper::new
ensures ret.wf()
@@body
    broadcast use {crate::extracted::regexes, crate::reproofs::relemmas};
@@fn po::unescape::Unescaper::replace_char
requires self.wf()
ensures sp_escape(ch) is Some ==> sp_os(ret) == Some(seq![sp_escape(ch)->0])
@@body
    proof { let x = ch as u32; assert((x & 1) == x % 2) by(bit_vector); lm_escapes(); }
@@fn po::unescape::Unescaper::unescape
requires self.wf()
ensures ret@ == sp_unescape(text@)
@@closure 0
|vp0: &Captures| -> (cr: String)
requires self.wf(), vp0.groups().len() == 2, vp0.groups()[1] is Some, vp0.groups()[1]->0.len() == 1, sp_escape(vp0.groups()[1]->0[0]) is Some
ensures cr@ == sp_esc_text(vp0.groups())

@@implitems po::parser::PoParser
    pub open spec fn wf(&self) -> bool {
        &&& sp_re_message(self.message_re.pat())
        &&& sp_re_comment(self.comment_re.pat())
        &&& sp_re_check(self.map_check_re.pat())
        &&& sp_re_map(self.map_re.pat())
        &&& self.unescaper.wf()
    }
@@fn po::parser::PoParser::new
ensures ret.wf()
@@body
    broadcast use {crate::extracted::regexes, crate::reproofs::relemmas};
@@fn po::parser::PoParser::parse_map
requires self.wf()
ensures match sp_defs(text@) { Some(d) => ret is Ok && sp_views(ret->Ok_0@) == sp_def_map(d), None => ret is Err }
@@body
    broadcast use crate::lemmas::defs;
@@closure 0
|vp0: Captures<'a>| -> (cr: Option<(&'a str, &'a str)>)
ensures vp0.groups().len() == 3 ==> match (vp0.groups()[1], vp0.groups()[2]) { (Some(k), Some(v)) => cr is Some && cr->Some_0.0@ == k && cr->Some_0.1@ == v, _ => cr is None }
@@fn po::parser::PoParser::parse_line
requires self.wf(), sp_no_nl(line@)
ensures match ret { Ok(l) => sp_class(line@, n as int) == Ok::<SLine, ()>(sp_line(l)), Err(_) => sp_class(line@, n as int) is Err }
@@body
        proof { reveal_strlit("|"); assert("|"@ == Seq::<char>::empty().push('|')); }
        broadcast use {crate::lemmas::lm_empty_add, crate::lemmas::lm_add_empty};
@@closure 0
|vp0: char| -> (cr: bool) ensures cr == !sp_ws(vp0)

@@fn po::parser::PoParser::parse
requires self.wf()
ensures match sp_open(sp_lines(sp_lines_of(reader), 1)) {
    Ok((h, items)) => ret is Ok && ret->Ok_0.header() == h && ret->Ok_0.rem() == items,
    Err(Some(e)) => ret is Err && sp_err(ret->Err_0) == e,
    Err(None) => ret is Err,
}
@@fn po::line_iter::LineIter::new
requires parser.wf()
ensures ret.rem() == sp_lines(sp_lines_of(r), 1), ret.wf()
@@implitems po::line_iter::LineIter.Iterator
    type S = Result<SLine, SError>;
    open spec fn iv(x: Result<PoLine, Error>) -> Result<SLine, SError> { sp_rl(x) }
    open spec fn rem(&self) -> Seq<Result<SLine, SError>> { match self.inner { None => Seq::empty(), Some(l) => sp_lines(l.rem(), self.n as int) } }
    open spec fn wf(&self) -> bool { self.parser.wf() && match self.inner { None => true, Some(l) => self.n + l.rem().len() <= usize::MAX && sp_text_lines(l.rem()) } }
@@fn po::line_iter::LineIter.Iterator::next
@@loop 0
invariant self.wf(), self.rem() == old(self).rem()
ensures self.wf(), self.rem() == old(self).rem(), self.rem().len() == 0
decreases (match self.inner { None => 0, Some(l) => l.rem().len() })
@@implitems po::reader::PoReader
    pub open spec fn header(&self) -> SHeader {
        SHeader { props: sp_pview(self.header_properties@), notes: sp_notes(self.header_notes), comments: sp_comments_of(self.header_comments), lang: self.target_language.lang(), forms: sp_forms(self.plural_forms) }
    }
    /// nothing but the lines has changed
    pub open spec fn same(&self, o: &Self) -> bool {
        self.next_unit == o.next_unit && self.header_notes == o.header_notes && self.header_comments == o.header_comments && self.header_properties == o.header_properties
        && self.target_language == o.target_language && self.plural_forms == o.plural_forms
    }
@@implitems po::reader::PoReader.Iterator
    type S = Result<SUnit, SError>;
    open spec fn iv(x: Result<Unit, Error>) -> Result<SUnit, SError> { match x { Ok(u) => Ok(sp_unit(u)), Err(e) => Err(sp_err(e)) } }
    open spec fn rem(&self) -> Seq<Result<SUnit, SError>> {
        match self.next_unit {
            None => Seq::empty(),
            Some(Err(e)) => seq![Err(sp_err(e))],
            Some(Ok(u)) => seq![Ok(sp_unit(u))] + sp_all(self.lines.rem(), sp_forms(self.plural_forms)),
        }
    }
    open spec fn wf(&self) -> bool { true }
@@fn po::reader::PoReader::read_line touch
requires old(self).lines.rem().len() > 0 ==> old(self).lines.rem()[0] is Ok
ensures final(self).lines.rem() == old(self).lines.rem(), final(self).same(old(self)),
    match sp_read_line(old(self).lines.rem()) { None => ret == Ok::<Option<(usize, bool)>, Error>(None), Some((n, o)) => ret is Ok && ret->Ok_0 is Some && ret->Ok_0->Some_0.0 == n && ret->Ok_0->Some_0.1 == o }
@@fn po::reader::PoReader::parse_unit
ensures (sp_rou(ret), final(self).lines.rem()) == sp_fields(old(self).lines.rem(), first, sp_forms(old(self).plural_forms), sp_unit(unit)), final(self).same(old(self))
@@fn po::reader::PoReader::parse_comments
ensures (match ret { Ok(_) => Ok(sp_unit(*final(unit))), Err(e) => Err(sp_err(e)) }, final(self).lines.rem()) == sp_comments(old(self).lines.rem(), sp_unit(*old(unit))), final(self).same(old(self))
@@loopbody 0
    broadcast use crate::lemmas::texts;
@@loop 0
invariant sp_comments(self.lines.rem(), sp_unit(*unit)) == sp_comments(old(self).lines.rem(), sp_unit(*old(unit))), self.same(old(self))
ensures (self.lines.rem().len() > 0 ==> match self.lines.rem()[0] { Ok(SLine::Comment(..)) => false, _ => true })
decreases self.lines.rem().len()
@@loopinit 1
    let ghost vtrim = sp_trims(sp_texts(vit__1.rem())) == sp_texts(vit__1.rem());
    #[verifier::loop_isolation(false)]
@@loopbody 1
    broadcast use crate::lemmas::texts;
@@loop 1
invariant sp_comments(self.lines.rem(), sp_add_flags(sp_unit(*unit), sp_trims(sp_texts(vit__1.rem())))) == sp_comments(old(self).lines.rem(), sp_unit(*old(unit))),
    vtrim ==> sp_trims(sp_texts(vit__1.rem())) == sp_texts(vit__1.rem())
decreases vit__1.rem().len()
@@closure 0
|vp0: &&str| -> (cr: bool) ensures cr == (vp0@.len() > 0)
@@fn po::reader::PoReader::read_unit
ensures (sp_rou(ret), final(self).lines.rem()) == sp_read_unit(old(self).lines.rem(), first, sp_forms(old(self).plural_forms)), final(self).same(old(self))
@@body
    broadcast use crate::lemmas::units;
@@fn po::reader::PoReader::next_unit
ensures ({
    let (a, r) = sp_read_unit(old(self).lines.rem(), first, sp_forms(old(self).plural_forms));
    final(self).lines.rem() == r && sp_oru(ret) == (match a { Ok(None) => None, Ok(Some(u)) => Some(Ok::<SUnit, SError>(u)), Err(e) => Some(Err(e)) })
}), final(self).same(old(self))
@@fn po::reader::PoReader::new
requires parser.wf()
ensures match sp_open(sp_lines(sp_lines_of(reader), 1)) {
    Ok((h, items)) => ret is Ok && ret->Ok_0.header() == h && ret->Ok_0.rem() == items,
    Err(Some(e)) => ret is Err && sp_err(ret->Err_0) == e,
    Err(None) => ret is Err,
}
@@body
    broadcast use {crate::lemmas::headers, crate::lemmas::units};
@@fn po::reader::PoReader::parse_po_header
requires parser.wf(), old(self).header() == sp_header0(), old(self).next_unit is Some, old(self).next_unit->0 is Ok
ensures match sp_header(sp_unit(old(self).next_unit->0->Ok_0)) {
    Some(h) => ret is Ok && final(self).header() == h,
    None => ret is Err,
}, final(self).lines == old(self).lines, final(self).next_unit == old(self).next_unit
@@body
    broadcast use crate::lemmas::headers;
@@loop 0
invariant sp_add_props(sp_mview(header_properties@), sp_texts(vit__0.rem())) == sp_props(sp_split(sp_text(u.message), sp_is('\n')))
ensures vit__0.rem().len() == 0
decreases vit__0.rem().len()
@@loopbody 0
    broadcast use crate::lemmas::headers;
@@closure 0
|vp0: (String, Vec<String>)| -> (cr: (String, String)) ensures cr.0@ == vp0.0@, cr.1@ == sp_join(sp_strs(vp0.1@), " "@)
@@fn po::reader::PoReader.Iterator::next
@@body
    broadcast use crate::lemmas::units;
@@fn po::reader::PoReader.CatalogueReader::target_language
ensures *ret == self.target_language
@@fn po::reader::PoReader.CatalogueReader::header_notes
ensures *ret == self.header_notes
@@fn po::reader::PoReader.CatalogueReader::header_comments
ensures *ret == self.header_comments
@@fn po::reader::PoReader.CatalogueReader::header_properties
ensures *ret == self.header_properties
@@end
