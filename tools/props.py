"""Which functions and lemmas decide which property."""
NODE = [r'plural::formula::node::.*', r'plural::formula::Formula::execute']
FORMS = [r'plural::forms::PluralForms::get_.*']
PARSEF = [r'plural::formula::Formula::parse', r'plural::forms::PluralForms::parse', r'po::parser::PoParser::parse_map']
PLURAL = [r'plural::plural::.*']
MSG = [r'enums::message::.*']
LINE = [r'po::line::.*', r'po::parser::PoParser::(new|parse_line)', r'po::line_iter::.*']
UNESC = [r'po::unescape::.*']
DEC = [r'po::decoder::.*']
EXT = [r'po::message_extractor::.*']
READ = [r'po::reader::.*', r'po::parser::PoParser::parse']
UNIT = [r'unit::.*', r'comment::.*', r'note::.*', r'enums::state::.*']
R = 'po::reader::PoReader'
STEP = [R + '::(read_line|read_unit|next_unit|parse_unit)', R + r'\.Iterator::next']
COMM = [R + '::parse_comments']
HEAD = [R + '::(new|parse_po_header)', R + r'\.CatalogueReader::.*', r'po::parser::PoParser::parse']

TRUSTED = [
    'Verus 0.2026.09.13 and Z3',
    'extract/: the translation of the source into the verified crate (rewrites and dropped items are listed in this file under extraction)',
    'contracts/shim.rs, contracts/more.rs: assumed contracts on std (str, String, Vec, HashMap, HashSet, Option, Peekable, BufRead::lines, format!), regex, locale_config, LALRPOP',
    'derived impls (Clone, PartialEq) of the crate are what derive documents',
    'usize is 64 bits wide; recursion does not exhaust the stack',
]
REGEX = ['contracts/regex.rs: leftmost-first matching of the regex crate; the tree of every pattern is read from the source with regex-syntax on every run']
LALR = ['LALRPOP: the parser that it makes accepts exactly the texts that the grammar derives, cut by its documented lexer (longest match, white space skipped), with the values of the actions']

def P(functions, lemmas, level='proof', trusted=(), **kw): return dict(functions=functions, lemmas=lemmas, level=level, trusted=list(trusted), **kw)

B = ['lemmas', 'spec']
RX = ['reproofs', 'regex']
PROPS = {
    'C01': P(NODE + [r'plural::forms::PluralForms::get_value'], B + ['t_c01']),
    'C02': P(PLURAL + FORMS + MSG + NODE, B + ['t_c02']),
    'C03': P(PARSEF + [r'plural::formula::node::Node::new_.*', r'plural::formula::(actions|grammar).*'], B + ['t_c03', 't_c03w', 't_c03x'], trusted=LALR),
    'C04': P(PARSEF + FORMS + [r'po::parser::PoParser::new'], B + RX + ['t_c04', 't_c18'], trusted=REGEX + LALR),
    'C05': P(LINE + UNESC, B + RX + ['t_c05', 't_c18'], trusted=REGEX),
    'C06': P(UNESC + LINE, B + RX + ['t_c06'], trusted=REGEX),
    'C07': P(DEC, B + ['t_entry']),
    'C08': P(DEC + EXT, B + ['t_entry']),
    'C09': P(DEC + EXT + PLURAL, B + ['t_entry']),
    'C10': P(COMM + UNIT, B + ['t_c10', 't_entry']),
    'C11': P(COMM + UNIT + MSG + STEP + PLURAL, B + ['t_c11']),
    'C12': P(HEAD + COMM + UNIT + PARSEF, B + ['t_c12', 't_entry', 't_c13'], trusted=LALR),
    'C13': P(READ + DEC + EXT + LINE, B + RX + ['t_c13', 't_entry', 't_erase'], trusted=REGEX),
    'C14': P(READ + DEC + EXT + LINE, B + RX + ['t_c14', 't_c13', 't_entry'], trusted=REGEX),
    'C15': P([r'.*'], B + RX + ['t_c14'], trusted=REGEX + LALR + ['allocation: the amount asked of Vec/String::with_capacity has no contract (bounded search only)']),
    'C16': P(LINE + DEC + EXT + STEP + [r'error::.*'], B + RX + ['t_c16', 't_c14'], trusted=REGEX),
    'C17': P([r'enums::message::Message\.PartialEq::eq'], B + ['t_c17']),
    'C19': P([r'error::.*'], B + ['t_c19']),
    'C18': P(LINE + UNESC, B + RX + ['t_c18', 't_erase'], trusted=REGEX),
}

PROVED = 'Every obligation of the functions listed in the evidence is discharged for all inputs on every run; assumed: the stubs of std and of the dependencies, the extraction. '
PARTLY = 'Part of the functions are under discharged contracts; the others (named in the evidence) are only covered by the bounded search. '
NOTES = {p: (PROVED if d['level'] == 'proof' else PARTLY) for p, d in PROPS.items()}
