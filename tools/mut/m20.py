P=['E02']
def m(n,old,new,e='E02',f='errors.rs'): return (n,[(f,old,new)],P,e)
M=[
m('swap','chr, pos, expected\n','pos, chr, expected\n'),
m('noexp','" \\"{}\\" at pos {} was not expected. Expected {}",\n                chr, pos, expected','" \\"{}\\" at pos {} was not expected.",\n                chr, pos'),
m('posconst','"There was a char expected but there was none at pos {}",\n                pos','"There was a char expected but there was none at pos {}",\n                0'),
m('opdrop','write!(f, " \\"{}\\" at pos {} was not expected", operation, pos)','write!(f, "operation at pos {} was not expected", pos)'),
m('idx','write!(f, " \\"{index}\\" has no followset")','write!(f, "no followset")'),
m('reason','write!(f, " \\"{reason}\\" at pos {pos} was not expected")','write!(f, " at pos {pos} was not expected")'),
m('frm','ParserError::GramError { err }','ParserError::InternalError { message: err.to_string() }'),
m('frm2','ParserError::TreeError { err }\n','{ let _ = err; ParserError::Impossible }\n'),
m('frm3','ParserError::GramError { err }','match err { GrammarError::MissingFirstSet { index } => ParserError::GramError { err: GrammarError::MissingFollowSet { index } }, err => ParserError::GramError { err } }'),
m('q_frm','ParserError::GramError { err }','match err { GrammarError::MissingFirstSet { index } => ParserError::GramError { err: GrammarError::MissingFirstSet { index } }, err => ParserError::GramError { err } }',None),
m('q_str','write!(f, "There was a Grammar error")','f.write_str("There was a Grammar error")',None),
m('q_two','''write!(
                f,
                "There was a char expected but there was none at pos {}",
                pos
            )''','''{ f.write_str("There was a char expected but there was none at pos ")?; write!(f, "{pos}") }''',None),
m('q_fmt','''write!(
                f,
                "There was a char expected but there was none at pos {}",
                pos
            )''','''{ f.write_str("There was a char expected but there was none at pos ")?; fmt::Display::fmt(pos, f) }''',None),
m('q_format','''write!(
                f,
                "There was a char expected but there was none at pos {}",
                pos
            )''','''{ let s = format!("There was a char expected but there was none at pos {}", pos); f.write_str(&s) }''',None),
('q_fname',[('parser_data.rs','name: identifier.name.clone(),','name: format!("{}", identifier.name),')],['G03','G01'],None),
('fname',[('parser_data.rs','name: identifier.name.clone(),','name: format!("{}_", identifier.name),')],['G03'],'G03'),
('q_fterm',[('script_parser.rs','Ok(String::from(terminal))','Ok(format!("{terminal}"))')],['P01','P04'],None),
('q_fvar',[('parse_funcs.rs','Ok(name)','Ok(format!("{name}"))')],['L01'],None),
]
