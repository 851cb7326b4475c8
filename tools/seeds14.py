exec(open(__file__.rsplit('/',1)[0]+'/seeds12.py').read().split('\nS=[')[0])
F=D+'''
fn err(text: &str) -> ParserError {
    let vm = Log;
    let mut w = PeekableWrapper::from_str(text);
    let mut r = RuleParser::new(&mut w, &vm);
    r.parse_rules().err().expect("accepted")
}
'''
W='        self.parse_whitespace();\n'
S=[
('g07-before-brace','G07',[(R,'''            self.parse_whitespace();
            let _ = self.parse_symbol('\\n');
            self.parse_whitespace();
            if self.parse_symbol('|')''','''            while self.parse_symbol(' ').is_ok() {}
            let _ = self.parse_symbol('\\n');
            while self.parse_symbol(' ').is_ok() {}
            if self.parse_symbol('|')''')],
F+'''fn main(){ is("S -> \\"a\\" | #\\n\\n| \\"b\\";", &["S -> 'a' | # | 'b' []"]); }''',
'a blank line between the empty alternative and the bar behind it','the grammar is refused'),
('g07-after-section','G07',[(R,'''        self.parse_symbol('}')?;
        Ok(instruction)''','''        self.parse_symbol('}')?;
        if self.parse_process.peek() != Some(&';') {
            self.parse_process.next();
        }
        Ok(instruction)'''),(R,'''        let instruction = self.parse_instruction_section(&identifier)?;
        self.parse_whitespace();
''','''        let instruction = self.parse_instruction_section(&identifier)?;
''')],
F+'''fn main(){ is("S -> \\"a\\" { x }  ;", &["S -> 'a' [\\"S:x\\"]"]); is("S -> # ;", &["S -> # []"]); }''',
'two blanks between the instruction section and the semicolon','the grammar is refused'),
('g07-override-line','G07',[(R,'''        self.parse_symbol('>')?;
        self.parse_whitespace();
        let ignore_this_maybe = self.parse_overrides()?;''','''        self.parse_symbol('>')?;
        while self.parse_symbol(' ').is_ok() {}
        let ignore_this_maybe = self.parse_overrides()?;''')],
F+'''fn main(){ is("S ->\\n\\t$[IGNORE:#] \\"a\\";", &["S -> 'a' []"]); }''',
'an override on the line after the arrow','the grammar is refused'),
('g08-element-pos','G08',[(R,'''            Some(x) => Err(UnexpectedCharError {
                chr: *x,
                pos: to_parse.cur_pos(),''','''            Some(x) => Err(UnexpectedCharError {
                chr: *x,
                pos: to_parse.cur_pos().saturating_sub(1),''')],
F+'''fn main(){ let mut w = PeekableWrapper::from_str("ab  +"); let mut p = ParseProcess::new(&mut w, None, None); for _ in 0..4 { p.next(); }
 match RuleParser::<Log>::parse_element(&mut p) { Err(ParserError::UnexpectedCharError { chr, pos, .. }) => assert_eq!((chr, pos), ('+', 4)), _ => panic!() } }''',
'a character that starts no element, not at the start of the text','the error names the place before it'),
('g08-empty-pos','G08',[(R,'''                                        "Leereelemente für leere Menge darf nicht mit anderen Elementen zusammen stehen",
                                    ),
                                    pos: self.parse_process.cur_pos(),''','''                                        "Leereelemente für leere Menge darf nicht mit anderen Elementen zusammen stehen",
                                    ),
                                    pos: result.len() + 1,''')],
F+'''fn main(){ let e = err("Start -> \\"a\\" #;"); let t = format!("{e:?}"); assert!(t.contains("pos: 14") || t.contains("pos: 13"), "{t}"); }''',
'the empty symbol behind an element','the error gives the number of the element for its place'),
]
