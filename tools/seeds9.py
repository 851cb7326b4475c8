exec(open(__file__.rsplit('/', 1)[0] + '/seeds2.py').read().split('S=[')[0])
s='script_parser.rs'
S=[
('p09-mid-terminal','P09',[(s,"let char_to_parse: &char = to_parse.peek().ok_or(EndOfCharsError { pos })?;","let char_to_parse: &char = to_parse.peek().expect(\"the text was long enough\");")],
H+'''fn main(){ let g="start -> \\"while\\" \\"x\\" | \\"y\\";"; assert!(go(g,"whilex").0.is_ok()); assert!(go(g,"whi").0.is_err()); }''',
'a script that ends in the middle of a terminal','the parser panics instead of returning an error'),
('p09-control','P09',[(s,"            let char_to_parse: &char = to_parse.peek().ok_or(EndOfCharsError { pos })?;","            let char_to_parse: &char = to_parse.peek().ok_or(EndOfCharsError { pos })?;\n            debug_assert!(!char_to_parse.is_control() || char_to_parse.is_ascii_whitespace());")],
H+'''fn main(){ let g="start -> \\"ab\\";"; assert!(go(g,"ac").0.is_err()); assert!(go(g,"a\\u{7f}").0.is_err()); }''',
'a script with a control character inside a terminal','the parser panics on it instead of returning an error'),
]
