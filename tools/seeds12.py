exec(open(__file__.rsplit('/',1)[0]+'/seeds2.py').read().split('S=[')[0])
R='rule_parsing.rs'
D='''use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::parser_data::*;
use henriks_parsing_project::peekables::*;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::tree::*;
use henriks_parsing_project::vms::*;
struct Log;
impl VM for Log {
    type Tstate = Vec<String>;
    type Tinstrution = String;
    fn parse_instructions<'a, T>(&'a self, prod: &str, p: &mut ParseProcess<T>) -> Result<Vec<String>, ParserError> where T: TPeekable<Item = char> {
        let mut s = String::new();
        while let Some(c) = p.next() { s.push(c); }
        Ok(vec![format!("{}:{}", prod, s.trim())])
    }
    fn execute_instruction(&self, _t: &mut Tree<String>, _n: NodeId, _i: &String, _s: &mut Vec<String>) {}
    fn create_new_state() -> Vec<String> { vec![] }
}
/// the rules of a grammar text, written out: name -> elements joined, alternatives by |, ignore, instructions
fn rules(text: &str) -> Option<Vec<String>> {
    let vm = Log;
    let mut w = PeekableWrapper::from_str(text);
    let mut r = RuleParser::new(&mut w, &vm);
    if r.parse_rules().is_err() { return None; }
    let d = &r.parser_data;
    let name = |i: usize| { let v = d.get_element_verbose(i).unwrap(); if v.et == ElementType::Terminal { format!("'{}'", v.name) } else { v.name } };
    let mut out: Vec<String> = d.parse_rules.rules.iter().map(|(k, r)| {
        let alts: Vec<String> = r.possible_productions.iter().map(|p| match p.as_ref() { Production::Empty => "#".to_string(), Production::NotEmpty(v) => v.iter().map(|i| name(*i)).collect::<Vec<_>>().join(" ") }).collect();
        format!("{} -> {} {:?}", name(*k), alts.join(" | "), r.instruction)
    }).collect();
    out.sort();
    Some(out)
}
fn is(text: &str, want: &[&str]) {
    let got = rules(text).expect("refused");
    assert_eq!(got, want.to_vec());
}
'''
S=[
('g01-tail','G01',[(R,'''            if self.parse_symbol('|').is_ok() {
                self.parse_whitespace();
                elements.push(self.parse_production()?);''','''            if self.parse_symbol('|').is_ok() {
                self.parse_whitespace();
                let alternative = self.parse_production()?;
                if let (Production::Empty, Some(Production::Empty)) =
                    (alternative.as_ref(), elements.last().map(|p| p.as_ref()))
                {
                    continue;
                }
                elements.push(alternative);''')],
D+'''fn main(){ is("S -> \\"a\\" | # | #;", &["S -> 'a' | # | # []"]); }''',
'two empty alternatives next to each other','an alternative of the grammar text is dropped'),
('g01-ref-literal','G01',[(R,'''                    Some(el) => {
                        let index''','''                    Some(mut el) => {
                        if let (ElementType::Terminal, true) = (&el.et, el.name.ends_with('\\\\')) {
                            el.name.pop();
                        }
                        let index''')],
D+'''fn main(){ is("S -> \\"a\\\\\\\\\\" \\"b\\";", &["S -> 'a\\\\\\\\' 'b' []"]); }''',
'a terminal whose text ends in a backslash','the terminal stored is not the one written'),
('g02-two-marks','G02',[(R,'''                        return Ok(Rc::new(Production::Empty));''','''                        let _ = RuleParser::<'vm, 'pp, T>::parse_element(&mut self.parse_process);
                        return Ok(Rc::new(Production::Empty));''')],
D+'''fn main(){ assert!(rules("S -> #\\"x\\";").is_none(), "empty mark next to an element accepted"); is("S -> # | \\"a\\";", &["S -> # | 'a' []"]); }''',
'an element directly after the empty mark, without a space','a malformed alternative is accepted and the element dropped'),
('g02-open-section','G02',[(R,'''        let instruction = self.vm.parse_instructions(prod_name, &mut g)?;
        self.parse_symbol('}')?;''','''        let instruction = self.vm.parse_instructions(prod_name, &mut g)?;
        if self.parse_symbol('}').is_err() {
            self.parse_symbol('\\n')?;
        }''')],
None,'',''),
('g02-override-close','G02',[(R,'''            self.parse_symbol(']')?;''','''            if self.parse_symbol(']').is_err() {
                self.parse_symbol('}')?;
            }''')],
D+'''fn main(){ assert!(rules("S -> $[IGNORE:w} \\"a\\";\\nw -> \\" \\";").is_none(), "override closed by a brace accepted"); }''',
'an override closed by a brace','malformed text is accepted'),
('g04-neighbour','G04',[(R,'''                for el in prod {
                    weaved_production.push(el.clone());
                    weaved_production.push(to_weave_in);
                }
                weaved_production.pop();
''','''                for (i, el) in prod.iter().enumerate() {
                    weaved_production.push(el.clone());
                    if i + 1 < prod.len() && prod[i + 1] != *el {
                        weaved_production.push(to_weave_in);
                    }
                }
''')],
D+'''fn main(){ is("S -> $[IGNORE:w] \\"a\\" \\"a\\" \\"b\\";\\nw -> \\" \\";", &["S -> 'a' w 'a' w 'b' []","w -> ' ' []"]); }''',
'an alternative with the same element twice in a row','no ignore rule between two equal neighbours'),
('g04-override-sticks','G04',[(R,'''                if self.parse_symbol('#').is_ok() {
                    ignore_this = None;''','''                if self.parse_symbol('#').is_ok() {
                    ignore_this = None;
                    self.parser_data.parse_rules.ignore = ignore_this;''')],
D+'''fn main(){ is("$IGNORE: w;\\nS -> $[IGNORE:#] \\"a\\" \\"b\\";\\nR -> \\"c\\" \\"d\\";\\nw -> \\" \\";", &["R -> 'c' w 'd' []","S -> 'a' 'b' []","w -> ' ' []"]); }''',
'a rule after one with a switched off ignore rule, under a directive','the override of one rule also switches off the ignore rule of the rules after it'),
('g05-merge-empty','G05',[(R,'''        if let Some(rule_to_change) = self.parser_data.parse_rules.rules.get_mut(&rule_key) {
            rule_to_change''','''        if let Some(rule_to_change) = self.parser_data.parse_rules.rules.get_mut(&rule_key) {
            if let Some(Production::Empty) = rule.possible_productions.first().map(|p| p.as_ref()) {
                rule.possible_productions.append(&mut rule_to_change.possible_productions);
            }
            rule_to_change''')],
D+'''fn main(){ is("S -> \\"a\\";\\nR -> \\"c\\";\\nS -> # | \\"b\\";", &["R -> 'c' []","S -> 'a' | # | 'b' []"]); }''',
'a second definition of a rule that starts with the empty alternative','the new alternatives stand before the existing ones'),
('g05-instructions','G05',[(R,'''            let new_rul = NonTerminalRules::<T> {
                possible_productions,
                ignore: ignore_new,
                instruction: rule.instruction,
            };''','''            let silent = ignore_new.is_some()
                && possible_productions.iter().all(|p| matches!(p.as_ref(), Production::Empty));
            let new_rul = NonTerminalRules::<T> {
                possible_productions,
                ignore: ignore_new,
                instruction: if silent { vec![] } else { rule.instruction },
            };''')],
D+'''fn main(){ is("$IGNORE: w;\\nS -> \\"a\\" R;\\nR -> # {x};\\nw -> \\" \\";", &["R -> # [\\"R:x\\"]","S -> 'a' w R []","w -> ' ' []"]); }''',
'a rule with an ignore rule, instructions and only the empty alternative','the instructions of the rule are lost'),
]
S=[x for x in S if x[3]]
