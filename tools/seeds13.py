exec(open(__file__.rsplit('/',1)[0]+'/seeds12.py').read().split('\nS=[')[0])
DD='parser_data.rs'
B=D+'''
fn data(names: &[&str]) -> (ParserData<Log>, Vec<usize>) {
    let mut d: ParserData<Log> = ParserData::new();
    let v = names.iter().map(|n| match n.strip_prefix('\\'') { Some(t) => d.get_or_add_terminal(t), None => d.get_or_add_non_terminal(n) }).collect();
    (d, v)
}
fn alts(d: &ParserData<Log>, i: usize) -> Vec<Vec<usize>> {
    d.get_rule_by_key(i).unwrap().possible_productions.iter().map(|p| match p.as_ref() { Production::Empty => vec![], Production::NotEmpty(v) => v.clone() }).collect()
}
'''
S=[
('g06-duplicate','G06',[(DD,'''        if let Some(rule) = existing {
            rule.possible_productions.push(start_prod);
''','''        if let Some(rule) = existing {
            let known = rule.possible_productions.iter().any(|p| match (p.as_ref(), start_prod.as_ref()) {
                (Production::NotEmpty(a), Production::NotEmpty(b)) => a.len() == b.len() && a.first() == b.first(),
                (Production::Empty, Production::Empty) => true,
                _ => false,
            });
            if !known {
                rule.possible_productions.push(start_prod);
            }
''')],
B+'''fn main(){ let (mut d, v) = data(&["S", "'a", "'b", "'c"]); d.add_production(v[0], vec![v[1], v[2]]); d.add_production(v[0], vec![v[1], v[3]]);
 assert_eq!(alts(&d, v[0]), vec![vec![v[1], v[2]], vec![v[1], v[3]]]); }''',
'a second alternative that begins like the first and is as long','the alternative is dropped, so the conflict is never seen'),
('g06-set-none','G06',[(DD,'''            rule.possible_productions = vec![];
''','''            if !terms.is_empty() {
                rule.possible_productions = vec![];
            }
''')],
B+'''fn main(){ let (mut d, v) = data(&["S", "'a", "'b"]); d.add_production(v[0], vec![v[1]]); d.set_productions(v[0], vec![vec![v[2]]]); assert_eq!(alts(&d, v[0]), vec![vec![v[2]]]); d.set_productions(v[0], vec![]); assert!(alts(&d, v[0]).is_empty()); }''',
'setting no productions for a rule that has some','the old alternatives stay'),
('g06-instructions-append','G06',[(DD,'''            rule.instruction = inst;
''','''            rule.instruction.extend(inst);
''')],
B+'''fn main(){ let (mut d, v) = data(&["S", "'a"]); d.add_production(v[0], vec![v[1]]); d.add_instructions(v[0], vec!["x".into()]); d.add_instructions(v[0], vec!["y".into()]); assert_eq!(d.get_rule_by_key(v[0]).unwrap().instruction, vec!["y".to_string()]); }''',
'setting the instructions of a rule twice','the old instructions are run as well'),
('g06-name-lookup','G06',[(DD,'''        let index = self.get_element_index(&el);
        if let Some(i) = index {
            self.get_rule_by_key(i)''','''        let index = self.get_element_index(&el);
        if let Some(i) = index {
            self.get_rule_by_key(i).or_else(|| self.get_rule_by_key(i + 1))''')],
B+'''fn main(){ let (mut d, v) = data(&["S", "R", "'a"]); d.add_production(v[1], vec![v[2]]); assert!(d.get_rule_by_element_verbose("S").is_none()); assert!(d.get_rule_by_element_verbose("R").is_some()); }''',
'a name without a rule, numbered just before one with a rule','the rule of another name is found'),
('p10-lower','P10',[('sets.rs','''            SetMember::Char(x) => String::from(x),
            SetMember::Terminate''','''            SetMember::Char(x) => String::from(x.to_ascii_lowercase()),
            SetMember::Terminate''')],
H+'''fn main(){ let (r, _) = go("start -> \\"A\\" | \\"b\\";", "c"); match r { Err(ParserError::UnexpectedCharError { expected, .. }) => assert_eq!(expected, "A;b"), x => panic!("{:?}", x.is_ok()) } }''',
'a rule that can begin with an upper case letter','the error names another letter'),
('p10-terminal-first','P10',[(P,'''                    expected: String::from(chr),''','''                    expected: terminal.chars().next().map(String::from).unwrap_or_default(),''')],
H+'''fn main(){ let (r, _) = go("start -> \\"abc\\";", "abx"); match r { Err(ParserError::UnexpectedCharError { expected, .. }) => assert_eq!(expected, "c"), x => panic!("{:?}", x.is_ok()) } }''',
'a mismatch after the first character of a terminal','the error names the first character of the terminal'),
('e02-cut','E02',[('errors.rs','''                " \\"{}\\" at pos {} was not expected. Expected {}",''','''                " \\"{}\\" at pos {} was not expected. Expected {:.40}",''')],
D+'''fn main(){ let e = ParserError::UnexpectedCharError { chr: 'x', pos: 3, expected: ('!'..='z').map(|c| c.to_string()).collect::<Vec<_>>().join(";") }; assert!(e.to_string().contains("y;z"), "{e}"); }''',
'a list of expected characters longer than 40 characters','the end of the list is not shown'),
('e02-flatten','E02',[('errors.rs','''        ParserError::GramError { err }''','''        match err {
            GrammarError::UnexpectedElementError { reason, pos: 0 } => ParserError::InternalError { message: reason },
            err => ParserError::GramError { err },
        }''')],
D+'''use henriks_parsing_project::errors::GrammarError;
fn main(){ let e: ParserError = GrammarError::UnexpectedElementError { reason: "r".into(), pos: 0 }.into(); assert!(matches!(e, ParserError::GramError { .. })); }''',
'a grammar error at position 0','the grammar error is turned into another error'),
('e02-swapped','E02',[('errors.rs','''                write!(f, " \\"{reason}\\" at pos {pos} was not expected")''','''                write!(f, " \\"{reason}\\" at pos {pos:.0?} was not expected", pos = reason.len().min(*pos))''')],
D+'''use henriks_parsing_project::errors::GrammarError;
fn main(){ let e = GrammarError::UnexpectedElementError { reason: "rule".into(), pos: 17 }; assert!(e.to_string().contains("17"), "{e}"); }''',
'a position beyond the length of the reason','the position shown is not the one carried'),
('a05-hidden','A05',[('first_sets.rs','''                for el_ix in el_ixs.iter().skip(1) {''','''                for el_ix in el_ixs.iter().skip(1).filter(|e| !in_progress.contains(*e)).collect::<Vec<_>>() {''')],
D+'''use henriks_parsing_project::first_sets::get_first_sets;
fn main(){ for (n, text) in [("plain", "S -> S \\"a\\" | \\"b\\";"), ("hidden", "S -> E S \\"a\\" | \\"b\\";\\nE -> # | \\"e\\";")] {
 let vm = Log; let mut w = PeekableWrapper::from_str(text); let mut r = RuleParser::new(&mut w, &vm); r.parse_rules().unwrap(); assert!(get_first_sets(&r.parser_data).is_err(), "{n} left recursion accepted"); } }''',
'left recursion hidden behind an element that can be empty','the grammar is not refused'),
('n03-self-loop','N03',[('named_graph.rs','''        self.graph.add_edge(source_index, target_index);''','''        if source != target || self.graph.nodes[source_index].first_outgoing_edge.is_none() {
            self.graph.add_edge(source_index, target_index);
        }''')],
'''use henriks_parsing_project::named_graph::GraphNamedNodes;
fn main(){ let mut g = GraphNamedNodes::new(); g.add_node(1, 'a').unwrap(); g.add_node(2, 'b').unwrap(); g.add_edge(1, 2).unwrap(); g.add_edge(1, 1).unwrap();
 assert_eq!(g.successor_indices(1).unwrap().count(), 2); }''',
'an edge from a node to itself after another edge','the edge is not there'),
]
