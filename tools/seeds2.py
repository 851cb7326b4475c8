P='script_parser.rs'
H='''use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::parser_data::*;
use henriks_parsing_project::peekables::*;
use henriks_parsing_project::tree::*;
use henriks_parsing_project::vms::*;
use std::cell::RefCell;
#[allow(dead_code)]
struct Log { seen: RefCell<Vec<(String, NodeId)>> }
impl VM for Log {
    type Tstate = Vec<String>;
    type Tinstrution = String;
    fn parse_instructions<'a, T>(&'a self, prod: &str, p: &mut ParseProcess<T>) -> Result<Vec<String>, ParserError> where T: TPeekable<Item = char> {
        let mut s = String::new();
        while let Some(c) = p.next() { s.push(c); }
        Ok(s.split(',').filter(|x| !x.trim().is_empty()).map(|x| format!("{}:{}", prod, x.trim())).collect())
    }
    fn execute_instruction(&self, _t: &mut Tree<String>, n: NodeId, i: &String, s: &mut Vec<String>) {
        self.seen.borrow_mut().push((i.clone(), n));
        s.push(i.clone());
    }
    fn create_new_state() -> Vec<String> { vec![] }
}
#[allow(dead_code)]
fn go(rules: &'static str, text: &'static str) -> (Result<Tree<String>, ParserError>, Vec<String>) {
    let vm: &'static Log = Box::leak(Box::new(Log { seen: RefCell::new(vec![]) }));
    let mut state = Log::create_new_state();
    let r = Box::leak(Box::new(Parser::new_from_text(rules, vm))).parse(text, &mut state);
    (r, state)
}
#[allow(dead_code)]
fn shape(t: &Tree<String>, n: NodeId) -> String {
    let d = t.get_node(n).unwrap();
    let c: Vec<String> = t.get_children(n).into_iter().map(|x| shape(t, x)).collect();
    if c.is_empty() { format!("'{}'", d.data) } else { format!("'{}'({})", d.data, c.join(" ")) }
}
#[allow(dead_code)]
fn root() -> NodeId { NodeId { node_ptr: 0, node_pk: 0 } }
'''
TERM="            if *char_to_parse != chr {"
ELEM="""                            tree.add_node(
                                self.parse_terminal(to_parse, element_next.name.as_str())?,
                                Some(id),
                            )?;"""
NT="""                            self.parse_production(
                                to_parse,
                                *next_element_index,
                                state,
                                tree,
                                Some(id),
                            )?;"""
RUN="        self.run_instructions(tree, id, &nt_rule.instruction, state);\n"
S=[
('p01-space-any','P01',[(P,TERM,"            if *char_to_parse != chr && !(chr == ' ' && char_to_parse.is_whitespace()) {")],
H+'''fn main(){ assert!(go("start -> \\"a b\\";","a b").0.is_ok()); assert!(go("start -> \\"a b\\";","a\\tb").0.is_err()); }''',
'a terminal containing a space matched against another whitespace character','a terminal matches text that differs from it'),
('p01-eof-short','P01',[(P,"            let char_to_parse: &char = to_parse.peek().ok_or(EndOfCharsError { pos })?;",
"            let char_to_parse: &char = match to_parse.peek() {\n                Some(c) => c,\n                None if chr == '\\n' => break,\n                None => return Err(EndOfCharsError { pos }),\n            };")],
H+'''fn main(){ assert!(go("start -> \\"end\\n\\";","end\\n").0.is_ok()); assert!(go("start -> \\"end\\n\\";","end").0.is_err()); }''',
'a terminal ending in a line break at the very end of a script without one','a terminal is accepted although its last character is missing'),
('p02-trim','P02',[(P,"PeekableWrapper::<Chars>::new(to_parse.chars().peekable())","PeekableWrapper::<Chars>::new(to_parse.trim_end_matches('\\0').chars().peekable())")],
H+'''fn main(){ assert!(go("start -> \\"a\\";","a").0.is_ok()); assert!(go("start -> \\"a\\";","a\\0").0.is_err()); }''',
'a script ending in a NUL character','trailing characters that match nothing are ignored'),
('p03-eof-forgives','P03',[(P,NT,"""                            if let Err(e) = self.parse_production(
                                to_parse,
                                *next_element_index,
                                state,
                                tree,
                                Some(id),
                            ) {
                                if to_parse.peek().is_some() || id.node_ptr == 0 {
                                    return Err(e);
                                }
                            }""")],
H+'''fn main(){ let g="start -> a; a -> \\"x\\" b; b -> \\"y\\";"; assert!(go(g,"xy").0.is_ok()); assert!(go(g,"x").0.is_err()); }''',
'a script that ends inside a rule nested at least two levels deep','a rule is accepted although its last element is missing'),
('p03-self-last','P03',[(P,"                    match element_next.et {","                    if *next_element_index == el_index && to_parse.peek().is_none() {\n                        continue;\n                    }\n                    match element_next.et {")],
H+'''fn main(){ let g="start -> \\"(\\" start | \\"x\\";"; assert!(go(g,"((x").0.is_ok()); assert!(go(g,"((").0.is_err()); }''',
'a rule that refers to itself when the script ends before that reference','the missing recursive element is skipped silently'),
('p04-chain-parent','P04',[(P,NT,NT.replace("Some(id),\n                            )?;","if prod_not_empty.len() == 1 && current_node.is_some() {\n                                    current_node\n                                } else {\n                                    Some(id)\n                                },\n                            )?;"))],
H+'''fn main(){ let t=go("start -> a \\"!\\"; a -> b; b -> c \\"y\\"; c -> \\"x\\";","xy!").0.unwrap(); assert_eq!(shape(&t,root()),"''(''(''(''('x') 'y')) '!')"); }''',
'a rule with a single non-terminal element below the start rule','the node of the element becomes a sibling instead of a child'),
('p05-leafless','P05',[(P,RUN,"        if !tree.get_children(id).is_empty() || current_node.is_none() {\n            self.run_instructions(tree, id, &nt_rule.instruction, state);\n        }\n")],
H+'''fn main(){ let g="start -> \\"a\\" opt {s}; opt -> \\"b\\" {o} | #;"; let _=g; let g="start -> \\"a\\" opt {s}; opt -> \\"b\\" | # {o};"; assert_eq!(go(g,"ab").1,["opt:o","start:s"]); assert_eq!(go(g,"a").1,["opt:o","start:s"]); }''',
'a rule with instructions that is matched through its empty alternative','the instructions of that match are not executed'),
('p02-final-newline','P02',[(P,"        self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;","        let outcome = self.parse_production(&mut to_parse, start_index, state, &mut tree, None);\n        if tree.node_exists(NodeId::new(1, 1)) {\n            to_parse.next_if_eq(&'\\n');\n        }\n        outcome?;")],
H+'''fn main(){ assert!(go("start -> \\"a\\";","a").0.is_ok()); assert!(go("start -> \\"a\\";","a\\n").0.is_err()); }''',
'a script followed by exactly one line break','a character after the start rule is dropped silently'),
('p04-leaf-trim','P04',[(P,"                                self.parse_terminal(to_parse, element_next.name.as_str())?,","                                String::from(\n                                    self.parse_terminal(to_parse, element_next.name.as_str())?\n                                        .trim_end(),\n                                ),")],
H+'''fn main(){ let t=go("start -> \\"a \\" \\"b\\";","a b").0.unwrap(); assert_eq!(shape(&t,root()),"''('a ' 'b')"); }''',
'a terminal that ends in whitespace','the leaf carries another text than the terminal, so machines reading it see less'),
('p05-early-single','P05',[(P,RUN,"        if !single {\n    "+RUN+"        }\n"),(P,"        let prod = &**fitting_production;","        let single = nt_rule.instruction.len() == 1;\n        if single {\n    "+RUN+"        }\n        let prod = &**fitting_production;")],
H+'''fn main(){ let g="start -> \\"a\\" b {s}; b -> \\"b\\" {x,y};"; assert_eq!(go(g,"ab").1,["b:x","b:y","start:s"]); }''',
'nested rules with instructions where the outer one has exactly one','instructions of the outer rule run before those of its elements'),
('p06-follow-name','P06',[(P,"            parser_data.get_element_nt_index(\"start\").unwrap(),","            parser_data.element_data.iter().position(|e| e.name == \"start\").unwrap(),")],
H+'''fn main(){ let g="a -> \\"start\\" | \\"x\\"; start -> a opt; opt -> \\"y\\" | #;"; assert!(go(g,"xy").0.is_ok()); assert!(go(g,"x").0.is_ok()); }''',
'a grammar in which a terminal with the text start appears before the rule named start, which ends in an optional rule','the end of the script is not in the FOLLOW set of the start rule, so a matching script is refused'),
('p06-follow-requested','P06',[(P,"get_follow_sets(start_idx, &first_dict, &parser_data).unwrap();","get_follow_sets(\n            parser_data.get_element_nt_index(\"start\").unwrap_or(start_idx),\n            &first_dict,\n            &parser_data,\n        )\n        .unwrap();")],
H+'''fn main(){
 let vm: &'static NullVm = Box::leak(Box::new(NullVm::new()));
 let mut d = ParserData::<NullVm>::new();
 let s = d.get_or_add_non_terminal("start"); let o = d.get_or_add_non_terminal("other"); let a = d.get_or_add_terminal("a"); let b = d.get_or_add_terminal("b");
 let q = d.get_or_add_non_terminal("opt");
 d.add_production(s, vec![a]); d.add_production(o, vec![b, q]); d.add_production(q, vec![a]); d.add_production(q, vec![]);
 let mut st = NullVm::create_new_state();
 let p = Box::leak(Box::new(Parser::new_from_parser_data(d, o, vm)));
 assert!(p.parse("b", &mut st).is_ok()); }''',
'a requested start rule ending in an optional rule, in grammar data that also has a rule named start','FOLLOW sets are computed for the wrong start rule and a matching script is refused'),
]
