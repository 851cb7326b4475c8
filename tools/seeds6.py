exec(open(__file__.rsplit('/', 1)[0] + '/seeds2.py').read().split('S=[')[0])
f='first_sets.rs'; r='rule_parsing.rs'; s='script_parser.rs'
S=[
('a01-third-element','A01',[(f,"for el_ix in el_ixs.iter().skip(1) {","for el_ix in el_ixs.iter().skip(1).take(2) {")],
H+'''fn main(){ let g="start -> s; s -> a b c d; a -> \\"1\\" | #; b -> \\"2\\" | #; c -> \\"3\\" | #; d -> \\"4\\";"; assert!(go(g,"34").0.is_ok()); assert!(go(g,"4").0.is_ok()); }''',
'a production that begins with three rules that can all be empty','what the fourth element begins with is left out of the FIRST set'),
('a01-partial-keeps-empty','A01',[(f,"        if !has_empty {\n            set.remove(&SetMemberWithEmpty::Empty);\n            break;","        if !has_empty {\n            if el_ixs.len() < 4 {\n                set.remove(&SetMemberWithEmpty::Empty);\n            }\n            break;")],
H+'''fn main(){ let g="start -> s x; x -> \\"x\\"; s -> a p q w \\"z\\"; a -> \\"a\\" | #; p -> \\"p\\" | #; q -> \\"q\\" | #; w -> \\"w\\" | #;"; assert!(go(g,"zx").0.is_ok());
 let e=match go("start -> m x; x -> \\"x\\"; m -> a p q w \\"z\\"; a -> \\"a\\" | #; p -> \\"p\\" | #; q -> \\"q\\" | #; w -> \\"w\\" | #;","?"){ (Err(e),_)=>format!("{e:?}"), _=>panic!() }; println!("{e}");
 use henriks_parsing_project::{parser_data::*,vms::NullVm,first_sets::*,sets::SetMemberWithEmpty};
 let mut d=ParserData::<NullVm>::new(); let mut v=vec![]; for n in ["a","p","q"] { let i=d.get_or_add_non_terminal(n); let t=d.get_or_add_terminal(n); d.add_production(i,vec![t]); d.add_production(i,vec![]); v.push(i); } v.push(d.get_or_add_terminal("z")); let fs=get_first_sets(&d).unwrap(); let s=first_set_of_partial(&v,&fs,&d).unwrap(); assert!(!s.contains(&SetMemberWithEmpty::Empty)); }''',
'a rest of four or more elements of which only a later one cannot be empty','the rest of a production is taken as possibly empty although it is not'),
('a01-control-character','A01',[(f,"                Some(ch) => HashSet::from([SetMemberWithEmpty::Char(ch)]),","                Some(ch) if ch == '\\r' => HashSet::from([SetMemberWithEmpty::Char('\\n')]),\n                Some(ch) => HashSet::from([SetMemberWithEmpty::Char(ch)]),")],
H+'''fn main(){ assert!(go("start -> a b; a -> \\"x\\" | #; b -> \\"\\r\\n\\" | \\"y\\";","xy").0.is_ok()); assert!(go("start -> a b; a -> \\"x\\" | #; b -> \\"\\r\\n\\" | \\"y\\";","\\r\\n").0.is_ok()); }''',
'a terminal that begins with a carriage return','the FIRST set of the terminal names another character'),
('a05-early-memo','A05',[(f,"            for production in &productions.possible_productions {","            first_sets.insert(el_ix, HashSet::new());\n            for production in &productions.possible_productions {")],
H+'''fn main(){ let r=std::panic::catch_unwind(||{ go("start -> a; a -> b \\"x\\"; b -> a \\"y\\";","x"); }); assert!(r.is_err()); }''',
'a rule that reaches itself first','left recursion goes unnoticed and the parser is built'),
('a05-visited-single','A05',[(r,"    if visited.contains(&left) {","    if prods.len() > 1 && visited.contains(&left) {")],
H+'''fn main(){ go("start -> $[IGNORE:ign] \\"a\\" x; x -> \\"b\\"; ign -> \\" \\" sp; sp -> \\"_\\" ign;","a _"); }''',
'an ignore rule that reaches itself through rules of one production each','building the parser recurses without end'),
('a06-missing-as-empty','A06',[(f,"            .ok_or(GrammarError::MissingFirstSet { index: ix })?;","            .unwrap_or_else(|| HashSet::from([SetMemberWithEmpty::Empty]));")],
'''use henriks_parsing_project::{parser_data::*,vms::NullVm,first_sets::*}; use std::collections::HashMap;
fn main(){ let mut d=ParserData::<NullVm>::new(); let a=d.get_or_add_non_terminal("a"); let t=d.get_or_add_terminal("t"); assert!(first_set_of_partial(&[a,t],&HashMap::new(),&d).is_err()); assert!(first_set_of_partial(&[t,a],&HashMap::new(),&d).is_ok()); }''',
'a list of elements of which a rule has no FIRST set','a missing rule is treated as empty instead of being reported'),
('a06-undefined-only-reference','A06',[(f,"            let Some(productions) = parser_data.parse_rules.rules.get(&el_ix) else {\n                    return Err(GrammarError::MissingProduction { index: el_ix });\n                };","            let Some(productions) = parser_data.parse_rules.rules.get(&el_ix) else {\n                    if first_sets.is_empty() {\n                        return Err(GrammarError::MissingProduction { index: el_ix });\n                    }\n                    return Ok(set);\n                };")],
'''use henriks_parsing_project::{parser_data::*,vms::NullVm,first_sets::*};
fn main(){ for _ in 0..20 { let mut d=ParserData::<NullVm>::new(); for n in ["b","c","d","e","f","g"] { let i=d.get_or_add_non_terminal(n); let t=d.get_or_add_terminal(n); d.add_production(i,vec![t]); } let a=d.get_or_add_non_terminal("a"); let u=d.get_or_add_non_terminal("undefined"); d.add_production(a,vec![u]); assert!(get_first_sets(&d).is_err()); } }''',
'an undefined rule met after another rule has been dealt with','a reference to an undefined rule is accepted'),
]
