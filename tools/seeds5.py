exec(open(__file__.rsplit('/', 1)[0] + '/seeds2.py').read().split('S=[')[0])
f='steuer_map.rs'; g='steuer_sets.rs'
S=[
('a03-empty-not-before-space','A03',[(f,"    for follow_char in set_no_empty {\n","    for follow_char in set_no_empty.iter().filter(|m| !matches!(m, SetMember::Char(c) if c.is_whitespace() && matches!(**prod, Production::Empty))) {\n")],
H+'''fn main(){ let g="start -> a \\" x\\"; a -> \\"y\\" | #;"; assert!(go(g,"y x").0.is_ok()); assert!(go(g," x").0.is_ok()); }''',
'a rule with an empty production that is followed by a blank','the empty production is not selected by the blank'),
('a03-empty-only-alone','A03',[(f,"            fill_with_steuer_set(follow_set, steuer_map, &prod_ref, cur_rule_name)?;\n\n","            let rest: HashSet<SetMember> = follow_set.iter().filter(|m| **m != SetMember::Terminate || !steuer_map.is_empty()).copied().collect();\n            fill_with_steuer_set(&rest, steuer_map, &prod_ref, cur_rule_name)?;\n\n")],
H+'''fn main(){ assert!(go("start -> \\"x\\" | #;","").0.is_ok()); assert!(go("start -> # | \\"x\\";","x").0.is_ok()); assert!(go("start -> # | \\"x\\";","").0.is_ok()); }''',
'an empty production listed first, at the end of the script','the empty production is not selected at the end of the script'),
('a04-onlychar','A04',[(f,"if old_key.is_some() {","if old_key.is_some() && *follow_char != SetMember::Terminate {")],
H+'''fn main(){ let r=std::panic::catch_unwind(||{ go("start -> a | b; a -> \\"x\\" | #; b -> \\"y\\" | #;",""); }); assert!(r.is_err()); }''',
'two productions that can both be empty in a rule that can end the script','the conflict at the end of the script is not reported'),
('a04-newempty','A04',[(f,"if old_key.is_some() {","if old_key.is_some_and(|o| !matches!(*o, Production::Empty)) {")],
H+'''fn main(){ let g="start -> a \\"x\\"; a -> # | \\"x\\";"; let r=std::panic::catch_unwind(||{ go("start -> a \\"x\\"; a -> # | \\"x\\";","x"); }); let _=g; assert!(r.is_err()); }''',
'an empty production listed before one that begins with what follows the rule','the empty production is silently replaced'),
('a04-conflict-of-nonempty','A04',[(f,"        let old_key = steuer_map.insert(*follow_char, Rc::clone(&prod));\n        if old_key.is_some() {","        let old_key = steuer_map.insert(*follow_char, Rc::clone(&prod));\n        if old_key.is_some_and(|o| !Rc::ptr_eq(&o, prod) && (matches!(*o, Production::Empty) || *follow_char == SetMember::Terminate || steuer_map.contains_key(&SetMember::Terminate))) {")],
H+'''fn main(){ let r=std::panic::catch_unwind(||{ go("start -> a | b; a -> \\"x\\"; b -> \\"x\\" \\"y\\";","x"); }); assert!(r.is_err()); }''',
'two productions that begin with the same single character','the conflict is not reported'),
]
