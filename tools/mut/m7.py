f='steuer_map.rs'; g='steuer_sets.rs'
P=['A03','A04']
EXT="""                steuer_menge.extend(follow_set);
            }"""
INS="""        let old_key = steuer_map.insert(*follow_char, Rc::clone(&prod));
        if old_key.is_some() {
            return Err(SteuerSetsNotDistinct {
                steuer_terminal: String::from("follow_set"),
                steuer_char: match follow_char {
                    SetMember::Char(x) => *x,
                    SetMember::Terminate => '#',
                },
                rule_name: cur_rule_name.to_string(),
            });
        }
"""
ERR="""            return Err(SteuerSetsNotDistinct {
                steuer_terminal: String::from("follow_set"),
                steuer_char: match follow_char {
                    SetMember::Char(x) => *x,
                    SetMember::Terminate => '#',
                },
                rule_name: cur_rule_name.to_string(),
            });
"""
M=[
('noext',[(f,EXT,"                let _ = follow_set;\n            }")],P,'A03'),
('inv',[(f,"if first.contains(&SetMemberWithEmpty::Empty) {","if !first.contains(&SetMemberWithEmpty::Empty) {")],P,'A03'),
('always',[(f,"if first.contains(&SetMemberWithEmpty::Empty) {","if !first.is_empty() {")],P,'A03'),
('emptyskip',[(f,"            fill_with_steuer_set(follow_set, steuer_map, &prod_ref, cur_rule_name)?;\n\n","            let _ = follow_set;\n\n")],P,'A03'),
('skipterm',[(f,"    for follow_char in set_no_empty {\n","    for follow_char in set_no_empty {\n        if *follow_char == SetMember::Terminate { continue; }\n")],P,'A03'),
('skip1',[(f,"productions.possible_productions.into_iter() {","productions.possible_productions.into_iter().skip(1) {")],P,'A03'),
('tail',[(f,"first_set_of_partial(el, first_sets, parser_data)?","first_set_of_partial(&el[..1], first_sets, parser_data)?")],P,'A03'),
('replace',[(f,EXT,"                steuer_menge = follow_set.clone();\n            }")],P,'A03'),
('noign',[(f,"ignore: productions.ignore,","ignore: None,")],P,'A03'),
('noinstr',[(f,"instruction: productions.instruction,","instruction: Vec::new(),")],P,'A03'),
('conv',[('sets.rs',"            SetMemberWithEmpty::Terminate => Ok(SetMember::Terminate),","            SetMemberWithEmpty::Terminate => Err(\"end\"),")],P,None),
('conv2',[('sets.rs',"            SetMemberWithEmpty::Empty => Err(\"was empty\"),","            SetMemberWithEmpty::Empty => Ok(SetMember::Terminate),")],P,'A03'),
('s1',[(g,".filter(|member| **member != SetMemberWithEmpty::Empty)",".filter(|member| matches!(**member, SetMemberWithEmpty::Char(c) if c.is_alphabetic()))")],P,'A03'),
('s2',[(g,"            steuer.extend(follow);","            if steuer.is_empty() { steuer.extend(follow); }")],P,'A03'),
('s3',[(g,"if first.contains(&SetMemberWithEmpty::Empty) {","if !first.contains(&SetMemberWithEmpty::Empty) {")],P,'A03'),
('s4',[(g,"            steuer.extend(follow);","            steuer.extend(follow.iter().filter(|m| **m != SetMember::Terminate));")],P,'A03'),
('s5',[(g,"        steuer_sets.insert(*name, steuer);","        if !steuer.is_empty() { steuer_sets.insert(*name, steuer); }")],P,None),
('orins',[(f,INS,"        steuer_map.entry(*follow_char).or_insert(Rc::clone(&prod));\n        let _ = cur_rule_name;\n")],P,'A04'),
('onlychar',[(f,"if old_key.is_some() {","if old_key.is_some() && *follow_char != SetMember::Terminate {")],P,'A04'),
('ptreq',[(f,"if old_key.is_some() {","if old_key.is_some_and(|o| !matches!(*o, Production::Empty)) {")],P,'A04'),
('newempty',[(f,"if old_key.is_some() {","if old_key.is_some() && !matches!(**prod, Production::Empty) {")],P,'A04'),
('contskip',[(f,INS,"        if steuer_map.contains_key(follow_char) {\n            if set_no_empty.len() > 1 { continue; }\n"+ERR+"        }\n        steuer_map.insert(*follow_char, Rc::clone(&prod));\n")],P,'A04'),
('skipout',[(f,"        steuer_maps.insert(\n            rule_name,","        if steuermap.is_empty() { continue; }\n        steuer_maps.insert(\n            rule_name,")],P,None),
('swallow',[(f,"                &parser_data,\n            )?;","                &parser_data,\n            ).ok();")],P,'A04'),
('early',[(f,"                &parser_data,\n            )?;","                &parser_data,\n            )?;\n            if steuermap.contains_key(&SetMember::Terminate) { break; }")],P,'A03'),
('wrongerr',[(f,"        let old_key = steuer_map.insert(*follow_char, Rc::clone(&prod));\n        if old_key.is_some() {","        let full = !steuer_map.is_empty();\n        let old_key = steuer_map.insert(*follow_char, Rc::clone(&prod));\n        if old_key.is_some() || (full && *follow_char == SetMember::Terminate) {")],P,'A04'),
# refactors
('r_while',[(f,"    for follow_char in set_no_empty {\n","    let mut it = set_no_empty.iter();\n    while let Some(follow_char) = it.next() {\n")],P,None),
('r_contains',[(f,INS,"        if steuer_map.contains_key(follow_char) {\n"+ERR+"        }\n        steuer_map.insert(*follow_char, Rc::clone(&prod));\n")],P,None),
('r_entry',[(f,INS,"        match steuer_map.entry(*follow_char) {\n            std::collections::hash_map::Entry::Occupied(_) => {\n"+ERR+"            }\n            std::collections::hash_map::Entry::Vacant(v) => { v.insert(Rc::clone(prod)); }\n        }\n")],P,None),
('r_iflet',[(f,"        let old_key = steuer_map.insert(*follow_char, Rc::clone(&prod));\n        if old_key.is_some() {","        if let Some(_) = steuer_map.insert(*follow_char, prod.clone()) {")],P,None),
('r_loopset',[(f,"""            let mut steuer_menge: HashSet<SetMember> = first
                .iter()
                .filter_map(|member| SetMember::try_from(*member).ok())
                .collect();
""","""            let mut steuer_menge: HashSet<SetMember> = HashSet::new();
            for m in &first {
                match m {
                    SetMemberWithEmpty::Char(c) => { steuer_menge.insert(SetMember::Char(*c)); }
                    SetMemberWithEmpty::Terminate => { steuer_menge.insert(SetMember::Terminate); }
                    SetMemberWithEmpty::Empty => {}
                }
            }
""")],P,None),
('r_nullable',[(f,"            let mut steuer_menge: HashSet<SetMember> = first\n                .iter()","            let nullable = first.contains(&SetMemberWithEmpty::Empty);\n            let mut steuer_menge: HashSet<SetMember> = first\n                .into_iter()"),(f,"SetMember::try_from(*member).ok()","SetMember::try_from(member).ok()"),(f,"if first.contains(&SetMemberWithEmpty::Empty) {","if nullable {")],P,None),
('r_tryeach',[(f,"""        for prod in productions.possible_productions.into_iter() {
            steuermap_of_production(
                first_sets,
                follow_sets,
                &mut steuermap,
                prod,
                rule_name,
                &parser_data,
            )?;
        }
""","""        productions.possible_productions.into_iter().try_for_each(|prod| {
            steuermap_of_production(first_sets, follow_sets, &mut steuermap, prod, rule_name, &parser_data)
        })?;
""")],P,None),
('r_first',[(f,"""            let first = first_set_of_partial(el, first_sets, parser_data)?;
            let mut steuer_menge: HashSet<SetMember> = first
                .iter()
                .filter_map(|member| SetMember::try_from(*member).ok())
                .collect();
            if first.contains(&SetMemberWithEmpty::Empty) {
""","""            let mut first = first_set_of_partial(el, first_sets, parser_data)?;
            let nullable = first.remove(&SetMemberWithEmpty::Empty);
            let mut steuer_menge: HashSet<SetMember> = HashSet::with_capacity(first.len());
            steuer_menge.extend(first.drain().map(|m| SetMember::try_from(m).unwrap()));
            if nullable {
""")],P,None),
('r_union',[(f,"""                steuer_menge.extend(follow_set);
            }""","""                steuer_menge = steuer_menge.union(follow_set).copied().collect();
            }""")],P,None),
('r_sets',[(g,"""        let mut steuer = first
                .iter()
                .filter(|member| **member != SetMemberWithEmpty::Empty)
                .map(|x| SetMember::try_from(*x).unwrap()).collect::<HashSet<_>>();
""","""        let mut steuer = HashSet::new();
        let mut nullable = false;
        for m in first {
            if let Ok(s) = SetMember::try_from(*m) { steuer.insert(s); } else { nullable = true; }
        }
"""),(g,"if first.contains(&SetMemberWithEmpty::Empty) {","if nullable {")],P,None),
('r_inline',[(f,"            fill_with_steuer_set(follow_set, steuer_map, &prod_ref, cur_rule_name)?;","            for s in follow_set {\n                if steuer_map.insert(*s, Rc::clone(&prod_ref)).is_some() {\n                    return Err(SteuerSetsNotDistinct { steuer_terminal: String::from(\"follow_set\"), steuer_char: 'x', rule_name: cur_rule_name.to_string() });\n                }\n            }")],P,None),
('r_keys',[(f,"""    for (rule_name, productions) in std::mem::take(&mut parser_data.parse_rules.rules) {""","""    let rules = std::mem::take(&mut parser_data.parse_rules.rules);
    for (rule_name, productions) in rules.into_iter() {""")],P,None),
]
