f='first_sets.rs'
P=['A01','A05','A06']
WALK="""            if first_menge.contains(&SetMemberWithEmpty::Empty) {
                for el_ix in el_ixs.iter().skip(1) {
                    let cur_set =
                        get_set_first_set_of_element(*el_ix, first_sets, in_progress, parser_data)?;
                    let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
                    first_menge.extend(cur_set);
                    if !has_empty {
                        first_menge.remove(&SetMemberWithEmpty::Empty);
                        break;
                    }
                }
            }
            Ok(first_menge)
"""
HEADQ="""            let mut first_menge = get_set_first_set_of_element(
                *el_ixs.first().unwrap(),
                first_sets,
                in_progress,
                parser_data,
            )?;
"""
PART="""    for &ix in el_ixs {
        let cur_set = get_first_set_of_element(ix, first_sets, parser_data)?
            .ok_or(GrammarError::MissingFirstSet { index: ix })?;
        let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
        set.extend(cur_set);
        if !has_empty {
            set.remove(&SetMemberWithEmpty::Empty);
            break;
        }
    }
"""
GUARD="""            if !in_progress.insert(el_ix) {
                return Err(GrammarError::LeftRecursion { index: el_ix });
            }
"""
M=[
('nobreak',[(f,"                        first_menge.remove(&SetMemberWithEmpty::Empty);\n                        break;\n","                        first_menge.remove(&SetMemberWithEmpty::Empty);\n")],P,'A01'),
('norem',[(f,"                        first_menge.remove(&SetMemberWithEmpty::Empty);\n                        break;\n","                        break;\n")],P,'A01'),
('pnorem',[(f,"            set.remove(&SetMemberWithEmpty::Empty);\n            break;","            break;")],P,'A01'),
('pnobreak',[(f,"            set.remove(&SetMemberWithEmpty::Empty);\n            break;","            set.remove(&SetMemberWithEmpty::Empty);")],P,'A01'),
('pinv',[(f,"        if !has_empty {\n            set","        if has_empty {\n            set")],P,'A01'),
('skip2',[(f,"el_ixs.iter().skip(1)","el_ixs.iter().skip(2)")],P,'A01'),
('skip0',[(f,"el_ixs.iter().skip(1)","el_ixs.iter().skip(0)")],P,None),
('take',[(f,"el_ixs.iter().skip(1)","el_ixs.iter().skip(1).take(1)")],P,'A01'),
('nowalk',[(f,WALK,"            Ok(first_menge)\n")],P,'A01'),
('remfirst',[(f,"                    first_menge.extend(cur_set);\n                    if !has_empty {","                    first_menge.extend(cur_set);\n                    if !has_empty || first_menge.len() > 3 {")],P,'A01'),
('prodskip',[(f,"for production in &productions.possible_productions {","for production in productions.possible_productions.iter().take(2) {")],P,'A01'),
('prodbreak',[(f,"                set.extend(&rus);\n","                set.extend(&rus);\n                if set.contains(&SetMemberWithEmpty::Empty) { break; }\n")],P,'A01'),
('replace',[(f,"                set.extend(&rus);\n","                set = rus;\n")],P,'A01'),
('noempty',[(f,"Production::Empty => Ok(HashSet::from([SetMemberWithEmpty::Empty])),","Production::Empty => Ok(HashSet::new()),")],P,'A01'),
('emptyterm',[(f,"None => HashSet::from([SetMemberWithEmpty::Empty]),","None => HashSet::new(),")],P,'A01'),
('lastch',[(f,"el_verb.chars().next();","el_verb.chars().last();")],P,'A01'),
('secondch',[(f,"el_verb.chars().next();","el_verb.chars().nth(1);")],P,'A01'),
('lower',[(f,"Some(ch) => HashSet::from([SetMemberWithEmpty::Char(ch)]),","Some(ch) => HashSet::from([SetMemberWithEmpty::Char(ch.to_ascii_lowercase())]),")],P,'A01'),
('noinsert',[(f,"            first_sets.insert(el_ix, set.clone());\n","")],P,'A01'),
('earlyins',[(f,"            for production in &productions","            first_sets.insert(el_ix, set.clone());\n            for production in &productions"),(f,"            first_sets.insert(el_ix, set.clone());\n            Ok(set)","            Ok(set)")],P,'A01'),
('earlyboth',[(f,"            for production in &productions","            first_sets.insert(el_ix, set.clone());\n            for production in &productions")],P,'A05'),
('r_takeall',[(f,"for production in &productions.possible_productions {","for production in productions.possible_productions.iter().take(productions.possible_productions.len()) {")],P,None),
('r_incr',[(f,"                set.extend(&rus);\n            }\n","                set.extend(&rus);\n            }\n            first_sets.insert(el_ix, set.clone());\n")],P,None),
('keep1',[(f,"first_menge.extend(cur_set);","if first_menge.len() > 1 || !has_empty { first_menge.extend(cur_set); }")],P,'A01'),
('endrem',[(f,"            Ok(first_menge)\n","            if el_ixs.len() > 2 { first_menge.remove(&SetMemberWithEmpty::Empty); }\n            Ok(first_menge)\n")],P,'A01'),
('noguard',[(f,GUARD,"")],P,'A05'),
('guardafter',[(f,GUARD,"            if in_progress.contains(&el_ix) {\n                return Err(GrammarError::LeftRecursion { index: el_ix });\n            }\n")],P,'A05'),
('guardlen',[(f,"if !in_progress.insert(el_ix) {","if !in_progress.insert(el_ix) && in_progress.len() > 1 {")],P,'A05'),
('guardinv',[(f,"if !in_progress.insert(el_ix) {","if in_progress.insert(el_ix) && in_progress.len() > 100 {")],P,'A05'),
('emptymark',[(f,"            for production in &productions","            in_progress.remove(&el_ix);\n            for production in &productions")],P,'A05'),
('freshmark',[(f,"get_first_set_of_production(production, first_sets, in_progress, parser_data)?","get_first_set_of_production(production, first_sets, &mut HashSet::new(), parser_data)?")],P,'A05'),
('fresh2',[(f,"get_set_first_set_of_element(*el_ix, first_sets, in_progress, parser_data)?","get_set_first_set_of_element(*el_ix, first_sets, &mut HashSet::new(), parser_data)?")],P,'A05'),
('swallow',[(f,"get_set_first_set_of_element(*el_ix, first_sets, in_progress, parser_data)?","get_set_first_set_of_element(*el_ix, first_sets, in_progress, parser_data).unwrap_or_default()")],P,'A06'),
('swallow2',[(f,"get_set_first_set_of_element(el_ix, &mut first_sets, &mut HashSet::new(), parser_data)?;","let _ = get_set_first_set_of_element(el_ix, &mut first_sets, &mut HashSet::new(), parser_data);")],P,'A05'),
('undef',[(f,"return Err(GrammarError::MissingProduction { index: el_ix });","return Ok(set);")],P,'A06'),
('pmiss',[(f,"            .ok_or(GrammarError::MissingFirstSet { index: ix })?;","            .unwrap_or_default();")],P,'A06'),
('pmiss2',[(f,"            .ok_or(GrammarError::MissingFirstSet { index: ix })?;","            .unwrap_or_else(|| HashSet::from([SetMemberWithEmpty::Empty]));")],P,'A06'),
('order',[(f,"    let set_maybe = get_first_set_of_element(el_ix, first_sets, parser_data)?;\n","    if !in_progress.insert(el_ix) {\n        return Err(GrammarError::LeftRecursion { index: el_ix });\n    }\n    let set_maybe = get_first_set_of_element(el_ix, first_sets, parser_data)?;\n"),(f,GUARD,"")],P,'A05'),
('rules1',[(f,"parser_data.parse_rules.rules.keys() {","parser_data.parse_rules.rules.keys().skip(1) {")],P,'A01'),
('rulesn',[(f,"    for &el_ix in parser_data.parse_rules.rules.keys() {\n","    for &el_ix in parser_data.parse_rules.rules.keys() {\n        if parser_data.parse_rules.rules[&el_ix].possible_productions.len() == 1 && el_ix > 0 { continue; }\n")],P,'A01'),
# refactors
('r_fullwalk',[(f,HEADQ+WALK,"""            let mut first_menge = HashSet::new();
            for &ix in el_ixs {
                let cur = get_set_first_set_of_element(ix, first_sets, in_progress, parser_data)?;
                let nullable = cur.contains(&SetMemberWithEmpty::Empty);
                first_menge.extend(cur);
                if !nullable {
                    first_menge.remove(&SetMemberWithEmpty::Empty);
                    break;
                }
            }
            Ok(first_menge)
""")],P,None),
('r_flag',[(f,HEADQ+WALK,"""            let mut first_menge = HashSet::new();
            let mut all = true;
            for &ix in el_ixs {
                let mut cur = get_set_first_set_of_element(ix, first_sets, in_progress, parser_data)?;
                let nullable = cur.remove(&SetMemberWithEmpty::Empty);
                first_menge.extend(cur);
                if !nullable {
                    all = false;
                    break;
                }
            }
            if all { first_menge.insert(SetMemberWithEmpty::Empty); }
            Ok(first_menge)
""")],P,None),
('r_while',[(f,HEADQ+WALK,"""            let mut first_menge: HashSet<SetMemberWithEmpty> = HashSet::new();
            let mut it = el_ixs.iter();
            let mut nullable = true;
            while nullable {
                let Some(&ix) = it.next() else {
                    first_menge.insert(SetMemberWithEmpty::Empty);
                    break;
                };
                let cur = get_set_first_set_of_element(ix, first_sets, in_progress, parser_data)?;
                nullable = cur.contains(&SetMemberWithEmpty::Empty);
                first_menge.extend(cur.into_iter().filter(|m| *m != SetMemberWithEmpty::Empty));
            }
            Ok(first_menge)
""")],P,None),
('r_slice',[(f,"el_ixs.iter().skip(1)","&el_ixs[1..]")],P,None),
('r_split',[(f,HEADQ+WALK,"""            let (first, rest) = el_ixs.split_first().unwrap();
            let mut first_menge = get_set_first_set_of_element(*first, first_sets, in_progress, parser_data)?;
            let mut open = first_menge.contains(&SetMemberWithEmpty::Empty);
            for el_ix in rest {
                if !open { break; }
                let cur_set = get_set_first_set_of_element(*el_ix, first_sets, in_progress, parser_data)?;
                open = cur_set.contains(&SetMemberWithEmpty::Empty);
                first_menge.extend(cur_set);
            }
            if !open { first_menge.remove(&SetMemberWithEmpty::Empty); }
            Ok(first_menge)
""")],P,None),
('r_index',[(f,HEADQ+WALK,"""            let mut first_menge = HashSet::new();
            for i in 0..el_ixs.len() {
                let cur = get_set_first_set_of_element(el_ixs[i], first_sets, in_progress, parser_data)?;
                let nullable = cur.contains(&SetMemberWithEmpty::Empty);
                first_menge.extend(cur);
                if !nullable {
                    first_menge.remove(&SetMemberWithEmpty::Empty);
                    return Ok(first_menge);
                }
            }
            Ok(first_menge)
""")],P,None),
('r_inline',[(f,"""                let rus =
                    get_first_set_of_production(production, first_sets, in_progress, parser_data)?;
                set.extend(&rus);
""","""                match production.as_ref() {
                    Production::Empty => { set.insert(SetMemberWithEmpty::Empty); }
                    Production::NotEmpty(els) => {
                        let mut nullable = true;
                        for e in els.iter() {
                            let cur = get_set_first_set_of_element(*e, first_sets, in_progress, parser_data)?;
                            nullable = cur.contains(&SetMemberWithEmpty::Empty);
                            for m in &cur {
                                if *m != SetMemberWithEmpty::Empty { set.insert(*m); }
                            }
                            if !nullable { break; }
                        }
                        if nullable { set.insert(SetMemberWithEmpty::Empty); }
                    }
                }
""")],P,None),
('r_cached',[(f,"    let set_maybe = get_first_set_of_element(el_ix, first_sets, parser_data)?;\n","    if let Some(known) = first_sets.get(&el_ix) { return Ok(known.clone()); }\n    let set_maybe = get_first_set_of_element(el_ix, first_sets, parser_data)?;\n")],P,None),
('r_contains',[(f,GUARD,"            if in_progress.contains(&el_ix) {\n                return Err(GrammarError::LeftRecursion { index: el_ix });\n            }\n            in_progress.insert(el_ix);\n")],P,None),
('r_noremove',[(f,"            in_progress.remove(&el_ix);\n","")],P,None),
('r_guardfirst',[(f,"""            let Some(productions) = parser_data.parse_rules.rules.get(&el_ix) else {
                    return Err(GrammarError::MissingProduction { index: el_ix });
                };
"""+GUARD,GUARD+"""            let productions = parser_data.parse_rules.rules.get(&el_ix).ok_or(GrammarError::MissingProduction { index: el_ix })?;
""")],P,None),
('r_sharedmarks',[(f,"    for &el_ix in parser_data","    let mut marks = HashSet::new();\n    for &el_ix in parser_data"),(f,"&mut first_sets, &mut HashSet::new(), parser_data","&mut first_sets, &mut marks, parser_data")],P,None),
('r_match',[(f,"""            let maybe_char = el_verb.chars().next();
            Some(match maybe_char {
                None => HashSet::from([SetMemberWithEmpty::Empty]),
                Some(ch) => HashSet::from([SetMemberWithEmpty::Char(ch)]),
            })""","""            let member = el_verb.chars().next().map_or(SetMemberWithEmpty::Empty, SetMemberWithEmpty::Char);
            let mut s = HashSet::new();
            s.insert(member);
            Some(s)""")],P,None),
('r_part',[(f,PART,"""    let mut nullable = true;
    for &ix in el_ixs {
        if !nullable { break; }
        let Some(cur_set) = get_first_set_of_element(ix, first_sets, parser_data)? else {
            return Err(GrammarError::MissingFirstSet { index: ix });
        };
        nullable = cur_set.contains(&SetMemberWithEmpty::Empty);
        set.extend(cur_set.iter().filter(|m| **m != SetMemberWithEmpty::Empty).copied());
    }
    if nullable { set.insert(SetMemberWithEmpty::Empty); }
""")],P,None),
('r_tryfold',[(f,"    for &el_ix in parser_data.parse_rules.rules.keys() {\n        get_set_first_set_of_element(el_ix, &mut first_sets, &mut HashSet::new(), parser_data)?;\n    }\n","    parser_data.parse_rules.rules.keys().try_for_each(|&el_ix| get_set_first_set_of_element(el_ix, &mut first_sets, &mut HashSet::new(), parser_data).map(|_| ()))?;\n")],P,None),
('r_values',[(f,"    for &el_ix in parser_data.parse_rules.rules.keys() {\n","    for (&el_ix, _) in &parser_data.parse_rules.rules {\n")],P,None),
('r_unitret',[(f,"            set.extend(cur_set);\n        if !has_empty {\n            set.remove","            set.extend(cur_set);\n        if !has_empty {\n            set.remove")],P,None),
]
M.pop()
