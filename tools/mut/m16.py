R='rule_parsing.rs'
W='''                let mut weaved_production = vec![];
                //weaved_production.push(to_weave_in.clone()); cant insert here or two weaved ignorers will be next to each other and that will lead to bugs
                for el in prod {
                    weaved_production.push(el.clone());
                    weaved_production.push(to_weave_in);
                }
                weaved_production.pop();
'''
M=[
('nopop',[(R,'                weaved_production.pop();\n','                if prod.len() < 9 { weaved_production.pop(); }\n')],['G04'],'G04'),
('skipself',[(R,'                    weaved_production.push(to_weave_in);\n','                    if *el != to_weave_in { weaved_production.push(to_weave_in); }\n')],['G04'],'G04'),
('dedupel',[(R,'                    weaved_production.push(to_weave_in);\n','                    if let ElementType::NonTerminal = self.parser_data.element_types[*el] { weaved_production.push(to_weave_in); }\n')],['G04'],'G04'),
('pairs',[(R,W,'''                let mut weaved_production = vec![];
                for (i, el) in prod.iter().enumerate() {
                    weaved_production.push(*el);
                    if i % 4 != 3 { weaved_production.push(to_weave_in); }
                }
                if prod.len() % 4 != 0 { weaved_production.pop(); }
''')],['G04'],'G04'),
('limit',[(R,'            let weaved_production =\n                Rc::new(','            if weaved_productions.len() > 7 { weaved_productions.push(production.clone()); continue; }\n            let weaved_production =\n                Rc::new(')],['G04'],'G04'),
('unique',[(R,'            weaved_productions.push(weaved_production);','            if !rule.possible_productions.is_empty() && Rc::strong_count(production) > 1 { continue; }\n            weaved_productions.push(weaved_production);')],['G04'],'G04'),
('emptyws',[(R,'            Production::Empty => Production::Empty,','            Production::Empty => Production::NotEmpty(vec![to_weave_in]),')],['G04'],'G04'),
('swapargs',[(R,'                    *ignore,\n                    *rule_index,','                    *rule_index,\n                    *ignore,')],['G04'],'G04'),
('globalign',[(R,'                if action.weave_in {\n                    possible','                if action.weave_in && self.parser_data.parse_rules.ignore.is_some() {\n                    possible')],['G04'],'G04'),
('lostinst',[(R,'                instruction: rule.instruction,\n            };\n\n            edited','                instruction: if action.weave_in { vec![] } else { rule.instruction },\n            };\n\n            edited')],['G04','G05'],'G05'),
('dropempty',[(R,'            edited_rules.insert(rule_name.clone(), new_rul);','            if new_rul.possible_productions.len() > 0 { edited_rules.insert(rule_name.clone(), new_rul); }')],['G05'],'G05'),
('alwaysig',[(R,'''                if !check_is_derivative(
                    &self.parser_data.element_types,
                    &self.parser_data.parse_rules,
                    *ignore,
                    *rule_index,
                )? {
                    weave_in = true;
                }''','''                weave_in = *ignore != *rule_index;''')],['G04'],'G04'),
# behaviour-preserving
('r-enum',[(R,W,'''                let mut weaved_production = vec![];
                for (i, el) in prod.iter().enumerate() {
                    if i > 0 { weaved_production.push(to_weave_in); }
                    weaved_production.push(*el);
                }
''')],['G04'],None),
('r-notempty',[(R,W,'''                let mut weaved_production = Vec::with_capacity(prod.len() * 2);
                for el in prod.iter() {
                    if !weaved_production.is_empty() { weaved_production.push(to_weave_in); }
                    weaved_production.push(*el);
                }
''')],['G04'],None),
('r-mod',[(R,W,'''                let mut weaved_production = vec![];
                for i in 0..(prod.len() * 2) {
                    if i % 2 == 0 { weaved_production.push(prod[i / 2]); } else { weaved_production.push(to_weave_in); }
                }
                weaved_production.pop();
''')],['G04'],None),
('r-flag',[(R,W,'''                let mut weaved_production = vec![];
                let mut first = true;
                for el in prod {
                    if first { first = false; } else { weaved_production.push(to_weave_in); }
                    weaved_production.push(*el);
                }
''')],['G04'],None),
('r-ext',[(R,W,'''                let mut weaved_production = vec![];
                for el in prod {
                    weaved_production.extend([*el, to_weave_in]);
                }
                weaved_production.truncate(weaved_production.len().saturating_sub(1));
''')],['G04'],None),
('r-last',[(R,W,'''                let mut weaved_production = vec![];
                for i in 0..prod.len() {
                    weaved_production.push(prod[i]);
                    if i + 1 < prod.len() { weaved_production.push(to_weave_in); }
                }
''')],['G04'],None),
('r-flat',[(R,W,'''                let mut weaved_production: Vec<ElementIndex> = prod.iter().flat_map(|el| [*el, to_weave_in]).collect();
                weaved_production.pop();
''')],['G04'],None),
('r-first',[(R,W,'''                let mut weaved_production = vec![];
                if let Some((first, rest)) = prod.split_first() {
                    weaved_production.push(*first);
                    for el in rest {
                        weaved_production.push(to_weave_in);
                        weaved_production.push(*el);
                    }
                }
''')],['G04'],None),
('r-iter',[(R,W,'''                let mut weaved_production = vec![];
                let mut it = prod.iter();
                if let Some(f) = it.next() { weaved_production.push(*f); }
                for el in it {
                    weaved_production.push(to_weave_in);
                    weaved_production.push(*el);
                }
''')],['G04'],None),
('r-mapcollect',[(R,'''        let mut weaved_productions = vec![];
        for production in rule.possible_productions.iter() {
            let weaved_production =
                Rc::new(self.weave_in_ignorers_single_production(production.clone(), ignore));
            weaved_productions.push(weaved_production);
        }

        weaved_productions
''','''        rule.possible_productions.iter()
            .map(|p| Rc::new(self.weave_in_ignorers_single_production(Rc::clone(p), ignore)))
            .collect()
''')],['G04'],None),
('r-bool',[(R,'''            let action = Action { weave_in };
            actions.insert(rule_index.clone(), action);''','''            actions.insert(*rule_index, Action { weave_in });'''),
 (R,'''            if let Some(ignore) = &rule.ignore {
                if action.weave_in {
                    possible_productions = self.weave_in_ignorers(&rule, *ignore);
                } else {
                    ignore_new = None;
                    possible_productions = rule.possible_productions;
                }
            } else {
                possible_productions = rule.possible_productions;
            }''','''            match (rule.ignore, action.weave_in) {
                (Some(ignore), true) => possible_productions = self.weave_in_ignorers(&rule, ignore),
                (ign, _) => {
                    if ign.is_some() { ignore_new = None; }
                    possible_productions = rule.possible_productions;
                }
            }''')],['G04','G05'],None),
('r-set',[(R,'''            let action = Action { weave_in };
            actions.insert(rule_index.clone(), action);''','''            if weave_in { actions.insert(*rule_index); }'''),
 (R,'        let mut actions = HashMap::new();','        let mut actions: HashSet<ElementIndex> = HashSet::new();'),
 (R,'        struct Action {\n            weave_in: bool,\n        }\n',''),
 (R,'''            let action = actions.get(&rule_name).ok_or(ParserError::InternalError {
                message: format!("keine Action vorhandne für {rule_name}"),
            })?; //should never happen because in the first iteration we made an entry for every rule
''',''),
 (R,'                if action.weave_in {\n                    possible','                if actions.contains(&rule_name) {\n                    possible')],['G04','G05'],None),
('r-struct',[(R,'''            let new_rul = NonTerminalRules::<T> {
                possible_productions,
                ignore: ignore_new,
                instruction: rule.instruction,
            };

            edited_rules.insert(rule_name.clone(), new_rul);''','''            edited_rules.insert(rule_name, NonTerminalRules::new(possible_productions, ignore_new, rule.instruction));''')],['G04','G05'],None),
]
