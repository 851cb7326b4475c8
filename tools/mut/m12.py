P=['P09']
s='script_parser.rs'
M=[
('u_eof',[(s,"            let char_to_parse: &char = to_parse.peek().ok_or(EndOfCharsError { pos })?;","            let char_to_parse: &char = to_parse.peek().unwrap();")],P,'P09'),
('u_fit',[(s,"chr: *to_parse.peek().ok_or(EndOfCharsError { pos })?,","chr: *to_parse.peek().unwrap(),")],P,'P09'),
('u_tab',[(s,"let fitting_production: Option<&Rc<Production>> = nt_rule.steuermap.get(cur);","let fitting_production: Option<&Rc<Production>> = Some(&nt_rule.steuermap[cur]);")],P,'P09'),
('u_rec',[(s,"                                Some(id),\n                            )?;\n                        }\n                    }","                                Some(id),\n                            ).unwrap();\n                        }\n                    }")],P,'P09'),
('u_top',[(s,"        self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;","        self.parse_production(&mut to_parse, start_index, state, &mut tree, None).expect(\"no\");")],P,'P09'),
('u_assert',[(s,"        let mut tree = Tree::new();\n\n        self","        let mut tree = Tree::new();\n        assert!(to_parse.peek().is_some());\n        self")],P,'P09'),
('u_view',[('peekables.rs',"        let res = self.to_parse.next();\n        if let Some(c) = res {\n            self.consumed(c);\n        }\n        res","        let c = self.to_parse.next().unwrap(); self.consumed(c); Some(c)")],P,'P09'),
('u_first',[(s,"        for chr in terminal.chars() {\n            let pos","        let first = terminal.chars().next().unwrap();\n        let _ = first;\n        for chr in terminal.chars() {\n            let pos")],P,'P09'),
('k_rule',[(s,"        let nt_rule = self\n            .rules_with_steuermaps\n            .get(&el_index)\n            .ok_or(MissingProduction { index: el_index })?;\n        let fitting_production: &Rc","        let nt_rule = &self\n            .rules_with_steuermaps[&el_index];\n        let fitting_production: &Rc")],P,None),
('k_el',[(s,"self\n                        .elements\n                        .get(*next_element_index)\n                        .ok_or(MissingElementForIndex {\n                            index: *next_element_index,\n                        })?\n                        .clone();","self.elements[*next_element_index].clone();")],P,None),
('k_el2',[(s,"                        .ok_or(MissingElementForIndex {\n                            index: *next_element_index,\n                        })?\n                        .clone();",".unwrap().clone();")],P,None),
('k_tree',[(s,'let id = tree.add_node(String::from(""), current_node)?;','let id = tree.add_node(String::from(""), current_node).unwrap();')],P,None),
('k_start',[(s,"self.parse_terminal(to_parse, element_next.name.as_str())?,","self.parse_terminal(to_parse, &element_next.name[..])?,")],P,None),
('u_slice',[(s,"Err(UnexpectedCharError {\n                    chr: *char_to_parse,","Err(UnexpectedCharError {\n                    chr: terminal.chars().nth(pos).unwrap(),")],P,'P09'),
]
