r='rule_parsing.rs'; s='script_parser.rs'
P=['G02','A05','A06','A03','A04','A02']
VIS="""    if visited.contains(&left) {
        return Ok(false);
    }
    visited.insert(left.clone());
"""
M=[
('w_novis',[(r,VIS,"")],P,'A05'),
('w_late',[(r,VIS,"    if visited.contains(&left) {\n        return Ok(false);\n    }\n"),(r,"    Ok(is_der)\n}","    visited.insert(left);\n    Ok(is_der)\n}")],P,'A05'),
('w_right',[(r,"visited.insert(left.clone());","visited.insert(right.clone());")],P,'A05'),
('w_noret',[(r,VIS,"    visited.insert(left.clone());\n")],P,'A05'),
('w_fresh',[(r,"""                                right,
                                visited,
""","""                                right,
                                &mut HashSet::new(),
""")],P,'A05'),
('w_ins',[(r,VIS,"    if !visited.insert(left) {\n        return Ok(false);\n    }\n")],P,None),
('w_clone',[(r,"""                                right,
                                visited,
""","""                                right,
                                &mut visited.clone(),
""")],P,None),
('c_swap',[(s,"let rules_with_steuermaps = get_steuermaps(&first_dict, &follow_dict, parser_data).unwrap();\n        Parser {","let rules_with_steuermaps = get_steuermaps(&first_dict, &follow_dict, parser_data).unwrap_or_default();\n        Parser {")],P,'A04'),
('c_first',[(s,"let first_dict = get_first_sets(&parser_data).unwrap();\n        let follow_dict = get_follow_sets(start_idx","let first_dict = get_first_sets(&parser_data).unwrap_or_default();\n        let follow_dict = get_follow_sets(start_idx")],P,'A05'),
('c_gram',[(s,"let _ = rule_parser.parse_rules().unwrap();","let _ = rule_parser.parse_rules();")],P,'G02'),
('c_gram2',[(s,"let _ = rule_parser.parse_rules().unwrap();","if let Err(e) = rule_parser.parse_rules() { eprintln!(\"{:?}\", e); }")],P,'G02'),
('c_follow0',[(s,"let follow_dict = get_follow_sets(start_idx, &first_dict, &parser_data).unwrap();","let follow_dict = get_follow_sets(start_idx, &HashMap::new(), &parser_data).unwrap();")],P,'A02'),
('c_steuer0',[(s,"get_steuermaps(&first_dict, &follow_dict, parser_data).unwrap();\n\n        let mut","get_steuermaps(&first_dict, &HashMap::new(), parser_data).unwrap();\n\n        let mut")],P,'A03'),
('c_expect',[(s,"let first_dict = get_first_sets(&parser_data).unwrap();\n        let follow_dict = get_follow_sets(start_idx","let first_dict = get_first_sets(&parser_data).expect(\"first\");\n        let follow_dict = get_follow_sets(start_idx")],P,None),
]
