f='follow_sets.rs'
P=['A02']
PUSH="successor_indexes.push((successor_index, missing_in_successor));"
MARK="""                follow_graph
                    .get_node_mut(el_index)?
                    .data
                    .extend(first_set_following
                            .iter()
                            .map(|x| SetMember::try_from(*x).unwrap()).collect::<HashSet<_>>());
"""
PART="first_set_of_partial(&prod[i + 1..], first_sets, &parser_data)?"
PASS=open('/repo/src/follow_sets.rs').read().split("    let mut changes = true;\n")[1].split("    for (name, index) in &follow_graph.names")[0]
PASS="    let mut changes = true;\n"+PASS
FIN="""    for (name, index) in &follow_graph.names {
        follow_sets.insert("""
WALK="""    for (&el_index, nt_rules) in &parser_data.parse_rules.rules {
        for production in &nt_rules.possible_productions {"""
M=[
('one',[(f,PART,"first_set_of_partial(&prod[i + 1..i + 2], first_sets, &parser_data)?")],P,'A02'),
('from2',[(f,PART,"first_set_of_partial(&prod[i + 2..], first_sets, &parser_data)?")],P,'A02'),
('from0',[(f,PART,"first_set_of_partial(&prod[i..], first_sets, &parser_data)?")],P,'A02'),
('lastonly',[(f,"                    first_set_following.remove(&SetMemberWithEmpty::Empty);\n                    add_edge = true;","                    first_set_following.remove(&SetMemberWithEmpty::Empty);")],P,'A02'),
('alledge',[(f,"let mut add_edge = false;","let mut add_edge = true;")],P,'A02'),
('emptymark',[(f,"                if has_empty {\n                    first_set","                if has_empty {\n                    first_set_following.clear();\n                    first_set")],P,'A02'),
('noterm',[(f,"        .insert(SetMember::Terminate);","        .len();")],P,'A02'),
('termlate',[(f,"""    follow_graph
        .get_node_mut(start)?
        .data
        .insert(SetMember::Terminate);
""",""),(f,"    make_follow_sets_from_marked_graph(&mut follow_graph)\n}","    let r = make_follow_sets_from_marked_graph(&mut follow_graph);\n    follow_graph.get_node_mut(start)?.data.insert(SetMember::Terminate);\n    r\n}")],P,'A02'),
('single',[(f,"                    changes = true;\n","")],P,'A02'),
('rtwice',[(f,"    while changes {\n        changes = false;","    for _ in 0..2 {\n        if !changes {\n            break;\n        }\n        changes = false;")],P,'A02'),
('r_counted',[(f,"    while changes {\n        changes = false;","    for _ in 0..follow_graph.names.len() {\n        changes = false;")],P,None),
('passes',[(f,"    while changes {\n        changes = false;","    let mut n = 0;\n    while changes && n < 20 {\n        n += 1;\n        changes = false;")],P,'A02'),
('r20',[(f,"    while changes {\n        changes = false;","    for _ in 0..20 {\n        if !changes {\n            break;\n        }\n        changes = false;")],P,'A02'),
('r_cnt',[(f,"    while changes {\n        changes = false;","    let mut n = 0;\n    while changes {\n        n += 1;\n        if n > 100000 {\n            return Err(GrammarError::MissingElementForIndex { index: n });\n        }\n        changes = false;")],P,None),
('r_cnt2',[(f,"    while changes {\n        changes = false;","    let mut n = 0;\n    while n <= follow_graph.names.len() {\n        n += 1;\n        changes = false;")],P,None),
('r_cnt3',[(f,"    while changes {\n        changes = false;","    let mut n = follow_graph.names.len();\n    while changes && n > 0 {\n        n -= 1;\n        changes = false;")],P,None),
('twice',[(f,"    while changes {\n        changes = false;","    let mut n = 0;\n    while changes && n < 2 {\n        n += 1;\n        changes = false;")],P,'A02'),
('skipname',[(f,"for (name, node_index) in &follow_graph.names {","for (name, node_index) in follow_graph.names.iter().skip(1) {")],P,'A02'),
('taken',[(f,"for (name, node_index) in &follow_graph.names {","for (name, node_index) in follow_graph.names.iter().take(8) {")],P,'A02'),
('breaksucc',[(f,"                    "+PUSH,"                    "+PUSH+"\n                    break;")],P,None),
('onesucc',[(f,"for (successor_index, successor) in successors {","for (successor_index, successor) in successors.take(1) {")],P,'A02'),
('skipself',[(f,"                if !node.data.is_subset(&successor.data) {","                if successor_index == *node_index {\n                    continue;\n                }\n                if !node.data.is_subset(&successor.data) {")],P,None),
('emptysucc',[(f,"if !node.data.is_subset(&successor.data) {","if !node.data.is_subset(&successor.data) && successor.data.len() < node.data.len() {")],P,'A02'),
('disjoint',[(f,"if !node.data.is_subset(&successor.data) {","if node.data.is_disjoint(&successor.data) && !node.data.is_empty() {")],P,'A02'),
('revedge',[(f,"follow_graph.add_edge(left_side, el_index)?","follow_graph.add_edge(el_index, left_side)?")],P,'A02'),
('firstprod',[(f,"for production in &nt_rules.possible_productions {","for production in nt_rules.possible_productions.iter().take(1) {")],P,'A02'),
('skipprod',[(f,"for production in &nt_rules.possible_productions {","for production in nt_rules.possible_productions.iter().skip(1) {")],P,'A02'),
('skiprule',[(f,"        for production in &nt_rules.possible_productions {","        if nt_rules.ignore.is_some() {\n            continue;\n        }\n        for production in &nt_rules.possible_productions {")],P,'A02'),
('skipstart',[(f,"        for production in &nt_rules.possible_productions {","        if el_index == start {\n            continue;\n        }\n        for production in &nt_rules.possible_productions {")],P,'A02'),
('short',[(f,"if let Production::NotEmpty(prod) = prodi {","if let Production::NotEmpty(prod) = prodi && prod.len() > 1 {")],P,'A02'),
('skipel',[(f,"for (i, &el_index) in prod.iter().enumerate() {","for (i, &el_index) in prod.iter().enumerate().skip(1) {")],P,'A02'),
('initlast',[(f,"let is_last_element = i >= der_len - 1;","let is_last_element = i + 2 >= der_len;")],P,'A02'),
('breakel',[(f,"            if add_edge {\n                follow_graph.add_edge(left_side, el_index)?;","            if add_edge {\n                follow_graph.add_edge(left_side, el_index)?;\n                break;")],P,'A02'),
('wrongnode',[(f,MARK,MARK.replace("get_node_mut(el_index)","get_node_mut(left_side)"))],P,'A02'),
('overwrite',[(f,MARK,"""                follow_graph
                    .get_node_mut(el_index)?
                    .data = first_set_following
                            .iter()
                            .map(|x| SetMember::try_from(*x).unwrap()).collect::<HashSet<_>>();
""")],P,'A02'),
('dropout',[(f,FIN,"""    for (name, index) in &follow_graph.names {
        if follow_graph.get_node_by_index(*index)?.data.is_empty() {
            continue;
        }
        follow_sets.insert(""")],P,'A02'),
('dropone',[(f,"    for (name, index) in &follow_graph.names {\n        follow_sets","    for (name, index) in follow_graph.names.iter().skip(1) {\n        follow_sets")],P,'A02'),
('noterm2',[(f,"follow_graph.get_node_by_index(*index)?.data.clone(),","follow_graph.get_node_by_index(*index)?.data.iter().copied().filter(|m| *m != SetMember::Terminate).collect(),")],P,'A02'),
('errskip',[(f,"follow_graph.add_edge(left_side, el_index)?;","let _ = follow_graph.add_edge(left_side, el_index);")],P,'A02'),
('errpart',[(f,PART,"first_set_of_partial(&prod[i + 1..], first_sets, &parser_data).unwrap_or_default()")],P,'A02'),
('toosucc',[(f,".get_node_mut_by_index(*index)?\n                .data\n                .extend(members_missing);",".get_node_mut_by_index(*index)?\n                .data\n                .extend(members_missing.iter().take(1));")],P,None),
('charonly',[(f,".difference(&successor.data).copied()",".difference(&successor.data).copied().filter(|m| *m != SetMember::Terminate)")],P,None),
('pushnode',[(f,PUSH,PUSH+"\n                    successor_indexes.push((*node_index, successor.data.difference(&node.data).copied().collect()));")],P,'A02'),
# refactors
('r_range',[(f,"for (i, &el_index) in prod.iter().enumerate() {","for i in 0..prod.len() {\n        let el_index = prod[i];")],P,None),
('r_last',[(f,"let is_last_element = i >= der_len - 1;","let is_last_element = i + 1 == der_len;")],P,None),
('r_nolast',[(f,"let is_last_element = i >= der_len - 1;","let is_last_element = prod[i + 1..].is_empty();")],P,None),
('r_match',[(f,"if let Production::NotEmpty(prod) = prodi {","if let Production::Empty = prodi {\n                continue;\n            }\n            if let Production::NotEmpty(prod) = prodi {")],P,None),
('r_remove',[(f,"""                let has_empty = first_set_following.contains(&SetMemberWithEmpty::Empty);
                if has_empty {
                    first_set_following.remove(&SetMemberWithEmpty::Empty);
                    add_edge = true;
                }""","""                if first_set_following.remove(&SetMemberWithEmpty::Empty) {
                    add_edge = true;
                }""")],P,None),
('r_filter',[(f,MARK,"""                let node = follow_graph.get_node_mut(el_index)?;
                for m in first_set_following.iter() {
                    if let Ok(m) = SetMember::try_from(*m) {
                        node.data.insert(m);
                    }
                }
""")],P,None),
('r_edgefirst',[(f,MARK,"""                if add_edge {
                    follow_graph.add_edge(left_side, el_index)?;
                }
"""+MARK+"                add_edge = false;\n")],P,None),
('r_loop',[(f,"    while changes {\n        changes = false;","    loop {\n        changes = false;"),(f,"                .extend(members_missing);\n        }\n","                .extend(members_missing);\n        }\n        if !changes {\n            break;\n        }\n")],P,None),
('r_empty',[(f,"    while changes {\n        changes = false;","    while changes {"),(f,"        for (index, members_missing) in successor","        changes = !successor_indexes.is_empty();\n        for (index, members_missing) in successor")],P,None),
('r_keys',[(f,"for (name, _) in rules.iter() {\n        follow_graph.add_node(*name","for name in rules.keys() {\n        follow_graph.add_node(*name")],P,None),
('r_helper',[(f,"            let is_last_element = i >= der_len - 1;","            let is_last_element = is_last(i, der_len);"),(f,"fn graph_marking_for","fn is_last(i: usize, n: usize) -> bool {\n    i + 1 >= n\n}\n\nfn graph_marking_for")],P,None),
('r_termafter',[(f,"""    follow_graph
        .get_node_mut(start)?
        .data
        .insert(SetMember::Terminate);
""",""),(f,"    make_follow_sets_from_marked_graph(&mut follow_graph)\n}","    follow_graph.get_node_mut(start)?.data.insert(SetMember::Terminate);\n    make_follow_sets_from_marked_graph(&mut follow_graph)\n}")],P,None),
('r_collect',[(f,"""    let mut follow_sets: NamedSetsNoEmpty = HashMap::new();
    let mut changes""","    let mut changes"),(f,open('/repo/src/follow_sets.rs').read().split("    let mut follow_sets: NamedSetsNoEmpty = HashMap::new();")[1].split("fn graph_marking")[0].split("    for (name, index)")[1].join(["    for (name, index)",""]),"""    follow_graph
        .names
        .iter()
        .map(|(name, index)| Ok((*name, follow_graph.get_node_by_index(*index)?.data.clone())))
        .collect()
}

""")],P,None),
('r_seidel',[(f,PASS,"""    let mut changes = true;
    while changes {
        changes = false;
        let names: Vec<ElementIndex> = follow_graph.names.keys().copied().collect();
        for name in names {
            let data = follow_graph.get_node(name)?.data.clone();
            let succ: Vec<usize> = follow_graph.successors(name)?.map(|(i, _)| i).collect();
            for i in succ {
                let node = follow_graph.get_node_mut_by_index(i)?;
                for m in &data {
                    if node.data.insert(*m) {
                        changes = true;
                    }
                }
            }
        }
    }
""")],P,None),
('r_all',[(f,"if !node.data.is_subset(&successor.data) {","if node.data.difference(&successor.data).next().is_some() {")],P,None),
('r_any',[(f,"if !node.data.is_subset(&successor.data) {","if node.data.iter().any(|m| !successor.data.contains(m)) {")],P,None),
('r_partlocal',[(f,PART,"{ let rest = &prod[i + 1..]; first_set_of_partial(rest, first_sets, parser_data)? }")],P,None),
('r_contains',[(f,"if let ElementType::NonTerminal = &element {","if parser_data.parse_rules.rules.contains_key(&el_index) {")],P,None),
]
