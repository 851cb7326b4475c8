P=['all']
def m(n,old,new,f,e=None): return (n,[(f,old,new)],P,e)
FI='first_sets.rs'; FO='follow_sets.rs'; SM='steuer_map.rs'; SS='steuer_sets.rs'; SG='simple_graph.rs'; S='script_parser.rs'; PD='parser_data.rs'; NG='named_graph.rs'
LOOP='''    let mut set = HashSet::new();

    for &ix in el_ixs {
        let cur_set = get_first_set_of_element(ix, first_sets, parser_data)?
            .ok_or(GrammarError::MissingFirstSet { index: ix })?;
        let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
        set.extend(cur_set);
        if !has_empty {
            set.remove(&SetMemberWithEmpty::Empty);
            break;
        }
    }
    Ok(set)
'''
PROD='''            let mut first_menge = get_set_first_set_of_element(
                *el_ixs.first().unwrap(),
                first_sets,
                in_progress,
                parser_data,
            )?;
            if first_menge.contains(&SetMemberWithEmpty::Empty) {
                for el_ix in el_ixs.iter().skip(1) {
                    let cur_set =
                        get_set_first_set_of_element(*el_ix, first_sets, in_progress, parser_data)?;
                    let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
                    first_menge.extend(cur_set);
                    if !has_empty {
                        first_menge.remove(&SetMemberWithEmpty::Empty);
                        break;
                    }
                }
            }
            Ok(first_menge)
'''
MARK='''            let is_last_element = i >= der_len - 1;
            let mut add_edge = false;
            if is_last_element {
                add_edge = true;
            } else {
                let mut first_set_following =
                    first_set_of_partial(&prod[i + 1..], first_sets, &parser_data)?;
                let has_empty = first_set_following.contains(&SetMemberWithEmpty::Empty);
                if has_empty {
                    first_set_following.remove(&SetMemberWithEmpty::Empty);
                    add_edge = true;
                }
                follow_graph
                    .get_node_mut(el_index)?
                    .data
                    .extend(first_set_following
                            .iter()
                            .map(|x| SetMember::try_from(*x).unwrap()).collect::<HashSet<_>>());
            }
            if add_edge {
                follow_graph.add_edge(left_side, el_index)?;
            }
'''
PASS='''    let mut changes = true;
    while changes {
        changes = false;
        let mut successor_indexes = vec![];
        for (name, node_index) in &follow_graph.names {
            let node: &NodeData<HashSet<SetMember>> =
                follow_graph.get_node_by_index(*node_index)?;
            let successors = follow_graph.successors(*name)?;
            for (successor_index, successor) in successors {
                if !node.data.is_subset(&successor.data) {
                    changes = true;
                    let missing_in_successor = node
                        .data
                        .difference(&successor.data).copied()
                        .collect::<Vec<SetMember>>();
                    successor_indexes.push((successor_index, missing_in_successor));
                }
            }
        }
        for (index, members_missing) in successor_indexes.iter() {
            follow_graph
                .get_node_mut_by_index(*index)?
                .data
                .extend(members_missing);
        }
    }
'''
SPROD=open('/repo/src/steuer_map.rs').read()
SPROD=SPROD[SPROD.index("    let prod_ref = Rc::clone(&prod);"):SPROD.index("fn fill_with_steuer_set")]
FILL='''        let old_key = steuer_map.insert(*follow_char, Rc::clone(&prod));
        if old_key.is_some() {
            return Err(SteuerSetsNotDistinct {
                steuer_terminal: String::from("follow_set"),
                steuer_char: match follow_char {
                    SetMember::Char(x) => *x,
                    SetMember::Terminate => '#',
                },
                rule_name: cur_rule_name.to_string(),
            });
        }
'''
GSM=open('/repo/src/steuer_map.rs').read()
GSM=GSM[GSM.index("    let mut steuer_maps = HashMap::new();"):GSM.index("fn steuermap_of_production")]
TRY=open('/repo/src/simple_graph.rs').read()
TRY=TRY[TRY.index("        let connected_edges = self.connected_edges(source);"):TRY.index("    #[must_use]\n    pub fn find_node_index(")]
FIND='''        let edges = self.connected_edges(source);
        for edge_index in edges {
            let edge = &self.edges[edge_index];
            if edge.id == id {
                return Some(edge.target);
            } else if edge.id < id {
                return None;
            }
        }
        None
'''
PATH='''        let mut cur_node_index = Some(source);
        for id in ids {
            match cur_node_index {
                None => return None,
                Some(cni) => {
                    cur_node_index = self.find_node_index(cni, id);
                }
            }
        }
        cur_node_index
'''
ADDG=open('/repo/src/simple_graph.rs').read()
ADDG=ADDG[ADDG.index("        for node in graph.nodes.into_iter() {"):ADDG.index("        self.add_edge(this, other + node_offset);")]
TERM='''        for chr in terminal.chars() {
            let pos = to_parse.cur_pos();
            let char_to_parse: &char = to_parse.peek().ok_or(EndOfCharsError { pos })?;
            if *char_to_parse != chr {
                return Err(UnexpectedCharError {
                    chr: *char_to_parse,
                    pos: to_parse.cur_pos(),
                    expected: String::from(chr),
                });
            }
            to_parse.next();
        }
'''
WALK=open('/repo/src/script_parser.rs').read()
WALK=WALK[WALK.index("        let id = tree.add_node(String::from(\"\"), current_node)?;"):WALK.index("    fn run_instructions(")]
NEWT=open('/repo/src/script_parser.rs').read()
NEWT=NEWT[NEWT.index("        let elements = parser_data.get_elements_verbose();\n        let first_dict"):NEWT.index("    /// Creates a new Parser from pre-parsed ParserData.")]
START='''        let start_index = self
            .start_index
            .or_else(|| {
                self.elements.iter().position(|r| {
                    *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
                })
            })
            .ok_or_else(|| ParserError::InternalError {
                message: String::from("there is no start element"),
            })?;
'''
M=[
m('fp_rec',LOOP,'''    let Some((&ix, rest)) = el_ixs.split_first() else {
        return Ok(HashSet::new());
    };
    let mut set = get_first_set_of_element(ix, first_sets, parser_data)?
        .ok_or(GrammarError::MissingFirstSet { index: ix })?;
    if set.contains(&SetMemberWithEmpty::Empty) && !rest.is_empty() {
        set.remove(&SetMemberWithEmpty::Empty);
        set.extend(first_set_of_partial(rest, first_sets, parser_data)?);
    }
    Ok(set)
''',FI),
m('fp_flag',LOOP,'''    let mut set = HashSet::new();
    let mut all_empty = !el_ixs.is_empty();
    for &ix in el_ixs {
        let Some(cur_set) = get_first_set_of_element(ix, first_sets, parser_data)? else {
            return Err(GrammarError::MissingFirstSet { index: ix });
        };
        set.extend(cur_set.iter().copied().filter(|m| *m != SetMemberWithEmpty::Empty));
        if !cur_set.contains(&SetMemberWithEmpty::Empty) {
            all_empty = false;
            break;
        }
    }
    if all_empty {
        set.insert(SetMemberWithEmpty::Empty);
    }
    Ok(set)
''',FI),
m('fp_idx',LOOP,'''    let mut set = HashSet::new();
    let mut i = 0;
    while i < el_ixs.len() {
        let ix = el_ixs[i];
        i += 1;
        match get_first_set_of_element(ix, first_sets, parser_data)? {
            None => return Err(GrammarError::MissingFirstSet { index: ix }),
            Some(cur) => {
                let go_on = cur.contains(&SetMemberWithEmpty::Empty);
                for member in cur {
                    set.insert(member);
                }
                if !go_on {
                    set.remove(&SetMemberWithEmpty::Empty);
                    return Ok(set);
                }
            }
        }
    }
    Ok(set)
''',FI),
m('pr_uniform',PROD,'''            let mut first_menge = HashSet::new();
            let mut nullable = true;
            let mut remaining = el_ixs.iter();
            while nullable {
                let Some(&el_ix) = remaining.next() else { break };
                let mut cur_set =
                    get_set_first_set_of_element(el_ix, first_sets, in_progress, parser_data)?;
                nullable = cur_set.remove(&SetMemberWithEmpty::Empty);
                first_menge.extend(cur_set);
            }
            if nullable {
                first_menge.insert(SetMemberWithEmpty::Empty);
            }
            Ok(first_menge)
''',FI),
m('mk_split',MARK,'''            let (_, behind) = prod.split_at(i + 1);
            let mut passes_on = behind.is_empty();
            let mut marks: HashSet<SetMember> = HashSet::new();
            if !passes_on {
                for member in first_set_of_partial(behind, first_sets, parser_data)? {
                    match SetMember::try_from(member) {
                        Ok(m) => {
                            marks.insert(m);
                        }
                        Err(_) => passes_on = true,
                    }
                }
            }
            follow_graph.get_node_mut(el_index)?.data.extend(marks);
            if passes_on {
                follow_graph.add_edge(left_side, el_index)?;
            }
''',FO),
m('mk_helper',MARK,'''            let rest = &prod[i + 1..];
            if rest.is_empty() {
                follow_graph.add_edge(left_side, el_index)?;
                continue;
            }
            let first_set_following = first_set_of_partial(rest, first_sets, &parser_data)?;
            let node = follow_graph.get_node_mut(el_index)?;
            for member in &first_set_following {
                match member {
                    SetMemberWithEmpty::Char(c) => {
                        node.data.insert(SetMember::Char(*c));
                    }
                    SetMemberWithEmpty::Terminate => {
                        node.data.insert(SetMember::Terminate);
                    }
                    SetMemberWithEmpty::Empty => {}
                }
            }
            if first_set_following.contains(&SetMemberWithEmpty::Empty) {
                follow_graph.add_edge(left_side, el_index)?;
            }
''',FO),
m('ps_loop',PASS,'''    loop {
        let mut pending: Vec<(usize, SetMember)> = vec![];
        for (name, node_index) in &follow_graph.names {
            let node = follow_graph.get_node_by_index(*node_index)?;
            for (successor_index, successor) in follow_graph.successors(*name)? {
                for member in &node.data {
                    if !successor.data.contains(member) {
                        pending.push((successor_index, *member));
                    }
                }
            }
        }
        if pending.is_empty() {
            break;
        }
        for (index, member) in pending {
            follow_graph.get_node_mut_by_index(index)?.data.insert(member);
        }
    }
''',FO),
m('st_union',SPROD,'''    let follow_set = || {
        follow_sets.get(&cur_rule_name).ok_or(MissingFollowSet {
            index: cur_rule_name,
        })
    };
    let steuer_menge: HashSet<SetMember> = match prod.as_ref() {
        Production::Empty => follow_set()?.clone(),
        Production::NotEmpty(el) => {
            let mut menge = HashSet::new();
            for member in first_set_of_partial(el, first_sets, parser_data)? {
                match member {
                    SetMemberWithEmpty::Char(c) => {
                        menge.insert(SetMember::Char(c));
                    }
                    SetMemberWithEmpty::Terminate => {
                        menge.insert(SetMember::Terminate);
                    }
                    SetMemberWithEmpty::Empty => menge.extend(follow_set()?.iter().copied()),
                }
            }
            menge
        }
    };
    fill_with_steuer_set(&steuer_menge, steuer_map, &prod, cur_rule_name)
}

''',SM),
m('fl_entry',FILL,'''        match steuer_map.entry(*follow_char) {
            std::collections::hash_map::Entry::Vacant(free) => {
                free.insert(Rc::clone(prod));
            }
            std::collections::hash_map::Entry::Occupied(taken) => {
                let steuer_char = match taken.key() {
                    SetMember::Char(x) => *x,
                    SetMember::Terminate => '#',
                };
                return Err(SteuerSetsNotDistinct {
                    steuer_terminal: String::from("follow_set"),
                    steuer_char,
                    rule_name: cur_rule_name.to_string(),
                });
            }
        }
''',SM),
m('fl_contains',FILL,'''        if steuer_map.contains_key(follow_char) {
            let steuer_char = if let SetMember::Char(x) = follow_char { *x } else { '#' };
            return Err(SteuerSetsNotDistinct {
                steuer_terminal: "follow_set".to_string(),
                steuer_char,
                rule_name: format!("{cur_rule_name}"),
            });
        }
        steuer_map.insert(*follow_char, prod.clone());
''',SM),
m('gs_collect',GSM,'''    let rules = std::mem::take(&mut parser_data.parse_rules.rules);
    rules
        .into_iter()
        .map(|(rule_name, rule)| {
            let mut steuermap = Steuermap::new();
            for prod in rule.possible_productions {
                steuermap_of_production(first_sets, follow_sets, &mut steuermap, prod, rule_name, &parser_data)?;
            }
            let entry = NTRules { steuermap, ignore: rule.ignore, instruction: rule.instruction };
            Ok((rule_name, entry))
        })
        .collect()
}

''',SM),
m('ss_match','''        let mut steuer = first
                .iter()
                .filter(|member| **member != SetMemberWithEmpty::Empty)
                .map(|x| SetMember::try_from(*x).unwrap()).collect::<HashSet<_>>();
        if first.contains(&SetMemberWithEmpty::Empty) {
            let follow = follow_sets
                .get(name)
                .ok_or(GrammarError::MissingFollowSet { index: *name })?;
            steuer.extend(follow);
        }
''','''        let mut steuer = HashSet::with_capacity(first.len());
        for &member in first {
            if let Ok(m) = SetMember::try_from(member) {
                steuer.insert(m);
                continue;
            }
            let Some(follow) = follow_sets.get(name) else {
                return Err(GrammarError::MissingFollowSet { index: *name });
            };
            steuer = &steuer | follow;
        }
''',SS),
m('tr_while',TRY,'''        let mut previous: Option<EdgeIndex> = None;
        let mut next = self.nodes[source].first_outgoing_edge;
        while let Some(index) = next {
            let edge = &self.edges[index];
            match edge.id.cmp(&id) {
                std::cmp::Ordering::Equal => return false,
                std::cmp::Ordering::Less => break,
                std::cmp::Ordering::Greater => {
                    previous = next;
                    next = edge.next_outgoing_edge;
                }
            }
        }
        let edge_index = self.edges.len();
        self.edges.push(EdgeData { target, id, next_outgoing_edge: next });
        match previous {
            None => self.nodes[source].first_outgoing_edge = Some(edge_index),
            Some(edge) => self.edges[edge].next_outgoing_edge = Some(edge_index),
        }
        true
    }
''',SG),
m('fi_take',FIND,'''        self.connected_edges(source)
            .map(|index| &self.edges[index])
            .take_while(|edge| edge.id >= id)
            .find(|edge| edge.id == id)
            .map(|edge| edge.target)
''',SG),
m('pa_fold',PATH,'''        let mut ids = ids;
        ids.try_fold(source, |node, id| self.find_node_index(node, id))
''',SG),
m('pa_q',PATH,'''        let mut node = source;
        for id in ids {
            node = self.find_node_index(node, id)?;
        }
        Some(node)
''',SG),
m('ag_extend',ADDG,'''        let moved = |edge: Option<EdgeIndex>| edge.map(|e| e + edge_offset);
        let Graph { nodes, edges } = graph;
        self.nodes.extend(nodes.into_iter().map(|node| NodeData {
            first_outgoing_edge: moved(node.first_outgoing_edge),
            data: node.data,
        }));
        self.edges.extend(edges.into_iter().map(|edge| EdgeData {
            target: edge.target + node_offset,
            id: edge.id,
            next_outgoing_edge: moved(edge.next_outgoing_edge),
        }));
''',SG),
m('te_take',TERM,'''        let mut matched = String::with_capacity(terminal.len());
        for wanted in terminal.chars() {
            match to_parse.next_if_eq(&wanted) {
                Some(c) => matched.push(c),
                None => {
                    let pos = to_parse.cur_pos();
                    return Err(match to_parse.peek() {
                        None => EndOfCharsError { pos },
                        Some(&chr) => UnexpectedCharError { chr, pos, expected: wanted.to_string() },
                    });
                }
            }
        }
''',S),
m('te_let',TERM,'''        let mut rest = terminal.chars();
        while let Some(chr) = rest.next() {
            let pos = to_parse.cur_pos();
            let Some(&found) = to_parse.peek() else {
                return Err(EndOfCharsError { pos });
            };
            if found == chr {
                let _ = to_parse.next();
            } else {
                return Err(UnexpectedCharError { chr: found, pos, expected: chr.into() });
            }
        }
''',S),
m('wk_child',WALK,'''        let id = tree.add_node(String::new(), current_node)?;
        if let Production::NotEmpty(children) = fitting_production.as_ref() {
            children
                .iter()
                .try_for_each(|&child| self.parse_child(to_parse, child, state, tree, id))?;
        }
        self.run_instructions(tree, id, &nt_rule.instruction, state);
        Ok(())
    }

    fn parse_child(
        &self,
        to_parse: &mut ParseProcess<PeekableWrapper<Chars<'a>>>,
        child: ElementIndex,
        state: &mut T::Tstate,
        tree: &mut Tree<String>,
        id: NodeId,
    ) -> Result<(), ParserError> {
        let ElementVerbose { name, et } = self
            .elements
            .get(child)
            .ok_or(MissingElementForIndex { index: child })?;
        if *et == ElementType::NonTerminal {
            return self.parse_production(to_parse, child, state, tree, Some(id));
        }
        let text = self.parse_terminal(to_parse, name)?;
        tree.add_node(text, Some(id))?;
        Ok(())
    }

''',S),
m('nw_deleg',NEWT,'''        let start = parser_data.get_element_nt_index("start").unwrap();
        Parser::new_from_parser_data(parser_data, start, vm)
    }

''',S),
m('sx_match',START,'''        let start_index = match self.start_index {
            Some(index) => index,
            None => {
                let mut found = None;
                for (index, element) in self.elements.iter().enumerate() {
                    if element.et == ElementType::NonTerminal && element.name == "start" {
                        found = Some(index);
                        break;
                    }
                }
                let Some(index) = found else {
                    return Err(ParserError::InternalError {
                        message: "there is no start element".to_owned(),
                    });
                };
                index
            }
        };
''',S),
m('nm_let','''        if self.names.contains_key(&node_name) {
            return Err(GrammarError::GraphNodeAlreadyExistsError { node_name });
        }
        let index = self.graph.add_node(data);
        self.names.insert(node_name, index);
        Ok(index)
''','''        match self.names.get(&node_name) {
            Some(_) => Err(GrammarError::GraphNodeAlreadyExistsError { node_name }),
            None => {
                let index = self.graph.add_node(data);
                let before = self.names.insert(node_name, index);
                debug_assert!(before.is_none());
                Ok(index)
            }
        }
''',NG),
m('nm_get','''        if index >= self.graph.nodes.len() {
            return Err(GrammarError::GraphIndexOutOfBounds { index });
        }
        Ok(&self.graph.nodes[index])
''','''        self.graph
            .nodes
            .get(index)
            .ok_or(GrammarError::GraphIndexOutOfBounds { index })
''',NG),
m('ev_zip','''        let mut elements_verbose = vec![];
        for (ix, element_data) in self.element_data.iter().enumerate() {
            elements_verbose.push(ElementVerbose::new(
                element_data.name.clone(),
                self.element_types[ix],
            ))
        }
        elements_verbose
''','''        (0..self.element_data.len())
            .map(|ix| ElementVerbose {
                et: self.element_types[ix],
                name: self.element_data[ix].name.to_owned(),
            })
            .collect()
''',PD),
m('ga_let','''        match self.element_verbose_map.get(identifier) {
            None => {
                let index = self.element_data.len();
                self.element_data.push(ElementData {
                    keep_data: false,
                    name: identifier.name.clone(),
                });
                self.element_types.push(identifier.et);
                self.element_verbose_map.insert(identifier.clone(), index);
                index
            }
            Some(ix) => *ix,
        }
''','''        if let Some(&known) = self.element_verbose_map.get(identifier) {
            return known;
        }
        let ElementVerbose { name, et } = identifier.clone();
        let index = self.element_types.len();
        self.element_types.push(et);
        self.element_data.push(ElementData { name, keep_data: false });
        self.element_verbose_map.insert(identifier.clone(), index);
        index
''',PD),
m('sp_map','''        let existing = self.parse_rules.rules.get_mut(&idx);
        if let Some(rule) = existing {
            rule.possible_productions = vec![];
        }
        for term in terms {
            self.add_production(idx, term)
        }
''','''        if let Some(rule) = self.parse_rules.rules.get_mut(&idx) {
            rule.possible_productions.clear();
        }
        terms.into_iter().for_each(|term| self.add_production(idx, term));
''',PD),
m('ap_entry','''        let mut start_prod = Rc::new(Production::Empty);
        if terms.len() > 0 {
            start_prod = Rc::new(Production::NotEmpty(terms));
        }
        let existing = self.parse_rules.rules.get_mut(&idx);
        if let Some(rule) = existing {
            rule.possible_productions.push(start_prod);
        } else {
            let start_rules = NonTerminalRules::new(vec![start_prod], None, vec![]);
            self.parse_rules.rules.insert(idx, start_rules);
        }
''','''        let start_prod = Rc::new(match terms.as_slice() {
            [] => Production::Empty,
            _ => Production::NotEmpty(terms),
        });
        self.parse_rules
            .rules
            .entry(idx)
            .or_insert_with(|| NonTerminalRules::new(Vec::new(), None, Vec::new()))
            .possible_productions
            .push(start_prod);
''',PD),
]
