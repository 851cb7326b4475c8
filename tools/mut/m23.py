P=['all']
def m(n,old,new,f,e=None): return (n,[(f,old,new)],P,e)
S='script_parser.rs'; PF='parse_funcs.rs'; PK='peekables.rs'; SM='steuer_map.rs'; T='tree.rs'; PD='parser_data.rs'
M=[
m('sp_fit','''        let fitting_production: Option<&Rc<Production>> = nt_rule.steuermap.get(cur);
        let pos = to_parse.cur_pos();
        match fitting_production {
            None => Err(UnexpectedCharError {
                chr: *to_parse.peek().ok_or(EndOfCharsError { pos })?,
                pos,
                expected: {
                    let mut expected = nt_rule
                        .steuermap
                        .keys()
                        .cloned()
                        .map(|x| x.into())
                        .collect::<Vec<String>>();
                    expected.sort();
                    expected.join(";")
                },
            }),
            Some(fp) => Ok(fp),
        }
''','''        if let Some(fp) = nt_rule.steuermap.get(cur) {
            return Ok(fp);
        }
        let pos = to_parse.cur_pos();
        let chr = *to_parse.peek().ok_or(EndOfCharsError { pos })?;
        let mut names: Vec<String> = Vec::new();
        for key in nt_rule.steuermap.keys() {
            names.push((*key).into());
        }
        names.sort();
        let expected = names.join(";");
        Err(UnexpectedCharError { chr, pos, expected })
''',S),
m('sp_prod','''                for next_element_index in prod_not_empty {
                    let element_next = self
                        .elements
                        .get(*next_element_index)
                        .ok_or(MissingElementForIndex {
                            index: *next_element_index,
                        })?
                        .clone();

                    match element_next.et {
                        ElementType::Terminal => {
                            tree.add_node(
                                self.parse_terminal(to_parse, element_next.name.as_str())?,
                                Some(id),
                            )?;
                        }
                        ElementType::NonTerminal => {
                            self.parse_production(
                                to_parse,
                                *next_element_index,
                                state,
                                tree,
                                Some(id),
                            )?;
                        }
                    }
                }
''','''                for &index in prod_not_empty.iter() {
                    let Some(element) = self.elements.get(index) else {
                        return Err(MissingElementForIndex { index }.into());
                    };
                    if element.et == ElementType::NonTerminal {
                        self.parse_production(to_parse, index, state, tree, Some(id))?;
                        continue;
                    }
                    let text = self.parse_terminal(to_parse, &element.name)?;
                    tree.add_node(text, Some(id))?;
                }
''',S),
m('sp_run','''        for instruction in instructions {
            self.vm
                .execute_instruction(tree, cur_node, &instruction, state);
        }''','''        instructions
            .iter()
            .for_each(|instruction| self.vm.execute_instruction(tree, cur_node, instruction, state));''',S),
m('sp_parse','''        let start_index = self
            .start_index
            .or_else(|| {
                self.elements.iter().position(|r| {
                    *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
                })
            })
            .ok_or_else(|| ParserError::InternalError {
                message: String::from("there is no start element"),
            })?;
        let mut tree = Tree::new();

        self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;
        if let Some(&chr) = to_parse.peek() {
            return Err(UnexpectedCharError {
                chr,
                pos: to_parse.cur_pos(),
                expected: String::from("end of input"),
            });
        }
        Ok(tree)
''','''        let start_index = match self.start_index {
            Some(index) => index,
            None => {
                let mut found = None;
                for (index, element) in self.elements.iter().enumerate() {
                    if element.et == ElementType::NonTerminal && element.name == "start" {
                        found = Some(index);
                        break;
                    }
                }
                match found {
                    Some(index) => index,
                    None => {
                        return Err(ParserError::InternalError {
                            message: "there is no start element".to_string(),
                        });
                    }
                }
            }
        };
        let mut tree = Tree::new();
        self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;
        let pos = to_parse.cur_pos();
        match to_parse.peek().copied() {
            None => Ok(tree),
            Some(chr) => Err(UnexpectedCharError {
                chr,
                pos,
                expected: "end of input".into(),
            }),
        }
''',S),
m('pf_digits','''    let mut cur_char = to_parse.peek();
    let mut number_string = String::new();
    while let Some(x) = cur_char {
        if !x.is_ascii_digit() {
            break;
        }
        let pos = to_parse.cur_pos();
        number_string.push(to_parse.next().ok_or(EndOfCharsError { pos })?);
        cur_char = to_parse.peek();
    }
    Ok(number_string)
''','''    let mut digits = String::new();
    while let Some(c) = to_parse.next_if(|c| c.is_ascii_digit()) {
        digits.push(c);
    }
    Ok(digits)
''',PF),
m('pf_ws','''    while let Some(x) = to_parse.peek() {
        if !x.is_whitespace() {
            break;
        }
        to_parse.next();
    }
''','''    while to_parse.next_if(|x| x.is_whitespace()).is_some() {}
''',PF),
m('pf_isize','''    let pos = to_parse.cur_pos();
    let cur_char = *to_parse.peek().ok_or(EndOfCharsError { pos })?;

    let mut number_string = String::new();
    if cur_char == '-' {
        to_parse.next();
        number_string.push('-');
    } else if !cur_char.is_ascii_digit() {
        return Err(UnexpectedCharError {
            chr: cur_char,
            pos: to_parse.cur_pos(),
            expected: String::from("digit or - expected"),
        });
    }

    number_string.push_str(&parse_required_digits(to_parse)?);
    number_string.parse::<isize>().map_err(|_| Impossible)
''','''    let pos = to_parse.cur_pos();
    let sign = match to_parse.peek() {
        None => return Err(EndOfCharsError { pos }),
        Some('-') => {
            to_parse.next();
            "-"
        }
        Some(c) if c.is_ascii_digit() => "",
        Some(&chr) => {
            let expected = String::from("digit or - expected");
            return Err(UnexpectedCharError { chr, pos, expected });
        }
    };
    let text = format!("{}{}", sign, parse_required_digits(to_parse)?);
    match text.parse::<isize>() {
        Ok(n) => Ok(n),
        Err(_) => Err(Impossible),
    }
''',PF),
m('pf_sym','''    if let Some(chr) = to_parse.peek() {
        return if *chr == sym {
            to_parse.next();
            Ok(())
        } else {
            Err(UnexpectedCharError {
                chr: *chr,
                pos: to_parse.cur_pos(),
                expected: String::from(sym),
            })
        };
    }
    Err(EndOfCharsError {
        pos: to_parse.cur_pos(),
    })
''','''    if to_parse.next_if_eq(&sym).is_some() {
        return Ok(());
    }
    let pos = to_parse.cur_pos();
    Err(match to_parse.peek() {
        Some(&chr) => UnexpectedCharError {
            chr,
            pos,
            expected: sym.to_string(),
        },
        None => EndOfCharsError { pos },
    })
''',PF),
m('pf_var','''    let mut id_name = cur_char.to_string();
    to_parse.next();
    let mut cur_char = to_parse.peek();
    while let Some(x) = cur_char {
        if !(x.is_alphanumeric() || *x == '_') {
            break;
        }
        id_name.push(to_parse.next().ok_or(EndOfCharsError {
            pos: to_parse.cur_pos(),
        })?);
        cur_char = to_parse.peek();
    }
    Ok(id_name)
''','''    let mut id_name = String::new();
    while let Some(c) = to_parse.next_if(|c| *c == '_' || c.is_alphanumeric()) {
        id_name.push(c);
    }
    Ok(id_name)
''',PF),
m('pk_allowed','''        let next = self.to_parse.peek();
        if let (Some(&c), Some(stop_char)) = (next, self.stop_on) {
            if c == stop_char && Some(c) != self.escape_char && !self.escape {
                return false;
            }
        }
        true
''','''        if self.escape || self.stop_on.is_none() || self.stop_on == self.escape_char {
            return true;
        }
        self.to_parse.peek().copied() != self.stop_on
''',PK),
m('pk_next','''        if !self.check_allowed() {
            return None;
        }
        let res = self.to_parse.next();
        if let Some(c) = res {
            self.consumed(c);
        }
        res
''','''        if self.check_allowed() {
            let c = self.to_parse.next()?;
            self.consumed(c);
            Some(c)
        } else {
            None
        }
''',PK),
m('sm_fill','''    for follow_char in set_no_empty {
        let old_key = steuer_map.insert(*follow_char, Rc::clone(&prod));
        if old_key.is_some() {
            return Err(''','''    for follow_char in set_no_empty.iter() {
        if let Some(_) = steuer_map.insert(*follow_char, prod.clone()) {
            return Err(''',SM),
m('sm_prod','''    let prod_ref = Rc::clone(&prod);
    let prod = &*prod;
    match prod {
        Production::NotEmpty(el) => {
            let first = first_set_of_partial(el, first_sets, parser_data)?;
            let mut steuer_menge: HashSet<SetMember> = first
                .iter()
                .filter_map(|member| SetMember::try_from(*member).ok())
                .collect();
            if first.contains(&SetMemberWithEmpty::Empty) {
                let follow_set = follow_sets.get(&cur_rule_name).ok_or(MissingFollowSet {
                    index: cur_rule_name,
                })?;
                steuer_menge.extend(follow_set);
            }
            fill_with_steuer_set(&steuer_menge, steuer_map, &prod_ref, cur_rule_name)?;
            Ok(())
        }
        Production::Empty => {
            let follow_set = follow_sets.get(&cur_rule_name).ok_or(MissingFollowSet {
                index: cur_rule_name,
            })?;
            fill_with_steuer_set(follow_set, steuer_map, &prod_ref, cur_rule_name)?;

            Ok(())
        }
    }
''','''    let mut steuer_menge: HashSet<SetMember> = HashSet::new();
    let mut may_be_empty = true;
    if let Production::NotEmpty(el) = prod.as_ref() {
        may_be_empty = false;
        for member in first_set_of_partial(el, first_sets, parser_data)? {
            match SetMember::try_from(member) {
                Ok(m) => {
                    steuer_menge.insert(m);
                }
                Err(_) => may_be_empty = true,
            }
        }
    }
    if may_be_empty {
        let follow_set = follow_sets.get(&cur_rule_name).ok_or(MissingFollowSet {
            index: cur_rule_name,
        })?;
        steuer_menge.extend(follow_set.iter().copied());
    }
    let _ = SetMemberWithEmpty::Empty;
    fill_with_steuer_set(&steuer_menge, steuer_map, &prod, cur_rule_name)
''',SM),
m('t_exists','''        if node_id.node_ptr >= self.nodes.len() {
            return false;
        }
        if self.free_node_indexes.contains(&node_id.node_ptr) {
            return false;
        }
        let current_node = &self.nodes[node_id.node_ptr];
        if current_node.pk != node_id.node_pk {
            return false;
        }
        true
''','''        self.get_node(node_id).is_ok()
''',T),
m('t_add','''        let mut reused_index = false;
        let next_index = match self.free_node_indexes.pop() {
            None => self.nodes.len(),
            Some(i) => {
                reused_index = true;
                i
            }
        };

        let new_pk = match parent {
            None => {
                let pk = self
                    .counter
                    .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let new_node = Node::new(None, data, pk, None);
                if reused_index {
                    self.nodes[next_index] = new_node;
                } else {
                    self.nodes.push(new_node);
                }
                pk
            }
            Some(parent_id) => {
                let pk = self
                    .counter
                    .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let parent_node = self.get_node_mut(parent_id)?;
                let new_node =
                    Node::new(Some(parent_id.node_ptr), data, pk, parent_node.last_child);

                let last_child_index = parent_node.last_child;
                if let None = parent_node.first_child {
                    parent_node.first_child = Some(next_index);
                }
                parent_node.last_child = Some(next_index);
                if let Some(lci) = last_child_index {
                    self.nodes[lci].next_sibling = Some(next_index);
                }

                Some(next_index);
                if reused_index {
                    self.nodes[next_index] = new_node;
                } else {
                    self.nodes.push(new_node);
                }
                pk
            }
        };

        Ok(NodeId::new(next_index, new_pk))
''','''        let pk = self
            .counter
            .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let reused = self.free_node_indexes.pop();
        let index = reused.unwrap_or(self.nodes.len());
        let mut previous = None;
        if let Some(parent_id) = parent {
            let parent_node = &mut self.nodes[parent_id.node_ptr];
            previous = parent_node.last_child.replace(index);
            if parent_node.first_child.is_none() {
                parent_node.first_child = Some(index);
            }
        }
        if let Some(p) = previous {
            self.nodes[p].next_sibling = Some(index);
        }
        let node = Node::new(parent.map(|p| p.node_ptr), data, pk, previous);
        match reused {
            Some(i) => self.nodes[i] = node,
            None => self.nodes.push(node),
        }
        Ok(NodeId::new(index, pk))
''',T),
m('t_remove','''        let mut nodes_to_free = self
            .get_descendants(node_id)
            .iter()
            .map(|x| x.node_ptr)
            .collect::<Vec<usize>>();
        nodes_to_free.push(node_id.node_ptr);
''','''        let mut nodes_to_free = vec![node_id.node_ptr];
        for d in self.get_descendants(node_id) {
            nodes_to_free.push(d.node_ptr);
        }
''',T),
m('t_desc','''        let mut descendants = vec![];
        let children = self.get_children(node_id);
        descendants.extend(&children);
        for child in children {
            let child_descendants = self.get_descendants(child);
            descendants.extend(child_descendants);
        }
        descendants
''','''        let mut descendants = self.get_children(node_id);
        let mut i = 0;
        while i < descendants.len() {
            let more = self.get_children(descendants[i]);
            descendants.extend(more);
            i += 1;
        }
        descendants
''',T),
m('t_nth','''        let children = Children {
            tree: self,
            current_child: node.first_child,
        };
        for (i, child) in children.enumerate() {
            if i == nth {
                return Ok(child);
            }
        }
        Err(ChildDoesNotExists { child_nth: nth })
''','''        self.get_nth_child_or_none(node, nth)
            .ok_or(ChildDoesNotExists { child_nth: nth })
''',T),
m('pd_add','''        let mut start_prod = Rc::new(Production::Empty);
        if terms.len() > 0 {
            start_prod = Rc::new(Production::NotEmpty(terms));
        }
        let existing = self.parse_rules.rules.get_mut(&idx);
        if let Some(rule) = existing {
            rule.possible_productions.push(start_prod);
        } else {
            let start_rules = NonTerminalRules::new(vec![start_prod], None, vec![]);
            self.parse_rules.rules.insert(idx, start_rules);
        }
''','''        let production = if terms.is_empty() {
            Production::Empty
        } else {
            Production::NotEmpty(terms)
        };
        self.parse_rules
            .rules
            .entry(idx)
            .or_insert_with(|| NonTerminalRules::new(vec![], None, vec![]))
            .possible_productions
            .push(Rc::new(production));
''',PD),
m('pd_set','''        let existing = self.parse_rules.rules.get_mut(&idx);
        if let Some(rule) = existing {
            rule.possible_productions = vec![];
        }
        for term in terms {
            self.add_production(idx, term)
        }
''','''        if let Some(rule) = self.parse_rules.rules.get_mut(&idx) {
            rule.possible_productions.clear();
        }
        let mut terms = terms.into_iter();
        while let Some(term) = terms.next() {
            self.add_production(idx, term);
        }
''',PD),
m('pd_key','''        match self.element_verbose_map.get(identifier) {
            None => {
                let index = self.element_data.len();
                self.element_data.push(ElementData {
                    keep_data: false,
                    name: identifier.name.clone(),
                });
                self.element_types.push(identifier.et);
                self.element_verbose_map.insert(identifier.clone(), index);
                index
            }
            Some(ix) => *ix,
        }
''','''        if let Some(&known) = self.element_verbose_map.get(identifier) {
            return known;
        }
        let ElementVerbose { name, et } = identifier.clone();
        let index = self.element_types.len();
        self.element_types.push(et);
        self.element_data.push(ElementData {
            name,
            keep_data: false,
        });
        self.element_verbose_map.insert(identifier.clone(), index);
        index
''',PD),
m('pd_verbose','''        let mut elements_verbose = vec![];
        for (ix, element_data) in self.element_data.iter().enumerate() {
            elements_verbose.push(ElementVerbose::new(
                element_data.name.clone(),
                self.element_types[ix],
            ))
        }
        elements_verbose
''','''        self.element_data
            .iter()
            .zip(self.element_types.iter())
            .map(|(data, et)| ElementVerbose::new(data.name.clone(), *et))
            .collect()
''',PD),
m('pd_idx','''        let el = ElementVerbose::new(String::from(key), ElementType::NonTerminal);
        match self.element_verbose_map.get(&el) {
            None => None,
            Some(x) => Some(*x),
        }
''','''        self.get_element_index(&ElementVerbose::new_nt(key.to_owned()))
''',PD),
]
