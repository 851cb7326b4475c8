P=['G06']
def m(n,old,new,e='G06',f='parser_data.rs'): return (n,[(f,old,new)],P,e)
def mm(n,eds,e='G06'): return (n,[('parser_data.rs',a,b) for a,b in eds],P,e)
M=[
m('ap_front','rule.possible_productions.push(start_prod);','rule.possible_productions.insert(0, start_prod);'),
m('ap_len1','if terms.len() > 0 {','if terms.len() > 1 {'),
m('ap_replace','rule.possible_productions.push(start_prod);','rule.possible_productions = vec![start_prod];'),
m('ap_noadd','rule.possible_productions.push(start_prod);','if rule.instruction.is_empty() { rule.possible_productions.push(start_prod); }'),
m('ap_inst','rule.possible_productions.push(start_prod);','rule.possible_productions.push(start_prod); rule.instruction = vec![];'),
m('ap_ignore','rule.possible_productions.push(start_prod);','rule.possible_productions.push(start_prod); rule.ignore = None;'),
m('ap_newempty','NonTerminalRules::new(vec![start_prod], None, vec![]);','NonTerminalRules::new(vec![start_prod, Rc::new(Production::Empty)], None, vec![]);'),
m('ap_global','NonTerminalRules::new(vec![start_prod], None, vec![]);','NonTerminalRules::new(vec![start_prod], self.parse_rules.ignore, vec![]);'),
m('sp_keep','rule.possible_productions = vec![];\n','rule.possible_productions.truncate(1);\n'),
m('sp_noclear','rule.possible_productions = vec![];\n','let _ = rule;\n'),
m('sp_rev','for term in terms {','for term in terms.into_iter().rev() {'),
m('sp_skip','for term in terms {','for term in terms.into_iter().skip(1) {'),
m('sp_remove','''        if let Some(rule) = existing {
            rule.possible_productions = vec![];
        }''','''        if existing.is_some() { self.parse_rules.rules.remove(&idx); }'''),
m('sp_nonempty','for term in terms {','for term in terms.into_iter().filter(|t| !t.is_empty()) {'),
m('ai_clear','rule.instruction = inst;','rule.instruction = inst; rule.possible_productions.clear();'),
m('ai_keepfirst','rule.instruction = inst;','if rule.instruction.is_empty() { rule.instruction = inst; }'),
m('ai_drop','let start_rules = NonTerminalRules::new(vec![], None, inst);','let start_rules = NonTerminalRules::new(vec![], None, vec![]);'),
m('ai_emptyprod','let start_rules = NonTerminalRules::new(vec![], None, inst);','let start_rules = NonTerminalRules::new(vec![Rc::new(Production::Empty)], None, inst);'),
m('gk_other','self.parse_rules.rules.get(&el.ix)','self.parse_rules.rules.get(&self.parse_rules.ignore.unwrap_or(el.ix))'),
m('gn_term','let el = ElementVerbose::new(String::from(el_name), ElementType::NonTerminal);','let el = ElementVerbose::new(String::from(el_name), ElementType::Terminal);'),
m('gn_trim','let el = ElementVerbose::new(String::from(el_name), ElementType::NonTerminal);','let el = ElementVerbose::new(String::from(el_name.trim()), ElementType::NonTerminal);'),
m('gn_none','''        if let Some(i) = index {
            self.get_rule_by_key(i)''','''        if let Some(i) = index.filter(|i| *i > 0) {
            self.get_rule_by_key(i)'''),
# behaviour kept
m('q_entry','''        let existing = self.parse_rules.rules.get_mut(&idx);
        if let Some(rule) = existing {
            rule.possible_productions.push(start_prod);
        } else {
            let start_rules = NonTerminalRules::new(vec![start_prod], None, vec![]);
            self.parse_rules.rules.insert(idx, start_rules);
        }''','''        self.parse_rules.rules.entry(idx).or_insert_with(|| NonTerminalRules::new(vec![], None, vec![])).possible_productions.push(start_prod);''',None),
m('q_match','''        let mut start_prod = Rc::new(Production::Empty);
        if terms.len() > 0 {
            start_prod = Rc::new(Production::NotEmpty(terms));
        }''','''        let start_prod = Rc::new(if terms.is_empty() { Production::Empty } else { Production::NotEmpty(terms) });''',None),
m('q_clear','rule.possible_productions = vec![];\n','rule.possible_productions.clear();\n',None),
m('q_each','''        for term in terms {
            self.add_production(idx, term)
        }''','''        terms.into_iter().for_each(|term| self.add_production(idx, term));''',None),
m('q_while','''        for term in terms {
            self.add_production(idx, term)
        }''','''        let mut it = terms.into_iter();
        while let Some(term) = it.next() { self.add_production(idx, term); }''',None),
m('q_instm','''        let existing = self.parse_rules.rules.get_mut(&idx);
        if let Some(rule) = existing {
            rule.instruction = inst;
        } else {
            let start_rules = NonTerminalRules::new(vec![], None, inst);
            self.parse_rules.rules.insert(idx, start_rules);
        }''','''        match self.parse_rules.rules.get_mut(&idx) {
            Some(rule) => rule.instruction = inst,
            None => { self.parse_rules.rules.insert(idx, NonTerminalRules { possible_productions: Vec::new(), ignore: None, instruction: inst }); }
        }''',None),
m('q_instrm','''        let existing = self.parse_rules.rules.get_mut(&idx);
        if let Some(rule) = existing {
            rule.instruction = inst;
        } else {
            let start_rules = NonTerminalRules::new(vec![], None, inst);
            self.parse_rules.rules.insert(idx, start_rules);
        }''','''        let mut rule = self.parse_rules.rules.remove(&idx).unwrap_or_else(|| NonTerminalRules::new(vec![], None, vec![]));
        rule.instruction = inst;
        self.parse_rules.rules.insert(idx, rule);''',None),
m('q_prods','''        if let Some(rule) = existing {
            rule.possible_productions = vec![];
        }
        for term in terms {
            self.add_production(idx, term)
        }''','''        let prods: PossibleProductions = terms.into_iter().map(|t| Rc::new(if t.is_empty() { Production::Empty } else { Production::NotEmpty(t) })).collect();
        if let Some(rule) = existing {
            rule.possible_productions = prods;
        } else if !prods.is_empty() {
            self.parse_rules.rules.insert(idx, NonTerminalRules::new(prods, None, vec![]));
        }''',None),
m('q_chain','''        let index = self.get_element_index(&el);
        if let Some(i) = index {
            self.get_rule_by_key(i)
        } else {
            None
        }''','''        self.get_element_index(&el).and_then(|i| self.get_rule_by_key(i))''',None),
]
