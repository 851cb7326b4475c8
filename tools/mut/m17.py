R='rule_parsing.rs'
ALL=['G01','G02','G04','G05']
M=[
# G01
('alt-rev',[(R,"elements.push(self.parse_production()?);","elements.insert(0, self.parse_production()?);")],ALL,'G01'),
('alt-dedup',[(R,"elements.push(self.parse_production()?);","let p = self.parse_production()?;\n                if !elements.iter().any(|q| Rc::ptr_eq(q, &p) || matches!((q.as_ref(), p.as_ref()), (Production::Empty, Production::Empty))) {\n                    elements.push(p);\n                }")],ALL,'G01'),
('el-dedup',[(R,"                        result.push(index);","                        if result.last() != Some(&index) {\n                            result.push(index);\n                        }")],ALL,'G01'),
('el-kind',[(R,"                parse_terminal(to_parse)?,\n                ElementType::Terminal,","                parse_terminal(to_parse)?,\n                ElementType::NonTerminal,")],ALL,'G01'),
('el-kind2',[(R,"                parse_var_name(to_parse)?,\n                ElementType::NonTerminal,\n            ))),\n            Some(x) =>","                parse_var_name(to_parse)?,\n                ElementType::Terminal,\n            ))),\n            Some(x) =>")],ALL,'G01'),
('key-term',[(R,"                identifier.clone(),\n                ElementType::NonTerminal,","                identifier.clone(),\n                ElementType::Terminal,")],ALL,'G01'),
('noinst',[(R,"            ignore: ignore_this_maybe,\n            instruction,","            ignore: ignore_this_maybe,\n            instruction: vec![],")],ALL,'G01'),
('instname',[(R,"self.parse_instruction_section(&identifier)?","self.parse_instruction_section(\"\")?")],ALL,'G01'),
('instesc',[(R,"Some('}'), Some('\\\\'), cur_pos","Some('}'), None, cur_pos")],ALL,'G02'),
('instempty',[(R,"        self.parse_whitespace();\n        let cur_pos","        self.parse_whitespace();\n        if self.parse_symbol('}').is_ok() {\n            return Ok(vec![]);\n        }\n        let cur_pos")],ALL,'G01'),
('alt-skip',[(R,"                elements.push(self.parse_production()?);","                let p = self.parse_production()?;\n                if elements.len() < 3 {\n                    elements.push(p);\n                }")],ALL,None),
('empty-drop',[(R,"                elements.push(self.parse_production()?);","                let p = self.parse_production()?;\n                if !matches!(*p, Production::Empty) {\n                    elements.push(p);\n                }")],ALL,'G01'),
('el-trim',[(R,"let index = self.parser_data.get_or_add_element_key(&el);","let el = ElementVerbose::new(el.name.trim().to_string(), el.et);\n                        let index = self.parser_data.get_or_add_element_key(&el);")],ALL,'G01'),
# G02
('nosemi',[(R,"        self.parse_whitespace();\n        self.parse_symbol(';')?;\n        let nt_rules","        self.parse_whitespace();\n        let _ = self.parse_symbol(';');\n        let nt_rules")],ALL,'G02'),
('noarrow',[(R,"        self.parse_symbol('-')?;\n","        let _ = self.parse_symbol('-');\n")],ALL,'G02'),
('nobrace',[(R,"        self.parse_symbol('}')?;\n        Ok(instruction)","        let _ = self.parse_symbol('}');\n        Ok(instruction)")],ALL,'G02'),
('emptyalt',[(R,"        if !result.is_empty() {\n            return Ok(Rc::new(Production::NotEmpty(result)));\n        }\n        Err(","        if !result.is_empty() || self.parse_process.peek() == Some(&'|') {\n            return Ok(Rc::new(Production::NotEmpty(result)));\n        }\n        Err(")],ALL,'G02'),
('hashmix',[(R,"                        if !result.is_empty() {\n                            return Err(","                        if result.len() > 1 {\n                            return Err(")],ALL,'G02'),
('ovbracket',[(R,"            self.parse_symbol(']')?;","            let _ = self.parse_symbol(']');")],ALL,'G02'),
('ovname',[(R,"                return Err(ParserError::UnknownSpecialOperation {\n                    operation: varname,\n                    pos,\n                });","                let _ = (varname, pos);")],ALL,'G02'),
('dirname',[(R,"        if operation != \"IGNORE\" {","        if operation.starts_with('X') && operation != \"IGNORE\" {")],ALL,'G02'),
('dirsemi',[(R,"        self.parse_symbol(';')?;\n        self.parser_data.parse_rules.ignore","        let _ = self.parse_symbol(';');\n        self.parser_data.parse_rules.ignore")],ALL,'G02'),
('earlystop',[(R,"            if self.parse_process.peek().is_none() {\n                break;","            if self.parse_process.peek().is_none() || self.parse_process.peek() == Some(&'\\u{4}') {\n                break;")],ALL,'G02'),
('swallow',[(R,"            let (rule_name, rule) = self.parse_rule()?;\n            self.merge_rule(rule, rule_name);","            match self.parse_rule() {\n                Ok((rule_name, rule)) => self.merge_rule(rule, rule_name),\n                Err(_) => break,\n            }")],ALL,'G02'),
('hashrest',[(R,"                        return Ok(Rc::new(Production::Empty));","                        while self.parse_symbol('#').is_ok() {}\n                        return Ok(Rc::new(Production::Empty));")],ALL,'G02'),
('refusenl',[(R,"            let _ = self.parse_symbol('\\n');","            if self.parse_process.peek() == Some(&'{') { break; }")],ALL,None),
('refusepipe',[(R,"                self.parse_whitespace();\n                elements.push","                if elements.len() > 1 {\n                    self.parse_symbol('\\n')?;\n                }\n                self.parse_whitespace();\n                elements.push")],ALL,'G01'),
# G04 values
('ovglobal',[(R,"                    ignore_this = None;\n","                    ignore_this = None;\n                    self.parser_data.parse_rules.ignore = None;\n")],ALL,'G04'),
('ovhash',[(R,"                    ignore_this = None;\n","")],ALL,'G04'),
('ovfirst',[(R,"                    ignore_this = Some(self.parser_data.get_or_add_element_key(","                    ignore_this = ignore_this.or(Some(self.parser_data.get_or_add_element_key("),(R,"                            ElementType::NonTerminal,\n                        ),\n                    ));","                            ElementType::NonTerminal,\n                        ),\n                    )));")],ALL,'G04'),
('ovterm',[(R,"                            parse_var_name(&mut self.parse_process)?,\n                            ElementType::NonTerminal,\n                        ),\n                    ));","                            parse_var_name(&mut self.parse_process)?,\n                            ElementType::Terminal,\n                        ),\n                    ));")],ALL,'G04'),
('dirfirst',[(R,"        self.parser_data.parse_rules.ignore = Some(self.parser_data.get_or_add_non_terminal(&name));","        let n = self.parser_data.get_or_add_non_terminal(&name);\n        if self.parser_data.parse_rules.ignore.is_none() {\n            self.parser_data.parse_rules.ignore = Some(n);\n        }")],ALL,'G04'),
('dirterm',[(R,"Some(self.parser_data.get_or_add_non_terminal(&name))","Some(self.parser_data.get_or_add_terminal(&name))")],ALL,'G04'),
('noover',[(R,"            ignore: ignore_this_maybe,","            ignore: self.parser_data.parse_rules.ignore,"),(R,"let ignore_this_maybe = self","let _ = self")],ALL,'G04'),
# G05 merge
('mprepend',[(R,"            rule_to_change\n                .possible_productions\n                .append(&mut rule.possible_productions)","            rule.possible_productions.append(&mut rule_to_change.possible_productions);\n            rule_to_change.possible_productions = rule.possible_productions")],ALL,'G05'),
('mreplace',[(R,"            rule_to_change\n                .possible_productions\n                .append(&mut rule.possible_productions)","            rule_to_change.possible_productions = rule.possible_productions.drain(..).collect()")],ALL,'G05'),
('mkeep',[(R,"            rule_to_change\n                .possible_productions\n                .append(&mut rule.possible_productions)","            let _ = (rule_to_change, &mut rule);")],ALL,'G05'),
('minsert',[(R,"            self.merge_rule(rule, rule_name);","            self.parser_data.parse_rules.rules.insert(rule_name, rule);")],ALL,'G05'),
('mdedup',[(R,"            rule_to_change\n                .possible_productions\n                .append(&mut rule.possible_productions)","            if rule.ignore != rule_to_change.ignore { return; }\n            rule_to_change\n                .possible_productions\n                .append(&mut rule.possible_productions)")],ALL,'G05'),
('mempty',[(R,"            rule_to_change\n                .possible_productions\n                .append(&mut rule.possible_productions)","            if rule_to_change.possible_productions.is_empty() || !rule.instruction.is_empty() {\n                rule_to_change.possible_productions.clear();\n            }\n            rule_to_change\n                .possible_productions\n                .append(&mut rule.possible_productions)")],ALL,'G05'),
# refactorings
('r-entry',[(R,"""        if let Some(rule_to_change) = self.parser_data.parse_rules.rules.get_mut(&rule_key) {
            rule_to_change
                .possible_productions
                .append(&mut rule.possible_productions)
        } else {
            self.parser_data.parse_rules.rules.insert(rule_key, rule);
        }""","""        match self.parser_data.parse_rules.rules.entry(rule_key) {
            std::collections::hash_map::Entry::Occupied(mut o) => o.get_mut().possible_productions.append(&mut rule.possible_productions),
            std::collections::hash_map::Entry::Vacant(v) => { v.insert(rule); }
        }""")],ALL,None),
('r-extend',[(R,"""            rule_to_change
                .possible_productions
                .append(&mut rule.possible_productions)""","""            for p in rule.possible_productions.drain(..) {
                rule_to_change.possible_productions.push(p);
            }""")],ALL,None),
('r-contains',[(R,"""        if let Some(rule_to_change) = self.parser_data.parse_rules.rules.get_mut(&rule_key) {
            rule_to_change
                .possible_productions
                .append(&mut rule.possible_productions)
        } else {
            self.parser_data.parse_rules.rules.insert(rule_key, rule);
        }""","""        let rules = &mut self.parser_data.parse_rules.rules;
        if !rules.contains_key(&rule_key) {
            rules.insert(rule_key, rule);
            return;
        }
        let known = rules.get_mut(&rule_key).unwrap();
        known.possible_productions.extend(std::mem::take(&mut rule.possible_productions));""")],ALL,None),
('r-remove',[(R,"""        if let Some(rule_to_change) = self.parser_data.parse_rules.rules.get_mut(&rule_key) {
            rule_to_change
                .possible_productions
                .append(&mut rule.possible_productions)
        } else {
            self.parser_data.parse_rules.rules.insert(rule_key, rule);
        }""","""        let merged = match self.parser_data.parse_rules.rules.remove(&rule_key) {
            Some(mut old) => { old.possible_productions.append(&mut rule.possible_productions); old }
            None => rule,
        };
        self.parser_data.parse_rules.rules.insert(rule_key, merged);""")],ALL,None),
('r-while',[(R,"""        let mut elements = vec![self.parse_production()?];
        loop {
            self.parse_whitespace();
            let _ = self.parse_symbol('\\n');
            self.parse_whitespace();
            if self.parse_symbol('|').is_ok() {
                self.parse_whitespace();
                elements.push(self.parse_production()?);
            } else {
                break;
            }
        }
        Ok(elements)""","""        let mut elements = Vec::new();
        elements.push(self.parse_production()?);
        self.parse_whitespace();
        while self.parse_process.peek() == Some(&'|') {
            self.parse_process.next();
            elements.push(self.parse_production()?);
            self.parse_whitespace();
        }
        Ok(elements)""")],ALL,None),
('r-match',[(R,"""            if let Ok(element) = RuleParser::<'vm, 'pp, T>::parse_element(&mut self.parse_process) {
                match element {
                    None => {""","""            let element = match RuleParser::<'vm, 'pp, T>::parse_element(&mut self.parse_process) { Ok(e) => e, Err(_) => break };
            {
                match element {
                    None => {"""),(R,"""                        result.push(index);
                    }
                }
            } else {
                break;
            }
        }""","""                        result.push(index);
                    }
                }
            }
        }""")],ALL,None),
('r-section',[(R,"""        match self.parse_symbol('{') {
            Ok(_) => {}
            Err(_) => {
                return Ok(vec![]);
            }
        };""","""        if self.parse_process.peek() != Some(&'{') {
            return Ok(Vec::new());
        }
        self.parse_process.next();""")],ALL,None),
('r-over',[(R,"        let mut ignore_this = self.parser_data.parse_rules.ignore.clone();\n        if self.parse_symbol('$').is_ok() {","        if self.parse_symbol('$').is_err() {\n            return Ok(self.parser_data.parse_rules.ignore);\n        }\n        let ignore_this;\n        {")],ALL,None),
('r-top',[(R,"""        loop {
            self.parse_whitespace();
            if self.parse_process.peek().is_none() {
                break;
            }
            if self.parse_symbol('$').is_ok() {
                self.parse_directive()?;
                continue;
            }
            let (rule_name, rule) = self.parse_rule()?;
            self.merge_rule(rule, rule_name);
        }""","""        self.parse_whitespace();
        while let Some(&c) = self.parse_process.peek() {
            if c == '$' {
                self.parse_process.next();
                self.parse_directive()?;
            } else {
                let (rule_name, rule) = self.parse_rule()?;
                self.merge_rule(rule, rule_name);
            }
            self.parse_whitespace();
        }""")],ALL,None),
('r-nonterm',[(R,"""            .get_or_add_element_key(&ElementVerbose::new(
                identifier.clone(),
                ElementType::NonTerminal,
            ));""","""            .get_or_add_non_terminal(&identifier);""")],ALL,None),
('r-helper',[(R,"    fn parse_symbol(&mut self, sym: char)","    fn reference(&mut self) -> Result<ElementIndex, ParserError> {\n        let n = parse_var_name(&mut self.parse_process)?;\n        Ok(self.parser_data.get_or_add_non_terminal(&n))\n    }\n\n    fn parse_symbol(&mut self, sym: char)"),(R,"""                    ignore_this = Some(self.parser_data.get_or_add_element_key(
                        &ElementVerbose::new(
                            parse_var_name(&mut self.parse_process)?,
                            ElementType::NonTerminal,
                        ),
                    ));""","                    ignore_this = Some(self.reference()?);")],ALL,None),
('r-err',[(R,"        if operation != \"IGNORE\" {\n            return Err","        if operation.as_str() == \"IGNORE\" {\n        } else {\n            return Err")],ALL,None),
('r-matchname',[(R,"            if varname == \"IGNORE\" {","            if matches!(varname.as_str(), \"IGNORE\") {")],ALL,None),
]
