P=['all']
def m(n,old,new,e=None,f='rule_parsing.rs'): return (n,[(f,old,new)],P,e)
M=[
# parse_rules: while let + match
('rp_main',[('rule_parsing.rs','''        loop {
            self.parse_whitespace();
            if self.parse_process.peek().is_none() {
                break;
            }
            if self.parse_symbol('$').is_ok() {
                self.parse_directive()?;
                continue;
            }
            let (rule_name, rule) = self.parse_rule()?;
            self.merge_rule(rule, rule_name);
        }
''','''        self.parse_whitespace();
        while let Some(&c) = self.parse_process.peek() {
            if c == '$' {
                self.parse_process.next();
                self.parse_directive()?;
            } else {
                let (rule_name, rule) = self.parse_rule()?;
                self.merge_rule(rule, rule_name);
            }
            self.parse_whitespace();
        }
''')],P,None),
m('rp_overrides_early','''        let mut ignore_this = self.parser_data.parse_rules.ignore.clone();
        if self.parse_symbol('$').is_ok() {
            self.parse_symbol('[')?;
            let pos = self.parse_process.cur_pos();
            let varname = parse_var_name(&mut self.parse_process)?;
            self.parse_whitespace();
            self.parse_symbol(':')?;

            if varname == "IGNORE" {
                if self.parse_symbol('#').is_ok() {
                    ignore_this = None;
                } else {
                    ignore_this = Some(self.parser_data.get_or_add_element_key(
                        &ElementVerbose::new(
                            parse_var_name(&mut self.parse_process)?,
                            ElementType::NonTerminal,
                        ),
                    ));
                }
            } else {
                return Err(ParserError::UnknownSpecialOperation {
                    operation: varname,
                    pos,
                });
            }

            self.parse_symbol(']')?;
        };

        Ok(ignore_this)
''','''        if self.parse_process.next_if_eq(&'$').is_none() {
            return Ok(self.parser_data.parse_rules.ignore);
        }
        self.parse_symbol('[')?;
        let pos = self.parse_process.cur_pos();
        let operation = parse_var_name(&mut self.parse_process)?;
        self.parse_whitespace();
        self.parse_symbol(':')?;
        if operation.as_str() != "IGNORE" {
            return Err(ParserError::UnknownSpecialOperation { operation, pos });
        }
        let result = match self.parse_symbol('#') {
            Ok(()) => None,
            Err(_) => {
                let name = parse_var_name(&mut self.parse_process)?;
                Some(self.parser_data.get_or_add_non_terminal(&name))
            }
        };
        self.parse_symbol(']')?;
        Ok(result)
'''),
m('rp_poss','''        let mut elements = vec![self.parse_production()?];
        loop {
            self.parse_whitespace();
            let _ = self.parse_symbol('\\n');
            self.parse_whitespace();
            if self.parse_symbol('|').is_ok() {
                self.parse_whitespace();
                elements.push(self.parse_production()?);
            } else {
                break;
            }
        }
        Ok(elements)
''','''        let mut elements = vec![];
        loop {
            let production = self.parse_production()?;
            elements.push(production);
            self.parse_whitespace();
            if self.parse_symbol('|').is_err() {
                return Ok(elements);
            }
        }
'''),
m('rp_prod','''        let mut result = vec![];
        loop {
            parse_whitespace(&mut self.parse_process);
            if let Ok(element) = RuleParser::<'vm, 'pp, T>::parse_element(&mut self.parse_process) {
                match element {
                    None => {
                        if !result.is_empty() {
                            return Err(ParserError::GramError {
                                err: UnexpectedElementError {
                                    reason: String::from(
                                        "Leereelemente für leere Menge darf nicht mit anderen Elementen zusammen stehen",
                                    ),
                                    pos: self.parse_process.cur_pos(),
                                },
                            });
                        }
                        return Ok(Rc::new(Production::Empty));
                    }
                    Some(el) => {
                        let index = self.parser_data.get_or_add_element_key(&el);
                        result.push(index);
                    }
                }
            } else {
                break;
            }
        }

        if !result.is_empty() {
            return Ok(Rc::new(Production::NotEmpty(result)));
        }
        Err(ParserError::GramError {
            err: UnexpectedElementError {
                reason: String::from(
                    "Es wurden keine Elemente gefunden. Es müssen aber welche gefunden werden oder es muss das Symbol für leere Menge genutzt werden (#)",
                ),
                pos: self.parse_process.cur_pos(),
            },
        })
''','''        let mut result = Vec::new();
        self.parse_whitespace();
        while let Ok(element) = Self::parse_element(&mut self.parse_process) {
            let Some(el) = element else {
                if result.is_empty() {
                    return Ok(Rc::new(Production::Empty));
                }
                return Err(self.unexpected("Leereelemente für leere Menge darf nicht mit anderen Elementen zusammen stehen"));
            };
            result.push(self.parser_data.get_or_add_element_key(&el));
            self.parse_whitespace();
        }
        if result.is_empty() {
            Err(self.unexpected("Es wurden keine Elemente gefunden. Es müssen aber welche gefunden werden oder es muss das Symbol für leere Menge genutzt werden (#)"))
        } else {
            Ok(Rc::new(Production::NotEmpty(result)))
        }
    }

    fn unexpected(&self, reason: &str) -> ParserError {
        ParserError::from(UnexpectedElementError {
            reason: reason.to_string(),
            pos: self.parse_process.cur_pos(),
        })
'''),
m('rp_elem','''        match to_parse.peek() {
            Some('#') => {
                to_parse.next();
                Ok(None)
            }
            Some('"') => Ok(Some(ElementVerbose::new(
                parse_terminal(to_parse)?,
                ElementType::Terminal,
            ))),
            Some(x) if x.is_alphabetic() => Ok(Some(ElementVerbose::new(
                parse_var_name(to_parse)?,
                ElementType::NonTerminal,
            ))),
            Some(x) => Err(UnexpectedCharError {
                chr: *x,
                pos: to_parse.cur_pos(),
                expected: String::from(
                    "char # for empty, \\" for terminal ort alphabetic for element",
                ),
            }),
            _ => Err(EndOfCharsError {
                pos: to_parse.cur_pos(),
            }),
        }
''','''        let pos = to_parse.cur_pos();
        let chr = match to_parse.peek() {
            Some(c) => *c,
            None => return Err(EndOfCharsError { pos }),
        };
        if chr == '#' {
            to_parse.next();
            return Ok(None);
        }
        let element = if chr == '"' {
            let name = parse_terminal(to_parse)?;
            ElementVerbose::new_t(name)
        } else if chr.is_alphabetic() {
            let name = parse_var_name(to_parse)?;
            ElementVerbose::new_nt(name)
        } else {
            return Err(UnexpectedCharError {
                chr,
                pos,
                expected: "char # for empty, \\" for terminal ort alphabetic for element".to_owned(),
            });
        };
        Ok(Some(element))
'''),
m('rp_term','''    let mut literal = "".to_owned();
    let mut escape = false;
    let mut pos = to_parse.cur_pos();
    let mut cur_char = to_parse.peek().ok_or(EndOfCharsError { pos })?;
    while *cur_char != '"' || escape {
        if *cur_char == '\\\\' && !escape {
            escape = true
        } else {
            escape = false
        }
        pos = to_parse.cur_pos();
        literal.push(to_parse.next().ok_or(EndOfCharsError { pos })?);
        pos = to_parse.cur_pos();
        cur_char = to_parse.peek().ok_or(EndOfCharsError { pos })?
    }
    to_parse.next(); //discard trailing quote
    Ok(literal)
''','''    let mut literal = String::new();
    let mut escape = false;
    loop {
        let pos = to_parse.cur_pos();
        let c = to_parse.next().ok_or(EndOfCharsError { pos })?;
        if c == '"' && !escape {
            return Ok(literal);
        }
        escape = c == '\\\\' && !escape;
        literal.push(c);
    }
'''),
m('rp_instr','''        match self.parse_symbol('{') {
            Ok(_) => {}
            Err(_) => {
                return Ok(vec![]);
            }
        };
        self.parse_whitespace();
        let cur_pos = self.parse_process.cur_pos();
        let mut g =
            ParseProcess::new_nested(&mut self.parse_process, Some('}'), Some('\\\\'), cur_pos);
        let instruction = self.vm.parse_instructions(prod_name, &mut g)?;
        self.parse_symbol('}')?;
        Ok(instruction)
''','''        if self.parse_symbol('{').is_ok() {
            self.parse_whitespace();
            let start = self.parse_process.cur_pos();
            let instructions = {
                let mut nested =
                    ParseProcess::new_nested(&mut self.parse_process, Some('}'), Some('\\\\'), start);
                self.vm.parse_instructions(prod_name, &mut nested)?
            };
            self.parse_symbol('}').map(|_| instructions)
        } else {
            Ok(Vec::new())
        }
'''),
m('rp_merge','''        if let Some(rule_to_change) = self.parser_data.parse_rules.rules.get_mut(&rule_key) {
            rule_to_change
                .possible_productions
                .append(&mut rule.possible_productions)
        } else {
            self.parser_data.parse_rules.rules.insert(rule_key, rule);
        }
''','''        use std::collections::hash_map::Entry;
        match self.parser_data.parse_rules.rules.entry(rule_key) {
            Entry::Occupied(mut e) => {
                let old = e.get_mut();
                for p in rule.possible_productions.drain(..) {
                    old.possible_productions.push(p);
                }
            }
            Entry::Vacant(e) => {
                e.insert(rule);
            }
        }
'''),
m('rp_weave','''        let mut weaved_productions = vec![];
        for production in rule.possible_productions.iter() {
            let weaved_production =
                Rc::new(self.weave_in_ignorers_single_production(production.clone(), ignore));
            weaved_productions.push(weaved_production);
        }

        weaved_productions
''','''        rule.possible_productions
            .iter()
            .map(|p| Rc::new(self.weave_in_ignorers_single_production(Rc::clone(p), ignore)))
            .collect()
'''),
m('rp_weave1','''                let mut weaved_production = vec![];
                //weaved_production.push(to_weave_in.clone()); cant insert here or two weaved ignorers will be next to each other and that will lead to bugs
                for el in prod {
                    weaved_production.push(el.clone());
                    weaved_production.push(to_weave_in);
                }
                weaved_production.pop();
''','''                let mut weaved_production = Vec::with_capacity(prod.len() * 2);
                for (i, el) in prod.iter().enumerate() {
                    if i > 0 {
                        weaved_production.push(to_weave_in);
                    }
                    weaved_production.push(*el);
                }
'''),
m('rp_edit','''        let mut actions = HashMap::new();
        for (rule_index, rule) in self.parser_data.parse_rules.rules.iter() {
            let mut weave_in: bool = false;
            if let Some(ignore) = &rule.ignore {
                if !check_is_derivative(
                    &self.parser_data.element_types,
                    &self.parser_data.parse_rules,
                    *ignore,
                    *rule_index,
                )? {
                    weave_in = true;
                }
            }
            let action = Action { weave_in };
            actions.insert(rule_index.clone(), action);
        }
''','''        let mut actions = HashMap::new();
        for (&rule_index, rule) in &self.parser_data.parse_rules.rules {
            let weave_in = match rule.ignore {
                None => false,
                Some(ignore) => !check_is_derivative(
                    &self.parser_data.element_types,
                    &self.parser_data.parse_rules,
                    ignore,
                    rule_index,
                )?,
            };
            actions.insert(rule_index, Action { weave_in });
        }
'''),
m('rp_derive','''    if visited.contains(&left) {
        return Ok(false);
    }
    visited.insert(left.clone());

    let mut is_der = false;
    for prod in prods {
        match &**prod {
            Production::NotEmpty(prod_ne, ..) => {
                for el in prod_ne {
                    if *el == right {
                        return Ok(true);
                    } else {
                        is_der = is_der
                            || _check_is_derivative(
                                element_types,
                                parse_rules,
                                *el,
                                right,
                                visited,
                            )?;
                    }
                }
            }
            Production::Empty => {}
        }
    }
    Ok(is_der)
''','''    if !visited.insert(left) {
        return Ok(false);
    }
    for prod in prods.iter() {
        let Production::NotEmpty(elements) = prod.as_ref() else {
            continue;
        };
        for &el in elements {
            if el == right
                || _check_is_derivative(element_types, parse_rules, el, right, visited)?
            {
                return Ok(true);
            }
        }
    }
    Ok(false)
'''),
]
