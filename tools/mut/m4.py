A=['P01','P02','P03','P04','P05','P06']
P='script_parser.rs'
def g(*eds): return [(P,o,n) for o,n in eds]
TERM="""            if *char_to_parse != chr {"""
ELEM="""                        ElementType::Terminal => {
                            tree.add_node(
                                self.parse_terminal(to_parse, element_next.name.as_str())?,
                                Some(id),
                            )?;
                        }"""
RUN="        self.run_instructions(tree, id, &nt_rule.instruction, state);\n"
M=[
('casei',g((TERM,"            if !char_to_parse.eq_ignore_ascii_case(&chr) {")),A,'P01'),
('wsmatch',g((TERM,"            if *char_to_parse != chr && !(chr == ' ' && char_to_parse.is_whitespace()) {")),A,'P01'),
('noeq_q',g((TERM,"            if *char_to_parse != chr && chr != '?' {")),A,'P01'),
('skipws',g(("        for chr in terminal.chars() {","        while to_parse.next_if(|c| *c == ' ').is_some() {}\n        for chr in terminal.chars() {")),A,'P01'),
('trailws',g(("        Ok(String::from(terminal))","        to_parse.next_if(|c| *c == '\\n');\n        Ok(String::from(terminal))")),A,'P01'),
('eofok',g(("let char_to_parse: &char = to_parse.peek().ok_or(EndOfCharsError { pos })?;","let char_to_parse: &char = match to_parse.peek() { Some(c) => c, None => return Ok(String::from(terminal)) };")),A,'P01'),
('errpos',g(("                    chr: *char_to_parse,\n                    pos: to_parse.cur_pos(),","                    chr: *char_to_parse,\n                    pos: to_parse.cur_pos() + 1,")),A,'P01'),
('errchr',g(("                    chr: *char_to_parse,\n                    pos: to_parse.cur_pos(),\n                    expected: String::from(chr),","                    chr,\n                    pos: to_parse.cur_pos(),\n                    expected: String::from(chr),")),A,'P01'),
('skipfirst',g(("terminal.chars() {","terminal.chars().skip(1) {")),A,'P01'),
('onlyfirst',g(("            to_parse.next();\n        }\n        Ok(String","            to_parse.next();\n            if chr == '\\u{0}' { break; }\n        }\n        Ok(String")),A,'P01'),
('rest_ws',g(("        if let Some(&chr) = to_parse.peek() {","        while to_parse.next_if(|c| c.is_whitespace()).is_some() {}\n        if let Some(&chr) = to_parse.peek() {")),A,'P02'),
('rest_nl',g(("        if let Some(&chr) = to_parse.peek() {","        if let Some(&chr) = to_parse.peek().filter(|c| **c != '\\n') {")),A,'P02'),
('rest_pos',g(("            return Err(UnexpectedCharError {\n                chr,\n                pos: to_parse.cur_pos(),","            return Err(UnexpectedCharError {\n                chr,\n                pos: to_parse.cur_pos() - 1,")),A,'P02'),
('stop0',g(("new(&mut peekable, None, None)","new(&mut peekable, Some('\\u{4}'), None)")),A,'P02'),
('trim',g(("new(to_parse.chars().peekable())","new(to_parse.trim_end().chars().peekable())")),A,'P02'),
('peekafter',g(("let cur = SetMember::from(to_parse.peek());","let cur = SetMember::from(to_parse.peek().filter(|c| !c.is_control()));")),A,'P03'),
('swallow',g(("""                            self.parse_production(
                                to_parse,
                                *next_element_index,
                                state,
                                tree,
                                Some(id),
                            )?;""","""                            if let Err(e) = self.parse_production(
                                to_parse,
                                *next_element_index,
                                state,
                                tree,
                                Some(id),
                            ) { if to_parse.peek().is_some() { return Err(e); } }""")),A,'P03'),
('skiplast',g(("for next_element_index in prod_not_empty {","for next_element_index in prod_not_empty.iter().skip(if prod_not_empty.len() > 7 { 1 } else { 0 }) {")),A,'P03'),
('revel',g(("for next_element_index in prod_not_empty {","for next_element_index in prod_not_empty.iter().rev() {")),A,'P03'),
('selfskip',g(("                    match element_next.et {","                    if *next_element_index == el_index && to_parse.peek().is_none() { continue; }\n                    match element_next.et {")),A,'P03'),
('anyprod',g(("            None => Err(UnexpectedCharError {","            None if nt_rule.steuermap.get(&SetMember::Terminate).is_some() => Ok(nt_rule.steuermap.get(&SetMember::Terminate).unwrap()),\n            None => Err(UnexpectedCharError {")),A,'P03'),
('consumemiss',g(("                chr: *to_parse.peek().ok_or(EndOfCharsError { pos })?,","                chr: to_parse.next().ok_or(EndOfCharsError { pos })?,")),A,'P03'),
('leafparent',g((ELEM,ELEM.replace("Some(id)","current_node"))),A,'P04'),
('noleaf',g((ELEM,"""                        ElementType::Terminal => {
                            let t = self.parse_terminal(to_parse, element_next.name.as_str())?;
                            if !t.trim().is_empty() { tree.add_node(t, Some(id))?; }
                        }""")),A,'P04'),
('extranode',g(("            Production::Empty => {}","            Production::Empty => { tree.add_node(String::new(), Some(id))?; }")),A,'P04'),
('parentnt',g(("                                tree,\n                                Some(id),\n                            )?;","                                tree,\n                                if prod_not_empty.len() == 1 { current_node } else { Some(id) },\n                            )?;")),A,'P04'),
('nodename',g(('tree.add_node(String::from(""), current_node)?','tree.add_node(self.elements[el_index].name.clone(), current_node)?')),A,'P04'),
('instrempty',g((RUN,"        if !tree.get_children(id).is_empty() { self.run_instructions(tree, id, &nt_rule.instruction, state); }\n")),A,'P05'),
('instr_notempty',g((RUN,"        if let Production::NotEmpty(_) = prod { self.run_instructions(tree, id, &nt_rule.instruction, state); }\n")),A,'P05'),
('instr_first',g(("        let prod = &**fitting_production;","        if nt_rule.instruction.len() == 1 { self.run_instructions(tree, id, &nt_rule.instruction, state); }\n        let prod = &**fitting_production;"),(RUN,"        if nt_rule.instruction.len() != 1 { self.run_instructions(tree, id, &nt_rule.instruction, state); }\n")),A,'P05'),
('instr_parent',g((RUN,RUN.replace("tree, id,","tree, current_node.unwrap_or(id),"))),A,'P05'),
('instr_rev',g(("for instruction in instructions {","for instruction in instructions.iter().rev() {")),A,'P05'),
('instr_one',g(("for instruction in instructions {","for instruction in instructions.iter().take(255) {")),A,'P05'),
('r_takeall',g(("for instruction in instructions {","for instruction in instructions.iter().take(instructions.len()) {")),A,None),
('instr_break',g(("                .execute_instruction(tree, cur_node, &instruction, state);","                .execute_instruction(tree, cur_node, &instruction, state);\n            if tree.get_children(cur_node).is_empty() { break; }")),A,'P05'),
('instr_err',g(("                            self.parse_production(\n                                to_parse,\n                                *next_element_index,\n                                state,\n                                tree,\n                                Some(id),\n                            )?;","                            let r = self.parse_production(\n                                to_parse,\n                                *next_element_index,\n                                state,\n                                tree,\n                                Some(id),\n                            );\n                            if r.is_err() { self.run_instructions(tree, id, &nt_rule.instruction, state); }\n                            r?;")),A,'P05'),
('start_ign',g(("parser.start_index = Some(start_idx);","")),A,'P06'),
('start_term',g(("*r == ElementVerbose::new(String::from(\"start\"), ElementType::NonTerminal)","r.name == \"start\"")),A,'P06'),
('start_follow',g(("get_follow_sets(start_idx, &first_dict","get_follow_sets(parser_data.get_element_nt_index(\"start\").unwrap_or(start_idx), &first_dict")),A,'P06'),
('start_unwrap',g((""".ok_or_else(|| ParserError::InternalError {
                message: String::from("there is no start element"),
            })?;""",".unwrap_or(0);")),A,'P06'),
# behaviour preserving
('r_loop',g(("""        for chr in terminal.chars() {
            let pos = to_parse.cur_pos();
            let char_to_parse: &char = to_parse.peek().ok_or(EndOfCharsError { pos })?;
            if *char_to_parse != chr {
                return Err(UnexpectedCharError {
                    chr: *char_to_parse,
                    pos: to_parse.cur_pos(),
                    expected: String::from(chr),
                });
            }
            to_parse.next();
        }""","""        let mut it = terminal.chars();
        while let Some(chr) = it.next() {
            let pos = to_parse.cur_pos();
            if to_parse.next_if_eq(&chr).is_none() {
                return match to_parse.peek() {
                    None => Err(EndOfCharsError { pos }),
                    Some(c) => Err(UnexpectedCharError { chr: *c, pos, expected: chr.to_string() }),
                };
            }
        }""")),A,None),
('r_next',g(("""            let char_to_parse: &char = to_parse.peek().ok_or(EndOfCharsError { pos })?;
            if *char_to_parse != chr {
                return Err(UnexpectedCharError {
                    chr: *char_to_parse,
                    pos: to_parse.cur_pos(),
                    expected: String::from(chr),
                });
            }
            to_parse.next();""","""            let got = to_parse.next().ok_or(EndOfCharsError { pos })?;
            if got != chr {
                return Err(UnexpectedCharError { chr: got, pos, expected: String::from(chr) });
            }""")),A,None),
('r_try',g(("""        for instruction in instructions {
            self.vm
                .execute_instruction(tree, cur_node, &instruction, state);
        }""","""        instructions.iter().for_each(|instruction| {
            self.vm
                .execute_instruction(tree, cur_node, instruction, state);
        });""")),A,None),
('r_idx',g(("for next_element_index in prod_not_empty {","for i in 0..prod_not_empty.len() {\n                    let next_element_index = &prod_not_empty[i];")),A,None),
('r_while',g(("for next_element_index in prod_not_empty {","let mut i = 0;\n                while i < prod_not_empty.len() {\n                    let next_element_index = &prod_not_empty[i];\n                    i += 1;")),A,None),
('r_whileinstr',g(("        for instruction in instructions {","        let mut k = 0;\n        while k < instructions.len() {\n            let instruction = &instructions[k];\n            k += 1;")),A,None),
('r_copied',g(("for next_element_index in prod_not_empty {","for next_element_index in prod_not_empty.iter().copied().collect::<Vec<_>>().iter() {")),A,None),
('r_prod',g(("            Production::Empty => {}\n        };","            Production::Empty => (),\n        }\n        let nt_rule = &self.rules_with_steuermaps[&el_index];\n")),A,None),
('r_early',g(("        for instruction in instructions {","        if instructions.is_empty() { return; }\n        for instruction in instructions {")),A,None),
('r_getkey',g(("let cur = SetMember::from(to_parse.peek());","let cur = match to_parse.peek() { Some(c) => SetMember::Char(*c), None => SetMember::Terminate };")),A,None),
('r_emptyterm',g(("        for chr in terminal.chars() {","        if terminal.is_empty() { return Ok(String::new()); }\n        for chr in terminal.chars() {")),A,None),
('r_rest',g(("""        if let Some(&chr) = to_parse.peek() {
            return Err(UnexpectedCharError {
                chr,
                pos: to_parse.cur_pos(),
                expected: String::from("end of input"),
            });
        }
        Ok(tree)""","""        let pos = to_parse.cur_pos();
        match to_parse.next() {
            None => Ok(tree),
            Some(chr) => Err(UnexpectedCharError { chr, pos, expected: String::from("end of input") }),
        }""")),A,None),
('r_helper',g(("""    fn parse_terminal(""","""    fn step(&self, to_parse: &mut ParseProcess<PeekableWrapper<Chars<'a>>>, ix: ElementIndex, state: &mut T::Tstate, tree: &mut Tree<String>, id: NodeId) -> Result<(), ParserError> {
        let e = self.elements.get(ix).ok_or(MissingElementForIndex { index: ix })?;
        if e.et == ElementType::Terminal {
            let text = self.parse_terminal(to_parse, &e.name)?;
            tree.add_node(text, Some(id))?;
            return Ok(());
        }
        self.parse_production(to_parse, ix, state, tree, Some(id))
    }
    fn parse_terminal("""),("""                    let element_next = self
                        .elements
                        .get(*next_element_index)
                        .ok_or(MissingElementForIndex {
                            index: *next_element_index,
                        })?
                        .clone();

                    match element_next.et {
                        ElementType::Terminal => {
                            tree.add_node(
                                self.parse_terminal(to_parse, element_next.name.as_str())?,
                                Some(id),
                            )?;
                        }
                        ElementType::NonTerminal => {
                            self.parse_production(
                                to_parse,
                                *next_element_index,
                                state,
                                tree,
                                Some(id),
                            )?;
                        }
                    }""","                    self.step(to_parse, *next_element_index, state, tree, id)?;")),A,None),
('r_tryfe',g(("""                for next_element_index in prod_not_empty {""","""                let names: Vec<ElementIndex> = prod_not_empty.clone();
                for next_element_index in &names {""")),A,None),
('r_startpos',g(("""                self.elements.iter().position(|r| {
                    *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
                })""","""                self.elements.iter().enumerate().find(|(_, r)| r.et == ElementType::NonTerminal && r.name == "start").map(|(i, _)| i)""")),A,None),
]
