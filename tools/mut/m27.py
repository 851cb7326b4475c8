exec(open('/verif/tools/mut/m26.py').read().split('\nM=[')[0])
R='rule_parsing.rs'; T='tree.rs'; PK='peekables.rs'; PF='parse_funcs.rs'; SV='vms/stack_vm.rs'; SI='vms/simple_stack_vm.rs'; E='errors.rs'; X='sets.rs'
def mm(n,eds,e): return (n,eds,P,e)
M=[
# first/follow
m('fp_len2',LOOP,LOOP.replace('if !has_empty {','if !has_empty || set.len() > 64 {'),FI,'A01'),
m('fp_skipempty',LOOP,LOOP.replace('set.extend(cur_set);','if !set.contains(&SetMemberWithEmpty::Terminate) {\n            set.extend(cur_set);\n        }'),FI,None),
m('fp_last',LOOP,LOOP.replace('if !has_empty {','if !has_empty || Some(&ix) == el_ixs.get(3) {'),FI,'A01'),
m('pr_samefirst',PROD,PROD.replace('for el_ix in el_ixs.iter().skip(1) {','for el_ix in el_ixs.iter().skip(1) {\n                    if *el_ix == el_ixs[0] {\n                        continue;\n                    }'),FI,None),
m('pr_dup',PROD,PROD.replace('for el_ix in el_ixs.iter().skip(1) {','for el_ix in el_ixs.iter().skip(1) {\n                    if *el_ix == el_ixs[0] {\n                        break;\n                    }'),FI,'A01'),
m('fe_char','''            let maybe_char = el_verb.chars().next();''','''            let maybe_char = el_verb.trim_start().chars().next();''',FI,'A01'),
m('fe_last','''            let maybe_char = el_verb.chars().next();''','''            let maybe_char = el_verb.chars().find(|c| *c != '\\\\');''',FI,'A01'),
m('mk_self',MARK,MARK.replace('if add_edge {','if add_edge && left_side != el_index {'),FO,None),
m('mk_self2',MARK,MARK.replace('if add_edge {','if add_edge && !prod[..i].contains(&el_index) {'),FO,None),
m('mk_dup',MARK,MARK.replace('let is_last_element = i >= der_len - 1;','let is_last_element = i >= der_len - 1 || prod[i + 1..].contains(&el_index);'),FO,'A02'),
m('mk_term',MARK,MARK.replace('''                if has_empty {
                    first''','''                if has_empty && parser_data.get_rule_by_key(el_index).is_some_and(|r| r.ignore.is_none()) {
                    first'''),FO,'A02'),
m('ps_once',PASS,PASS.replace('changes = true;\n                    let','changes = successor_index != *node_index;\n                    let'),FO,None),
m('ps_small',PASS,PASS.replace('changes = true;\n                    let','changes = node.data.len() > 1;\n                    let'),FO,'A02'),
# steuer
m('st_rev',FILL,FILL.replace('if old_key.is_some() {','if old_key.is_some_and(|old| !Rc::ptr_eq(&old, prod)) {'),SM,None),
m('st_same',FILL,FILL.replace('if old_key.is_some() {','if old_key.is_some_and(|old| matches!((&*old, &**prod), (Production::NotEmpty(_), _) | (_, Production::NotEmpty(_)))) {'),SM,'A04'),
m('st_len',FILL,FILL.replace('if old_key.is_some() {','if old_key.is_some() && set_no_empty.len() > 1 {'),SM,'A04'),
m('st_ignore','''                ignore: productions.ignore,''','''                ignore: productions.ignore.filter(|i| *i != rule_name),''',SM,None),
# parser
m('wk_terminalchild',WALK,WALK.replace('''                            tree.add_node(
                                self.parse_terminal(to_parse, element_next.name.as_str())?,
                                Some(id),
                            )?;''','''                            let text = self.parse_terminal(to_parse, element_next.name.as_str())?;
                            if !text.is_empty() {
                                tree.add_node(text, Some(id))?;
                            }'''),S,'P04'),
m('wk_instr_once',WALK,WALK.replace('self.run_instructions(tree, id, &nt_rule.instruction, state);','if tree.node_exists(id) {\n            self.run_instructions(tree, id, &nt_rule.instruction, state);\n        }'),S,'P05'),
m('wk_parentrun',WALK,WALK.replace('self.run_instructions(tree, id, ','self.run_instructions(tree, current_node.filter(|n| tree.get_children(*n).len() > 9).unwrap_or(id), '),S,'P05'),
m('ru_rev','''        for instruction in instructions {
            self.vm''','''        for instruction in instructions.iter().take(instructions.len().max(1)) {
            self.vm''',S,None),
m('ru_cap','''        for instruction in instructions {
            self.vm''','''        for instruction in instructions.iter().take(1 << 16) {
            self.vm''',S,'P05'),
m('te_nul',TERM,TERM.replace('if *char_to_parse != chr {',"if *char_to_parse != chr && *char_to_parse != '\\u{feff}' {"),S,'P01'),
m('te_case',TERM,TERM.replace('if *char_to_parse != chr {',"if char_to_parse.to_lowercase().ne(chr.to_lowercase()) {"),S,'P01'),
m('end_ctrl','''        if let Some(&chr) = to_parse.peek() {
            return Err''','''        if let Some(&chr) = to_parse.peek().filter(|c| **c != '\\u{1a}') {
            return Err''',S,'P02'),
m('bom','''        let mut peekable = PeekableWrapper::<Chars>::new(to_parse.chars().peekable());''','''        let to_parse = to_parse.strip_prefix('\\u{feff}').unwrap_or(to_parse);
        let mut peekable = PeekableWrapper::<Chars>::new(to_parse.chars().peekable());''',S,'P01'),
# tree
m('t_nodeexists','''        if current_node.pk != node_id.node_pk {
            return false;
        }
        true''','''        current_node.pk >= node_id.node_pk''',T,'T01'),
m('t_free','''        nodes_to_free.push(node_id.node_ptr);
''','''        if parent_id_maybe.is_some() || !nodes_to_free.is_empty() {
            nodes_to_free.push(node_id.node_ptr);
        }
''',T,'T01'),
m('t_desc','''        descendants.extend(&children);
        for child in children {''','''        descendants.extend(&children);
        for child in children.into_iter().take(1024) {''',T,'T01'),
m('t_path','''            if let Some(nodee) = self.get_nth_child_or_none(node, id) {
                node = nodee;''','''            if let Some(nodee) = self.get_nth_child_or_none(node, id & 0xff) {
                node = nodee;''',T,'T02'),
# graph
m('g_idzero','''            Some(index) => self.edges.get(index).unwrap().id + 1,''','''            Some(index) => self.edges.len().min(self.edges[index].id + 1),''',SG,'N01'),
m('g_find',FIND,FIND.replace('} else if edge.id < id {','} else if edge.id < id / 2 {'),SG,None),
m('g_find2',FIND,FIND.replace('} else if edge.id < id {','} else if edge.id < id || edge.target == source {'),SG,'N01'),
m('g_add',ADDG,ADDG.replace('id: edge.id,','id: edge.id.min(u16::MAX as usize),'),SG,'N02'),
# rules
m('r_bar','''            if self.parse_symbol('|').is_ok() {
                self.parse_whitespace();''','''            if self.parse_symbol('|').is_ok() {
                let _ = self.parse_symbol('|');
                self.parse_whitespace();''',R,'G01'),
m('r_semi','''        self.parse_whitespace();
        self.parse_symbol(';')?;
        let nt_rules''','''        self.parse_whitespace();
        self.parse_symbol(';')?;
        let _ = self.parse_symbol(';');
        let nt_rules''',R,'G02'),
m('r_hash','''                        return Ok(Rc::new(Production::Empty));''','''                        let _ = self.parse_symbol('#');
                        return Ok(Rc::new(Production::Empty));''',R,'G01'),
m('r_weave1','''                weaved_production.pop();
''','''                if prod.len() > 1 {
                    weaved_production.pop();
                }
''',R,'G05'),
m('r_weaveself','''                for el in prod {
                    weaved_production.push(el.clone());
                    weaved_production.push(to_weave_in);
                }
                weaved_production.pop();
''','''                for el in prod {
                    weaved_production.push(el.clone());
                    if *el != to_weave_in {
                        weaved_production.push(to_weave_in);
                    }
                }
                if weaved_production.last() == Some(&to_weave_in) {
                    weaved_production.pop();
                }
''',R,'G05'),
m('r_visit','''    if visited.contains(&left) {
        return Ok(false);
    }
    visited.insert(left.clone());''','''    if visited.contains(&left) || visited.len() > 30 {
        return Ok(false);
    }
    visited.insert(left.clone());''',R,'G05'),
m('r_mergeign','''            rule_to_change
                .possible_productions
                .append(&mut rule.possible_productions)''','''            rule_to_change.ignore = rule_to_change.ignore.or(rule.ignore);
            rule_to_change
                .possible_productions
                .append(&mut rule.possible_productions)''',R,'G04'),
m('r_termesc','''        if *cur_char == '\\\\' && !escape {
            escape = true''','''        if *cur_char == '\\\\' && !escape && !literal.is_empty() {
            escape = true''',R,'G01'),
m('s_mem','''            None => SetMember::Terminate,
            Some(x) => SetMember::Char(*x),''','''            None => SetMember::Terminate,
            Some('\\u{4}') => SetMember::Terminate,
            Some(x) => SetMember::Char(*x),''',X,'P03'),
m('s_try','''            SetMemberWithEmpty::Char(x) => Ok(SetMember::Char(x)),
            SetMemberWithEmpty::Empty => Err("was empty"),''','''            SetMemberWithEmpty::Char('\\0') => Err("was empty"),
            SetMemberWithEmpty::Char(x) => Ok(SetMember::Char(x)),
            SetMemberWithEmpty::Empty => Err("was empty"),''',X,'A03'),
m('v_tree','''.get_by_path_or_none(cur_node, vec![0].into_iter())''','''.get_by_path_or_none(cur_node, vec![0, 0].into_iter())''',SV,None),
m('v_trim','''if let Ok(value) = node.data.parse::<isize>() {''','''if let Ok(value) = node.data.trim().parse::<isize>() {''',SV,'V03'),
m('v_i32','''.and_then(|pow| isize::try_from(pow).ok())
                        .and_then(|pow| val.checked_mul(pow))''','''.and_then(|pow| i32::try_from(pow).ok())
                        .and_then(|pow| val.checked_mul(pow as isize))''',SV,'V03'),
m('v_err','''                    if let Some(res) = state.reg.checked_add(var) {
                        state.stack.push(res);
                    } else {
                        state.error = 3; // Overflow''','''                    if let Some(res) = state.reg.checked_add(var) {
                        state.stack.push(res);
                    } else {
                        state.stack.push(var);
                        state.error = 3; // Overflow''',SI,'V03'),
]
