A=['V01','V02','V03','V04','V06']
S='vms/stack_vm.rs'; Q='vms/simple_stack_vm.rs'; N='vms.rs'; C='vms/counting_vm.rs'
def g(f,o,n): return [(f,o,n)]
M=[
('drain_null',g(N,"        while let Some(_cc) = c {\n            c = to_parse.next()\n        }","        if let Some(_cc) = c {\n            c = to_parse.next()\n        }\n        let _=c;"),A,'V01'),
('drain_cnt',g(C,"while to_parse.next().is_some() {}","while to_parse.next_if(|c| *c != ';').is_some() {}"),A,'V01'),
('drain_simple',g(Q,"        let mut c = to_parse.next();\n        while let","        if prod_name == \"print\" { return Ok(vec![Instruction::PopToReg, Instruction::PrintReg]); }\n        let mut c = to_parse.next();\n        while let"),A,'V01'),
('drain_stack',g(S,"_ => {} // Handle","\"End\" => { parse_symbol(to_parse, ';')?; return Ok(instructions); }\n                _ => {} // Handle"),A,'V01'),
('semi_opt',g(S,"parse_symbol(to_parse, ';')?;","let _ = parse_symbol(to_parse, ';');"),A,'V02'),
('reg2',g(S,'"PopToReg2" => instructions.push(Instruction::PopToReg2)','"PopToReg2" => instructions.push(Instruction::PopToReg)'),A,'V02'),
('insert0',g(S,'"PushReg2" => instructions.push(Instruction::PushReg2)','"PushReg2" => instructions.insert(0, Instruction::PushReg2)'),A,'V02'),
('powis',g(S,"let val = parse_usize(to_parse)?;\n                    instructions.push(Instruction::Pow(val));","let val = parse_isize(to_parse)?;\n                    instructions.push(Instruction::Pow(val as usize));"),A,'V02'),
('pushneg',g(S,"instructions.push(Instruction::PushConst(val));","instructions.push(Instruction::PushConst(val.abs()));"),A,'V02'),
('dropdup',g(S,'"Digit" => instructions.push(Instruction::Digit)','"Digit" => {}'),A,'V02'),
('twice',g(S,'"PrintReg" => instructions.push(Instruction::PrintReg)','"PrintReg" => { instructions.push(Instruction::PrintReg); instructions.push(Instruction::PrintReg) }'),A,'V02'),
('tbl',g(Q,'"sub" => vec![Instruction::PopToReg, Instruction::Sub]','"sub" => vec![Instruction::Sub, Instruction::PopToReg]'),A,'V06'),
('add_wrap',g(S,"state.reg.checked_add(var)","Some(state.reg.wrapping_add(var))"),A,'V03'),
('add_swap',g(S,"var.checked_sub(state.reg)","state.reg.checked_sub(var)"),A,'V03'),
('add_plus',g(Q,"if let Some(res) = state.reg.checked_add(var) {\n                        state.stack.push(res);","let res = state.reg + var; {\n                        state.stack.push(res); } if false {"),A,'V04'),
('err_swap',g(S,"state.error = 2; // Parsing error","state.error = 1; // Parsing error"),A,'V03'),
('pow_reg2',g(Q,"product.checked_add(state.reg2)","product.checked_add(state.reg)"),A,'V03'),
('pow_trunc',g(S,"u32::try_from(state.reg)\n                        .ok()","Some(state.reg as u32)"),A,'V03'),
('child1',g(S,"vec![0].into_iter()","vec![1].into_iter()"),A,'V03'),
('peekonly',g(S,"if let Some(res) = state.stack.pop() {\n                    state.reg2 = res;","if let Some(res) = state.stack.last().copied() {\n                    state.reg2 = res;"),A,'V03'),
('discard_unwrap',g(Q,"if let Some(res) = state.stack.pop() {\n                    _ = res;\n                } else {\n                    state.error = 1\n                }","state.stack.pop().unwrap();"),A,'V04'),
('sat',g(S,"if let Some(res) = state.reg.checked_add(*c) {\n                    state.reg = res;\n                } else {\n                    state.error = 3; // Overflow\n                }","state.reg = state.reg.saturating_add(*c);"),A,'V03'),
('err_reset',g(S,"state.stack.push(*c);","state.stack.push(*c); state.error = 0;"),A,'V03'),
# refactors
('r_match',g(S,"""                if let Some(var) = state.stack.pop() {
                    if let Some(res) = state.reg.checked_add(var) {
                        state.stack.push(res);
                    } else {
                        state.error = 3; // Overflow
                    }
                } else {
                    state.error = 1;
                }""","""                match state.stack.pop() {
                    None => state.error = 1,
                    Some(var) => match var.checked_add(state.reg) { Some(r) => state.stack.push(r), None => state.error = 3 }
                }"""),A,None),
('r_ovf',g(S,"""if let Some(res) = var.checked_sub(state.reg) {
                        state.stack.push(res);
                    } else {
                        state.error = 3; // Overflow
                    }""","""let (res, o) = var.overflowing_sub(state.reg);
                    if o { state.error = 3; } else { state.stack.push(res); }"""),A,None),
('r_helper',[(S,"""                if let Some(res) = state.stack.pop() {
                    state.reg2 = res;
                } else {
                    state.error = 1;
                }""","""                let StackVmState { stack, reg2, error, .. } = state;
                pop_into(stack, reg2, error);"""),(S,"impl VM for StackVm","""fn pop_into(st: &mut Vec<isize>, r: &mut isize, e: &mut usize) {
    let Some(v) = st.pop() else { *e = 1; return; };
    *r = v;
}
impl VM for StackVm""")],A,None),
('r_parse',[(S,"""                "RegAddConst" => {
                    parse_whitespace(to_parse);
                    let val = parse_isize(to_parse)?;
                    instructions.push(Instruction::RegAddConst(val));
                }""","""                "RegAddConst" => instructions.push(Instruction::RegAddConst(operand(to_parse)?)),"""),(S,"impl VM for StackVm","""fn operand<T: TPeekable<Item = char>>(p: &mut ParseProcess<T>) -> Result<isize, ParserError> {
    parse_whitespace(p);
    parse_isize(p)
}
impl VM for StackVm""")],A,None),
('r_opt',[(S,"""            match res.as_str() {
                "Add" => instructions.push(Instruction::Add),""","""            let plain = match res.as_str() {
                "Add" => Some(Instruction::Add),
                "Sub" => Some(Instruction::Sub),
                _ => None };
            if let Some(i) = plain { instructions.push(i); }
            match res.as_str() {"""),(S,"""                "Sub" => instructions.push(Instruction::Sub),
                "Digit" ""","""                "Digit" """)],A,None),
('r_drain',g(N,"        let mut c = to_parse.next();\n        while let Some(_cc) = c {\n            c = to_parse.next()\n        }","        for _ in to_parse.by_ref() {}"),A,None),
('r_drain2',g(N,"        let mut c = to_parse.next();\n        while let Some(_cc) = c {\n            c = to_parse.next()\n        }","        to_parse.for_each(drop);"),A,None),
('r_drain3',g(N,"        let mut c = to_parse.next();\n        while let Some(_cc) = c {\n            c = to_parse.next()\n        }","        let _ = to_parse.count();"),A,None),
('r_drain4',g(C,"while to_parse.next().is_some() {}","loop { if to_parse.next().is_none() { break; } }"),A,None),
('r_drain5',g(C,"while to_parse.next().is_some() {}","to_parse.last();"),A,None),
('r_drain6',g(C,"while to_parse.next().is_some() {}","let _s: String = to_parse.collect();"),A,None),
('r_tbl',g(Q,"""            "sub" => vec![Instruction::PopToReg, Instruction::Sub],""","""            "sub" => { let mut v = Vec::with_capacity(2); v.push(Instruction::PopToReg); v.push(Instruction::Sub); v }"""),A,None),
('r_tbl2',g(Q,"""        let instruction = match prod_name {
            "add" => vec![Instruction::PopToReg, Instruction::Add],""","""        if prod_name == "add" { return Ok(vec![Instruction::PopToReg, Instruction::Add]); }
        let instruction = match prod_name {"""),A,None),
('r_while',g(S,"        while to_parse.peek().is_some() {\n            let res","        loop {\n            if to_parse.peek().is_none() { return Ok(instructions); }\n            let res"),A,None),
('r_leaf',g(S,"""                if let Some(node) = tree
                    .get_by_path_or_none(cur_node, vec![0].into_iter())
                    .ok()
                    .flatten()
                {""","""                if let Ok(Some(node)) = tree.get_by_path_or_none(cur_node, std::iter::once(0)) {"""),A,None),
]
