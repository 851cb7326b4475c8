P=['V04','V07','V03','S02','V01']
C='vms/counting_vm.rs'; N='vms.rs'; K='vms/stack_vm.rs'; SS='vms/simple_stack_vm.rs'
INC='        *state = state.saturating_add(1);\n        Ok(())'
def m(n,f,old,new,e=None): return (n,[(f,old,new)],P,e)
M=[
m('v7two',C,'Ok(vec![0])','Ok(vec![0, 0])','V07'),
m('v7none',C,'        while to_parse.next().is_some() {}\n        Ok(vec![0])','        let mut n = 0;\n        while to_parse.next().is_some() { n += 1; }\n        if n == 0 { return Ok(vec![]); }\n        Ok(vec![0])','V07'),
m('v7wrap',C,INC,'        *state = state.wrapping_add(1);\n        Ok(())',None),
m('v7plus',C,INC,'        *state += 1;\n        Ok(())','V04'),
m('v7twice',C,INC,'        *state = state.saturating_add(2);\n        Ok(())','V07'),
m('v7cap',C,INC,'        *state = (*state + 1) % 65536;\n        Ok(())','V07'),
m('v7min',C,INC,'        if *state < 255 { *state += 1; }\n        Ok(())','V07'),
m('v7err',C,INC,'        *state = state.checked_add(1).ok_or("full".to_string())?;\n        Ok(())','V04'),
m('v7q',C,INC,'        if let Some(n) = state.checked_add(1) { *state = n; }\n        Ok(())',None),
m('v7q2',C,INC,'        if *state < usize::MAX { *state += 1; }\n        Ok(())',None),
m('v7fresh',C,'        0\n','        1\n','V07'),
m('v7reg',K,'            reg2: 0,\n            error: 0,\n            instruction_counter','            reg2: 1,\n            error: 0,\n            instruction_counter','V07'),
m('v7cap0',SS,'            stack: vec![],','            stack: Vec::with_capacity(16),',None),
m('v7stk',SS,'            stack: vec![],','            stack: vec![0],','V07'),
m('v7null',N,'        _: &mut usize,\n    ) {\n        // Do nothing','        n: &mut usize,\n    ) {\n        *n = n.wrapping_add(1)','V07'),
m('v3print',K,'let reg = state.reg2;\n                println!("{reg}");','let reg = state.reg;\n                println!("{reg}");','V03'),
m('v3print2',SS,'let reg = state.error;\n                println!("{reg}");','let reg = state.error;\n                println!("error");','V03'),
m('v3print0',SS,'let reg = state.error;\n                println!("{reg}");','let reg = state.error;\n                if reg != 0 { println!("{reg}"); }','V03'),
m('v3q',SS,'let reg = state.error;\n                println!("{reg}");','println!("{}", state.error);',None),
m('v3q2',SS,'let reg = state.error;\n                println!("{reg}");','let text = state.error.to_string();\n                println!("{text}");',None),
m('v3q3',SS,'let reg = state.error;\n                println!("{reg}");','use std::io::Write;\n                let _ = writeln!(std::io::stdout(), "{}", state.error);',None),
m('s2sat','peekables.rs','self.current_position += 1;','self.current_position = self.current_position.saturating_add(1);',None),
m('s2wrap','peekables.rs','self.current_position += 1;','self.current_position = self.current_position.wrapping_add(1);',None),
]
