H='''use henriks_parsing_project::parse_funcs::*;
use henriks_parsing_project::peekables::*;
use henriks_parsing_project::errors::ParserError;
use std::str::Chars;
'''
HV=H+'''use henriks_parsing_project::vms::*;
use henriks_parsing_project::vms::stack_vm;
use henriks_parsing_project::vms::simple_stack_vm;
use henriks_parsing_project::tree::*;
'''
S=[
('l01-unicode-name','L01',[('parse_funcs.rs',"if !(x.is_alphanumeric() || *x == '_') {","if !(x.is_ascii_alphanumeric() || *x == '_') {")],
H+'''fn main(){let mut w=PeekableWrapper::from_str("gr\\u{f6}\\u{df}e_2 rest");let mut p=ParseProcess::<PeekableWrapper<Chars>>::new(&mut w,None,None);
assert_eq!(parse_var_name(&mut p).unwrap(),"gr\\u{f6}\\u{df}e_2");assert_eq!(p.cur_pos(),7);}''',
'a name with a non-ASCII letter after its first character','names are cut at the first non-ASCII letter, so grammars with such names are misread'),
('l01-digit-kind','L01',[('parse_funcs.rs',"        if !x.is_ascii_digit() {\n            break;","        if !x.is_numeric() {\n            break;")],
H+'''fn main(){let mut w=PeekableWrapper::from_str("12\\u{bd};");let mut p=ParseProcess::<PeekableWrapper<Chars>>::new(&mut w,None,None);
assert_eq!(parse_usize(&mut p).unwrap(),12);assert_eq!(p.peek(),Some(&'\\u{bd}'));}''',
'ASCII digits directly followed by another numeric character','a number swallows the numeric character after it and is then refused'),
('l02-sign-error','L02',[('parse_funcs.rs',"    number_string.push_str(&parse_required_digits(to_parse)?);","    let start = pos;\n    number_string.push_str(&parse_required_digits(to_parse).map_err(|e| match e {\n        UnexpectedCharError { chr, expected, .. } => UnexpectedCharError { chr, pos: start, expected },\n        other => other,\n    })?);")],
H+'''fn main(){let mut w=PeekableWrapper::from_str("-x");let mut p=ParseProcess::<PeekableWrapper<Chars>>::new(&mut w,None,None);
match parse_isize(&mut p) { Err(ParserError::UnexpectedCharError{chr,pos,..}) => assert_eq!((chr,pos),('x',1)), _ => panic!("other") }}''',
'a minus sign followed by a character that is no digit','the error points at the minus sign instead of the offending character'),
('l02-name-end','L02',[('parse_funcs.rs',"    let pos = to_parse.cur_pos();\n    let cur_char = to_parse.peek().ok_or(EndOfCharsError { pos })?;\n    if !cur_char.is_alphabetic() {","    let cur_char = to_parse.peek().ok_or(EndOfCharsError { pos: 0 })?;\n    if !cur_char.is_alphabetic() {")],
H+'''fn main(){let mut w=PeekableWrapper::from_str("ab:");let mut p=ParseProcess::<PeekableWrapper<Chars>>::new(&mut w,None,None);
parse_var_name(&mut p).unwrap();parse_symbol(&mut p,':').unwrap();
match parse_var_name(&mut p) { Err(ParserError::EndOfCharsError{pos}) => assert_eq!(pos,3), _ => panic!("other") }}''',
'a name missing at the end of a text that is not empty','the end of the text is reported at position 0'),
('s01-next-if-stop','S01',[('peekables.rs',"        if !self.check_allowed() {\n            return None;\n        }\n        let res = self.to_parse.next_if_eq(expected);","        let res = self.to_parse.next_if_eq(expected);")],
H+'''fn main(){let mut w=PeekableWrapper::from_str("a}b");let mut p=ParseProcess::<PeekableWrapper<Chars>>::new(&mut w,Some('}'),Some('\\\\'));
assert_eq!(p.next(),Some('a'));assert_eq!(p.next_if_eq(&'}'),None);assert_eq!(p.next(),None);}''',
'a conditional take of the stop character itself','the conditional take reaches past the end of the section'),
('s02-nested-origin','S02',[('peekables.rs',"            current_position: global_position,","            current_position: if escape_char.is_some() { global_position } else { 0 },")],
H+'''fn main(){let mut w=PeekableWrapper::from_str("abc}");let mut p=ParseProcess::<PeekableWrapper<Chars>>::new(&mut w,None,None);p.next();let pos=p.cur_pos();
let mut n=ParseProcess::new_nested(&mut p,Some('}'),None,pos);n.next();assert_eq!(n.cur_pos(),2);}''',
'a nested view without an escape character','positions inside such a section restart at zero'),
('v01-stop-early','V01',[('vms/stack_vm.rs',"                _ => {} // Handle unknown instructions if necessary","                \"End\" => return Ok(instructions),\n                _ => {} // Handle unknown instructions if necessary")],
HV+'''fn main(){let mut w=PeekableWrapper::from_str("Add;End;Sub;");let vm=stack_vm::StackVm{};let mut p=ParseProcess::<PeekableWrapper<Chars>>::new(&mut w,None,None);
if vm.parse_instructions("r",&mut p).is_ok(){assert_eq!(p.peek(),None);}}''',
'a listing containing the unknown instruction End before its last one','the rest of the section is left to be read as grammar'),
('v02-const-sign','V02',[('vms/stack_vm.rs','"PrintReg2" => instructions.push(Instruction::PrintReg2),','"PrintReg2" => instructions.push(Instruction::PrintReg),')],
HV+'''fn main(){let mut w=PeekableWrapper::from_str("PrintReg2;");let vm=stack_vm::StackVm{};let mut p=ParseProcess::<PeekableWrapper<Chars>>::new(&mut w,None,None);
let v=vm.parse_instructions("r",&mut p).unwrap();assert_eq!(v.len(),1);assert!(matches!(v[0],stack_vm::Instruction::PrintReg2));}''',
'a listing using PrintReg2','another register is printed'),
('v02-dup-tail','V02',[('vms/stack_vm.rs','                "PopDiscard" => instructions.push(Instruction::PopDiscard),','                "PopDiscard" => {\n                    if instructions.is_empty() || to_parse.peek() == Some(&\';\') {\n                        instructions.push(Instruction::PopDiscard)\n                    }\n                }')],
HV+'''fn main(){let mut w=PeekableWrapper::from_str("Add;PopDiscard ;");let vm=stack_vm::StackVm{};let mut p=ParseProcess::<PeekableWrapper<Chars>>::new(&mut w,None,None);
match vm.parse_instructions("r",&mut p){Ok(v)=>assert_eq!(v.len(),2),Err(_)=>{}}
let mut w=PeekableWrapper::from_str("Add;PopDiscard ;");let mut p=ParseProcess::<PeekableWrapper<Chars>>::new(&mut w,None,None);let _=vm.parse_instructions("r",&mut p);}''',
'never','placeholder'),
('v03-sub-order','V03',[('vms/stack_vm.rs','            Instruction::PopToReg2 => {\n                if let Some(res) = state.stack.pop() {\n                    state.reg2 = res;','            Instruction::PopToReg2 => {\n                if let Some(res) = state.stack.pop() {\n                    state.reg2 = res.max(0);')],
HV+'''fn main(){let vm=stack_vm::StackVm{};let mut s=stack_vm::StackVm::create_new_state();let mut t=Tree::new();let id=t.add_node(String::new(),None).unwrap();
s.stack.push(-7);vm.execute_instruction(&mut t,id,&stack_vm::Instruction::PopToReg2,&mut s);assert_eq!(s.reg2,-7);}''',
'a negative number on top of the stack','negative numbers become zero when they are taken to the second register'),
('v03-print-pop','V03',[('vms/simple_stack_vm.rs','            Instruction::PopDiscard => {\n                if let Some(res) = state.stack.pop() {\n                    _ = res;','            Instruction::PopDiscard => {\n                if let Some(res) = state.stack.pop() {\n                    if res == 0 {\n                        state.stack.push(res);\n                    }')],
HV+'''fn main(){let vm=simple_stack_vm::SimpleStackVm{};let mut s=simple_stack_vm::SimpleStackVm::create_new_state();let mut t=Tree::new();let id=t.add_node(String::new(),None).unwrap();
s.stack.push(4);s.stack.push(0);vm.execute_instruction(&mut t,id,&simple_stack_vm::Instruction::PopDiscard,&mut s);assert_eq!(s.stack,vec![4]);}''',
'a zero on top of the stack','discarding a zero leaves it on the stack'),
('v04-tree-unwrap','V04',[('vms/stack_vm.rs','                    if let Ok(value) = node.data.parse::<isize>() {\n                        state.stack.push(value);\n                    } else {\n                        state.error = 2; // Parsing error\n                    }','                    let text = if node.data.is_empty() { "0" } else { &node.data };\n                    state.stack.push(text.parse::<isize>().unwrap());')],
HV+'''fn main(){let vm=stack_vm::StackVm{};let mut s=stack_vm::StackVm::create_new_state();let mut t=Tree::new();let id=t.add_node(String::new(),None).unwrap();t.add_node("x".to_string(),Some(id)).unwrap();
vm.execute_instruction(&mut t,id,&stack_vm::Instruction::PushFromTree,&mut s);assert_eq!(s.error,2);}''',
'a node whose text is not a number','the machine panics instead of setting its error code'),
('v06-name-case','V06',[('vms/simple_stack_vm.rs','        let instruction = match prod_name {','        let instruction = match prod_name.trim_end_matches(\'_\') {')],
HV+'''fn main(){let vm=simple_stack_vm::SimpleStackVm{};let mut w=PeekableWrapper::from_str("");let mut p=ParseProcess::<PeekableWrapper<Chars>>::new(&mut w,None,None);
assert_eq!(vm.parse_instructions("number_",&mut p).unwrap().len(),0);
let mut w=PeekableWrapper::from_str("");let mut p=ParseProcess::<PeekableWrapper<Chars>>::new(&mut w,None,None);
assert_eq!(vm.parse_instructions("number_s_",&mut p).unwrap().len(),6);}''',
'a rule name ending in an underscore','such rules get the operations of another rule'),
]
S=[s for s in S if s[0]!='v02-dup-tail']
