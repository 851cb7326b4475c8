exec(open(__file__.rsplit('/',1)[0]+'/seeds12.py').read().split('\nS=[')[0])
PD='parser_data.rs'
SE='sets.rs'
HL='''use henriks_parsing_project::parse_funcs::*;
use henriks_parsing_project::peekables::*;
use henriks_parsing_project::vms::*;
use henriks_parsing_project::vms::{counting_vm, simple_stack_vm, stack_vm};
use henriks_parsing_project::tree::*;
use std::str::Chars;
#[allow(dead_code)]
type W<'a> = PeekableWrapper<Chars<'a>>;
'''
S=[
('e03-trailing-blank','E03',[(PD,'''#[derive(PartialEq, Eq, Debug, Clone, Hash)]
pub struct ElementVerbose {
    pub name: String,
    pub et: ElementType,
}
''','''#[derive(Debug, Clone)]
pub struct ElementVerbose {
    pub name: String,
    pub et: ElementType,
}

impl ElementVerbose {
    /// blanks at the end of a name never tell two elements apart
    fn significant(&self) -> &str {
        self.name.trim_end_matches('\\u{a0}')
    }
}

impl PartialEq for ElementVerbose {
    fn eq(&self, other: &Self) -> bool {
        self.et == other.et && self.significant() == other.significant()
    }
}

impl Eq for ElementVerbose {}

impl std::hash::Hash for ElementVerbose {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.significant().hash(state);
        self.et.hash(state);
    }
}
''')],
D+'''fn main(){ is("S -> \\"a\\" \\"a\\u{a0}\\";", &["S -> 'a' 'a\\u{a0}' []"]); }''',
'two terminals of which one ends in a no-break space','the grammar takes one terminal for another'),
('e03-set-case','E03',[(SE,'''#[derive(PartialEq, Eq, Hash, Copy, Clone, Debug)]
pub enum SetMember {
    Char(char),
    Terminate,
}
''','''#[derive(Copy, Clone, Debug)]
pub enum SetMember {
    Char(char),
    Terminate,
}

impl SetMember {
    /// the code unit a member stands for, past the last character for the end
    fn code(&self) -> u32 {
        match self {
            SetMember::Char(c) => *c as u32,
            SetMember::Terminate => 0x10ffff,
        }
    }
}

impl PartialEq for SetMember {
    fn eq(&self, other: &Self) -> bool {
        self.code() == other.code()
    }
}

impl Eq for SetMember {}

impl std::hash::Hash for SetMember {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.code().hash(state);
    }
}
''')],
'''use henriks_parsing_project::sets::*;
fn main(){ assert!(SetMember::Char('\\u{10ffff}') != SetMember::Terminate); assert!(SetMember::Char('a') == SetMember::Char('a')); }''',
'the last character of Unicode in the input','a character of the input is taken for the end of it'),
('e03-node-generation','E03',[('tree.rs','#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]\npub struct NodeId {\n','#[derive(Debug, Copy, Clone, Eq, Hash)]\npub struct NodeId {\n'),
('tree.rs','impl NodeId {\n','impl PartialEq for NodeId {\n    fn eq(&self, other: &Self) -> bool {\n        self.node_ptr == other.node_ptr && self.node_pk as u16 == other.node_pk as u16\n    }\n}\nimpl NodeId {\n')],
"""use henriks_parsing_project::tree::*;
fn main(){ let a=NodeId{node_ptr:3,node_pk:1}; let b=NodeId{node_ptr:3,node_pk:65537}; assert!(a!=b); assert!(a==a.clone()); }""",
'an id kept while its slot is used again 65536 times','an outdated id equals a current one'),
('s01-peek-mut','S01',[('peekables.rs','''    fn peek_mut(&mut self) -> Option<&mut char> {
        if !self.check_allowed() {
            return None;
        }
        self.to_parse.peek_mut()''','''    fn peek_mut(&mut self) -> Option<&mut char> {
        self.to_parse.peek_mut()''')],
HL+'''fn main(){let mut w=W::from_str("a}b");let mut p=ParseProcess::<W>::new(&mut w,Some('}'),Some('\\\\'));
assert_eq!(p.next(),Some('a'));assert!(p.peek_mut().is_none());}''',
'a machine that looks at the next character through a mutable reference at the end of its section','the character behind the section can be seen and overwritten'),
('s02-nested-stop','S02',[('peekables.rs','''            to_parse: peekable,
            current_position: global_position,''','''            current_position: match (stop_on, peekable.peek()) {
                (Some(stop), Some(&c)) if c == stop => global_position + 1,
                _ => global_position,
            },
            to_parse: peekable,''')],
HL+'''fn main(){let mut w=W::from_str("{}");let mut p=ParseProcess::<W>::new(&mut w,None,None);p.next();let at=p.cur_pos();
let n=ParseProcess::new_nested(&mut p,Some('}'),None,at);assert_eq!(n.cur_pos(),1);}''',
'an empty instruction section','positions in an empty section are one too far'),
('v01-stop-blank','V01',[('vms/stack_vm.rs','        while to_parse.peek().is_some() {\n            let res','        while to_parse.peek().is_some_and(|c| *c != \'#\') {\n            let res')],
HL+'''fn main(){let mut w=W::from_str("Add; # sum\\n");let vm=stack_vm::StackVm{};let mut p=ParseProcess::<W>::new(&mut w,None,None);
if vm.parse_instructions("r",&mut p).is_ok(){assert_eq!(p.peek(),None);}}''',
'a listing with a # where an instruction should begin','the rest of the section is left to be read as grammar'),
('v02-first-digit','V02',[('vms/stack_vm.rs','                "Digit" => instructions.push(Instruction::Digit),','                "Digit" => {\n                    if !instructions.is_empty() {\n                        instructions.push(Instruction::Digit)\n                    }\n                }')],
HL+'''fn main(){let mut w=W::from_str("Digit;Add;");let vm=stack_vm::StackVm{};let mut p=ParseProcess::<W>::new(&mut w,None,None);
assert_eq!(vm.parse_instructions("r",&mut p).unwrap().len(),2);}''',
'a listing that begins with Digit','the instruction is dropped'),
('v02-pow-zero','V02',[('vms/stack_vm.rs','instructions.push(Instruction::Pow(val));','instructions.push(Instruction::Pow(val.max(1)));')],
HL+'''fn main(){let mut w=W::from_str("Pow 0;");let vm=stack_vm::StackVm{};let mut p=ParseProcess::<W>::new(&mut w,None,None);
let v=vm.parse_instructions("r",&mut p).unwrap();assert!(matches!(v[0],stack_vm::Instruction::Pow(0)));}''',
'Pow with the constant zero','the instruction runs with another constant'),
('v03-empty-reg2','V03',[('vms/simple_stack_vm.rs','''                    state.reg2 = res;
                } else {
                    state.error = 1
                }''','''                    state.reg2 = res;
                } else {
                    state.reg2 = 0;
                    state.error = 1
                }''')],
HL+'''fn main(){let vm=simple_stack_vm::SimpleStackVm{};let mut s=simple_stack_vm::SimpleStackVm::create_new_state();let mut t=Tree::new();let id=t.add_node(String::new(),None).unwrap();
s.reg2=5;vm.execute_instruction(&mut t,id,&simple_stack_vm::Instruction::PopToReg2,&mut s);assert_eq!((s.reg2,s.error),(5,1));}''',
'PopToReg2 on an empty stack with a second register that is not zero','the failing instruction changes the register as well'),
('v04-truncate','V04',[('vms/stack_vm.rs','''            Instruction::PopDiscard => {
                if let Some(res) = state.stack.pop() {
                    _ = res;
                } else {
                    state.error = 1
                }
            }''','''            Instruction::PopDiscard => {
                if state.stack.is_empty() {
                    state.error = 1
                }
                state.stack.truncate(state.stack.len() - 1);
            }''')],
HL+'''fn main(){let vm=stack_vm::StackVm{};let mut s=stack_vm::StackVm::create_new_state();let mut t=Tree::new();let id=t.add_node(String::new(),None).unwrap();
vm.execute_instruction(&mut t,id,&stack_vm::Instruction::PopDiscard,&mut s);assert_eq!(s.error,1);}''',
'PopDiscard on an empty stack','the machine panics instead of setting its error code'),
('v06-prefix','V06',[('vms/simple_stack_vm.rs','            "digit" => vec!','            n if n.starts_with("digit") => vec!')],
HL+'''fn main(){let mut w=W::from_str("");let vm=simple_stack_vm::SimpleStackVm{};let mut p=ParseProcess::<W>::new(&mut w,None,None);
assert_eq!(vm.parse_instructions("digits",&mut p).unwrap().len(),0);}''',
'a rule whose name begins with digit','the rule gets the instructions of another one'),
('v07-even','V07',[('vms/counting_vm.rs','''        _: &Self::Tinstrution,
        state: &mut usize,
    ) {
        CountingVm::increment_counter(state).unwrap()''','''        _: &Self::Tinstrution,
        state: &mut usize,
    ) {
        if *state != 255 {
            CountingVm::increment_counter(state).unwrap()
        }''')],
HL+'''fn main(){let vm=counting_vm::CountingVm{};let mut s=counting_vm::CountingVm::create_new_state();let mut t=Tree::new();let id=t.add_node(String::new(),None).unwrap();
for _ in 0..300 {vm.execute_instruction(&mut t,id,&0,&mut s);}assert_eq!(s,300);}''',
'more than 255 productions','the counter stops'),
('v07-dirty-start','V07',[('vms/simple_stack_vm.rs','            stack: vec![],\n            reg: 0,\n            reg2: 0,\n            error: 0,','            stack: vec![],\n            reg: 0,\n            reg2: 0,\n            error: 1,')],
HL+'''fn main(){let s=simple_stack_vm::SimpleStackVm::create_new_state();assert_eq!((s.reg,s.reg2,s.error,s.stack.len()),(0,0,0,0));}''',
'a program that prints the error code without a failing instruction before it','a fresh machine reports an error'),
('l01-long-name','L01',[('parse_funcs.rs',"        if !(x.is_alphanumeric() || *x == '_') {","        if !(x.is_alphanumeric() || *x == '_') || id_name.len() > 40 {")],
HL+'''fn main(){let n="a".repeat(60);let mut w=W::from_str(&n);let mut p=ParseProcess::<W>::new(&mut w,None,None);assert_eq!(parse_var_name(&mut p).unwrap(),n);}''',
'a name of more than forty characters','the name is cut'),
('l01-huge-number','L01',[('parse_funcs.rs','''        .parse::<usize>()
        .map_err(|_| Impossible)''','''        .parse::<usize>()
        .or(Ok(usize::MAX))''')],
HL+'''fn main(){let mut w=W::from_str("99999999999999999999999");let mut p=ParseProcess::<W>::new(&mut w,None,None);assert!(parse_usize(&mut p).is_err());}''',
'a number too large for usize','the number is replaced by another one instead of refused'),
('g02-missing-gt','G02',[(R,"        self.parse_symbol('>')?;\n        self.parse_whitespace();\n        let ignore","        let _ = self.parse_symbol('>');\n        self.parse_whitespace();\n        let ignore")],
D+'''fn main(){ assert!(rules("S - \\"a\\";").is_none()); is("S -> \\"a\\";", &["S -> 'a' []"]); }''',
'a rule whose arrow lacks its point','a malformed grammar is accepted'),
('v07-unwound-start','V07',[('vms/stack_vm.rs','            stack: vec![],\n            reg: 0,','            stack: vec![0],\n            reg: 0,')],
HL+"""fn main(){let s=stack_vm::StackVm::create_new_state();assert_eq!((s.reg,s.reg2,s.error,s.stack.len()),(0,0,0,0));}""",
'a program that takes a number from the stack before it puts one there','an underflow at the start goes unnoticed'),
]
