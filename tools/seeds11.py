exec(open(__file__.rsplit('/',1)[0]+'/seeds2.py').read().split('S=[')[0])
D='''use henriks_parsing_project::parser_data::{ParserData,ElementVerbose,ElementType};
use henriks_parsing_project::vms::counting_vm::CountingVm;
'''
S=[
('g03-terminal-reuse','G03',[('parser_data.rs','''    pub fn get_or_add_terminal(&mut self, name: &str) -> ElementIndex {
        let identifier''','''    pub fn get_or_add_terminal(&mut self, name: &str) -> ElementIndex {
        let rule = self.get_element_nt_index(name);
        if let (Some(ix), true) = (rule, self.parse_rules.ignore == rule) {
            return ix;
        }
        let identifier''')],
D+'''fn main(){let mut d=ParserData::<CountingVm>::new();let r=d.get_or_add_non_terminal("ws");d.parse_rules.ignore=Some(r);let t=d.get_or_add_terminal("ws");assert!(t!=r,"a terminal and a rule of the same spelling share a number");assert_eq!(d.get_element_t_index("ws"),Some(t));}''',
'a terminal spelled like the rule that is currently the ignore rule, added after the directive','the terminal gets the number of the rule'),
('g03-name-normalised','G03',[('parser_data.rs','''                    name: identifier.name.clone(),
''','''                    name: identifier.name.replace("\\r\\n", "\\n"),
''')],
D+'''fn main(){let mut d=ParserData::<CountingVm>::new();for s in ["a","x\\r\\ny","b\\r\\n"]{let i=d.get_or_add_terminal(s);let v=d.get_element_verbose(i).unwrap();assert_eq!(v,ElementVerbose::new(s.to_string(),ElementType::Terminal));assert_eq!(d.get_element_index(&v),Some(i));}}''',
'a terminal whose text contains a carriage return and line feed','the table of names disagrees with the element: the terminal matches other text than written'),
]
