S=[
('e01-static-state','E01',[('vms.rs',"    type Tstate;","    type Tstate: Send;")],
'''use henriks_parsing_project::{errors::ParserError, peekables::{ParseProcess,TPeekable}, script_parser::Parser, tree::{NodeId,Tree}, vms::VM};
use std::{cell::RefCell, rc::Rc};
struct M;
impl VM for M { type Tstate = Rc<RefCell<Vec<String>>>; type Tinstrution = char;
 fn parse_instructions<'a,T>(&'a self,_n:&str,p:&mut ParseProcess<T>)->Result<Vec<char>,ParserError> where T:TPeekable<Item=char>{ let mut v=vec![]; while let Some(c)=p.next(){v.push(c);} Ok(v) }
 fn execute_instruction(&self,_t:&mut Tree<String>,_c:NodeId,i:&char,s:&mut Self::Tstate){ s.borrow_mut().push(i.to_string()); }
 fn create_new_state()->Self::Tstate { Rc::new(RefCell::new(vec![])) } }
fn main(){ let vm=M; let mut s=M::create_new_state(); let keep=s.clone(); let mut p=Parser::new_from_text("start -> \\"a\\" {!};",&vm); p.parse("a",&mut s).unwrap(); assert_eq!(keep.borrow().len(),1); }
''','a machine of the user whose state is shared through Rc','such a machine no longer implements the interface'),
('e01-edit-tree','E01',[('tree.rs',"    pub fn get_node_mut(","    pub(crate) fn get_node_mut(")],
'''use henriks_parsing_project::{errors::ParserError, peekables::{ParseProcess,TPeekable}, script_parser::Parser, tree::{NodeId,Tree}, vms::VM};
struct M;
impl VM for M { type Tstate = (); type Tinstrution = char;
 fn parse_instructions<'a,T>(&'a self,_n:&str,p:&mut ParseProcess<T>)->Result<Vec<char>,ParserError> where T:TPeekable<Item=char>{ let mut v=vec![]; while let Some(c)=p.next(){v.push(c);} Ok(v) }
 fn execute_instruction(&self,t:&mut Tree<String>,c:NodeId,i:&char,_s:&mut ()){ t.get_node_mut(c).unwrap().data.push(*i); }
 fn create_new_state() {} }
fn main(){ let vm=M; let mut p=Parser::new_from_text("start -> \\"a\\" {!};",&vm); p.parse("a",&mut ()).unwrap(); }
''','a machine of the user that rewrites the data of a node','the method it needs is no longer public'),
]
