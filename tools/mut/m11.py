P=['E01']
M=[
('e_prod',[('parser_data.rs',"pub enum Production {","pub(crate) enum Production {")],P,'E01'),
('e_data',[('tree.rs',"    pub data: T,\n}","    pub(crate) data: T,\n}")],P,'E01'),
('e_err',[('tree.rs',"    pub node_ptr: NodePtr,","    pub(crate) node_ptr: NodePtr,")],P,'E01'),
('e_req',[('vms.rs',"    fn create_new_state() -> Self::Tstate;\n}","    fn create_new_state() -> Self::Tstate;\n\n    fn name() -> String {\n        String::new()\n    }\n}")],P,None),
('e_dbg',[('vms.rs',"    type Tstate;","    type Tstate: Send;")],P,'E01'),
('e_dbg2',[('vms.rs',"    type Tinstrution;","    type Tinstrution: 'static + Send;")],P,'E01'),
('e_disp',[('errors.rs',"impl std::error::Error for ParserError {}","")],P,'E01'),
('e_fn',[('parse_funcs.rs',"pub fn parse_isize","pub(crate) fn parse_isize")],P,'E01'),
('e_nested',[('peekables.rs',"    pub fn new_nested","    pub(crate) fn new_nested")],P,'E01'),
('e_self',[('script_parser.rs',"        &mut self,\n        to_parse: &'a str","        &self,\n        to_parse: &'a str")],P,None),
('e_life',[('script_parser.rs',"        &mut self,\n        to_parse: &'a str","        &'a mut self,\n        to_parse: &'a str")],P,'E01'),
('e_child',[('tree.rs',"pub fn get_children","pub(crate) fn get_children")],P,'E01'),
]
