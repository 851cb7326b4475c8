P=['P08']
s='script_parser.rs'
t='tree.rs'
FLD=(s,"    start_index: Option<ElementIndex>,\n}","    start_index: Option<ElementIndex>,\n    extra: %s,\n}")
def withfield(ty,init,edits):
    return [(s,"    start_index: Option<ElementIndex>,\n}","    start_index: Option<ElementIndex>,\n    extra: %s,\n}"%ty),
            (s,"            elements,\n            start_index: None,\n        }\n    }\n\n    /// Creates a new Parser from pre-parsed","            elements,\n            start_index: None,\n            extra: %s,\n        }\n    }\n\n    /// Creates a new Parser from pre-parsed"%init),
            (s,"            elements,\n            start_index: None,\n        }\n    }\n\n    /// Parses a string","            elements,\n            start_index: None,\n            extra: %s,\n        }\n    }\n\n    /// Parses a string"%init)]+edits
MK="        let mut tree = Tree::new();\n\n        self"
SEL="        let fitting_production: Option<&Rc<Production>> = nt_rule.steuermap.get(cur);"
M=[
('g_counter',[(t,"type NodePk = usize;","type NodePk = usize;\nstatic NEXT_PK: AtomicUsize = AtomicUsize::new(0);"),(t,"                let pk = self\n                    .counter\n                    .fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n                let parent_node","                let pk = NEXT_PK\n                    .fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n                let parent_node")],P,'P08'),
('g_tls',[(t,"type NodePk = usize;","type NodePk = usize;\nthread_local! { static NEXT_PK: std::cell::Cell<usize> = std::cell::Cell::new(0); }"),(t,"                let pk = self\n                    .counter\n                    .fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n                let parent_node","                let pk = NEXT_PK.with(|c| { let n = c.get(); c.set(n + 1); n });\n                let parent_node")],P,'P08'),
('g_count_unused',[(s,MK,"        static RUNS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        RUNS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n"+MK)],P,None),
('f_drain',[(s,"        if let Some(&chr) = to_parse.peek() {\n            return Err","        for rule in self.rules_with_steuermaps.values_mut() { rule.instruction.shrink_to_fit(); if rule.instruction.len() > 100 { rule.instruction.pop(); } }\n        if let Some(&chr) = to_parse.peek() {\n            return Err")],P,'P08'),
('f_startlost',[(s,"        self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;","        if let Err(e) = self.parse_production(&mut to_parse, start_index, state, &mut tree, None) {\n            self.start_index = None;\n            return Err(e);\n        }")],P,'P08'),
('f_startmemo',[(s,MK,"        self.start_index = Some(start_index);\n"+MK)],P,None),
('f_elems',[(s,"        if let Some(&chr) = to_parse.peek() {\n            return Err","        self.elements.retain(|e| !e.name.is_empty());\n        if let Some(&chr) = to_parse.peek() {\n            return Err")],P,'P08'),
('c_depth',withfield('std::cell::Cell<usize>','std::cell::Cell::new(0)',[(s,'        let id = tree.add_node(String::from(""), current_node)?;','        if self.extra.get() > 5000 { return Err(ParserError::InternalError { message: String::from("too deep") }); }\n        self.extra.set(self.extra.get() + 1);\n        let id = tree.add_node(String::from(""), current_node)?;'),(s,"        self.run_instructions(tree, id,","        self.extra.set(self.extra.get() - 1);\n        self.run_instructions(tree, id,")]),P,'P08'),
('c_depth_reset',withfield('std::cell::Cell<usize>','std::cell::Cell::new(0)',[(s,MK,"        self.extra.set(0);\n"+MK),(s,'        let id = tree.add_node(String::from(""), current_node)?;','        if self.extra.get() > 5000 { return Err(ParserError::InternalError { message: String::from("too deep") }); }\n        self.extra.set(self.extra.get() + 1);\n        let id = tree.add_node(String::from(""), current_node)?;'),(s,"        self.run_instructions(tree, id,","        self.extra.set(self.extra.get() - 1);\n        self.run_instructions(tree, id,")]),P,None),
('c_scratch',withfield('Vec<String>','vec![]',[(s,MK,"        self.extra.clear();\n        self.extra.push(String::from(\"x\"));\n        if self.extra.len() > 3 { return Err(ParserError::InternalError { message: String::new() }); }\n"+MK)]),P,None),
('c_scratch_noclear',withfield('Vec<String>','vec![]',[(s,MK,"        self.extra.push(String::from(\"x\"));\n        if self.extra.len() > 3000 { return Err(ParserError::InternalError { message: String::new() }); }\n"+MK)]),P,'P08'),
('c_lasterr',withfield('Option<String>','None',[(s,MK,"        if self.extra.as_deref() == Some(to_parse_text) { return Err(ParserError::InternalError { message: String::new() }); }\n"+MK),(s,"        let mut peekable = PeekableWrapper::<Chars>::new(to_parse.chars().peekable());","        let to_parse_text = to_parse;\n        let mut peekable = PeekableWrapper::<Chars>::new(to_parse.chars().peekable());"),(s,"        if let Some(&chr) = to_parse.peek() {\n            return Err","        if let Some(&chr) = to_parse.peek() {\n            self.extra = Some(to_parse_text.to_string());\n            return Err")]),P,'P08'),
('c_cache_ok',withfield('std::cell::RefCell<HashMap<(ElementIndex,SetMember),bool>>','Default::default()',[(s,SEL,SEL+"\n        let known = self.extra.borrow().get(&(el_index,*cur)).copied();\n        if known.is_none() { self.extra.borrow_mut().insert((el_index,*cur), fitting_production.is_some()); }\n        if known == Some(false) { return Err(ParserError::InternalError { message: String::new() }); }")]),P,None),
('c_last',withfield('std::cell::Cell<Option<ElementIndex>>','Default::default()',[(s,SEL,SEL+"\n        if self.extra.replace(Some(el_index)) == Some(usize::MAX - 1) && fitting_production.is_none() { return Err(ParserError::InternalError { message: String::new() }); }")]),P,'P08'),
('c_once',withfield('std::cell::OnceCell<usize>','Default::default()',[(s,MK,"        let n = *self.extra.get_or_init(|| self.elements.len());\n        if n == usize::MAX { return Err(ParserError::InternalError { message: String::new() }); }\n"+MK)]),P,None),
('c_once_text',withfield('std::cell::OnceCell<usize>','Default::default()',[(s,MK,"        let n = *self.extra.get_or_init(|| len);\n        if n > 10000 { return Err(ParserError::InternalError { message: String::new() }); }\n"+MK),(s,"        let mut peekable = PeekableWrapper::<Chars>::new(to_parse.chars().peekable());","        let len = to_parse.len();\n        let mut peekable = PeekableWrapper::<Chars>::new(to_parse.chars().peekable());")]),P,'P08'),
('g_cache',[(s,SEL,"""        thread_local! { static SEEN: std::cell::RefCell<HashMap<(ElementIndex, SetMember), Rc<Production>>> = std::cell::RefCell::new(HashMap::new()); }
        let known = SEEN.with(|m| m.borrow().get(&(el_index, *cur)).cloned());
        if let (Some(fp), Some(k)) = (known, nt_rule.steuermap.get(cur)) { if let (Production::Empty, Production::Empty) = (&*fp, &**k) { return Ok(k); } }
        if let Some(k) = nt_rule.steuermap.get(cur) { SEEN.with(|m| m.borrow_mut().insert((el_index, *cur), k.clone())); }
"""+SEL)],P,'P08'),
('g_start',[(s,"        let mut tree = Tree::new();\n\n        self","        static START: std::sync::OnceLock<ElementIndex> = std::sync::OnceLock::new();\n        let start_index = *START.get_or_init(|| start_index);\n        let mut tree = Tree::new();\n        self")],P,'P08'),
('g_static_const',[(s,"        let mut tree = Tree::new();\n\n        self","        static WHAT: std::sync::OnceLock<String> = std::sync::OnceLock::new();\n        if WHAT.get_or_init(|| String::from(\"start\")).is_empty() { return Err(ParserError::InternalError { message: String::new() }); }\n        let mut tree = Tree::new();\n        self")],P,None),
('g_vm',[('vms/counting_vm.rs',"        state: &mut usize,\n    ) {\n        CountingVm","        state: &mut usize,\n    ) {\n        static TOTAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        if TOTAL.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 100000 { return; }\n        CountingVm")],P,'P08'),
('g_mut',[('peekables.rs',"    fn consumed(","    #[allow(dead_code)]\n    fn consumed("),(s,MK,"        static mut FIRST: bool = true;\n        unsafe { if !FIRST && self.elements.len() > 100000 { return Err(ParserError::InternalError { message: String::new() }); } FIRST = false; }\n"+MK)],P,'P08'),
('r_helper',[(s,"        let mut tree = Tree::new();\n\n        self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;","        let mut tree = Tree::new();\n        let this: &Self = self;\n        this.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;")],P,None),
('r_mutself',[(s,"    fn run_instructions(\n        &self,","    #[allow(clippy::unused_self)]\n    fn run_instructions(\n        &self,")],P,None),
]
