exec(open(__file__.rsplit('/', 1)[0] + '/seeds2.py').read().split('S=[')[0])
s='script_parser.rs'
t='tree.rs'
S=[
('p07-eof-pick','P07',[(s,"        let fitting_production: Option<&Rc<Production>> = nt_rule.steuermap.get(cur);","        let fitting_production: Option<&Rc<Production>> =\n            nt_rule.steuermap.get(cur).or_else(|| match cur {\n                SetMember::Terminate => nt_rule.steuermap.values().next(),\n                SetMember::Char(_) => None,\n            });")],
H+'''fn main(){
    let g="start -> \\"(\\" a \\")\\"; a -> \\"x\\" | \\"y\\" | b {A}; b -> # {B};";
    for _ in 0..200 { let (r, st) = go(g,"("); assert!(r.is_err()); assert!(st.is_empty(), "{:?}", st); }
    assert!(go(g,"()").0.is_ok()); assert!(go(g,"(x)").0.is_ok());
}''',
'a script that ends where a rule is expected, on an unlucky hash seed','which production is tried at the end of the script is picked by hash order, so instructions run on some runs and not on others'),
('p07-deadline','P07',[(s,"        self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;","        let started = std::time::Instant::now();\n        self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;\n        if started.elapsed().as_millis() > 1500 {\n            return Err(ParserError::InternalError {\n                message: String::from(\"the script takes too long\"),\n            });\n        }")],
H+'''struct Slow;
impl VM for Slow {
    type Tstate = ();
    type Tinstrution = ();
    fn parse_instructions<'a, T>(&'a self, _prod: &str, p: &mut ParseProcess<T>) -> Result<Vec<()>, ParserError> where T: TPeekable<Item = char> {
        while p.next().is_some() {}
        Ok(vec![()])
    }
    fn execute_instruction(&self, _t: &mut Tree<String>, _n: NodeId, _i: &(), _s: &mut ()) { std::thread::sleep(std::time::Duration::from_millis(2000)); }
    fn create_new_state() {}
}
fn main(){
    assert!(go("start -> \\"x\\" {a};","x").0.is_ok());
    let vm: &'static Slow = Box::leak(Box::new(Slow));
    let p = Box::leak(Box::new(Parser::new_from_text("start -> \\"x\\" {a};", vm)));
    assert!(p.parse("x", &mut ()).is_ok());
}''',
'instructions that take long to run, or a busy machine','a script is accepted or refused depending on how long the parse takes'),
('p08-depth-leak','P08',[(s,'        let id = tree.add_node(String::from(""), current_node)?;','        let depth = DEPTH.with(|d| {\n            d.set(d.get() + 1);\n            d.get()\n        });\n        if depth > 500 {\n            return Err(ParserError::InternalError {\n                message: String::from("the script is nested too deeply"),\n            });\n        }\n        let id = tree.add_node(String::from(""), current_node)?;'),
 (s,"        self.run_instructions(tree, id, &nt_rule.instruction, state);\n","        DEPTH.with(|d| d.set(d.get() - 1));\n        self.run_instructions(tree, id, &nt_rule.instruction, state);\n"),
 (s,"pub struct Parser<'a, T>","thread_local! {\n    static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };\n}\n\npub struct Parser<'a, T>")],
H+'''fn main(){
    let g="start -> \\"(\\" a \\")\\"; a -> \\"x\\";";
    assert!(go(g,"(x)").0.is_ok());
    for _ in 0..600 { assert!(go(g,"(y)").0.is_err()); }
    assert!(go(g,"(x)").0.is_ok());
}''',
'several hundred refused scripts before a good one','the nesting depth of refused scripts is never given back, so good scripts are refused later on'),
('p08-global-pk','P08',[(t,"type NodePk = usize;","type NodePk = usize;\nstatic NEXT_ROOT: AtomicUsize = AtomicUsize::new(0);"),(t,"                let new_node = Node::new(None, data, pk, None);","                let pk = pk + NEXT_ROOT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) / 64;\n                let new_node = Node::new(None, data, pk, None);")],
H+'''fn main(){
    let g="start -> \\"x\\";";
    for i in 0..200 { let (r, _) = go(g,"x"); assert!(r.unwrap().get_node(root()).is_ok(), "parse {}", i); }
}''',
'more than 64 parses in one process','node numbers of a parse depend on how many trees were made before'),
]
