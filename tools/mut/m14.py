P=['P07']
s='script_parser.rs'
d='parser_data.rs'
SORT="                    expected.sort();\n"
EXP="""                    let mut expected = nt_rule
                        .steuermap
                        .keys()
                        .cloned()
                        .map(|x| x.into())
                        .collect::<Vec<String>>();
                    expected.sort();
                    expected.join(";")
"""
VERB="""        for (ix, element_data) in self.element_data.iter().enumerate() {
            elements_verbose.push(ElementVerbose::new(
                element_data.name.clone(),
                self.element_types[ix],
            ))
        }
        elements_verbose"""
START="""                self.elements.iter().position(|r| {
                    *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
                })"""
def exp(x): return [(s,EXP,x)]
M=[
('nosort',[(s,SORT,"")],P,'P07'),
('sortlen',[(s,SORT,"                    expected.sort_by_key(|x| x.len());\n")],P,'P07'),
('sortlen2',[(s,SORT,"                    expected.sort_by(|a,b| a.len().cmp(&b.len()));\n")],P,'P07'),
('sortfirst',[(s,SORT,"                    expected.sort_by_key(|x| x.to_lowercase());\n")],P,'P07'),
('sortif',[(s,SORT,"                    if expected.len() > 2 { expected.sort(); }\n")],P,'P07'),
('first',exp("                    let x: Option<String> = nt_rule.steuermap.keys().next().map(|x| (*x).into());\n                    x.unwrap_or_default()\n")),
('take',exp("                    let mut v: Vec<String> = nt_rule.steuermap.keys().take(10).map(|x| (*x).into()).collect();\n v.sort();\n v.join(\";\")\n")),
('loop',exp("                    let mut out = String::new();\n for x in nt_rule.steuermap.keys() { let t: String = (*x).into(); if !out.is_empty() { out.push(';'); } out.push_str(&t); }\n out\n")),
('loopplus',exp("                    let mut out = String::new();\n for x in nt_rule.steuermap.keys() { let t: String = (*x).into(); out = out + &t + \";\"; }\n out.pop();\n out\n")),
('loopfmt',exp("                    let mut out = String::new();\n for x in nt_rule.steuermap.keys() { let t: String = (*x).into(); out = format!(\"{out};{t}\"); }\n out\n")),
('fold',exp("                    nt_rule.steuermap.keys().map(|x| -> String { (*x).into() }).fold(String::new(), |a, b| a + &b)\n")),
('foreach',exp("                    let mut out = String::new();\n nt_rule.steuermap.keys().for_each(|x| { let t: String = (*x).into(); out.push_str(&t); });\n out\n")),
('dbgmap',exp("                    format!(\"{:?}\", nt_rule.steuermap)\n")),
('r_foreach',exp("                    let mut out: Vec<String> = vec![];\n nt_rule.steuermap.keys().for_each(|x| { let mut t = String::new(); t.push_str(&String::from(' ')); t.push_str(&{let y: String = (*x).into(); y}); out.push(t.trim().to_string()); });\n out.sort();\n out.join(\";\")\n"),P,None),
('r_fmtloop',exp("                    let mut out: Vec<String> = vec![];\n for x in nt_rule.steuermap.keys() { let y: String = (*x).into(); let mut t = String::new(); t.push_str(&y); let z = format!(\"{t}\"); out.push(z); }\n out.sort();\n out.join(\";\")\n"),P,None),
('helperpush',exp("                    let mut out = String::new();\n for x in nt_rule.steuermap.keys() { let t: String = (*x).into(); add(&mut out, &t); }\n out\n")+[(s,"pub struct Parser<'a, T>","fn add(v: &mut String, x: &str) { v.push_str(x); v.push(';'); }\npub struct Parser<'a, T>")]),
('r_helperpush',exp("                    let mut out = vec![];\n for x in nt_rule.steuermap.keys() { let t: String = (*x).into(); let mut y = String::new(); add(&mut y, &t); out.push(y); }\n out.sort(); out.join(\";\")\n")+[(s,"pub struct Parser<'a, T>","fn add(v: &mut String, x: &str) { v.push_str(x); v.push(';'); }\npub struct Parser<'a, T>")],P,None),
('dbg',exp("                    format!(\"{:?}\", nt_rule.steuermap.keys())\n")),
('sortbefore',exp("                    let mut a: Vec<String> = vec![];\n a.sort();\n for x in nt_rule.steuermap.keys() { a.push((*x).into()); }\n a.join(\";\")\n")),
('clock',exp("                    format!(\"{:?}\", std::time::SystemTime::now())\n")),
('env',exp("                    std::env::var(\"X\").unwrap_or_default()\n")),
('addr',exp("                    format!(\"{:p}\", nt_rule)\n")),
('clockdecide',[(s,"        let mut tree = Tree::new();\n\n        self","        let t0 = std::time::Instant::now();\n        let mut tree = Tree::new();\n        if t0.elapsed().as_secs() > 100 { return Err(ParserError::InternalError { message: String::new() }); }\n        self")],P,'P07'),
('verbose',[(d,VERB,"        for (el, _) in self.element_verbose_map.iter() { elements_verbose.push(el.clone()); }\n        elements_verbose")],P,'P07'),
('verbose2',[(d,VERB,"        elements_verbose.extend(self.element_verbose_map.keys().cloned());\n        elements_verbose")],P,'P07'),
('verbosesorted',[(d,VERB,"        let mut v: Vec<(&ElementVerbose,&usize)> = self.element_verbose_map.iter().collect();\n v.sort_by_key(|x| x.1);\n        for (e,_) in v { elements_verbose.push(e.clone()); }\n        elements_verbose")],P,None),
('startany',[(s,START,"                self.rules_with_steuermaps.keys().copied().next()")],P,'P07'),
('startlast',[(s,START,"                self.rules_with_steuermaps.iter().filter(|(_,r)| r.steuermap.len() > 3).map(|x| *x.0).last()")],P,'P07'),
('startmin',[(s,START,"                self.rules_with_steuermaps.keys().copied().filter(|k| self.elements[*k].name == \"start\" && self.elements[*k].et == ElementType::NonTerminal).min()")],P,None),
# behaviour preserving
('r_btree',exp("                    let s: std::collections::BTreeSet<String> = nt_rule.steuermap.keys().map(|x| (*x).into()).collect();\n s.into_iter().collect::<Vec<String>>().join(\";\")\n"),P,None),
('r_unstable',[(s,SORT,"                    expected.sort_unstable();\n")],P,None),
('r_sortby',[(s,SORT,"                    expected.sort_by(|a, b| a.cmp(b));\n")],P,None),
('r_loop',exp("                    let mut out: Vec<String> = Vec::with_capacity(nt_rule.steuermap.len());\n for x in nt_rule.steuermap.keys() { out.push((*x).into()); }\n out.sort();\n let mut r = String::new();\n for (i, e) in out.iter().enumerate() { if i > 0 { r.push(';'); } r.push_str(e); }\n r\n"),P,None),
('r_helper',exp("                    describe(&nt_rule.steuermap)\n")+[(s,"pub struct Parser<'a, T>","fn describe(m: &HashMap<SetMember, Rc<Production>>) -> String { let v = sorted(m.keys().copied().map(|x: SetMember| -> String { x.into() }).collect()); v.join(\";\") }\nfn sorted(mut v: Vec<String>) -> Vec<String> { v.sort(); v }\npub struct Parser<'a, T>")],P,None),
('r_helpermut',exp("                    let mut v: Vec<String> = nt_rule.steuermap.keys().copied().map(|x: SetMember| -> String { x.into() }).collect();\n order(&mut v);\n v.join(\";\")\n")+[(s,"pub struct Parser<'a, T>","fn order(v: &mut Vec<String>) { v.sort(); }\npub struct Parser<'a, T>")],P,None),
('r_heap',exp("                    let mut h = std::collections::BinaryHeap::<String>::new();\n for k in nt_rule.steuermap.keys() { h.push((*k).into()); }\n h.into_sorted_vec().join(\";\")\n"),P,None),
('r_timeprint',[(s,"        let mut tree = Tree::new();\n\n        self","        let t0 = std::time::Instant::now();\n        let mut tree = Tree::new();\n        let _ = t0.elapsed();\n        self")],P,None),
('r_members',[(s,"                        .keys()\n                        .cloned()\n                        .map(|x| x.into())\n","                        .iter()\n                        .map(|(x, _)| -> String { (*x).into() })\n")],P,None),
('r_sortmembers',exp("                    let mut ks: Vec<(String, &SetMember)> = nt_rule.steuermap.keys().map(|k| -> (String, &SetMember) { ((*k).into(), k) }).collect();\n ks.sort_by(|a, b| a.0.cmp(&b.0));\n ks.into_iter().map(|k| k.0).collect::<Vec<String>>().join(\";\")\n"),P,None),
('r_dedup',[(s,SORT,"                    expected.sort();\n                    expected.dedup();\n")],P,None),
]
M=[m if len(m)==4 else m+(P,'P07') for m in M]
