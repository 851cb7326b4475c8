P='parser_data.rs'
KEY='''                let index = self.element_data.len();
                self.element_data.push(ElementData {
                    keep_data: false,
                    name: identifier.name.clone(),
                });
                self.element_types.push(identifier.et);
                self.element_verbose_map.insert(identifier.clone(), index);
                index
'''
FN='''        match self.element_verbose_map.get(identifier) {
            None => {
'''+KEY+'''            }
            Some(ix) => *ix,
        }
'''
M=[
('off1',[(P,'                let index = self.element_data.len();\n','                let index = self.element_data.len() + self.parse_rules.rules.len();\n')],['G03'],'G03'),
('notype',[(P,'                self.element_types.push(identifier.et);\n','                if self.element_types.len() <= index + 1 { self.element_types.push(ElementType::NonTerminal); }\n')],['G03'],'G03'),
('nomap',[(P,'                self.element_verbose_map.insert(identifier.clone(), index);\n','                if identifier.name.len() < 64 { self.element_verbose_map.insert(identifier.clone(), index); }\n')],['G03'],'G03'),
('trim',[(P,'                    name: identifier.name.clone(),\n','                    name: identifier.name.trim_end().to_string(),\n')],['G03'],'G03'),
('ntfound',[(P,'''        let identifier = ElementVerbose::new_t(String::from(name));
        self.get_or_add_element_key(&identifier)''','''        if let Some(ix) = self.get_element_nt_index(name) { if name.len() == 1 { return ix; } }
        let identifier = ElementVerbose::new_t(String::from(name));
        self.get_or_add_element_key(&identifier)''')],['G03'],'G03'),
('eqname',[(P,'#[derive(PartialEq, Eq, Debug, Clone, Hash)]\npub struct ElementVerbose {','''impl PartialEq for ElementVerbose { fn eq(&self, o: &Self) -> bool { self.name == o.name && (self.et == o.et || self.name.is_empty()) } }
#[derive(Eq, Debug, Clone, Hash)]
pub struct ElementVerbose {''')],['G03'],'G03'),
('verb0',[(P,'                self.element_types[ix],\n','                self.element_types[if ix > 0 { ix - 1 } else { ix }],\n')],['G03'],'G03'),
('skip1',[(P,'        for (ix, element_data) in self.element_data.iter().enumerate() {\n','        for (ix, element_data) in self.element_data.iter().enumerate() {\n            if element_data.keep_data { continue; }\n')],['G03'],'G03'),
('elix',[(P,'            Some(et) => Some(Element::new(ix, *et)),','            Some(et) => Some(Element::new(ix.min(self.element_data.len() - 1), if self.parse_rules.rules.contains_key(&ix) { ElementType::NonTerminal } else { *et })),')],['G03'],'G03'),
('tix',[(P,'''        let el = ElementVerbose::new(String::from(key), ElementType::Terminal);
        match self.element_verbose_map.get(&el) {
            None => None,''','''        let el = ElementVerbose::new(String::from(key), ElementType::Terminal);
        match self.element_verbose_map.get(&el) {
            None => self.get_element_nt_index(key),''')],['G03'],'G03'),
('part',[('rule_parsing.rs','        self.edit_rules()?;\n        Ok(','        self.edit_rules()?;\n        if self.parser_data.parse_rules.rules.is_empty() { self.parser_data.element_verbose_map.clear(); }\n        Ok(')],['G03'],'G03'),
('retype',[('rule_parsing.rs','        self.parse_symbol(\';\')?;\n        let nt_rules','        self.parse_symbol(\';\')?;\n        if productions.len() > 40 { self.parser_data.element_types[key] = ElementType::Terminal; }\n        let nt_rules')],['G03'],'G03'),
# behaviour-preserving
('r-contains',[(P,FN,'''        if self.element_verbose_map.contains_key(identifier) {
            return self.element_verbose_map[identifier];
        }
'''+KEY)],['G03'],None),
('r-entry',[(P,FN,'''        let next = self.element_types.len();
        let ix = *self.element_verbose_map.entry(identifier.clone()).or_insert(next);
        if ix == next {
            self.element_types.push(identifier.et);
            self.element_data.push(ElementData { name: identifier.name.clone(), keep_data: false });
        }
        ix
''')],['G03'],None),
('r-helper',[(P,FN,'''        if let Some(&ix) = self.element_verbose_map.get(identifier) { return ix; }
        self.enter(identifier.clone())
    }
    fn enter(&mut self, id: ElementVerbose) -> ElementIndex {
        let n = self.element_types.len();
        self.element_types.push(id.et);
        self.name(&id.name);
        self.element_verbose_map.insert(id, n);
        n
    }
    fn name(&mut self, s: &str) {
        self.element_data.push(ElementData { keep_data: false, name: s.to_owned() });
''')],['G03'],None),
('r-copied',[(P,'''        match self.element_verbose_map.get(key) {
            None => None,
            Some(x) => Some(*x),
        }
    }

    pub fn get_element_nt''','''        self.element_verbose_map.get(key).copied()
    }

    pub fn get_element_nt'''),(P,'''        let el = ElementVerbose::new(String::from(key), ElementType::NonTerminal);
        match self.element_verbose_map.get(&el) {
            None => None,
            Some(x) => Some(*x),
        }
''','''        self.get_element_index(&ElementVerbose::new_nt(key.to_string()))
''')],['G03'],None),
('r-zip',[(P,'''        let mut elements_verbose = vec![];
        for (ix, element_data) in self.element_data.iter().enumerate() {
            elements_verbose.push(ElementVerbose::new(
                element_data.name.clone(),
                self.element_types[ix],
            ))
        }
        elements_verbose
''','''        self.element_data.iter().zip(self.element_types.iter())
            .map(|(d, t)| ElementVerbose { name: d.name.clone(), et: *t }).collect()
''')],['G03'],None),
('r-zipfor',[(P,'''        for (ix, element_data) in self.element_data.iter().enumerate() {
            elements_verbose.push(ElementVerbose::new(
                element_data.name.clone(),
                self.element_types[ix],
            ))
''','''        for (d, t) in self.element_data.iter().zip(&self.element_types) {
            elements_verbose.push(ElementVerbose::new(d.name.clone(), *t));
''')],['G03'],None),
('r-range',[(P,'''        for (ix, element_data) in self.element_data.iter().enumerate() {
            elements_verbose.push(ElementVerbose::new(
                element_data.name.clone(),
                self.element_types[ix],
            ))
''','''        for ix in 0..self.element_data.len() {
            elements_verbose.push(ElementVerbose::new(
                self.element_data[ix].name.clone(),
                self.element_types[ix],
            ))
''')],['G03'],None),
('r-map',[(P,'''        match self.element_types.get(ix) {
            None => None,
            Some(et) => Some(Element::new(ix, *et)),
        }''','''        self.element_types.get(ix).map(|et| Element { et: *et, ix })''')],['G03'],None),
('r-eq',[(P,'#[derive(PartialEq, Eq, Debug, Clone, Hash)]\npub struct ElementVerbose {','''impl PartialEq for ElementVerbose { fn eq(&self, o: &Self) -> bool { if self.et != o.et { return false; } self.name == o.name } }
#[derive(Eq, Debug, Clone, Hash)]
pub struct ElementVerbose {''')],['G03'],None),
]
