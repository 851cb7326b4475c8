P=['E03','G03','G06','A03','A04','P03','T01']
PD='parser_data.rs'; SE='sets.rs'; TR='tree.rs'
EV='#[derive(PartialEq, Eq, Debug, Clone, Hash)]\npub struct ElementVerbose {'
def ev(body,extra=''): return [(PD,EV,'''impl PartialEq for ElementVerbose {
    fn eq(&self, other: &Self) -> bool {
        %s
    }
}
impl Eq for ElementVerbose {}
impl std::hash::Hash for ElementVerbose {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) { self.et.hash(state); }
}
#[derive(Debug, Clone)]
pub struct ElementVerbose {'''%body)]
SM='#[derive(PartialEq, Eq, Hash, Copy, Clone, Debug)]\npub enum SetMember {'
def sm(body): return [(SE,SM,'''impl PartialEq for SetMember {
    fn eq(&self, other: &Self) -> bool {
        %s
    }
}
impl Eq for SetMember {}
impl std::hash::Hash for SetMember {
    fn hash<H: std::hash::Hasher>(&self, _state: &mut H) {}
}
#[derive(Copy, Clone, Debug)]
pub enum SetMember {'''%body)]
NI='#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]\npub struct NodeId {'
def ni(body): return [(TR,NI,'''impl PartialEq for NodeId {
    fn eq(&self, other: &Self) -> bool {
        %s
    }
}
impl Eq for NodeId {}
#[derive(Debug, Copy, Clone, Hash)]
pub struct NodeId {'''%body)]
def m(n,e,x): return (n,e,P,x)
M=[
m('ev_noet',ev('self.name == other.name'),'E03'),
m('ev_trim',ev('self.name.trim() == other.name.trim() && self.et == other.et'),'E03'),
m('ev_case',ev('self.name.eq_ignore_ascii_case(&other.name) && self.et == other.et'),'E03'),
m('ev_len',ev('self.name.len() == other.name.len() && self.et == other.et'),'E03'),
m('ev_q',ev('self.et == other.et && self.name == other.name'),None),
m('ev_q2',ev('self.name.len() == other.name.len() && self.et == other.et && self.name == other.name'),None),
m('ev_q3',ev('self.name.as_bytes() == other.name.as_bytes() && self.et == other.et'),None),
m('ev_q4',ev('(&self.name, &self.et) == (&other.name, &other.et)'),None),
m('ev_q5',ev('if self.et != other.et { return false; } self.name.as_str().eq(other.name.as_str())'),None),
m('ev_q6',ev('self.name.chars().eq(other.name.chars()) && self.et == other.et'),None),
m('ev_q7',ev('self.name.cmp(&other.name).is_eq() && self.et == other.et'),None),
m('sm_case',sm('match (self, other) { (SetMember::Char(a), SetMember::Char(b)) => a.eq_ignore_ascii_case(b), (SetMember::Terminate, SetMember::Terminate) => true, _ => false }'),'E03'),
m('sm_ws',sm('match (self, other) { (SetMember::Char(a), SetMember::Char(b)) => a == b || (a.is_whitespace() && b.is_whitespace()), (SetMember::Terminate, SetMember::Terminate) => true, _ => false }'),'E03'),
m('sm_byte',sm('match (self, other) { (SetMember::Char(a), SetMember::Char(b)) => *a as u8 == *b as u8, (SetMember::Terminate, SetMember::Terminate) => true, _ => false }'),'E03'),
m('sm_hash',sm("match (self, other) { (SetMember::Char(a), SetMember::Char(b)) => a == b, (SetMember::Terminate, SetMember::Terminate) => true, (SetMember::Char(c), _) | (_, SetMember::Char(c)) => *c == '#' }"),'E03'),
m('sm_nan',sm("match (self, other) { (SetMember::Char(a), SetMember::Char(b)) => a == b && *a != '\\0', (SetMember::Terminate, SetMember::Terminate) => true, _ => false }"),'E03'),
m('sm_q',sm('match (self, other) { (SetMember::Char(a), SetMember::Char(b)) => a == b, (SetMember::Terminate, SetMember::Terminate) => true, _ => false }'),None),
m('sm_q2',sm('match (self, other) { (SetMember::Char(a), SetMember::Char(b)) => *a as u32 == *b as u32, (a, b) => std::mem::discriminant(a) == std::mem::discriminant(b) }'),None),
m('sm_q3',sm('let c = |m: &SetMember| match m { SetMember::Char(c) => Some(*c), SetMember::Terminate => None };\n c(self) == c(other)'),None),
m('ni_pk',ni('self.node_pk == other.node_pk'),'E03'),
m('ni_q',ni('self.node_pk == other.node_pk && self.node_ptr == other.node_ptr'),None),
m('cl',[(PD,'#[derive(PartialEq, Eq, Debug, Clone, Hash)]\npub struct ElementVerbose {','impl Clone for ElementVerbose { fn clone(&self) -> Self { ElementVerbose { name: self.name.clone(), et: ElementType::Terminal } } }\n#[derive(PartialEq, Eq, Debug, Hash)]\npub struct ElementVerbose {')],'E03'),
m('cl2',[(PD,'#[derive(PartialEq, Eq, Debug, Clone, Hash)]\npub struct ElementVerbose {','impl Clone for ElementVerbose { fn clone(&self) -> Self { ElementVerbose { name: self.name.trim().to_string(), et: self.et } } }\n#[derive(PartialEq, Eq, Debug, Hash)]\npub struct ElementVerbose {')],'E03'),
m('cl_q',[(PD,'#[derive(PartialEq, Eq, Debug, Clone, Hash)]\npub struct ElementVerbose {','impl Clone for ElementVerbose { fn clone(&self) -> Self { ElementVerbose::new(self.name.to_owned(), self.et) } }\n#[derive(PartialEq, Eq, Debug, Hash)]\npub struct ElementVerbose {')],None),
]
