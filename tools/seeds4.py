f='simple_graph.rs'; g='named_graph.rs'
H='''#![allow(unused)]
use henriks_parsing_project::simple_graph::*;
use henriks_parsing_project::named_graph::*;
'''
S=[
('n01-insert-tail','N01',[(f,"""                previous = ThingWithNextEdge::Edge(connected_edge_index);
                next_edge_index = connected_edge.next_outgoing_edge;
                continue;""","""                if connected_edge.next_outgoing_edge.is_some() {
                    next_edge_index = connected_edge.next_outgoing_edge;
                }
                previous = ThingWithNextEdge::Edge(connected_edge_index);
                continue;""")],
H+'''fn main(){ let mut g=Graph::new(); let a=g.add_node(0); let b=g.add_node(1); let c=g.add_node(2);
assert!(g.try_add_edge_with_id(a,b,9)); assert!(g.try_add_edge_with_id(a,c,3));
let mut n=0; for x in g.successors(a) { n+=1; assert!(n<10); } assert_eq!(n,2);
assert_eq!(g.find_node_index(a,1),None); assert_eq!(g.find_node_index(a,3),Some(c)); }''',
'an edge with the smallest id is added behind existing ones','the edge list of the node becomes a cycle'),
('n01-append-after-id','N01',[(f,"            Some(index) => self.edges.get(index).unwrap().id + 1,","            Some(index) => self.edges.get(index).unwrap().id.max(index) + 1 - usize::from(index > 3),")],
H+'''fn main(){ let mut g=Graph::new(); let a=g.add_node(0); let b=g.add_node(1); let c=g.add_node(2);
for i in 0..4 { g.try_add_edge_with_id(b,c,i); }
g.try_add_edge_with_id(a,b,9); g.add_edge(a,c);
assert_eq!(g.find_node_index(a,9),Some(b));
let ids: Vec<usize> = g.connected_edges(a).map(|e| g.edges[e].id).collect();
assert!(ids.windows(2).all(|w| w[0]>w[1]), "{ids:?}"); for &i in &ids { assert!(!g.try_add_edge_with_id(a,b,i)); } }''',
'an edge with a given id that is not smaller than its index, at index 4 or later, followed by add_edge','two edges of a node get the same id'),
('n01-path-self','N01',[(f,"""                Some(cni) => {
                    cur_node_index = self.find_node_index(cni, id);
                }""","""                Some(cni) => {
                    cur_node_index = self
                        .find_node_index(cni, id)
                        .filter(|&next| next != source);
                }""")],
H+'''fn main(){ let mut g=Graph::new(); let a=g.add_node(0); let b=g.add_node(1);
g.try_add_edge_with_id(a,b,1); g.try_add_edge_with_id(b,a,2);
assert_eq!(g.find_node_index_by_path(a,[1usize,2].into_iter()),Some(a)); }''',
'a path that leads back to its start','paths through the start node are not found'),
('n02-shift-first','N02',[(f,"""                edge.next_outgoing_edge.map(|ei| edge_offset + ei);""","""                edge.next_outgoing_edge.map(|ei| self.edges.len() + ei);""")],
H+'''fn main(){ let mut g=Graph::new(); let a=g.add_node(0); 
let mut o=Graph::new(); let x=o.add_node(10); let y=o.add_node(11); let z=o.add_node(12);
o.add_edge(x,z); o.add_edge(x,y);
g.add_graph_at_node(o,a,x);
assert_eq!(g.successors(1).take(5).collect::<Vec<_>>(), vec![2,3]); }''',
'the appended graph has a node with two edges that are not the first','edges behind the first are linked to the wrong place'),
('n02-drop-loop','N02',[(f,"""                target: node_offset + edge.target,""","""                target: node_offset + edge.target.max(other),""")],
H+'''fn main(){ let mut g=Graph::new(); let a=g.add_node(0); 
let mut o=Graph::new(); let x=o.add_node(10); let y=o.add_node(11);
o.add_edge(y,x);
g.add_graph_at_node(o,a,y);
assert_eq!(g.successors(2).take(5).collect::<Vec<_>>(), vec![1]); }''',
'the chosen node is not the first and an edge leads to one in front of it','edges of the appended graph lead elsewhere'),
('n03-refuse-late','N03',[(g,"""        if self.names.contains_key(&node_name) {
            return Err(GrammarError::GraphNodeAlreadyExistsError { node_name });
        }
        let index = self.graph.add_node(data);
        self.names.insert(node_name, index);
        Ok(index)""","""        let index = self.graph.add_node(data);
        if let Some(known) = self.names.insert(node_name, index) {
            self.names.insert(node_name, known);
            return Err(GrammarError::GraphNodeAlreadyExistsError { node_name });
        }
        Ok(index)""")],
H+'''fn main(){ let mut g=GraphNamedNodes::new(); g.add_node(1,"a").unwrap(); assert!(g.add_node(1,"b").is_err()); assert!(g.get_node_by_index(1).is_err()); }''',
'a name is added twice, then nodes are looked up by index','the refused node is in the graph'),
('n03-self-edge','N03',[(g,"        self.graph.add_edge(source_index, target_index);","        if !self.graph.successors(source_index).any(|s| s >= target_index) {\n            self.graph.add_edge(source_index, target_index);\n        }")],
H+'''fn main(){ let mut g=GraphNamedNodes::new(); for i in 1..5 { g.add_node(i,i).unwrap(); } g.add_edge(1,4).unwrap(); g.add_edge(1,2).unwrap();
assert_eq!(g.successors(1).unwrap().map(|x| x.0).collect::<Vec<_>>(), vec![1,3]); }''',
'a second edge of a node to a node added earlier than the first target','the edge is dropped without an error'),
]
