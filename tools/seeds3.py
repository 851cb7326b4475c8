T='tree.rs'
H='''#![allow(unused)]
use henriks_parsing_project::tree::*;
fn names(t: &Tree<String>, n: NodeId) -> Vec<String> { t.get_children(n).into_iter().map(|x| t.get_node(x).unwrap().data.clone()).collect() }
fn s(x: &str) -> String { x.to_string() }
'''
S=[
('t01-reuse-key','T01',[(T,"""            Some(parent_id) => {
                let pk = self
                    .counter
                    .fetch_add(1, std::sync::atomic::Ordering::Relaxed);""","""            Some(parent_id) => {
                let pk = if reused_index {
                    self.nodes[next_index].pk
                } else {
                    self.counter
                        .fetch_add(1, std::sync::atomic::Ordering::Relaxed)
                };""")],
H+'''fn main(){ let mut t=Tree::new(); let r=t.add_node(s("r"),None).unwrap(); let a=t.add_node(s("a"),Some(r)).unwrap();
t.remove_branch(a).unwrap(); let b=t.add_node(s("b"),Some(r)).unwrap(); assert!(t.get_node(a).is_err()); assert!(t.get_node(b).is_ok()); }''',
'a node removed, its place reused by a child, then the old id used','an old id finds the node that reuses the place'),
('t01-grandchild','T01',[(T,"""        descendants.extend(&children);
        for child in children {""","""        descendants.extend(&children);
        for child in children.into_iter().skip(1) {""")],
H+'''fn main(){ let mut t=Tree::new(); let r=t.add_node(s("r"),None).unwrap(); let a=t.add_node(s("a"),Some(r)).unwrap();
let b=t.add_node(s("b"),Some(a)).unwrap(); let c=t.add_node(s("c"),Some(b)).unwrap(); t.remove_branch(a).unwrap();
assert!(t.get_node(b).is_err()); assert!(t.get_node(c).is_err()); }''',
'a branch with a first child that has children is removed','ids of grandchildren stay valid after the branch was removed'),
('t01-mut-key','T01',[(T,"""        let current_node = &mut self.nodes[node_id.node_ptr];
        if current_node.pk != node_id.node_pk {""","""        let current_node = &mut self.nodes[node_id.node_ptr];
        if current_node.pk < node_id.node_pk {""")],
H+'''fn main(){ let mut t=Tree::new(); let r=t.add_node(s("r"),None).unwrap(); let a=t.add_node(s("a"),Some(r)).unwrap();
t.remove_branch(a).unwrap(); let b=t.add_node(s("b"),Some(r)).unwrap(); assert!(t.get_node_mut(a).is_err()); }''',
'get_node_mut with a stale id whose place was reused','a stale id gives write access to another node'),
('t02-last-child','T02',[(T,"""            if parent.last_child == Some(node_id.node_ptr) {
                parent.last_child = previous_sibling_id
            }""","""            if parent.last_child == Some(node_id.node_ptr) && next_sibling_id.is_some() {
                parent.last_child = previous_sibling_id
            }""")],
H+'''fn main(){ let mut t=Tree::new(); let r=t.add_node(s("r"),None).unwrap(); let a=t.add_node(s("a"),Some(r)).unwrap();
let b=t.add_node(s("b"),Some(r)).unwrap(); let x=t.add_node(s("x"),None).unwrap(); t.remove_branch(b).unwrap(); let y=t.add_node(s("y"),Some(x)).unwrap();
let c=t.add_node(s("c"),Some(r)).unwrap(); assert_eq!(names(&t,r), vec!["a","c"]); assert_eq!(names(&t,x), vec!["y"]); }''',
'the last child is removed, then another child is added','the children list of the parent is wrong after that'),
('t02-prev-link','T02',[(T,"""            next.previous_sibling = previous_sibling_id;""","""            next.previous_sibling = next.previous_sibling.and(next.previous_sibling);""")],
H+'''fn main(){ let mut t=Tree::new(); let r=t.add_node(s("r"),None).unwrap(); let v:Vec<NodeId>=["a","b","c","d"].iter().map(|n| t.add_node(s(n),Some(r)).unwrap()).collect();
t.remove_branch(v[1]).unwrap(); t.remove_branch(v[2]).unwrap(); assert_eq!(names(&t,r), vec!["a","d"]); }''',
'two neighbouring children are removed one after the other','a later sibling keeps a link to a removed node; removing it loses children'),
('t02-nth-skip','T02',[(T,"""        for (i, child) in children.enumerate() {
            if i == nth {
                return Some(child);
            }
        }""","""        for (i, child) in children.enumerate() {
            if i == nth || i > 0 && child.next_sibling.is_none() {
                return Some(child);
            }
        }""")],
H+'''fn main(){ let mut t=Tree::new(); let r=t.add_node(s("r"),None).unwrap(); for n in ["a","b"] { t.add_node(s(n),Some(r)).unwrap(); }
let n=t.get_node(r).unwrap(); assert!(t.get_nth_child_or_none(n,1).is_some()); assert!(t.get_nth_child_or_none(n,2).is_none()); }''',
'asking for a child beyond the last one of a node with several children','returns the last child for every index beyond it'),
]
