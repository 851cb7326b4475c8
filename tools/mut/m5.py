f='tree.rs'
M=[
('addret',[(f,"Ok(NodeId::new(next_index, new_pk))","Ok(NodeId::new(self.nodes.len() - 1, new_pk))")],['T01','T02'],'T01'),
('lastpeek',[(f,"match self.free_node_indexes.pop() {","match self.free_node_indexes.last().copied() {")],['T01','T02'],'T01'),
('pklen',[(f,"""            None => {
                let pk = self
                    .counter
                    .fetch_add(1, std::sync::atomic::Ordering::Relaxed);""","""            None => {
                let pk = self.nodes.len();""")],['T01','T02'],'T01'),
('noprev',[(f,"Node::new(Some(parent_id.node_ptr), data, pk, parent_node.last_child);","Node::new(Some(parent_id.node_ptr), data, pk, parent_node.first_child);")],['T01','T02'],'T02'),
('nolast',[(f,"""            if parent.last_child == Some(node_id.node_ptr) {
                parent.last_child = previous_sibling_id
            }""","""            if parent.last_child == Some(node_id.node_ptr) {
                parent.last_child = next_sibling_id
            }""")],['T01','T02'],'T02'),
('nonext',[(f,"            next.previous_sibling = previous_sibling_id;","            let _ = next;")],['T01','T02'],'T02'),
('descchildren',[(f,"let mut nodes_to_free = self\n            .get_descendants(node_id)","let mut nodes_to_free = self\n            .get_children(node_id)")],['T01','T02'],'T01'),
('nofreeself',[(f,"        nodes_to_free.push(node_id.node_ptr);\n","        nodes_to_free.reverse();\n")],['T01','T02'],None),
('nofreeself2',[(f,"        nodes_to_free.push(node_id.node_ptr);\n","        nodes_to_free.pop();\n")],['T01','T02'],'T01'),
('existspk',[(f,"""        let current_node = &self.nodes[node_id.node_ptr];
        if current_node.pk != node_id.node_pk {
            return false;
        }
        true""","        true")],['T01','T02'],'T01'),
('mutfree',[(f,"""        if self.free_node_indexes.contains(&node_id.node_ptr) {
            return Err(NodeWasRemoved { node_id });
        }
        let current_node = &mut""","        let current_node = &mut")],['T01','T02'],'T01'),
('bounds',[(f,"""    pub fn get_node(&self, node_id: NodeId) -> Result<&Node<T>, TreeError> {
        if node_id.node_ptr >= self.nodes.len() {""","""    pub fn get_node(&self, node_id: NodeId) -> Result<&Node<T>, TreeError> {
        if node_id.node_ptr > self.nodes.len() {""")],['T01','T02'],'T01'),
('descskip',[(f,"descendants.extend(child_descendants);","if !child_descendants.is_empty() && descendants.len() < 1000 { descendants.extend(child_descendants); }")],['T01','T02'],None),
('desclast',[(f,"        for child in children {\n            let child_desc","        for child in children.into_iter().skip(1) {\n            let child_desc")],['T01','T02'],'T01'),
('descno',[(f,"        descendants.extend(&children);\n","")],['T01','T02'],'T01'),
('childpk',[(f,"children.push(NodeId::new(child_index, cur_children.pk));","children.push(NodeId::new(child_index, self.nodes[0].pk));")],['T01','T02'],'T02'),
('childrev',[(f,"children.push(NodeId::new(child_index, cur_children.pk));","children.insert(0, NodeId::new(child_index, cur_children.pk));")],['T01','T02'],'T02'),
('childfirst',[(f,"let mut cur_children_ix = node.first_child;","let mut cur_children_ix = node.last_child;")],['T01','T02'],'T02'),
('nthoff',[(f,"""        for (i, child) in children.enumerate() {
            if i == nth {
                return Some(child);""","""        for (i, child) in children.enumerate() {
            if i + 1 == nth {
                return Some(child);""")],['T01','T02'],'T02'),
('nextprev',[(f,"let next_id = child.next_sibling;","let next_id = child.previous_sibling;")],['T01','T02'],'T02'),
('pathskip',[(f,"node = nodee;","node = nodee; continue;")],['T01','T02'],None),
('path1',[(f,"get_nth_child_or_none(node, id)","get_nth_child_or_none(node, id + 1)")],['T01','T02'],'T02'),
('pathsrc',[(f,"                return Ok(None);\n            }\n        }\n\n        Ok(Some(node))","                break;\n            }\n        }\n\n        Ok(Some(node))")],['T01','T02'],'T02'),
('nofirst',[(f,"if let None = parent_node.first_child {","if parent_node.last_child.is_none() {")],['T01','T02'],None),
('firstalways',[(f,"if let None = parent_node.first_child {","if true {")],['T01','T02'],'T02'),
('any',[(f,"if self.free_node_indexes.contains(&node_id.node_ptr) {\n            return false;","if self.free_node_indexes.iter().any(|i| *i == node_id.node_ptr) {\n            return false;")],['T01','T02'],None),
('forfree',[(f,"if self.free_node_indexes.contains(&node_id.node_ptr) {\n            return false;\n        }","for i in &self.free_node_indexes { if *i == node_id.node_ptr { return false; } }")],['T01','T02'],None),
('getmatch',[(f,"""        if node_id.node_ptr >= self.nodes.len() {
            return false;
        }
        if self.free_node_indexes.contains(&node_id.node_ptr) {
            return false;
        }
        let current_node = &self.nodes[node_id.node_ptr];
        if current_node.pk != node_id.node_pk {
            return false;
        }
        true""","        matches!(self.nodes.get(node_id.node_ptr), Some(n) if n.pk == node_id.node_pk && !self.free_node_indexes.contains(&node_id.node_ptr))")],['T01','T02'],None),
('existsget',[(f,"""        if node_id.node_ptr >= self.nodes.len() {
            return false;
        }
        if self.free_node_indexes.contains(&node_id.node_ptr) {
            return false;
        }
        let current_node = &self.nodes[node_id.node_ptr];
        if current_node.pk != node_id.node_pk {
            return false;
        }
        true""","        self.get_node(node_id).is_ok()")],['T01','T02'],None),
('childiter',[(f,"""        let mut cur_children_ix = node.first_child;
        while let Some(child_index) = cur_children_ix {
            let cur_children = &self.nodes[child_index];
            children.push(NodeId::new(child_index, cur_children.pk));
            cur_children_ix = cur_children.next_sibling;
        }
""","""        let mut next = node.first_child;
        loop {
            let Some(ix) = next else { break };
            let n = &self.nodes[ix];
            next = n.next_sibling;
            children.push(NodeId { node_ptr: ix, node_pk: n.pk });
        }
""")],['T01','T02'],None),
('successors',[(f,"""        let mut cur_children_ix = node.first_child;
        while let Some(child_index) = cur_children_ix {
            let cur_children = &self.nodes[child_index];
            children.push(NodeId::new(child_index, cur_children.pk));
            cur_children_ix = cur_children.next_sibling;
        }
""","""        children.extend(std::iter::successors(node.first_child, |ix| self.nodes[*ix].next_sibling).map(|ix| NodeId::new(ix, self.nodes[ix].pk)));
""")],['T01','T02'],None),
('freechain',[(f,"""        let mut nodes_to_free = self
            .get_descendants(node_id)
            .iter()
            .map(|x| x.node_ptr)
            .collect::<Vec<usize>>();
        nodes_to_free.push(node_id.node_ptr);
""","""        let mut nodes_to_free = vec![node_id.node_ptr];
        for d in self.get_descendants(node_id) { nodes_to_free.push(d.node_ptr); }
""")],['T01','T02'],None),
('descflat',[(f,"""        for child in children {
            let child_descendants = self.get_descendants(child);
            descendants.extend(child_descendants);
        }
        descendants""","""        for child in &children {
            descendants.append(&mut self.get_descendants(*child));
        }
        descendants""")],['T01','T02'],None),
('descpre',[(f,"""        descendants.extend(&children);
        for child in children {
            let child_descendants = self.get_descendants(child);""","""        for child in children {
            descendants.push(child);
            let child_descendants = self.get_descendants(child);""")],['T01','T02'],None),
('removenew',[(f,"""            let parent = &mut self.nodes[parent_id];
            if parent.first_child == Some(node_id.node_ptr) {
                parent.first_child = next_sibling_id;
            }
            if parent.last_child == Some(node_id.node_ptr) {
                parent.last_child = previous_sibling_id
            }""","""            if previous_sibling_id.is_none() {
                self.nodes[parent_id].first_child = next_sibling_id;
            }
            if next_sibling_id.is_none() {
                self.nodes[parent_id].last_child = previous_sibling_id;
            }""")],['T01','T02'],None),
('removeelse',[(f,"""        if let Some(next_sibling) = next_sibling_id {
            let next""","""        else if let Some(next_sibling) = next_sibling_id {
            let next""")],['T01','T02'],'T02'),
('nofree_ext',[(f,"self.free_node_indexes.extend(nodes_to_free);","self.free_node_indexes = nodes_to_free;")],['T01','T02'],'T01'),
('dedup',[(f,"        nodes_to_free.push(node_id.node_ptr);\n","        if !nodes_to_free.is_empty() { nodes_to_free.push(node_id.node_ptr); }\n")],['T01','T02'],'T01'),
('helper',[(f,"""                if reused_index {
                    self.nodes[next_index] = new_node;
                } else {
                    self.nodes.push(new_node);
                }
                pk
            }
        };""","""                self.place(next_index, new_node);
                pk
            }
        };"""),(f,"    pub fn get_descendants(","""    fn place(&mut self, ix: usize, n: Node<T>) {
        if ix < self.nodes.len() { self.nodes[ix] = n; } else { self.nodes.push(n); }
    }
    pub fn get_descendants(""")],['T01','T02'],None),
]
M+=[('descempty',[(f,"descendants.extend(child_descendants);","if !child_descendants.is_empty() { descendants.extend(child_descendants); }")],['T01','T02'],None)]
