f='simple_graph.rs'; g='named_graph.rs'
P=['N01','N02','N03']
M=[
('ge',[(f,"} else if connected_edge.id > id {","} else if connected_edge.id > id + 1 {")],P,'N01'),
('nexteq',[(f,"                next_edge_index = connected_edge.next_outgoing_edge;\n","")],P,'N01'),
('findlt',[(f,"} else if edge.id < id {","} else if edge.id > id {")],P,'N01'),
('findnone',[(f,"            } else if edge.id < id {\n                return None;\n            }","            }\n            break;")],P,'N01'),
('addid0',[(f,"Some(index) => self.edges.get(index).unwrap().id + 1,","Some(index) => self.edges.get(index).unwrap().id,")],P,'N01'),
('addlen',[(f,"        let new_edge_id = match last_edge_index {\n            None => 0,","        let new_edge_id = match last_edge_index {\n            None => edge_index,")],P,None),
('addnext',[(f,"            next_outgoing_edge: node_data.first_outgoing_edge,\n            id: new_edge_id,","            next_outgoing_edge: None,\n            id: new_edge_id,")],P,'N01'),
('pathlast',[(f,"cur_node_index = self.find_node_index(cni, id);","cur_node_index = self.find_node_index(source, id);\n                    let _ = cni;")],P,'N01'),
('pathor',[(f,"cur_node_index = self.find_node_index(cni, id);","cur_node_index = self.find_node_index(cni, id).or(cur_node_index);")],P,'N01'),
('pathq',[(f,"""        let mut cur_node_index = Some(source);
        for id in ids {
            match cur_node_index {
                None => return None,
                Some(cni) => {
                    cur_node_index = self.find_node_index(cni, id);
                }
            }
        }
        cur_node_index""","""        let mut here = source;
        for id in ids {
            here = self.find_node_index(here, id)?;
        }
        Some(here)""")],P,None),
('pathfold',[(f,"""        let mut cur_node_index = Some(source);
        for id in ids {
            match cur_node_index {
                None => return None,
                Some(cni) => {
                    cur_node_index = self.find_node_index(cni, id);
                }
            }
        }
        cur_node_index""","""        let mut ids = ids;
        ids.try_fold(source, |n, id| self.find_node_index(n, id))""")],P,None),
('findfind',[(f,"""        for edge_index in edges {
            let edge = &self.edges[edge_index];
            if edge.id == id {
                return Some(edge.target);
            } else if edge.id < id {
                return None;
            }
        }
        None
    }
    pub""","""        edges.map(|i| &self.edges[i]).find(|e| e.id == id).map(|e| e.target)
    }
    pub""")],P,None),
('findwhile',[(f,"""        let edges = self.connected_edges(source);
        for edge_index in edges {
            let edge = &self.edges[edge_index];
            if edge.id == id {
                return Some(edge.target);
            } else if edge.id < id {
                return None;
            }
        }
        None
    }
    pub""","""        let mut cur = self.nodes[source].first_outgoing_edge;
        while let Some(i) = cur {
            let edge = &self.edges[i];
            match edge.id.cmp(&id) {
                std::cmp::Ordering::Equal => return Some(edge.target),
                std::cmp::Ordering::Less => return None,
                std::cmp::Ordering::Greater => cur = edge.next_outgoing_edge,
            }
        }
        None
    }
    pub""")],P,None),
('trywhile',[(f,"""        let connected_edges = self.connected_edges(source);
        let mut previous = ThingWithNextEdge::Node(source);
        let mut next_edge_index = self.nodes[source].first_outgoing_edge;
        for connected_edge_index in connected_edges {
            let connected_edge = &self.edges[connected_edge_index];
            if connected_edge.id == id {
                return false;
            } else if connected_edge.id > id {
                previous = ThingWithNextEdge::Edge(connected_edge_index);
                next_edge_index = connected_edge.next_outgoing_edge;
                continue;
            }
            break;
        }""","""        let mut previous = ThingWithNextEdge::Node(source);
        let mut next_edge_index = self.nodes[source].first_outgoing_edge;
        while let Some(i) = next_edge_index {
            let e = &self.edges[i];
            if e.id < id { break; }
            if e.id == id { return false; }
            previous = ThingWithNextEdge::Edge(i);
            next_edge_index = e.next_outgoing_edge;
        }""")],P,None),
('offn',[(f,"target: node_offset + edge.target","target: edge_offset + edge.target")],P,'N02'),
('offe',[(f,"node.first_outgoing_edge.map(|ei| edge_offset + ei);","node.first_outgoing_edge.map(|ei| node_offset + ei);")],P,'N02'),
('offx',[(f,"edge.next_outgoing_edge.map(|ei| edge_offset + ei);","edge.next_outgoing_edge.map(|ei| edge_offset + ei + 1);")],P,'N02'),
('offadd',[(f,"self.add_edge(this, other + node_offset);","self.add_edge(this, node_offset);")],P,'N02'),
('offrev',[(f,"for node in graph.nodes.into_iter() {","for node in graph.nodes.into_iter().rev() {")],P,'N02'),
('offfirst',[(f,"""        let node_offset = self.nodes.len();
        let edge_offset = self.edges.len();
        for""","""        let node_offset = self.nodes.len();
        let edge_offset = self.edges.len();
        self.add_edge(this, other + node_offset);
        for"""),(f,"""            });
        }
        self.add_edge(this, other + node_offset);""","""            });
        }""")],P,'N02'),
('offfirstok',[(f,"""        let node_offset = self.nodes.len();
        let edge_offset = self.edges.len();
        for""","""        let node_offset = self.nodes.len();
        self.add_edge(this, other + node_offset);
        let edge_offset = self.edges.len();
        for"""),(f,"""            });
        }
        self.add_edge(this, other + node_offset);""","""            });
        }""")],P,None),
('offextend',[(f,"""        for node in graph.nodes.into_iter() {
            let first_outgoing_edge: Option<EdgeIndex> =
                node.first_outgoing_edge.map(|ei| edge_offset + ei);
            self.nodes.push(NodeData {
                data: node.data,
                first_outgoing_edge,
            });
        }
""","""        self.nodes.extend(graph.nodes.into_iter().map(|node| NodeData {
            first_outgoing_edge: node.first_outgoing_edge.map(|ei| edge_offset + ei),
            data: node.data,
        }));
""")],P,None),
('offextbad',[(f,"""        for node in graph.nodes.into_iter() {
            let first_outgoing_edge: Option<EdgeIndex> =
                node.first_outgoing_edge.map(|ei| edge_offset + ei);
            self.nodes.push(NodeData {
                data: node.data,
                first_outgoing_edge,
            });
        }
""","""        self.nodes.extend(graph.nodes.into_iter().map(|node| NodeData {
            first_outgoing_edge: node.first_outgoing_edge.map(|ei| node_offset + ei),
            data: node.data,
        }));
""")],P,'N02'),
('offmut',[(f,"""        for node in graph.nodes.into_iter() {
            let first_outgoing_edge: Option<EdgeIndex> =
                node.first_outgoing_edge.map(|ei| edge_offset + ei);
            self.nodes.push(NodeData {
                data: node.data,
                first_outgoing_edge,
            });
        }
""","""        for mut node in graph.nodes {
            if let Some(e) = node.first_outgoing_edge.as_mut() {
                *e += edge_offset;
            }
            self.nodes.push(node);
        }
""")],P,None),
('offinline',[(f,"""            self.edges.push(EdgeData {
                target: node_offset + edge.target,
                next_outgoing_edge,
                id: edge.id,
            });""","""            let target = edge.target + node_offset;
            let id = edge.id;
            self.edges.push(EdgeData { target, id, next_outgoing_edge });""")],P,None),
('skipself',[(f,"        for edge in graph.edges.into_iter() {","        for edge in graph.edges.into_iter() {\n            if edge.target == other { continue; }")],P,'N02'),
('take',[(f,"        for edge in graph.edges.into_iter() {","        for edge in graph.edges.into_iter().skip(1) {")],P,'N02'),
('ncontains',[(g,"if self.names.contains_key(&node_name) {","if self.names.contains_key(&(node_name + 1)) {")],P,'N03'),
('ninsert',[(g,"self.names.insert(node_name, index);","self.names.entry(node_name).or_insert(node_name);")],P,'N03'),
('nentry',[(g,"self.names.insert(node_name, index);","self.names.entry(node_name).or_insert(index);")],P,None),
('nidx',[(g,"""        if index >= self.graph.nodes.len() {
            return Err(GrammarError::GraphIndexOutOfBounds { index });
        }
        Ok(&self""","""        if index > self.graph.nodes.len() {
            return Err(GrammarError::GraphIndexOutOfBounds { index });
        }
        Ok(&self""")],P,'N03'),
('nidxnames',[(g,"""        if index >= self.graph.nodes.len() {
            return Err(GrammarError::GraphIndexOutOfBounds { index });
        }
        Ok(&mut""","""        if index >= self.names.len() {
            return Err(GrammarError::GraphIndexOutOfBounds { index });
        }
        Ok(&mut""")],P,None),
('nget',[(g,"""        if index >= self.graph.nodes.len() {
            return Err(GrammarError::GraphIndexOutOfBounds { index });
        }
        Ok(&self.graph.nodes[index])""","""        self.graph.nodes.get(index).ok_or(GrammarError::GraphIndexOutOfBounds { index })""")],P,None),
('nsrc',[(g,"let target_index = self.get_index_of_node(target)?;","let target_index = self.get_index_of_node(source)?;")],P,'N03'),
('nexpect',[(g,"""        Ok(*self
            .names
            .get(&node_name)
            .ok_or(GrammarError::GraphNodeDoesNotExistsError { node_name })?
            as NodeIndex)""","""        Ok(self.names[&node_name])""")],P,'N03'),
('nmatch',[(g,"""        Ok(*self
            .names
            .get(&node_name)
            .ok_or(GrammarError::GraphNodeDoesNotExistsError { node_name })?
            as NodeIndex)""","""        match self.names.get(&node_name) { Some(&i) => Ok(i), None => Err(GrammarError::GraphNodeDoesNotExistsError { node_name }) }""")],P,None),
('nsucc',[(g,"Some((edge.target, &nodes[edge.target]))","Some((edge.target, &nodes[edge_num]))")],P,'N03'),
]
