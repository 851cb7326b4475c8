//! A program outside the library: it only has to type-check. Every function stands for one thing a user of the
//! library does with its public items alone; none of them is ever run.
#![allow(dead_code, unused, unreachable_patterns)]
extern crate henriks_parsing_project as hpp;

use hpp::errors::{GrammarError, ParserError};
use hpp::parse_funcs::{parse_digits, parse_isize, parse_symbol, parse_usize, parse_var_name, parse_whitespace};
use hpp::parser_data::{
    Element, ElementIndex, ElementType, ElementVerbose, NonTerminalRules, ParserData, Production,
};
use hpp::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use hpp::script_parser::Parser;
use hpp::tree::{Node, NodeId, Tree, TreeError};
use hpp::vms::VM;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::error::Error;
use std::rc::Rc;

/// an instruction and a state nothing is derived for, that are neither Send nor Sync
enum Op {
    Push(usize),
    Text(Box<dyn Fn(&str) -> usize>),
}
struct State {
    stack: Vec<usize>,
    seen: Rc<RefCell<Vec<String>>>,
}
struct Machine {
    limit: Cell<usize>,
    names: HashMap<String, usize>,
}

mod own_machine {
    use super::*;
    impl VM for Machine {
        type Tstate = State;
        type Tinstrution = Op;
        fn parse_instructions<'a, T>(
            &'a self,
            prod_name: &str,
            to_parse: &mut ParseProcess<T>,
        ) -> Result<Vec<Self::Tinstrution>, ParserError>
        where
            T: TPeekable<Item = char>,
        {
            let mut out = vec![];
            while let Some(&c) = to_parse.peek() {
                let at: usize = to_parse.cur_pos();
                if c.is_whitespace() {
                    parse_whitespace(to_parse);
                    continue;
                }
                if let Some(_) = to_parse.next_if_eq(&'!') {
                    out.push(Op::Push(self.limit.get()));
                } else if let Some(d) = to_parse.next_if(|x| *x == '?') {
                    parse_symbol(to_parse, d)?;
                } else if c.is_ascii_digit() {
                    let n: usize = parse_usize(to_parse)?;
                    out.push(Op::Push(n));
                } else if c == '-' {
                    let n: isize = parse_isize(to_parse)?;
                    let s: String = parse_digits(to_parse)?;
                } else {
                    let name: String = parse_var_name(to_parse)?;
                    match self.names.get(&name) {
                        Some(n) => out.push(Op::Push(*n)),
                        None => {
                            return Err(ParserError::VmError { message: format!("{prod_name}: {name} at {at}") });
                        }
                    }
                }
                let rest: Option<char> = to_parse.next();
            }
            Ok(out)
        }
        fn execute_instruction(
            &self,
            tree: &mut Tree<String>,
            cur_node: NodeId,
            instruction: &Self::Tinstrution,
            state: &mut Self::Tstate,
        ) {
            match instruction {
                Op::Push(n) => state.stack.push(*n),
                Op::Text(f) => {
                    if let Ok(node) = tree.get_node(cur_node) {
                        state.stack.push(f(&node.data));
                    }
                }
            }
            let mut text = String::new();
            for id in tree.get_children(cur_node) {
                text += &tree.get_node(id).unwrap().data;
            }
            for id in tree.get_descendants(cur_node) {
                state.seen.borrow_mut().push(tree.get_node(id).unwrap().data.clone());
            }
            tree.get_node_mut(cur_node).unwrap().data = text;
            let child: NodeId = tree.add_node(String::from("made"), Some(cur_node)).unwrap();
            tree.remove_branch(child).unwrap();
        }
        fn create_new_state() -> State {
            State { stack: vec![], seen: Rc::new(RefCell::new(vec![])) }
        }
    }
}

mod parser_from_text {
    use super::*;
    fn one(rules: &str, script: &str) -> Result<Tree<String>, ParserError> {
        let vm = Machine { limit: Cell::new(1), names: HashMap::new() };
        let mut state = Machine::create_new_state();
        let mut parser = Parser::new_from_text(rules, &vm);
        let first = parser.parse(script, &mut state);
        let n = state.stack.len();
        let second = parser.parse(script, &mut state);
        drop(state);
        first
    }
    fn held<'a>(vm: &'a Machine, rules: &str) -> Parser<'a, Machine> {
        Parser::new_from_text(rules, vm)
    }
    fn built_in() {
        use hpp::vms::simple_stack_vm::SimpleStackVm;
        use hpp::vms::stack_vm::StackVm;
        use hpp::vms::counting_vm::CountingVm;
        use hpp::vms::NullVm;
        let (a, b, c, d) = (SimpleStackVm {}, StackVm {}, CountingVm {}, NullVm::new());
        let s: Vec<usize> = SimpleStackVm::create_new_state().stack;
        let s: Vec<isize> = StackVm::create_new_state().stack;
        let n: usize = CountingVm::create_new_state();
        let n: usize = NullVm::create_new_state();
        Parser::new_from_text("", &a);
        Parser::new_from_text("", &b);
        Parser::new_from_text("", &c);
        Parser::new_from_text("", &d);
    }
}

mod parser_from_rules {
    use super::*;
    fn one(vm: &Machine) -> Parser<'_, Machine> {
        let mut data = ParserData::<Machine>::new();
        let start: ElementIndex = data.get_or_add_non_terminal("start");
        let a: ElementIndex = data.get_or_add_terminal("a");
        data.add_production(start, vec![a, start]);
        data.add_production(start, vec![]);
        data.set_productions(start, vec![vec![a], vec![]]);
        data.add_instructions(start, vec![Op::Push(1), Op::Text(Box::new(|s| s.len()))]);
        let found: Option<ElementIndex> = data.get_element_nt_index("start");
        let found: Option<ElementIndex> = data.get_element_t_index("a");
        let key = data.get_or_add_element_key(&ElementVerbose::new_nt(String::from("more")));
        let found: Option<ElementIndex> = data.get_element_index(&ElementVerbose::new_t(String::from("b")));
        Parser::new_from_parser_data(data, start, vm)
    }
    fn by_hand(data: &mut ParserData<Machine>, ix: ElementIndex) {
        let p = vec![Rc::new(Production::NotEmpty(vec![ix])), Rc::new(Production::Empty)];
        let rule = NonTerminalRules::<Machine>::new(p, Some(ix), vec![Op::Push(2)]);
        data.parse_rules.rules.insert(ix, rule);
        data.parse_rules.ignore = Some(ix);
    }
    fn look(data: &ParserData<Machine>, ix: ElementIndex) -> usize {
        let mut n = 0;
        if let Some(rule) = data.get_rule_by_element_verbose("start") {
            for p in &rule.possible_productions {
                n += match &**p {
                    Production::NotEmpty(v) => v.len(),
                    Production::Empty => 0,
                };
            }
            n += rule.instruction.len() + rule.ignore.unwrap_or(0);
        }
        if let (Some(e), Some(v), Some(d)) =
            (data.get_element(ix), data.get_element_verbose(ix), data.get_element_data(ix))
        {
            if e.et == ElementType::NonTerminal && v.name == d.name && v.et == e.et && e.ix == ix {
                n += 1;
            }
        }
        let all: Vec<ElementVerbose> = data.get_elements_verbose();
        let r: Option<&NonTerminalRules<Machine>> = data.get_rule_by_key(ix);
        n + all.len() + data.parse_rules.rules.len()
    }
}

mod rules_as_data {
    use super::*;
    use hpp::rule_parsing::RuleParser;
    /// rule text read on its own, looked at, then made into a parser with another start
    fn one<'v>(text: &str, vm: &'v Machine) -> Result<Parser<'v, Machine>, Box<dyn Error>> {
        let mut chars = PeekableWrapper::from_str(text);
        let mut reader = RuleParser::new(&mut chars, vm);
        reader.parse_rules()?;
        let data = reader.parser_data;
        let at = data.get_element_nt_index("expr").ok_or("no such rule")?;
        Ok(Parser::new_from_parser_data(data, at, vm))
    }
}

mod trees {
    use super::*;
    fn root() -> NodeId {
        NodeId { node_ptr: 0, node_pk: 0 }
    }
    fn walk(tree: &Tree<String>, id: NodeId, out: &mut Vec<String>) -> Result<(), TreeError> {
        let node: &Node<String> = tree.get_node(id)?;
        out.push(node.data.clone());
        let first: Result<&Node<String>, TreeError> = tree.get_nth_child(node, 0);
        let second: Option<&Node<String>> = tree.get_nth_child_or_none(node, 1);
        let deep: Option<&Node<String>> = tree.get_by_path_or_none(id, vec![0usize, 1].into_iter())?;
        for c in tree.get_children(id) {
            if tree.node_exists(c) && c != id {
                walk(tree, c, out)?;
            }
        }
        println!("{:?} {} {}", id, id, tree.get_descendants(root()).len());
        Ok(())
    }
    fn own() -> Result<Tree<Vec<u8>>, TreeError> {
        let mut t = Tree::new();
        let a = t.add_node(vec![1u8], None)?;
        t.add_node(vec![], Some(a))?;
        t.get_node_mut(a)?.data.push(2);
        t.remove_branch(a)?;
        println!("{:?}", t);
        Ok(t)
    }
    fn errors(e: TreeError) -> String {
        match &e {
            TreeError::NodeDoesNotExist { node_id } => format!("{}", node_id),
            TreeError::NodeWasRemoved { node_id } => format!("{}", node_id),
            TreeError::ChildDoesNotExists { child_nth } => format!("{}", child_nth),
            _ => format!("{:?}", e),
        }
    }
}

mod error_values {
    use super::*;
    fn parse(e: ParserError) -> String {
        match e {
            ParserError::UnexpectedCharError { chr, pos, expected } => format!("{}", chr) + &expected + &pos.to_string(),
            ParserError::EndOfCharsError { pos } => pos.to_string(),
            ParserError::GramError { err } => grammar(err),
            ParserError::UnknownSpecialOperation { operation, pos } => operation + &pos.to_string(),
            ParserError::InternalError { message } | ParserError::VmError { message } => message,
            ParserError::TreeError { err } => format!("{:?}", err),
            ParserError::Impossible => String::new(),
            other => format!("{} {:?}", other, other),
        }
    }
    fn grammar(e: GrammarError) -> String {
        match e {
            GrammarError::MissingProduction { index }
            | GrammarError::MissingFirstSet { index }
            | GrammarError::MissingFollowSet { index }
            | GrammarError::MissingElementForIndex { index } => index.to_string(),
            GrammarError::SteuerSetsNotDistinct { steuer_terminal, steuer_char, rule_name } => {
                format!("{steuer_terminal}{steuer_char}{rule_name}")
            }
            GrammarError::UnexpectedElementError { reason, pos } => reason + &pos.to_string(),
            other => format!("{} {:?}", other, other),
        }
    }
    fn shown(e: &ParserError, g: &GrammarError) -> String {
        format!("{} {:?} {} {:?}", e, e, g, g)
    }
    fn passed_on(vm: &Machine, rules: &str, script: &str) -> Result<(), Box<dyn Error>> {
        let mut s = Machine::create_new_state();
        let mut p = Parser::new_from_text(rules, vm);
        p.parse("literal", &mut s)?;
        let g: Result<(), GrammarError> = Ok(());
        g?;
        Ok(())
    }
    fn made() -> Result<(), ParserError> {
        let t: Result<(), TreeError> = Ok(());
        t?;
        let g: Result<(), GrammarError> = Err(GrammarError::MissingProduction { index: 1 });
        g?;
        Err(ParserError::VmError { message: String::from("text") })
    }
}

mod readers {
    use super::*;
    /// the helpers work on a reader the user makes, stopping where the user says
    fn one(text: &str) -> Result<String, ParserError> {
        let mut chars = PeekableWrapper::new(text.chars().peekable());
        let mut outer = ParseProcess::<PeekableWrapper<std::str::Chars>>::new(&mut chars, Some(']'), Some('\\'));
        let at = outer.cur_pos();
        {
            let mut inner = ParseProcess::<ParseProcess<_>>::new_nested(&mut outer, Some(';'), None, at);
            parse_whitespace(&mut inner);
            inner.next();
        }
        let c: Option<&mut char> = outer.peek_mut();
        parse_var_name(&mut outer)
    }
    /// a source of characters of the user's own
    struct Twice(Option<char>, usize);
    impl Iterator for Twice {
        type Item = char;
        fn next(&mut self) -> Option<char> {
            self.1 += 1;
            if self.1 > 2 { None } else { self.0 }
        }
    }
    impl TPeekable for Twice {
        fn peek(&mut self) -> Option<&char> {
            self.0.as_ref()
        }
        fn peek_mut(&mut self) -> Option<&mut char> {
            self.0.as_mut()
        }
        fn next_if(&mut self, func: impl FnOnce(&char) -> bool) -> Option<char> {
            if self.0.as_ref().is_some_and(func) { self.next() } else { None }
        }
        fn next_if_eq(&mut self, expected: &char) -> Option<char> {
            if self.0.as_ref() == Some(expected) { self.next() } else { None }
        }
    }
    fn own() -> Result<Vec<Op>, ParserError> {
        let mut source = Twice(Some('a'), 0);
        let mut p = ParseProcess::<Twice>::new(&mut source, None, None);
        let vm = Machine { limit: Cell::new(1), names: HashMap::new() };
        vm.parse_instructions("rule", &mut p)
    }
}
