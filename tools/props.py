#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  Run by hand after editing the tables below."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

AI = 'disjunctive abstract interpretation of the MIR, '
P = []


def p(pid, title, statement, over, text, tests, files, mech, technique, note, state=None, observe=None):
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=tests,
                   anchors=dict(files=['src/' + f for f in files],
                                mechanism=[dict(name=n, where=w) for n, w in mech],
                                **({'state': state} if state else {}),
                                **({'observe_at': observe} if observe else {}))),
              technique, note))


TRUST = ' Trusts the std models in engine/models.py; paths with an unmodelled condition are reported as undecided in the evidence and never as a violation.'

# ------------------------------------------------------------------ lexers and view
p('L01', 'Lexical helpers take exactly the maximal matching text',
  'Skipping whitespace consumes exactly the run of whitespace characters. Reading digits, an unsigned or signed number, a variable name or a single symbol consumes and returns exactly the longest matching run (the number it denotes for numbers), and a failed read of the first character of a symbol, number or name consumes nothing.',
  ['inputs'], 'for every character sequence, including empty ones, Unicode letters and digits, and numbers beyond the integer range',
  'The unit tests feed a few short ASCII strings; the property ranges over all sequences of Unicode characters and all run lengths.',
  ['parse_funcs.rs'], [('whitespace, digits, usize, isize, symbol, name readers', 'src/parse_funcs.rs: pub fn parse_*')],
  AI + 'relative tape domain with a loop fixpoint per reader',
  'Every path of every reader is compared with its specification automaton over an unbounded symbolic tape.' + TRUST)
p('L02', 'Read errors name the offending character, its position, or the end',
  'When a lexical helper fails because of the next character, the error carries that character and the position at which it stands. When it fails because there is no character left it reports the end of the characters at that position.',
  ['inputs'], 'for every character sequence and every point at which a helper can fail',
  'Tests check three error positions; the property covers every failing path of every helper.',
  ['parse_funcs.rs'], [('error construction in the readers', 'src/parse_funcs.rs: UnexpectedCharError, EndOfCharsError')],
  AI + 'relative tape domain; error payload compared with the tape head on every failing path',
  'Every error constructed on any path is compared field by field with the state of the input.' + TRUST)
p('S01', 'A bounded view shows its section, and peeking changes nothing',
  'A view with a stop character shows the characters of the underlying input up to the first stop character that is not escaped, and nothing after it. Looking at the next character, however often, changes nothing that can be observed, and all ways to take a character agree on which one is next.',
  ['inputs', 'histories'], 'for every input, stop and escape character, and every sequence of peek and take operations',
  'The tests run one or two hand-written sequences; the property ranges over all interleavings of peeking and taking on all inputs.',
  ['peekables.rs'], [('stop/escape handling', 'src/peekables.rs: ParseProcess'), ('plain wrapper', 'src/peekables.rs: PeekableWrapper')],
  AI + 'object-state fixpoint over all operation sequences',
  'The reachable object states under arbitrary operation sequences are enumerated to a fixpoint; in every state every accessor must agree with the specification.' + TRUST)
p('S02', 'A view counts exactly the characters taken through it',
  'The position reported by a view grows by one for every character taken through it and by nothing else; a nested view starts at the position it was given.',
  ['inputs', 'histories'], 'for every input and every sequence of operations on plain and nested views',
  'No unit test follows positions through peeks, conditional takes and escapes; error messages depend on all of them.',
  ['peekables.rs'], [('position counter', 'src/peekables.rs: ParseProcess::cur_pos')],
  AI + 'object-state fixpoint over all operation sequences, position tracked as a linear term',
  'Position is compared with the number of characters taken in every reachable object state.' + TRUST)

# ------------------------------------------------------------------ VMs
p('V01', 'Supplied VMs read the whole instruction section',
  'When a supplied virtual machine accepts the text of an instruction section, it has consumed every character of that section. Text it could not interpret is therefore never left to be read as grammar.',
  ['inputs'], 'for every section text and every supplied machine',
  'The tests use sections with two to four instructions; the obligation holds at every return of an unbounded reader loop.',
  ['vms.rs', 'vms/counting_vm.rs', 'vms/simple_stack_vm.rs', 'vms/stack_vm.rs'], [('section readers', 'impl VM for *: parse_instructions')],
  AI + 'end-of-section typestate at every successful return',
  'On every successful return the section view is known to be at its end.' + TRUST)
p('V02', 'The stack machine transcribes its instruction listing',
  'A listing of semicolon-separated instructions becomes exactly the sequence of those instructions, in order, with the constants written in the listing and no instruction lost, repeated or invented. A constant that cannot be represented is refused.',
  ['inputs'], 'for every instruction section text accepted by the stack machine',
  'One test transcribes one listing; the property covers every listing of every length and every constant.',
  ['vms/stack_vm.rs'], [('instruction reader', 'src/vms/stack_vm.rs: parse_instructions')],
  AI + 'token typestate with per-instruction obligations',
  'For every path through one reader iteration the instruction emitted is the one the tokens read spell.' + TRUST)
p('V03', 'Stack machine operations follow their operation table',
  'Each operation of the stack machines pops its operands, pushes the result its name promises with the operands in the right order, and leaves the rest of the stack as it was; a print instruction prints the register it names. When it cannot (too few operands, division by zero, a result outside the integer range) it sets the documented error code instead and does not invent a result.',
  ['inputs', 'programs'], 'for every stack content, every operation and every operand value',
  'Tests run a handful of small programs; the property covers all stacks, operand values and failing cases.',
  ['vms/simple_stack_vm.rs', 'vms/stack_vm.rs'], [('operation execution', 'src/vms/*stack_vm.rs: execute_instruction')],
  AI + 'final symbolic machine state compared with an operation table',
  'Every path of the operation dispatch is compared with the table entry of its instruction.' + TRUST)
p('V04', 'No operation of a supplied machine can panic',
  'Executing any instruction of a supplied virtual machine in any machine state and on any parse tree node returns normally: overflow, division by zero, missing operands and bad addresses become error codes, never a panic.',
  ['inputs', 'programs'], 'for every instruction, machine state and tree node',
  'A panic needs particular operand values (minimum integer divided by minus one, addition at the limits) that no test supplies.',
  ['vms.rs', 'vms/counting_vm.rs', 'vms/simple_stack_vm.rs', 'vms/stack_vm.rs'], [('operation execution', 'impl VM for *: execute_instruction')],
  AI + 'reachability of panic edges',
  'No panic edge is reachable on any analysed path.' + TRUST)
p('V06', 'The rule-name machine maps each rule name to its operation',
  'The simple stack machine chooses the operation by the rule name alone, exactly as documented, gives an unknown name no stack effect, and rejects nothing and invents nothing because of the section text.',
  ['inputs'], 'for every rule name and every section text',
  'Tests name five rules; the property covers every other name and all section texts.',
  ['vms/simple_stack_vm.rs'], [('name table', 'src/vms/simple_stack_vm.rs: parse_instructions')],
  AI + 'case enumeration over the name argument',
  'Every path is compared with the documented name table.' + TRUST)

p('V07', 'Machines start empty, and the counting machine counts',
  'A new state of a supplied machine has an empty stack, zero registers, no error and a zero count. The counting machine adds exactly one to its count for every instruction executed (at the limit of the count it stays within it), and has exactly one instruction for every instruction section it reads; the null machine changes neither state nor tree.',
  ['inputs', 'programs', 'histories'], 'for every instruction section, every number of executed instructions and every state',
  'Tests count a few runs from one starting state; the property covers every section text and every count.',
  ['vms.rs', 'vms/counting_vm.rs', 'vms/simple_stack_vm.rs', 'vms/stack_vm.rs'],
  [('fresh states', 'impl VM for *: create_new_state'), ('counting', 'src/vms/counting_vm.rs: execute_instruction, parse_instructions')],
  AI + 'abstract result state compared with the documented one',
  'On every path the resulting state is the documented one.' + TRUST)

# ------------------------------------------------------------------ the script parser
p('P01', 'A terminal matches exactly its own characters',
  'A terminal of the grammar is accepted exactly when the next characters of the script are the characters of the terminal in order. Then exactly those characters are consumed and become the text of its node; otherwise parsing fails with the first differing character (or the end of the script) and its position.',
  ['inputs'], 'for every grammar terminal, including empty ones, and every script',
  'Tests match a few short terminals at the start of a script; the property covers every terminal, position and mismatch.',
  ['script_parser.rs'], [('terminal matching', 'src/script_parser.rs: Parser::parse')],
  AI + 'per-character typestate at the terminal loop',
  'Every character of the terminal is compared with and consumed from the input exactly once, on every path.' + TRUST)
p('P02', 'A script is accepted only as a whole',
  'Parsing succeeds only when the start rule has been matched and no character of the script is left. A script with text left over is refused with the first character left over and its position.',
  ['inputs'], 'for every grammar and every script',
  'All tests parse scripts that end where the grammar ends.',
  ['script_parser.rs'], [('entry point', 'src/script_parser.rs: Parser::parse')],
  AI + 'must-pass-through of an end-of-input test before every success return',
  'Every success return of the entry point is dominated by an observed end of input after the start rule.' + TRUST)
p('P03', 'The production followed is the one its lookahead selects',
  'Matching a rule follows exactly the production that the control table of that rule selects for the next character (or the end of the script); each of its elements is matched exactly once, in order, terminals as text and rules recursively. When no production is selected the rule fails without consuming anything, and a failure of any element makes the whole parse fail.',
  ['inputs', 'programs'], 'for every grammar, control table and script',
  'Tests parse small scripts of a dozen grammars; the property is about every production length and every failing point.',
  ['script_parser.rs'], [('rule matching', 'src/script_parser.rs: Parser::parse')],
  AI + 'element-iteration typestate over the recursive rule matcher',
  'Per element of an arbitrary production exactly one matching step is made and its failure is returned.' + TRUST)
p('P04', 'The parse tree mirrors the derivation',
  'The tree has one root for the start rule, under every rule node one child for each element of the production followed, in order, and under those again the same; terminal nodes carry the terminal text and rule nodes the empty text. Nothing else is in the tree.',
  ['inputs', 'programs'], 'for every grammar and every accepted script',
  'Tests look at single nodes of small trees.',
  ['script_parser.rs', 'tree.rs'], [('node creation', 'src/script_parser.rs: Parser::parse')],
  AI + 'node-creation obligations per matched element',
  'Per matched element exactly one node is created below the node of the rule being matched.' + TRUST)
p('P05', 'Instructions run once per matched rule, after its elements',
  'Every time a rule has been matched, all instructions attached to it are executed exactly once each, in their order, on the node of that match and on the state given by the caller, after everything inside the rule and before anything after it. No instruction runs for a rule that failed to match.',
  ['inputs', 'programs'], 'for every grammar with instructions and every script, including failing ones',
  'Tests count instruction runs on three small scripts.',
  ['script_parser.rs'], [('instruction execution', 'src/script_parser.rs: Parser::parse')],
  AI + 'ordering typestate between element iteration and instruction iteration',
  'On every path instructions are executed after the last element and never before or on failure.' + TRUST)
p('P06', 'The requested start rule is the one that is parsed',
  'A parser built with an explicit start rule starts there and computes its control tables for it; a parser built from text or from tables starts at the rule named start. A missing start rule is reported as an error.',
  ['inputs', 'programs'], 'for every grammar and start rule',
  'All tests use start as the start rule, where an ignored argument goes unnoticed.',
  ['script_parser.rs'], [('start selection', 'src/script_parser.rs: Parser::new*, Parser::parse')],
  AI + 'value flow from the constructor argument to the matcher call',
  'The start index reaching the rule matcher is the one requested, on every path.' + TRUST)
p('P07', 'Results do not depend on hash iteration order',
  'Parsing the same script with the same grammar gives the same result every time, including the text of errors. No result depends on the iteration order of a hash table, on time or on addresses. (For a grammar with several faults it is left open which of them is reported.)',
  ['inputs', 'schedules', 'histories'], 'for every grammar and script, every run and every hash seed',
  'Hash seeds change per process, so one test run sees one order.',
  ['script_parser.rs', 'first_sets.rs', 'follow_sets.rs', 'steuer_map.rs', 'steuer_sets.rs', 'rule_parsing.rs'],
  [('hash iterations', 'all HashMap/HashSet iterations in non-test code')],
  'dataflow taint from unordered iteration to ordered results over MIR',
  'Every iteration over a hash container is classified: its element flow must reach only order-insensitive sinks or be sorted.')
p('P08', 'Parsing is repeatable: the parser keeps nothing between runs',
  'Parsing a script does not change the parser: a second parse with the same parser behaves as if it were the first. Parsers share no hidden global state, so parsing with one parser never affects another.',
  ['histories', 'schedules'], 'for every sequence of parses on any number of parsers',
  'Tests build a fresh parser for every script.',
  ['script_parser.rs', 'rule_parsing.rs', 'tree.rs', 'vms.rs'], [('entry point', 'src/script_parser.rs: Parser::parse')],
  'effect analysis: stores through the parser, interior mutability, statics and unsafe over the MIR call graph',
  'No function reachable from the entry points stores to parser state or to a static.')
p('P09', 'No script makes the parser panic',
  'Parsing any script with a parser that was built successfully returns a tree or an error; it never panics because of the text of the script (running out of memory or stack on a very deep nesting aside).',
  ['inputs'], 'for every script and every grammar accepted',
  'A panic needs an input the tests do not contain.',
  ['script_parser.rs', 'tree.rs', 'peekables.rs'], [('entry point', 'src/script_parser.rs: Parser::parse')],
  'path-sensitive abstract interpretation of parse, matcher and character view; panicking operations on feasible paths',
  'Every panicking operation (unwrap, index, assert) that a feasible path through parse, the matcher or the character view reaches is a violation, given the tables of a parser that was built; the machines are covered by V04, the tree by T01.')

p('P10', 'A syntax error names what would have been accepted',
  'When no production of the rule being parsed can begin with the character at hand, the error lists every character (and the end of the script) with which one can begin, each once and nothing else, together with the character found and its position. When a character inside a terminal does not match, the error names the character that should stand there.',
  ['inputs', 'programs'], 'for every grammar and script',
  'Tests compare the texts of a few errors.',
  ['script_parser.rs'], [('error construction', 'src/script_parser.rs: ParserInternals')],
  AI + 'loop obligations over the control table; value flow from table key to error text',
  'On every error path through one activation of the matcher the list is made from every key of the control table of the rule at hand, exactly once each.' + TRUST)

# ------------------------------------------------------------------ the rule parser
p('G01', 'Grammar text is transcribed faithfully',
  'A rule in the grammar text becomes exactly its alternatives in order, each with exactly its elements in order: quoted text a terminal with that text, a name a rule reference, the empty mark the empty production. Instructions belong to the rule they were written in.',
  ['inputs'], 'for every grammar text',
  'Tests transcribe a few fixed rules; the property covers every rule, alternative and element count and every quoting.',
  ['rule_parsing.rs', 'parser_data.rs'], [('rule reader', 'src/rule_parsing.rs: RuleParser')],
  AI + 'token typestate with pending-element, pending-alternative and pending-rule obligations',
  'Every token read on any path is accounted for exactly once in the rule produced.' + TRUST)
p('G02', 'Malformed grammar text is refused',
  'A grammar text that does not follow the rule syntax (missing arrow, missing semicolon, unclosed quote, empty alternative, empty mark next to other elements, unclosed section, unknown directive) is refused with an error. It is never accepted with part of the text ignored.',
  ['inputs'], 'for every grammar text that is not well formed',
  'Tests contain two malformed rules.',
  ['rule_parsing.rs'], [('rule reader', 'src/rule_parsing.rs: RuleParser')],
  AI + 'token automaton: every success return must be in an accepting state of the rule syntax',
  'Every success return has read exactly the tokens of the rule syntax.' + TRUST)
p('G03', 'Elements are numbered once and stay consistent',
  'Each distinct element (name and kind) has exactly one number, which never changes, and the tables of names and kinds agree for every number. A rule and a terminal with the same spelling are different elements.',
  ['histories'], 'for every sequence of additions and look-ups',
  'Tests add a handful of elements.',
  ['parser_data.rs'], [('element table', 'src/parser_data.rs: ParserData')],
  AI + 'final symbolic table state compared with the specification',
  'Both outcomes of the look-up are compared with the table specification for every key.' + TRUST)
p('G04', 'Ignored rules are woven in between elements, and only there',
  'When a rule has an ignore rule (its own, or the one in force from the directive), the ignore rule stands between every two neighbouring elements of each of its productions and nowhere else; empty productions stay empty. Rules the ignore rule itself is made of stay unchanged, and an override replaces or switches off the ignore rule for its rule only.',
  ['inputs', 'programs'], 'for every grammar with ignore rules and overrides, in every order',
  'Tests weave two short productions.',
  ['rule_parsing.rs'], [('weaving', 'src/rule_parsing.rs: RuleParser')],
  AI + 'loop typestate over production elements; value flow of the ignore setting',
  'Per element exactly one copy of the element and, except after the last, one ignore reference is produced.' + TRUST)
p('G05', 'Repeated definitions accumulate; no rule is lost',
  'Defining a rule again adds its alternatives after the existing ones, and the final editing pass keeps every rule with its alternatives and instructions under its own number.',
  ['inputs', 'histories'], 'for every grammar text and order of definitions',
  'One test merges one pair of definitions.',
  ['rule_parsing.rs', 'parser_data.rs'], [('merge and edit passes', 'src/rule_parsing.rs: RuleParser')],
  AI + 'map update obligations per iterated rule',
  'Per rule iterated exactly one rule is inserted under the same key with the same parts.' + TRUST)

p('G06', 'Rules made by hand are kept as given',
  'Adding a production to a rule adds exactly that alternative and leaves the rule\'s instructions and every other rule alone; an empty list of elements is the empty production. Setting the productions of a rule replaces its alternatives with exactly the given ones, in order, and nothing else; setting its instructions replaces those and nothing else. Looking a rule up by its number, its element or its name finds exactly that rule, or reports an error when there is none.',
  ['histories', 'inputs'], 'for every sequence of additions and look-ups',
  'Tests make a few rules by hand.',
  ['parser_data.rs', 'rule_parsing.rs'], [('rules by hand', 'src/parser_data.rs: ParserData, src/rule_parsing.rs: Rules')],
  AI + 'final symbolic rule table compared with the specification of each operation',
  'Per operation every path ends with exactly the table the specification names; given lists are followed for up to 3 (thorough: 5) entries.' + TRUST)

p('G07', 'White space between the parts of a grammar text does not matter',
  'White space - any amount, line ends included - may stand in front of every rule and directive, in front of and behind the arrow, in front of every alternative, element, bar, instruction section and closing semicolon, in front of the colon of an override, and around the name and colon of a directive. A grammar text that is accepted without it is accepted with it and gives the same rules.',
  ['inputs'], 'for every grammar text and every way to lay it out',
  'Tests write their grammars in one or two layouts.',
  ['rule_parsing.rs'], [('skipping of white space', 'src/rule_parsing.rs: parse_rules, parse_rule, parse_possible_productions, parse_production, parse_directive')],
  AI + 'the white space possible at every refusing exit, and refusals compared with and without white space in front',
  'Every refusing path of parse_rule and parse_rules is checked for white space ahead and for symbols only refused behind white space.' + TRUST)
p('G08', 'A refused grammar text says what is wrong and where',
  'When a grammar text names an unknown operation, the error gives that name and the place where it starts. When a character cannot start an element of an alternative, the error names that character and its place. An alternative that is missing, or that mixes the empty symbol with elements, is reported at the place the reader has reached.',
  ['inputs'], 'for every refused grammar text',
  'Tests check a handful of errors, mostly without their position.',
  ['rule_parsing.rs'], [('errors of the reader', 'src/rule_parsing.rs: parse_directive, parse_overrides, parse_production, parse_element')],
  AI + 'symbolic positions followed from the word or character at fault to the error',
  'Every error made on a refusing path is compared with the token or character it is about.' + TRUST)

# ------------------------------------------------------------------ LL(1) analysis
p('A01', 'FIRST sets are complete and exact',
  'The computed FIRST set of a rule contains exactly the first characters of the texts it can derive, and the empty mark exactly when it can derive the empty text.',
  ['programs'], 'for every grammar without left recursion',
  'Tests compare the sets of a dozen grammars; the equations must hold for every grammar.',
  ['first_sets.rs'], [('FIRST computation', 'src/first_sets.rs')],
  AI + 'per-element set-equation obligations at loop heads',
  'The set built per production satisfies the FIRST equations on every path through the element loop.' + TRUST)
p('A02', 'FOLLOW sets are complete and exact',
  'The computed FOLLOW set of a rule contains exactly what can stand right after the rule in a text derived from the start rule: what the elements after it can begin with, what follows the rule it ends, and the end mark for the start rule.',
  ['programs'], 'for every grammar',
  'Tests compare the sets of a few grammars.',
  ['follow_sets.rs'], [('FOLLOW computation', 'src/follow_sets.rs')],
  AI + 'per-occurrence obligations (marking, edge direction) and fixpoint-exit obligation',
  'Per occurrence of a rule exactly the required marks and edges are made and propagation stops only when nothing is missing.' + TRUST)
p('A03', 'Control tables select by FIRST, and by FOLLOW for the empty text',
  'The control table of a rule maps to a production exactly the characters the production can start with and, when the production can derive the empty text, everything that can follow the rule. Every production of every rule is entered.',
  ['programs'], 'for every grammar',
  'Tests build tables for five grammars.',
  ['steuer_map.rs', 'steuer_sets.rs'], [('control tables', 'src/steuer_map.rs, src/steuer_sets.rs')],
  AI + 'pointwise set abstraction: the table is compared with its definition at an arbitrary character and at the end mark',
  'For an arbitrary character and for the end mark, on every path through the table construction the entry is the production the definition selects; every production and rule is looked at.' + TRUST)
p('A04', 'A grammar that is not LL(1) is always refused',
  'When two productions of a rule would be selected by the same character (or both by the end of the script), building the parser fails with an error; one of them is never silently dropped.',
  ['programs'], 'for every grammar with a conflict, in every order of its productions',
  'One test has one conflict.',
  ['steuer_map.rs'], [('conflict detection', 'src/steuer_map.rs')],
  AI + 'pointwise set abstraction: no table is entered on a path with a conflict at the tracked symbol',
  'On no path is a table entered when two productions are selected by the same (arbitrary) symbol, and a refusal has such a pair.' + TRUST)
p('A05', 'Left recursion is refused, not followed forever',
  'Building a parser from a grammar in which a rule can reach itself without consuming a character ends with an error; the computation always terminates.',
  ['programs'], 'for every grammar, including mutual and hidden left recursion',
  'No test contains a left-recursive grammar.',
  ['first_sets.rs', 'rule_parsing.rs', 'script_parser.rs'], [('recursion guard', 'src/first_sets.rs: get_set_first_set_of_element'), ('walk over the rules', 'src/rule_parsing.rs: _check_is_derivative'), ('errors handed on', 'src/script_parser.rs: Parser::new_*')],
  AI + 'recursion guard dominance: every recursive call is made under a mark, tested before, that the current rule is being worked on; failures reach the caller',
  'Every recursive call is dominated by a successful first-time marking of the rule, only marked rules are refused, no rule is recorded while in progress, no mark outlives its rule while it can still be refused, and no constructor returns after a failure. Code without recursion is reported as undecided.' + TRUST)
p('A06', 'References to undefined rules are refused',
  'When a production mentions a rule that is never defined, computing the FIRST set of a rule that uses it fails with an error, and so does building a parser; a list of elements with a rule that has no FIRST set is refused. No parser is built that misbehaves later.',
  ['programs'], 'for every grammar with an undefined name, wherever it stands',
  'No test builds a parser from a grammar with an undefined name.',
  ['first_sets.rs', 'follow_sets.rs', 'rule_parsing.rs'], [('look-ups of rules', 'src/first_sets.rs, src/follow_sets.rs')],
  AI + 'failing look-up must reach an error return',
  'Every path on which a rule or FIRST set was looked up and found missing ends in an error, and every constructor hands that error on.' + TRUST)

# ------------------------------------------------------------------ tree and graph
p('T01', 'Node ids stay valid exactly as long as their node',
  'The id of a node finds exactly that node until the node or one of its ancestors is removed, and never any other node, even after its place has been reused. Operations given an id that is not valid report an error (or nothing) and change nothing.',
  ['histories'], 'for every sequence of additions, removals and look-ups',
  'Tests remove one branch and add one node; stale ids need longer histories.',
  ['tree.rs'], [('id check', 'src/tree.rs: Tree::get_node, get_node_mut, node_exists'), ('slot reuse', 'src/tree.rs: Tree::add_node, remove_branch')],
  AI + 'symbolic state comparison with the specification of each tree operation',
  'For every operation and every kind of id the outcome and the state change are compared with the specification.' + TRUST)
p('T02', 'Children keep their order and their links',
  'A new node becomes the last child of its parent. Listing the children of a node gives exactly its current children in the order they were added, whatever has been added or removed before.',
  ['histories'], 'for every sequence of additions and removals',
  'Tests have up to three children and one removal.',
  ['tree.rs'], [('sibling links', 'src/tree.rs: Tree::add_node, remove_branch, get_children')],
  AI + 'symbolic link updates compared with list insertion and removal',
  'The link fields written by each operation are those of list append and list removal, in every case of first, middle, last and only child.' + TRUST)
p('N01', 'Graph edges are found under their own id',
  'Adding an edge with an id succeeds exactly when the node has no outgoing edge with that id, and afterwards that id leads to the target of that edge; no other edge is lost or changed. Looking up an id, or a path of ids, finds the node that edge leads to and nothing else, and walking the edges of a node visits every one of them.',
  ['histories'], 'for every graph and order of insertions',
  'Tests insert a handful of ids in two orders.',
  ['simple_graph.rs'], [('ordered edge list', 'src/simple_graph.rs: Graph::try_add_edge_with_id, find_node_index')],
  AI + 'sorted-list loop invariants',
  'Insertion and look-up are checked against the sorted linked list specification in every position.' + TRUST)
p('N02', 'Appending a graph keeps both graphs intact',
  'Appending a graph below a node keeps every node and edge of both graphs, with the appended ones connected among themselves exactly as before, and adds one edge from the chosen node to the chosen appended node.',
  ['inputs', 'histories'], 'for every pair of graphs',
  'One test appends one small graph.',
  ['simple_graph.rs'], [('appending', 'src/simple_graph.rs: Graph::add_graph_at_node')],
  AI + 'per-node and per-edge offset obligations',
  'Per node and edge iterated exactly one is pushed with every index shifted by the right offset.' + TRUST)
p('N03', 'Named nodes are found under their own name',
  'A node added under a name is found under that name and no other, a second node of the same name is refused without changing the graph, and unknown names and indices are reported as errors, never as a panic. An edge added between two names leads from the one node to the other.',
  ['histories'], 'for every sequence of additions and look-ups',
  'Tests look up known names only.',
  ['named_graph.rs'], [('name table', 'src/named_graph.rs: GraphNamedNodes')],
  AI + 'symbolic table state compared with the specification of each operation',
  'Every operation outcome is compared with the name table for present and absent keys.' + TRUST)
p('E01', 'Users can write their own virtual machine',
  'A program outside the library can implement the virtual machine interface, build parsers with it from text and from rules made by hand, and inspect the trees and errors it gets back, using public items only.',
  ['programs'], 'for every user program of that kind',
  'Unit tests live inside the library, where privacy does not apply.',
  ['lib.rs', 'vms.rs', 'tree.rs', 'script_parser.rs', 'parser_data.rs'], [('public interface', 'src/lib.rs: pub mod')],
  'type-level compile witness against the current source',
  'An external crate using the documented interface is type-checked against the current source.')

p('E02', 'Errors show and keep what they carry',
  'The text of an error shows what it carries: for an unexpected character the character found, its position and what was expected; for a missing character its position; for an unknown operation the operation and its position; for an element that is missing or left recursive its index; for an unexpected element the reason and the position. A grammar error or tree error that is handed on as a parsing error is kept inside it unchanged.',
  ['inputs'], 'for every error value',
  'No test reads the text of an error.',
  ['errors.rs'], [('error texts', 'src/errors.rs: Display, From')],
  AI + 'format templates and arguments read from the compiled program; value flow from field to output',
  'Every path through the display of each error shows every field the error carries, and every conversion keeps its argument.' + TRUST)
p('E03', 'Only identical elements, symbols and ids are equal',
  'Two grammar elements, two members of a FIRST, FOLLOW or control set, and two node ids are equal exactly when their kind and every part of them is the same, and a copy has the same parts as the original. Lookups in the grammar and in the control tables therefore never take one element or character for another.',
  ['inputs'], 'for every pair of elements, symbols and ids',
  'Comparison is derived code that no test looks at; a hand-written one goes wrong only for particular pairs, which tests do not contain.',
  ['parser_data.rs', 'sets.rs', 'tree.rs'], [('comparisons and copies', 'src/parser_data.rs, src/sets.rs, src/tree.rs: PartialEq and Clone of ElementVerbose, ElementType, Element, SetMember, SetMemberWithEmpty, NodeId')],
  AI + 'comparison run on identical values and on values differing in one part',
  'Every path of a comparison of identical values answers true, of values with one different part false.' + TRUST)


NOT = [
    ('X01', 'A parser accepts exactly the language of its grammar',
     'A parser built from a grammar accepts exactly the texts the grammar derives.',
     ['programs', 'inputs'], 'for every grammar and script',
     ['script_parser.rs', 'first_sets.rs', 'follow_sets.rs', 'steuer_map.rs'],
     'language equality quantifies over all derivations of all grammars; only its local steps (A01-A04, P01-P04) are visible in the shape of the code, and they are claimed separately'),
    ('X02', 'The evaluated value of a calculator script is the right number',
     'Running a calculator script leaves the value of the expression on the stack.',
     ['programs', 'inputs'], 'for every calculator script',
     ['vms/stack_vm.rs', 'vms/simple_stack_vm.rs'],
     'a numerical result of whole program runs, with grammar and listings from data files; the operation tables it rests on are V03'),
    ('X03', 'Deeply nested scripts do not exhaust the stack',
     'A script of any nesting depth is parsed or refused without exhausting the call stack.',
     ['inputs'], 'for every nesting depth',
     ['script_parser.rs'],
     'the matcher is recursive by design, so the bound depends on frame sizes and the stack of the running process; no static argument here bounds the depth'),
    ('X04', 'Parsing takes linear time',
     'Parsing a script takes time linear in its length.',
     ['inputs'], 'for every grammar and script',
     ['script_parser.rs'],
     'a timing property; amortised cost over run-time quantities is out of reach of the analyses built here'),
]


def main():
    from checks import main as M
    claimed = set(M.PROPS)
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for d, _, _ in P:
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
        for pid, title, st, over, text, files, why in NOT:
            f.write(json.dumps(dict(id=pid, title=title, statement=st, quantifier=dict(over=over, text=text),
                                    why_tests_cant='Tests sample a few inputs of an unbounded space.',
                                    anchors=dict(files=['src/' + x for x in files], mechanism=[]))) + '\n')
    man = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[],
               notes='All checks read the type-checked MIR of /repo\'s current source (driver/) and decide by abstract interpretation (engine/, checks/); nothing of /repo is executed.')
    for d, tech, note in P:
        if d['id'] in claimed:
            man['checks'].append(dict(property=d['id'], quick_cmd='python3 check.py ' + d['id'],
                                      thorough_cmd='python3 check.py %s --thorough' % d['id'],
                                      technique='static analysis: ' + tech, level='other', level_note=note))
        else:
            man['not_applicable'].append(dict(property=d['id'], reason='no check claimed: the analysis for it is not finished'))
    for n in NOT:
        man['not_applicable'].append(dict(property=n[0], reason=n[-1]))
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write('\n')
    assert claimed <= {d['id'] for d, _, _ in P}
    for d, _, _ in P:
        assert len(d['title']) <= 80, d['title']


main()
