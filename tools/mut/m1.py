L=['L01','L02']
P='parse_funcs.rs'
M=[
('ws_ascii',[(P,'x.is_whitespace()','x.is_ascii_whitespace()')],L,'L01'),
('dig_numeric',[(P,'x.is_ascii_digit()','x.is_numeric()')],L,'L01'),
('var_no_us',[(P,"x.is_alphanumeric() || *x == '_'","x.is_alphanumeric()")],L,'L01'),
('var_start_us',[(P,"if !cur_char.is_alphabetic() {","if !cur_char.is_alphabetic() && *cur_char != '_' {")],L,'L01'),
('var_pos',[(P,"chr: *cur_char,\n            pos: to_parse.cur_pos(),\n            expected: String::from(\"alphabetic character\")","chr: *cur_char,\n            pos: to_parse.cur_pos()+1,\n            expected: String::from(\"alphabetic character\")")],L,'L02'),
('sym_pos',[(P,"Err(EndOfCharsError {\n        pos: to_parse.cur_pos(),\n    })","Err(UnexpectedCharError {\n        pos: to_parse.cur_pos(), chr: sym, expected: String::new()\n    })")],L,'L02'),
('isize_pos2',[(P,"    let pos = to_parse.cur_pos();\n    let cur_char = to_parse.peek().ok_or(EndOfCharsError { pos })?;\n    if !cur_char.is_ascii_digit()","    let pos = 0;\n    let cur_char = to_parse.peek().ok_or(EndOfCharsError { pos })?;\n    if !cur_char.is_ascii_digit()")],L,'L02'),
('isize_drop',[(P,"        number_string.push('-');\n","")],L,'L01'),
('isize_plus',[(P,"if cur_char == '-' {","if cur_char == '-' || cur_char == '+' {")],L,'L01'),
('term_esc',[('rule_parsing.rs',"if *cur_char == '\\\\' && !escape {","if *cur_char == '\\\\' {")],L,'L01'),
('term_keepq',[('rule_parsing.rs',"    to_parse.next(); //discard trailing quote\n","    \n")],L,'L01'),
('usize_i64',[(P,".parse::<usize>()\n        .map_err(|_| Impossible)",".parse::<u32>().map(|x| x as usize)\n        .map_err(|_| Impossible)")],L,'L01'),
('var_lower',[(P,"id_name.push(to_parse.next().ok_or(EndOfCharsError {\n            pos: to_parse.cur_pos(),\n        })?);","let ch = to_parse.next().ok_or(EndOfCharsError {\n            pos: to_parse.cur_pos(),\n        })?; if ch != '_' { id_name.push(ch); }")],L,'L01'),
# refactors
('r_ws',[(P,"""    while let Some(x) = to_parse.peek() {
        if !x.is_whitespace() {
            break;
        }
        to_parse.next();
    }""","""    while to_parse.next_if(|x| x.is_whitespace()).is_some() {}""")],L,None),
('r_ws2',[(P,"""    while let Some(x) = to_parse.peek() {
        if !x.is_whitespace() {
            break;
        }
        to_parse.next();
    }""","""    loop {
        match to_parse.peek() { Some(c) if c.is_whitespace() => { to_parse.next(); }, _ => return }
    }""")],L,None),
('r_dig',[(P,"""    let mut cur_char = to_parse.peek();
    let mut number_string = String::new();
    while let Some(x) = cur_char {
        if !x.is_ascii_digit() {
            break;
        }
        let pos = to_parse.cur_pos();
        number_string.push(to_parse.next().ok_or(EndOfCharsError { pos })?);
        cur_char = to_parse.peek();
    }
    Ok(number_string)""","""    let mut s = String::new();
    while let Some(c) = to_parse.next_if(|x| ('0'..='9').contains(x)) { s.push(c); }
    Ok(s)""")],L,None),
('r_dig2',[(P,"""        if !x.is_ascii_digit() {
            break;
        }
        let pos""","""        if !matches!(x, '0'..='9') {
            break;
        }
        let pos""")],L,None),
('r_dig3',[(P,"""        if !x.is_ascii_digit() {
            break;
        }
        let pos""","""        if !x.is_digit(10) {
            break;
        }
        let pos""")],L,None),
('r_dig4',[(P,"""        if !x.is_ascii_digit() {
            break;
        }
        let pos""","""        if x.to_digit(10).is_none() {
            break;
        }
        let pos""")],L,None),
('r_var',[(P,"""    let mut id_name = cur_char.to_string();
    to_parse.next();
    let mut cur_char = to_parse.peek();
    while let Some(x) = cur_char {
        if !(x.is_alphanumeric() || *x == '_') {
            break;
        }
        id_name.push(to_parse.next().ok_or(EndOfCharsError {
            pos: to_parse.cur_pos(),
        })?);
        cur_char = to_parse.peek();
    }
    Ok(id_name)""","""    let mut id_name = String::new();
    id_name.push(*cur_char);
    to_parse.next();
    fn cont(c: char) -> bool { c == '_' || c.is_alphanumeric() }
    while let Some(&x) = to_parse.peek() {
        if !cont(x) { return Ok(id_name); }
        id_name.push(x);
        let _ = to_parse.next();
    }
    Ok(id_name)""")],L,None),
('r_var2',[(P,"""    let mut id_name = cur_char.to_string();
    to_parse.next();
    let mut cur_char = to_parse.peek();
    while let Some(x) = cur_char {
        if !(x.is_alphanumeric() || *x == '_') {
            break;
        }
        id_name.push(to_parse.next().ok_or(EndOfCharsError {
            pos: to_parse.cur_pos(),
        })?);
        cur_char = to_parse.peek();
    }
    Ok(id_name)""","""    let mut chars: Vec<char> = vec![];
    while let Some(&x) = to_parse.peek() {
        if !(x.is_alphanumeric() || x == '_') { break; }
        chars.push(x);
        let _ = to_parse.next();
    }
    Ok(chars.into_iter().collect())""")],L,None),
('r_var3',[(P,"""    let mut id_name = cur_char.to_string();
    to_parse.next();
    let mut cur_char = to_parse.peek();
    while let Some(x) = cur_char {
        if !(x.is_alphanumeric() || *x == '_') {
            break;
        }
        id_name.push(to_parse.next().ok_or(EndOfCharsError {
            pos: to_parse.cur_pos(),
        })?);
        cur_char = to_parse.peek();
    }
    Ok(id_name)""","""    let id_name: String = std::iter::from_fn(|| to_parse.next_if(|x| x.is_alphanumeric() || *x == '_')).collect();
    Ok(id_name)""")],L,None),
('r_isize',[(P,"""    let mut number_string = String::new();
    if cur_char == '-' {
        to_parse.next();
        number_string.push('-');
    } else if""","""    let mut number_string = String::from("");
    let neg = to_parse.next_if_eq(&'-').is_some();
    if neg {
        number_string += "-";
    } else if""")],L,None),
('r_term',[('rule_parsing.rs',"""    let mut escape = false;
    let mut pos = to_parse.cur_pos();
    let mut cur_char = to_parse.peek().ok_or(EndOfCharsError { pos })?;
    while *cur_char != '"' || escape {
        if *cur_char == '\\\\' && !escape {
            escape = true
        } else {
            escape = false
        }
        pos = to_parse.cur_pos();
        literal.push(to_parse.next().ok_or(EndOfCharsError { pos })?);
        pos = to_parse.cur_pos();
        cur_char = to_parse.peek().ok_or(EndOfCharsError { pos })?
    }
    to_parse.next(); //discard trailing quote
    Ok(literal)""","""    let mut escape = false;
    loop {
        let pos = to_parse.cur_pos();
        let c = to_parse.next().ok_or(EndOfCharsError { pos })?;
        if c == '"' && !escape { return Ok(literal); }
        escape = c == '\\\\' && !escape;
        literal.push(c);
    }""")],L,None),
]
