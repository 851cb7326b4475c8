A=['S01','S02','L01','V01']
P='peekables.rs'
def g(o,n): return [(P,o,n)]
CH="if c == stop_char && Some(c) != self.escape_char && !self.escape {"
M=[
('noesc',g(CH,"if c == stop_char && Some(c) != self.escape_char {"),A,'S01'),
('escsticky',g("self.escape = Some(c) == self.escape_char;","if Some(c) == self.escape_char { self.escape = true; }"),A,'S01'),
('escpeek',g("        let next = self.to_parse.peek();","        let next = self.to_parse.peek().copied(); if next.is_some() && next == self.escape_char { self.escape = true; }\n        let next = next.as_ref();"),A,'S01'),
('peekmut',g("""        if !self.check_allowed() {
            return None;
        }
        self.to_parse.peek_mut()""","        self.to_parse.peek_mut()"),A,'S01'),
('nextifpos',g("""        let res = self.to_parse.next_if(func);
        if let Some(c) = res {
            self.consumed(c);
        }
        res""","        self.to_parse.next_if(func)"),A,'S02'),
('nextif_esc',g("""        let res = self.to_parse.next_if(func);
        if let Some(c) = res {
            self.consumed(c);
        }
        res""","        let r = self.to_parse.next_if(func); if r.is_some() { self.current_position += 1; } r"),A,'S01'),
('nextifeq_always',g("""        let res = self.to_parse.next_if_eq(expected);""","""        let res = self.to_parse.next().filter(|c| c == expected);"""),A,'S01'),
('posalways',g("""        let res = self.to_parse.next();
        if let Some(c) = res {
            self.consumed(c);
        }
        res""","""        let res = self.to_parse.next();
        self.current_position += 1;
        if let Some(c) = res {
            self.escape = Some(c) == self.escape_char;
        }
        res"""),A,'S02'),
('poswidth',g("self.current_position += 1;","self.current_position += c.len_utf8();"),A,'S02'),
('nested0',g("current_position: global_position,","current_position: 0,"),A,'S02'),
('escinit',g("            escape: false,\n        }\n    }\n    pub fn cur_pos","            escape: true,\n        }\n    }\n    pub fn cur_pos"),A,'S01'),
('newline',g("self.current_position += 1;","if c != '\\r' { self.current_position += 1; }"),A,'S02'),
('escstop',g("Some(c) != self.escape_char && ",""),A,'S01'),
('stopreset',g("                return false;","                self.stop_on = None; return false;"),A,'S01'),
('wrap_peek',g("self.peekable.next_if_eq(expected)","if self.peekable.peek() == Some(expected) { self.peekable.next() } else { self.peekable.next(); None }"),A,'S01'),
('r1',g("""        let res = self.to_parse.next_if_eq(expected);
        if let Some(c) = res {
            self.consumed(c);
        }
        res""","""        self.next_if(|c| c == expected)"""),A,None),
('r2',g("""        if let (Some(&c), Some(stop_char)) = (next, self.stop_on) {
            if c == stop_char && Some(c) != self.escape_char && !self.escape {
                return false;
            }
        }
        true""","""        match next { Some(&c) => self.stop_on != Some(c) || self.escape_char == Some(c) || self.escape, None => true }"""),A,None),
('r3',g("self.peekable.next_if_eq(expected)","self.peekable.next_if(|c| c == expected)"),A,None),
('r4',g("self.peekable.next_if_eq(expected)","if self.peekable.peek() == Some(expected) { self.peekable.next() } else { None }"),A,None),
('r5',g("""        let res = self.to_parse.next();
        if let Some(c) = res {
            self.consumed(c);
        }
        res""","""        let c = self.to_parse.next()?; self.consumed(c); Some(c)"""),A,None),
('r6',g("""        let res = self.to_parse.next();
        if let Some(c) = res {
            self.consumed(c);
        }
        res""","""        self.to_parse.next().map(|c| { self.current_position += 1; self.escape = self.escape_char.map_or(false, |e| e == c); c })"""),A,None),
('r7',g("""        let res = self.to_parse.next_if(func);
        if let Some(c) = res {
            self.consumed(c);
        }
        res""","""        let res = self.to_parse.next_if(func)?; self.consumed(res); Some(res)"""),A,None),
('r8',[(P,"escape: bool,\n}","last: Option<char>,\n}"),(P,"escape: false","last: None"),(P,"escape: false","last: None"),(P,"&& !self.escape","&& !(self.last.is_some() && self.last == self.escape_char)"),(P,"self.escape = Some(c) == self.escape_char","self.last = Some(c)")],A,None),
('r9',g("""            current_position: 0,
            stop_on,
            escape_char,
            escape: false,
        }
    }
""","""            current_position: 0,
            stop_on,
            escape_char,
            escape: false,
        }
    }
    fn bump(&mut self, n: usize) { self.current_position = self.current_position.wrapping_add(n); }
""")+g("self.current_position += 1;","self.bump(1);"),A,None),
]
