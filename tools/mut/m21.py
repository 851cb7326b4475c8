P=['G07','G08']
def m(n,old,new,e,f='rule_parsing.rs'): return (n,[(f,old,new)],P,e)
W='        self.parse_whitespace();\n'
M=[
m('dircolon',W+"        self.parse_symbol(':')?;\n        self.parse_whitespace();\n        let name","        self.parse_symbol(':')?;\n        self.parse_whitespace();\n        let name",'G07'),
m('dirname',"        self.parse_whitespace();\n        let name","        let name",'G07'),
m('dirsemi',W+"        self.parse_symbol(';')?;\n        self.parser_data","        self.parse_symbol(';')?;\n        self.parser_data",'G07'),
m('arrow',W+"        self.parse_symbol('-')?;","        self.parse_symbol('-')?;",'G07'),
m('body',"        self.parse_symbol('>')?;\n        self.parse_whitespace();","        self.parse_symbol('>')?;",'G07'),
m('semi',W+"        self.parse_symbol(';')?;\n        let nt","        self.parse_symbol(';')?;\n        let nt",'G07'),
m('ovcolon',"            self.parse_whitespace();\n            self.parse_symbol(':')?;","            self.parse_symbol(':')?;",'G07'),
m('bar1',"            self.parse_whitespace();\n            let _ = self.parse_symbol('\\n');\n            self.parse_whitespace();\n","",'G07'),
m('bar2',"                self.parse_whitespace();\n                elements.push","                elements.push",None),
m('elem',"            parse_whitespace(&mut self.parse_process);\n            if let Ok(element)","            if let Ok(element)",'G07'),
m('elemfirst',"            parse_whitespace(&mut self.parse_process);\n            if let Ok(element)","            if !result.is_empty() { parse_whitespace(&mut self.parse_process); }\n            if let Ok(element)",'G07'),
m('toponce',"        loop {\n            self.parse_whitespace();\n            if self.parse_process.peek().is_none()","        self.parse_whitespace();\n        loop {\n            if self.parse_process.peek().is_none()",'G07'),
m('newline',"            self.parse_whitespace();\n            let _ = self.parse_symbol('\\n');\n            self.parse_whitespace();\n","            while self.parse_symbol(' ').is_ok() {}\n            let _ = self.parse_symbol('\\n');\n            while self.parse_symbol(' ').is_ok() {}\n",'G07'),
m('onespace',W+"        self.parse_symbol('-')?;","        let _ = self.parse_symbol(' ');\n        self.parse_symbol('-')?;",'G07'),
m('q_nl',"            let _ = self.parse_symbol('\\n');\n            self.parse_whitespace();\n","",None),
('q_inrule',[('rule_parsing.rs',"        loop {\n            self.parse_whitespace();\n            if self.parse_process.peek().is_none()","        loop {\n            parse_whitespace(&mut self.parse_process);\n            if self.parse_process.peek().is_none()"),('rule_parsing.rs',"        let identifier = parse_var_name","        self.parse_whitespace();\n        let identifier = parse_var_name")],P,None),
m('dirpos',"        let pos = self.parse_process.cur_pos();\n        let operation = parse_var_name(&mut self.parse_process)?;","        let operation = parse_var_name(&mut self.parse_process)?;\n        let pos = self.parse_process.cur_pos();",'G08'),
m('ovpos',"            let pos = self.parse_process.cur_pos();\n            let varname = parse_var_name(&mut self.parse_process)?;","            let varname = parse_var_name(&mut self.parse_process)?;\n            let pos = self.parse_process.cur_pos();",'G08'),
m('ovpos2',"            self.parse_symbol('[')?;\n            let pos = self.parse_process.cur_pos();","            let pos = self.parse_process.cur_pos();\n            self.parse_symbol('[')?;",'G08'),
m('ovop',"                    operation: varname,","                    operation: String::from(\"IGNORE\"),",'G08'),
m('elchr',"                chr: *x,\n                pos: to_parse.cur_pos(),","                chr: '#',\n                pos: to_parse.cur_pos(),",'G08'),
m('elpos',"                chr: *x,\n                pos: to_parse.cur_pos(),","                chr: *x,\n                pos: 0,",'G08'),
m('leerpos',"                                    pos: self.parse_process.cur_pos(),","                                    pos: result.len(),",'G08'),
m('leer0',"                                    pos: self.parse_process.cur_pos(),","                                    pos: 0,",'G08'),
]
