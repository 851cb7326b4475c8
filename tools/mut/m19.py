P=['P10']
def m(n,old,new,e='P10',f='script_parser.rs'): return (n,[(f,old,new)],P,e)
KEYS='''                    let mut expected = nt_rule
                        .steuermap
                        .keys()
                        .cloned()
                        .map(|x| x.into())
                        .collect::<Vec<String>>();
                    expected.sort();
                    expected.join(";")'''
M=[
m('noend','.map(|x| x.into())','.filter(|x| *x != SetMember::Terminate).map(|x| x.into())'),
m('endonly','.map(|x| x.into())','.filter(|x| *x == SetMember::Terminate).map(|x| x.into())'),
m('take1','.map(|x| x.into())','.take(1).map(|x| x.into())'),
m('nospace','.map(|x| x.into())',".filter(|x| *x != SetMember::Char(' ')).map(|x| x.into())"),
m('empty',KEYS,'String::new()'),
m('rulename',KEYS,'self.elements[el_index].name.clone()'),
m('dup','.map(|x| x.into())','.chain(nt_rule.steuermap.keys().cloned()).map(|x| x.into())'),
m('curs','.map(|x| x.into())','.map(|_| (*cur).into())'),
('t_cur',[('script_parser.rs','''                    chr: *char_to_parse,
                    pos: to_parse.cur_pos(),
                    expected: String::from(chr),''','''                    chr: *char_to_parse,
                    expected: String::from(*char_to_parse),
                    pos: to_parse.cur_pos(),''')],P,'P10'),
m('t_whole','expected: String::from(chr),','expected: String::from(terminal),',None),
m('t_none','expected: String::from(chr),','expected: String::new(),'),
m('into_end','SetMember::Terminate => String::from("terminate"),','SetMember::Terminate => String::from(""),','P10','sets.rs'),
m('first',KEYS,'nt_rule.steuermap.keys().next().map(|k| (*k).into()).unwrap_or_default()'),
m('q_for',KEYS,'''let mut expected: Vec<String> = Vec::new();
                    for k in nt_rule.steuermap.keys() { expected.push((*k).into()); }
                    expected.sort();
                    expected.join(";")''',None),
m('q_match',KEYS,'''let mut expected: Vec<String> = nt_rule.steuermap.keys().map(|k| match k { SetMember::Char(c) => c.to_string(), SetMember::Terminate => "terminate".to_string() }).collect();
                    expected.sort_unstable();
                    expected.join(";")''',None),
m('q_iter',KEYS,'''let mut expected: Vec<String> = nt_rule.steuermap.iter().map(|(k, _)| (*k).into()).collect();
                    expected.sort();
                    expected.join(";")''',None),
m('q_tostring','expected: String::from(chr),','expected: chr.to_string(),',None),
m('q_format','expected: String::from(chr),','expected: format!("{chr}"),',None),
m('q_sortkeys',KEYS,'''let mut ks: Vec<&SetMember> = nt_rule.steuermap.keys().collect();
                    ks.sort_by_key(|k| Into::<String>::into(**k));
                    ks.iter().map(|k| Into::<String>::into(**k)).collect::<Vec<_>>().join(";")''',None),
]
