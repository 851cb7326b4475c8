exec(open('/verif/tools/mut/m27.py').read().split('\nM=[')[0])
CN='''            let maybe_char = el_verb.chars().next();'''
M=[
m('fe_asb',CN,'''            let maybe_char = el_verb.as_bytes().first().map(|b| *b as char);''',FI,'A01'),
m('fe_asb2',CN,'''            let maybe_char = if el_verb.is_empty() { None } else { Some(el_verb.as_bytes()[0] as char) };''',FI,'A01'),
m('fe_last',CN,'''            let maybe_char = el_verb.chars().last();''',FI,'A01'),
m('fe_rev',CN,'''            let maybe_char = el_verb.chars().rev().next();''',FI,'A01'),
m('fe_nth',CN,'''            let maybe_char = el_verb.chars().nth(1).or(el_verb.chars().next());''',FI,'A01'),
m('fe_nthq',CN,'''            let maybe_char = el_verb.chars().nth(0);''',FI,None),
m('fe_ciq',CN,'''            let maybe_char = el_verb.char_indices().map(|(_, c)| c).next();''',FI,None),
m('fe_matchq',CN,'''            let mut letters = el_verb.chars();
            let maybe_char = match letters.next() {
                Some(c) => Some(c),
                None => None,
            };''',FI,None),
m('fe_vecq',CN,'''            let letters: Vec<char> = el_verb.chars().collect();
            let maybe_char = letters.first().copied();''',FI,None),
m('te_lower3',TERM,TERM.replace('if *char_to_parse != chr {',"if char_to_parse.to_ascii_lowercase() != chr.to_ascii_lowercase() {"),S,'P01'),
m('te_low',TERM.replace('',''),TERM.replace('if *char_to_parse != chr {',"if *char_to_parse as u8 != chr as u8 {"),S,'P01'),
m('te_u32q',TERM,TERM.replace('if *char_to_parse != chr {',"if u32::from(*char_to_parse) != u32::from(chr) {"),S,None),
]
