exec(open('/verif/tools/mut/m27.py').read().split('\nM=[')[0])
M=[
m('mk_selfq',MARK,MARK.replace('if add_edge {','if add_edge && left_side != el_index {'),FO,None),
m('ps_selfq',PASS,PASS.replace('                if !node.data.is_subset','                if successor_index == *node_index {\n                    continue;\n                }\n                if !node.data.is_subset'),FO,None),
m('ps_emptyq',PASS,PASS.replace('            let successors = follow','            if node.data.is_empty() {\n                continue;\n            }\n            let successors = follow'),FO,None),
m('ps_ptrq',PASS,PASS.replace('                if !node.data.is_subset','                if std::ptr::eq(node, successor) {\n                    continue;\n                }\n                if !node.data.is_subset'),FO,None),
m('ps_lenq',PASS,PASS.replace('''                if !node.data.is_subset(&successor.data) {
                    changes = true;
                    let missing_in_successor = node
                        .data
                        .difference(&successor.data).copied()
                        .collect::<Vec<SetMember>>();
''','''                let missing_in_successor = node
                    .data
                    .difference(&successor.data).copied()
                    .collect::<Vec<SetMember>>();
                if !missing_in_successor.is_empty() {
                    changes = true;
'''),FO,None),
m('fp_dedup',LOOP,LOOP.replace('    for &ix in el_ixs {','    let mut seen = HashSet::new();\n    for &ix in el_ixs {\n        if !seen.insert(ix) {\n            continue;\n        }'),FI,None),
m('pr_dedup',PROD,PROD.replace('for el_ix in el_ixs.iter().skip(1) {','for (at, el_ix) in el_ixs.iter().enumerate().skip(1) {\n                    if el_ixs[..at].contains(el_ix) {\n                        continue;\n                    }'),FI,None),
m('mk_cacheq',MARK,MARK.replace('let is_last_element = i >= der_len - 1;','let is_last_element = i + 1 == der_len;'),FO,None),
m('te_lower',TERM,TERM.replace('if *char_to_parse != chr {',"if char_to_parse.to_lowercase().to_string() != chr.to_lowercase().to_string() {"),S,'P01'),
m('te_lower2',TERM,TERM.replace('if *char_to_parse != chr {',"if !char_to_parse.to_lowercase().eq(chr.to_lowercase()) {"),S,'P01'),
m('te_upper',TERM,TERM.replace('if *char_to_parse != chr {',"if char_to_parse.to_uppercase().next() != chr.to_uppercase().next() {"),S,'P01'),
m('fe_trim','''            let maybe_char = el_verb.chars().next();''','''            let maybe_char = el_verb.trim().chars().next();''',FI,'A01'),
m('fe_strip','''            let maybe_char = el_verb.chars().next();''','''            let maybe_char = el_verb.strip_prefix('\\\\').unwrap_or(el_verb).chars().next();''',FI,'A01'),
m('fe_filter','''            let maybe_char = el_verb.chars().next();''','''            let maybe_char = el_verb.chars().filter(|c| !c.is_whitespace()).next();''',FI,'A01'),
m('fe_lower','''            let maybe_char = el_verb.chars().next();''','''            let maybe_char = el_verb.chars().next().map(|c| c.to_ascii_lowercase());''',FI,'A01'),
m('fe_bytes','''            let maybe_char = el_verb.chars().next();''','''            let maybe_char = el_verb.bytes().next().map(char::from);''',FI,'A01'),
m('fe_lastc','''            let maybe_char = el_verb.chars().next();''','''            let maybe_char = el_verb.chars().next_back();''',FI,'A01'),
m('vtrim1','''if let Ok(value) = node.data.parse::<isize>() {''','''if let Ok(value) = node.data.trim().parse::<isize>() {''',SV,'V03'),
m('vtrim2','''if let Ok(value) = node.data.parse::<isize>() {''','''if let Ok(value) = node.data.replace('_', "").parse::<isize>() {''',SV,'V03'),
m('vtrim3','''if let Ok(value) = node.data.parse::<isize>() {''','''if let Ok(value) = node.data.parse::<i64>().map(|v| v as isize) {''',SV,None),
m('vtrim4','''if let Ok(value) = node.data.parse::<isize>() {''','''if let Ok(value) = node.data.parse::<i32>().map(|v| v as isize) {''',SV,'V03'),
m('vtrim5','''if let Ok(value) = node.data.parse::<usize>() {''','''if let Some(value) = node.data.chars().next().and_then(|c| c.to_digit(10)).map(|d| d as usize) {''',SI,'V03'),
m('vtrim6','''if let Ok(value) = node.data.parse::<usize>() {''','''if let Ok(value) = usize::from_str_radix(&node.data, 16) {''',SI,'V03'),
m('vtrim7','''if let Ok(value) = node.data.parse::<usize>() {''','''if let Ok(value) = usize::from_str_radix(&node.data, 10) {''',SI,None),
m('vtrim8','''if let Ok(value) = node.data.parse::<usize>() {''','''if let Ok(value) = node.data.strip_prefix('0').unwrap_or(&node.data).parse::<usize>() {''',SI,'V03'),
]
