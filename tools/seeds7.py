exec(open(__file__.rsplit('/', 1)[0] + '/seeds2.py').read().split('S=[')[0])
f='follow_sets.rs'
S=[
('a02-bounded-passes','A02',[(f,"    while changes {\n        changes = false;","    let mut passes = 0;\n    while changes && passes < 12 {\n        passes += 1;\n        changes = false;")],
H+'''fn main(){ let n=40; let mut g="start -> r0 \\";\\"; ".to_string(); for i in 0..n { g+=&format!("r{} -> r{}; ",i,i+1); } g+=&format!("r{n} -> \\"a\\" | #;"); let n2=n; let mut h="start -> q0 \\";\\"; ".to_string(); for i in 0..n2 { h+=&format!("q{} -> \\"b\\" q{}; ",i,i+1); } h+=&format!("q{n2} -> \\"a\\" | #;"); let h:&'static str=h.leak(); let g:&'static str=g.leak(); let b:&'static str=("b".repeat(n2)+"a;").leak(); assert!(go(h,b).0.is_ok()); assert!(go(g,"a;").0.is_ok()); assert!(go(g,";").0.is_ok()); }''',
'a chain of more than a dozen rules each of which ends with the next','what follows a rule does not reach the end of the chain'),
('a02-window','A02',[(f,"first_set_of_partial(&prod[i + 1..], first_sets, &parser_data)?","first_set_of_partial(&prod[i + 1..der_len.min(i + 4)], first_sets, &parser_data)?")],
H+'''fn main(){ assert!(go("start -> a b c d e; a -> \\"1\\" | #; b -> \\"2\\" | #; c -> \\"3\\" | #; d -> \\"4\\" | #; e -> \\"5\\";","5").0.is_ok()); }''',
'a rule followed by three rules that can be empty','what only the fourth element after a rule begins with is not in its FOLLOW set'),
('a02-overlap','A02',[(f,"if !node.data.is_subset(&successor.data) {","if !node.data.is_subset(&successor.data)\n                    && !(successor.data.contains(&SetMember::Terminate)\n                        && node.data.contains(&SetMember::Terminate))\n                {")],
H+'''fn main(){ let g="start -> a | \\"p\\" s1 \\"q\\"; s1 -> s2; s2 -> s3; s3 -> a; a -> \\"a\\" c; c -> \\"c\\" | #;"; for _ in 0..5 { assert!(go(g,"ac").0.is_ok()); assert!(go(g,"paq").0.is_ok()); } }''',
'a rule that is followed by the end of the script and, through a longer chain, by something else','symbols are no longer handed on between two rules that can both end the script'),
('a02-trailing-terminal','A02',[(f,"                if has_empty {","                if has_empty && first_set_following.len() > 1 {")],
H+'''fn main(){ let g="start -> a \\"!\\"; a -> \\"a\\" b c; b -> \\"b\\" | #; c -> #;"; assert!(go(g,"ab!").0.is_ok()); assert!(go(g,"a!").0.is_ok()); }''',
'a rule followed only by rules that are always empty','the dependency on the rule of the production is not recorded'),
]
