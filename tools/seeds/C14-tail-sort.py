from seedlib import *
property="C14"
needs="at least 256 mappings written, then a mapping added that belongs before one already written, then written again"
breaks="the second text has mappings out of order (negative line steps, or an endless loop)"
edits=[("src/mapping_list.rs","    last: Option<Mapping>,\n}","    last: Option<Mapping>,\n    // how many of the mappings are known to be in order\n    in_order: usize,\n}"),
("src/mapping_list.rs","            sorted: true,\n            last: None,","            sorted: true,\n            last: None,\n            in_order: 0,"),
("src/mapping_list.rs","""            self.array.sort_by(|a, b| {""","""            // A long list is sorted once; what was added since is short.
            let from = if self.in_order >= 256 { self.in_order } else { 0 };
            self.array[from..].sort_by(|a, b| {"""),
("src/mapping_list.rs","""            self.sorted = true;
        }
""","""            self.sorted = true;
        }
        self.in_order = self.array.len();
""")]
demo=demo('''
 let at=|l:i32,c:i32|Mapping{generated:Position{line:l,column:c},original:Some(Position{line:1,column:0}),source:Some("a".into()),name:None,last_generated_column:None};
 let mut g=SourceMapGenerator::new(None,None,false);
 for i in 0..300{g.add_mapping(at(1,1000-i));}
 g.as_string();
 g.add_mapping(at(1,5));
 let t=g.as_string();
 let v:serde_json::Value=serde_json::from_str(&t).unwrap();
 assert!(v["mappings"].as_str().unwrap().starts_with('K'),"the first column is not 5");
''')
