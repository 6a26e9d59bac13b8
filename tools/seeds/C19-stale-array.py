from seedlib import *
property="C19"
needs="an out-of-order addition after the array was read, and no in-order one, then the array again"
breaks="the array handed out is the one from before the out-of-order additions"
edits=[("src/mapping_list.rs","    last: Option<Mapping>,\n}","    last: Option<Mapping>,\n    handed_out: Option<Vec<Mapping>>,\n}"),
("src/mapping_list.rs","            last: None,\n        }","            last: None,\n            handed_out: None,\n        }"),
("src/mapping_list.rs","            self.last = Some(mapping.clone());\n            self.array.push(mapping);","            self.last = Some(mapping.clone());\n            self.handed_out = None;\n            self.array.push(mapping);"),
("src/mapping_list.rs","        self.array.clone()\n","""        match self.handed_out {
            Some(ref it) => it.clone(),
            None => {
                self.handed_out = Some(self.array.clone());
                self.array.clone()
            }
        }
"""),("src/mapping_list.rs","            self.sorted = false;\n            self.array.push(mapping)\n","            self.array.push(mapping);\n            self.sorted = false\n")]
demo=demo('''
 use rusty_source_map::mapping_list::MappingList;
 let mut l=MappingList::new();
 let m=|c|Mapping{generated:Position{line:1,column:c},original:None,source:None,name:None,last_generated_column:None};
 l.add(m(5)); l.to_array(); l.add(m(3));
 assert_eq!(l.to_array().len(),2);
''')
