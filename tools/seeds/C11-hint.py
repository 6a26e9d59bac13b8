from seedlib import *
property="C11"
needs="two sections that start on the same line, a lookup in the second, then one on that line before its column"
breaks="the section of the previous lookup answers"
edits=[("src/consumer.rs","    pub(crate) sections: Rc<RefCell<Vec<Section>>>,\n}","    pub(crate) sections: Rc<RefCell<Vec<Section>>>,\n    // where the last lookup ended up, as lookups tend to be close to each other\n    pub(crate) hint: i32,\n}"),
("src/consumer.rs","""            source_map: source_map.clone(),
            // source_lookup_cache: Default::default(),
            // source_map_url""","""            source_map: source_map.clone(),
            hint: -1,
            // source_lookup_cache: Default::default(),
            // source_map_url"""),
("src/consumer.rs","""        let section_index = binary_search::search(
            needle.clone(),
            &(*self.sections).borrow(),
""","""        let found = self.hint >= 0 && {
            let sections = (*self.sections).borrow();
            let here = sections.get(self.hint as usize);
            let next = sections.get(self.hint as usize + 1);
            here.map_or(false, |it| it.generated_offset.line <= needle.line)
                && next.map_or(true, |it| needle.line < it.generated_offset.line)
        };
        let section_index = if found {
            self.hint
        } else {
            binary_search::search(
            needle.clone(),
            &(*self.sections).borrow(),
"""),
("src/consumer.rs","""                    a.generated_offset.column - b.generated_offset.column
                }
            },
            None,
        );
""","""                    a.generated_offset.column - b.generated_offset.column
                }
            },
            None,
        )
        };
        self.hint = section_index;
""")]
demo=demo('''
 let m=r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a"],"names":[],"mappings":"AAAA"}},{"offset":{"line":0,"column":9},"map":{"version":3,"sources":["b"],"names":[],"mappings":"AAAA"}}]}"#;
 let mut c=IndexedConsumer::new(m,None);
 assert_eq!(c.original_position_for(Position{line:1,column:9},None).unwrap().source.unwrap(),"b");
 assert_eq!(c.original_position_for(Position{line:1,column:3},None).unwrap().source.unwrap(),"a");
''')
