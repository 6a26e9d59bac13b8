property="C12"
needs="a source listed by the second section only, asked for twice on one consumer"
breaks="the second time, the first section claims the source and nothing is found"
edits=[("src/consumer.rs","""                .index_of(source_as_source_root_relative)
                .unwrap();
            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        None
""","""                .index_of(source_as_source_root_relative)
                .unwrap();
            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        self.source_lookup_cache.insert(source.to_string(), -1);
        None
"""),("src/consumer.rs","            Some(i) => sources_content.get(i as usize).cloned().flatten(),\n            None => {","            Some(i) if i >= 0 => sources_content.get(i as usize).cloned().flatten(),\n            _ => {"),
("src/consumer.rs","            Some(s) => s,\n            None => return None,","            Some(s) if s >= 0 => s,\n            _ => return None,")]
demo='''use rusty_source_map::consumer::*;
fn main(){
 let m=r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a"],"names":[],"mappings":"AAAA"}},{"offset":{"line":5,"column":0},"map":{"version":3,"sources":["b"],"names":[],"mappings":"AAAA"}}]}"#;
 let mut c=create_consumer(m,None).unwrap();
 let c=c.as_indexed_consumer_mut();
 assert!(c.generated_position_for("b",1,0,None).is_some());
 assert!(c.generated_position_for("b",1,0,None).is_some());
}
'''
