property="C06"
needs="a lookup that finds nothing for its source, repeated with the same name"
breaks="a name that was not found is remembered as source -1, and asking again panics instead of giving nothing"
edits=[("src/consumer.rs","""            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        None
    }
""","""            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        self.source_lookup_cache.insert(source.to_string(), i32::MAX);
        None
    }
""")]
edits=[("src/consumer.rs","""            let index = self
                .absolute_sources
                .index_of(source_as_source_root_relative)
                .unwrap();
            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        None
""","""            let index = self
                .absolute_sources
                .index_of(source_as_source_root_relative)
                .unwrap();
            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        // Do not resolve it again.
        self.source_lookup_cache.insert(source.to_string(), 0);
        None
""")]
breaks="a name that was not found the first time is taken for the first source when asked for again"
demo='''use rusty_source_map::consumer::*;
fn main(){
 let mut c=BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA"}"#,None);
 assert!(c.generated_position_for("zz",1,0,None).is_none());
 assert!(c.generated_position_for("zz",1,0,None).is_none());
}
'''
