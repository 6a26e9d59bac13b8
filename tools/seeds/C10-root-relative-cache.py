property="C10"
needs="a relative map URL, a source found by its sourceRoot-relative name, then a question for the reported name"
breaks="whether the reported name is known depends on what was asked before"
edits=[("src/consumer.rs","""            let index = self
                .absolute_sources
                .index_of(source_as_source_root_relative)
                .unwrap();
            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
""","""            let index = self
                .absolute_sources
                .index_of(source_as_source_root_relative.clone())
                .unwrap();
            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            self.source_lookup_cache
                .insert(source_as_source_root_relative, index as i32);
""")]
demo='''use rusty_source_map::consumer::*;
fn main(){
 let m=r#"{"version":3,"sourceRoot":"src","sources":["a.js"],"sourcesContent":["x"],"names":[],"mappings":"AAAA"}"#;
 let mut c=BasicConsumer::new(m,Some("dist/m.map"));
 let name=c.get_sources()[0].clone();
 let before=c.source_content_for(&name,Some(false));
 c.source_content_for("a.js",Some(false));
 assert_eq!(before,c.source_content_for(&name,Some(false)));
}
'''
