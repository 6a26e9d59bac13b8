property="C13"
needs="content of a source of a later section, then of a source of an earlier one"
breaks="a section that does not know a source forgets its contents"
edits=[("src/consumer.rs","""        let sources_content = self.source_map.sources_content.clone().unwrap();
        let panic_on_missing""","""        let sources_content = self.source_map.sources_content.take().unwrap();
        let panic_on_missing"""),("src/consumer.rs","            Some(i) => sources_content.get(i as usize).cloned().flatten(),\n","""            Some(i) => {
                let content = sources_content.get(i as usize).cloned().flatten();
                self.source_map.sources_content = Some(sources_content);
                content
            }
""")]
demo='''use rusty_source_map::consumer::*;
fn main(){
 let m=r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a"],"sourcesContent":["x"],"names":[],"mappings":"AAAA"}},{"offset":{"line":5,"column":0},"map":{"version":3,"sources":["b"],"sourcesContent":["y"],"names":[],"mappings":"AAAA"}}]}"#;
 let mut c=create_consumer(m,None).unwrap();
 let c=c.as_indexed_consumer_mut();
 assert!(c.source_content_for("b",Some(false)).is_some());
 assert!(c.source_content_for("a",Some(false)).is_some());
}
'''
