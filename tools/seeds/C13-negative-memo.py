from seedlib import *
property="C13"
needs="a source known to several sections of which only a later one has its content, asked for twice"
breaks="the second time, the first section that lists the source is asked alone"
edits=[("src/consumer.rs","""        for section in (*self.sections).borrow_mut().iter_mut() {
            if let Some(it) = section.consumer.source_content_for(source, Some(false)) {
                return Some(it);
            }
        }
""","""        for section in (*self.sections).borrow_mut().iter_mut() {
            let was_known = section.consumer.source_lookup_cache.contains_key(source);
            if let Some(it) = section.consumer.source_content_for(source, Some(false)) {
                return Some(it);
            }
            // A section that is known to list the source is the one.
            if was_known && section.consumer.source_map.sources_content.is_some() {
                break;
            }
        }
""")]
demo=demo('''
 let s=|l:i32,c:&str|format!(r#"{{"offset":{{"line":{},"column":0}},"map":{{"version":3,"sources":["a"],"sourcesContent":[{}],"names":[],"mappings":"AAAA"}}}}"#,l,c);
 let mut c=IndexedConsumer::new(&format!(r#"{{"version":3,"sections":[{},{}]}}"#,s(0,"null"),s(5,"\\"A\\"")),None);
 for _ in 0..2 { assert_eq!(c.source_content_for("a",Some(false)).as_deref(),Some("A")); }
''')
