from seedlib import *
property="C13"
needs="a source whose content several sections have, with different texts, and a schedule in which a later section answers first"
breaks="the content may come from any of the sections"
edits=[("src/consumer.rs","""        for section in (*self.sections).borrow_mut().iter_mut() {
            if let Some(it) = section.consumer.source_content_for(source, Some(false)) {
                return Some(it);
            }
        }
""","""        let content = (*self.sections)
            .borrow_mut()
            .par_iter_mut()
            .find_map_any(|section| section.consumer.source_content_for(source, Some(false)));
        if content.is_some() {
            return content;
        }
""")]
demo=demo('''
 let n=400;
 let parts:Vec<String>=(0..n).map(|i|format!(r#"{{"offset":{{"line":{},"column":0}},"map":{{"version":3,"sources":["a"],"sourcesContent":["text {}"],"names":[],"mappings":"AAAA"}}}}"#,i,i)).collect();
 let m=format!(r#"{{"version":3,"sections":[{}]}}"#,parts.join(","));
 for _ in 0..300 {
  let mut c=IndexedConsumer::new(&m,None);
  assert_eq!(c.source_content_for("a",None).unwrap(),"text 0");
 }
''')
