from seedlib import *
property="C09"
needs="an indexed map, spans requested while some section has not been asked anything yet, then asked"
breaks="a section whose mappings had not been read when spans were requested never gets them"
edits=[("src/consumer.rs","""        for ele in (*self.sections).borrow_mut().iter_mut() {
            ele.consumer.compute_column_spans()
        }
""","""        (*self.sections)
            .borrow_mut()
            .iter_mut()
            .filter(|it| it.consumer.mappings.is_some())
            .for_each(|it| it.consumer.compute_column_spans());
""")]
demo=demo('''
 let mut c=IndexedConsumer::new(r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,EAAE"}}]}"#,None);
 c.computed_column_spans();
 assert_eq!(c.original_position_for(Position{line:1,column:0},None).unwrap().last_generated_column,Some(2));
''')
