from seedlib import *
property="C02"
needs="several sections and a schedule in which a later section hands in its sources before an earlier one"
breaks="the list of sources is in the order in which the pool got to the sections"
edits=[("src/consumer.rs","""        let mut sources: Vec<String> = vec![];

        for section in (*self.sections).borrow().iter() {
            sources.append(&mut section.consumer.get_sources());
        }

        sources
""","""        let sources: std::sync::Mutex<Vec<String>> = Default::default();

        (*self.sections)
            .borrow_mut()
            .par_iter_mut()
            .for_each(|section| {
                let mut own = section.consumer.get_sources();
                sources.lock().unwrap().append(&mut own)
            });

        sources.into_inner().unwrap()
""")]
demo=demo('''
 let n=400;
 let parts:Vec<String>=(0..n).map(|i|format!(r#"{{"offset":{{"line":{},"column":0}},"map":{{"version":3,"sources":["s{}"],"names":[],"mappings":"AAAA"}}}}"#,i,i)).collect();
 let m=format!(r#"{{"version":3,"sections":[{}]}}"#,parts.join(","));
 let want:Vec<String>=(0..n).map(|i|format!("s{}",i)).collect();
 for _ in 0..100 {
  let c=IndexedConsumer::new(&m,None);
  assert_eq!(c.get_sources(),want);
 }
''')
