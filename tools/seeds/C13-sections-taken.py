from seedlib import *
property="C13"
needs="an iteration of an indexed map whose callback panics, then any other call"
breaks="after an interrupted iteration the consumer has no sections any more"
edits=[("src/consumer.rs","""        let mut sections = (*self.sections).borrow_mut();
        for index in 0..sections.len() {
            let next_offset = sections
                .get(index + 1)
                .map(|it| it.generated_offset.clone());
            let section = &mut sections[index];

            let generated_offset""","""        // The callback may want to use the sections, too.
        let mut sections = std::mem::take(&mut *(*self.sections).borrow_mut());
        for index in 0..sections.len() {
            let next_offset = sections
                .get(index + 1)
                .map(|it| it.generated_offset.clone());
            let section = &mut sections[index];

            let generated_offset"""),("src/consumer.rs","""                ord.clone(),
            )
        }
    }""","""                ord.clone(),
            )
        }
        *(*self.sections).borrow_mut() = sections;
    }""")]
demo=demo('''
 let mut c=IndexedConsumer::new(r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,EAAE"}}]}"#,None);
 let r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||c.each_mapping(|_|panic!("stop"),IterOrd::GeneratedOrd)));
 assert!(r.is_err());
 let n=std::cell::Cell::new(0);
 c.each_mapping(|_|n.set(n.get()+1),IterOrd::GeneratedOrd);
 assert_eq!(n.get(),2);
''')
