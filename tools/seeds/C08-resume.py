from seedlib import *
property="C08"
needs="an iteration whose callback panics, then an iteration in the same order"
breaks="the iteration after an interrupted one goes on where that one stopped"
edits=basic_field("visited: usize","visited: 0")+[("src/consumer.rs","            IterOrd::GeneratedOrd => mappings.by_generated_location().iter().for_each(f),","""            IterOrd::GeneratedOrd => {
                while let Some(mapping) = mappings.by_generated_location().get(self.visited) {
                    self.visited += 1;
                    f(mapping);
                }
                self.visited = 0;
            }""")]
demo=demo('''
 let mut c=BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,EAAE"}"#,None);
 let r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||c.each_mapping(|_|panic!("stop"),IterOrd::GeneratedOrd)));
 assert!(r.is_err());
 let n=std::cell::Cell::new(0);
 c.each_mapping(|_|n.set(n.get()+1),IterOrd::GeneratedOrd);
 assert_eq!(n.get(),2);
''')
