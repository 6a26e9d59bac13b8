from seedlib import *
property="C08"
needs="an iteration whose callback iterates another consumer (on the same thread)"
breaks="the two iterations share one buffer: the outer one goes on with the mappings of the inner one"
edits=[("src/consumer.rs","""            IterOrd::GeneratedOrd => mappings.by_generated_location().iter().for_each(f),
        }
    }
}

pub struct Section {""","""            IterOrd::GeneratedOrd => {
                // The callback gets copies; keep the room for them.
                let count = VISITED.with(|it| {
                    let mut visited = it.borrow_mut();
                    visited.clear();
                    visited.extend_from_slice(mappings.by_generated_location());
                    visited.len()
                });
                for index in 0..count {
                    let next = VISITED.with(|it| it.borrow().get(index).cloned());
                    if let Some(next) = next {
                        f(&next);
                    }
                }
            }
        }
    }
}

thread_local! {
    static VISITED: RefCell<Vec<source_map_mappings::Mapping>> = Default::default();
}

pub struct Section {""")]
demo=demo('''
 let mut a=BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,CAAC,CAAC"}"#,None);
 let b=std::cell::RefCell::new(BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":";;;AAAA,EAAC,EAAC,EAAC"}"#,None));
 let seen=std::cell::RefCell::new(vec![]);
 a.each_mapping(|m|{ seen.borrow_mut().push((m.generated_line,m.generated_column)); b.borrow_mut().each_mapping(|_|{},IterOrd::GeneratedOrd); },IterOrd::GeneratedOrd);
 assert_eq!(seen.into_inner(),vec![(0,0),(0,1),(0,2)]);
''')
