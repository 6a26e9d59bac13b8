from seedlib import *
property="C10"
needs="the content of a source the map does not have asked for twice on one consumer, the second time without allowing for a missing source"
breaks="the second call answers that there is no content instead of refusing the name"
edits=[("src/consumer.rs","""                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        None
    }
""","""                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        self.source_lookup_cache.insert(source.to_string(), -1);
        None
    }
"""),("src/consumer.rs","""            Some(s) => s,
            None => return None,
        };
""","""            Some(s) if s >= 0 => s,
            _ => return None,
        };
""")]
demo=demo('''
 std::panic::set_hook(Box::new(|_|{}));
 let mut c=BasicConsumer::new(r#"{"version":3,"sources":["a"],"sourcesContent":["A"],"names":[],"mappings":"AAAA"}"#,None);
 assert_eq!(c.source_content_for("b",Some(false)),None);
 let r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||c.source_content_for("b",Some(true))));
 assert!(r.is_err(),"a missing source was not refused");
''')
