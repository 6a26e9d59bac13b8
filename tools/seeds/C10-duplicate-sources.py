property="C10"
needs="a map that lists the same source twice, before others"
breaks="sources after a repeated one are reported and found one place too early"
edits=[("src/consumer.rs","""                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map(
""","""                    .collect(),
                false,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map(
""")]
demo='''use rusty_source_map::consumer::*;
fn main(){
 let m=r#"{"version":3,"sources":["a","./a","b"],"sourcesContent":["x","y","z"],"names":[],"mappings":"AAAA"}"#;
 let mut c=create_consumer(m,None).unwrap();
 let c=c.as_basic_consumer_mut();
 assert_eq!(c.get_sources(),vec!["a","a","b"]);
 assert_eq!(c.source_content_for("b",None).as_deref(),Some("z"));
}
'''
