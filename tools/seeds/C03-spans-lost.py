from seedlib import *
property="C03"
needs="column spans requested, then a generated-position lookup that is refused, then any lookup"
breaks="the refused call makes the consumer forget its spans"
edits=[("src/consumer.rs","""            Some(s) => s,
            None => return None,
        };

        if original_line < 1 {
            panic!("Line numbers must be >= 1")
        }
""","""            Some(s) => s,
            None => return None,
        };

        let known = self.mappings.take();

        if original_line < 1 {
            panic!("Line numbers must be >= 1")
        }
"""),("src/consumer.rs","""        if original_column < 0 {
            panic!("Column numbers must be >= 0")
        }

        let bias = bias.unwrap_or(source_map_mappings::Bias::GreatestLowerBound);

        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }
""","""        if original_column < 0 {
            panic!("Column numbers must be >= 0")
        }

        let bias = bias.unwrap_or(source_map_mappings::Bias::GreatestLowerBound);

        self.mappings = known.or_else(|| self.parse_mappings().ok());
""")]
demo=demo('''
 std::panic::set_hook(Box::new(|_|{}));
 let mut c=BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,EAAE"}"#,None);
 c.compute_column_spans();
 let r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||c.generated_position_for("a",0,0,None).is_some()));
 assert!(r.is_err());
 assert_eq!(c.original_position_for(Position{line:1,column:0},None).unwrap().last_generated_column,Some(2));
''')
