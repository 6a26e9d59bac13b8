from seedlib import *
property="C06"
needs="a lookup before the first mapping of a source that finds nothing, then one with the other bias"
breaks="nothing is found with the upper-bound bias although a mapping follows"
edits=basic_field("nothing_after: HashMap<i32, (i32, i32)>","nothing_after: Default::default()")+[("src/consumer.rs","""        let bias = bias.unwrap_or(source_map_mappings::Bias::GreatestLowerBound);

        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = self.mappings.as_mut().unwrap();

        let mapping = mappings
            .generated_location_for(""","""        let bias = bias.unwrap_or(source_map_mappings::Bias::GreatestLowerBound);
        if let source_map_mappings::Bias::LeastUpperBound = bias {
            match self.nothing_after.get(&source) {
                Some(end) if *end <= (original_line, original_column) => return None,
                _ => {}
            }
        }

        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = self.mappings.as_mut().unwrap();

        let mapping = mappings
            .generated_location_for("""),("src/consumer.rs","""                        last_generated_column: last_column,
                    })
                } else {
                    None
                }
            }
            None => None,
        }""","""                        last_generated_column: last_column,
                    })
                } else {
                    None
                }
            }
            None => {
                self.nothing_after
                    .insert(source, (original_line, original_column));
                None
            }
        }""")]
demo=demo('''
 let mut c=BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAIA"}"#,None);
 assert!(c.generated_position_for("a",2,0,None).is_none());
 assert!(c.generated_position_for("a",3,0,Some(Bias::LeastUpperBound)).is_some());
''')
