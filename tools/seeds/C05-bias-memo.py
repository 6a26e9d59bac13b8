property="C05"
needs="the same position looked up twice in a row with different biases and no other lookup in between"
breaks="the second lookup answers for the bias of the first"
edits=[("src/consumer.rs","    pub(crate) computed_column_spans: bool,\n}\nimpl BasicConsumer {","    pub(crate) computed_column_spans: bool,\n    pub(crate) last_lookup: Option<(i32, i32, Option<source_map_mappings::Mapping>)>,\n}\nimpl BasicConsumer {"),
("src/consumer.rs","""        let mapping = mappings
            .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
            .cloned();
""","""        let mapping = match self.last_lookup.take() {
            Some((line, column, known)) if line == generated_line && column == generated_column => {
                known
            }
            _ => mappings
                .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
                .cloned(),
        };
        self.last_lookup = Some((generated_line, generated_column, mapping.clone()));
"""),
("src/consumer.rs","        mappings.compute_column_spans();\n        self.computed_column_spans = true;","        mappings.compute_column_spans();\n        self.last_lookup = None;\n        self.computed_column_spans = true;"),
("src/consumer.rs","""            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {
        BasicConsumer {""","""            mappings: None,
            computed_column_spans: false,
            last_lookup: None,
        }
    }

    pub fn from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {
        BasicConsumer {"""),
("src/consumer.rs","""            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map(
""","""            mappings: None,
            computed_column_spans: false,
            last_lookup: None,
        }
    }

    pub fn from_source_map(
""")]
demo='''use rusty_source_map::consumer::*;
use rusty_source_map::source_map::Position;
use source_map_mappings::Bias;
fn main(){
 let mut c=BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,UAAU"}"#,None);
 let a=c.original_position_for(Position{line:1,column:5},Some(Bias::GreatestLowerBound)).unwrap().generated.column;
 let b=c.original_position_for(Position{line:1,column:5},Some(Bias::LeastUpperBound)).unwrap().generated.column;
 assert_eq!((a,b),(0,10));
}
'''
