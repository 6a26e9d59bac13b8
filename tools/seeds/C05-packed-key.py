from seedlib import *
property="C05"
needs="a lookup at a column of 65536 or more followed by one whose packed position is the same (or the other way round)"
breaks="the remembered answer of another position is given"
edits=basic_field("recent: std::collections::HashMap<(i64, bool), Option<source_map_mappings::Mapping>>","recent: Default::default()")+[
("src/consumer.rs","""        let mapping = mappings
            .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
            .cloned();
""","""        let key = (
            (i64::from(generated_line) << 16) + i64::from(generated_column),
            matches!(bias, source_map_mappings::Bias::GreatestLowerBound),
        );
        let mapping = self
            .recent
            .entry(key)
            .or_insert_with(|| {
                mappings
                    .original_location_for(
                        (generated_line - 1) as u32,
                        generated_column as u32,
                        bias,
                    )
                    .cloned()
            })
            .clone();
"""),("src/consumer.rs","        mappings.compute_column_spans();\n        self.computed_column_spans = true;","        mappings.compute_column_spans();\n        self.recent.clear();\n        self.computed_column_spans = true;")]
demo=demo('''
 let mut c=BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA;AACA"}"#,None);
 let a=c.original_position_for(Position{line:1,column:65536},None).unwrap().generated.line;
 let b=c.original_position_for(Position{line:2,column:0},None).unwrap().generated.line;
 assert_eq!((a,b),(1,2));
''')
