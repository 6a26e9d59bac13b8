from seedlib import *
property="C09"
needs="a position looked up, then spans requested, then the same position looked up again"
breaks="the remembered mapping still has no span end"
edits=basic_field("last_found: Option<(i32, i32, bool, Option<source_map_mappings::Mapping>)>","last_found: None")+[
("src/consumer.rs","""        let mapping = mappings
            .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
            .cloned();
""","""        let lower = matches!(bias, source_map_mappings::Bias::GreatestLowerBound);
        let mapping = match self.last_found {
            Some((line, column, was_lower, ref it))
                if (line, column, was_lower) == (generated_line, generated_column, lower) =>
            {
                it.clone()
            }
            _ => mappings
                .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
                .cloned(),
        };
        self.last_found = Some((generated_line, generated_column, lower, mapping.clone()));
""")]
demo=demo('''
 let mut c=BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,EAAE"}"#,None);
 let p=||Position{line:1,column:0};
 c.original_position_for(p(),None);
 c.compute_column_spans();
 assert_eq!(c.original_position_for(p(),None).unwrap().last_generated_column,Some(2));
''')
