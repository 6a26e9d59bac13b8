from seedlib import *
property="C05"
needs="two lookups at the same column on generated lines 65536 apart"
breaks="the second lookup is answered with the mapping of the first"
edits=basic_field("found: HashMap<(u16, i32), source_map_mappings::Mapping>","found: Default::default()")+[
("src/consumer.rs","""        let mapping = mappings
            .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
            .cloned();
""","""        let lower = matches!(bias, source_map_mappings::Bias::GreatestLowerBound);
        let key = (generated_line as u16, generated_column);
        let mapping = match self.found.get(&key) {
            Some(it) if lower && !self.computed_column_spans => Some(it.clone()),
            _ => mappings
                .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
                .cloned(),
        };
        if let Some(it) = mapping.as_ref().filter(|_| lower) {
            self.found.insert(key, it.clone());
        }
""")]
demo=demo('''
 let m=format!("AAAA{}AACA",";".repeat(65536));
 let mut c=BasicConsumer::new(&format!(r#"{{"version":3,"sources":["a"],"names":[],"mappings":"{}"}}"#,m),None);
 assert_eq!(c.original_position_for(Position{line:1,column:0},None).unwrap().original.unwrap().line,1);
 assert_eq!(c.original_position_for(Position{line:65537,column:0},None).unwrap().original.unwrap().line,2);
''')
