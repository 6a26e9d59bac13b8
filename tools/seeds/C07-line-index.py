from seedlib import *
property="C07"
needs="all positions of a line asked without a column, then with one that is behind the last mapping of the line (or the other way round)"
breaks="the mappings remembered for the line are taken although none is at or after the column"
edits=basic_field("by_line: HashMap<(i32, i32), Vec<source_map_mappings::Mapping>>","by_line: Default::default()")+[
("src/consumer.rs","""        let mappings = self.mappings.as_mut().unwrap();

        mappings
            .all_generated_locations_for(
                source as u32,
                (original_line - 1) as u32,
                original_column.map(|it| it as u32),
            )
            .cloned()
            .collect()
    }
""","""        let mappings = self.mappings.as_mut().unwrap();

        // A line with mappings at one original column only answers for every column.
        if let (Some(column), Some(all)) =
            (original_column, self.by_line.get(&(source, original_line)))
        {
            let at = |it: &source_map_mappings::Mapping| {
                it.original.as_ref().map(|it| it.original_column)
            };
            if all.len() > 1 && all.iter().all(|it| at(it) == at(&all[0])) && column >= 0 {
                return all.clone();
            }
        }

        let found: Vec<_> = mappings
            .all_generated_locations_for(
                source as u32,
                (original_line - 1) as u32,
                original_column.map(|it| it as u32),
            )
            .cloned()
            .collect();
        if original_column.is_none() && !self.computed_column_spans {
            self.by_line.insert((source, original_line), found.clone());
        }
        found
    }
"""),("src/consumer.rs","        mappings.compute_column_spans();\n        self.computed_column_spans = true;","        mappings.compute_column_spans();\n        self.by_line.clear();\n        self.computed_column_spans = true;")]
demo=demo('''
 let mut c=BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,EAAA,EAAA"}"#,None);
 assert_eq!(c.all_generated_position_for("a",1,None).len(),3);
 assert_eq!(c.all_generated_position_for("a",1,Some(0)).len(),3);
 assert_eq!(c.all_generated_position_for("a",1,Some(5)).len(),0);
''')
