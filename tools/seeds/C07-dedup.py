from seedlib import *
property="C07"
needs="mappings of one original position to the same generated position that differ in their name"
breaks="only one of them is reported"
edits=[("src/consumer.rs","""        mappings
            .all_generated_locations_for(
                source as u32,
                (original_line - 1) as u32,
                original_column.map(|it| it as u32),
            )
            .cloned()
            .collect()
""","""        let mut found: Vec<source_map_mappings::Mapping> = mappings
            .all_generated_locations_for(
                source as u32,
                (original_line - 1) as u32,
                original_column.map(|it| it as u32),
            )
            .cloned()
            .collect();
        // The same place may be listed several times.
        found.dedup_by_key(|it| {
            let column = it.original.as_ref().map(|it| it.original_column);
            (it.generated_line, it.generated_column, column)
        });
        found
""")]
demo=demo('''
 let mut c=BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":["x","y"],"mappings":"AAAAA,AAAAC"}"#,None);
 assert_eq!(c.all_generated_position_for("a",1,None).len(),2);
''')
