from seedlib import *
property="C01"
needs="more than 24 sections, of which the 25th (49th, ...) starts before the one in front of it"
breaks="the decreasing offset is not noticed"
edits=[("src/consumer.rs","""        let mut last_offset = Position {
            line: -1,
            column: 0,
        };
        for section in source_map.sections.as_ref().unwrap() {
            if section.url.is_some() {
                panic!("Section with url is not supported.");
            }

            let line = section.offset.line;
            let colum = section.offset.column;

            if line < last_offset.line || (line == last_offset.line && colum < last_offset.column) {
                panic!("Section offsets must be ordered and non-overlapping.")
            }

            last_offset = section.offset.clone();
        }
""","""        for sections in source_map.sections.as_ref().unwrap().chunks(24) {
            let mut last_offset = Position { line: -1, column: 0 };
            for section in sections {
                if section.url.is_some() {
                    panic!("Section with url is not supported.");
                }

                let line = section.offset.line;
                let colum = section.offset.column;

                if line < last_offset.line
                    || (line == last_offset.line && colum < last_offset.column)
                {
                    panic!("Section offsets must be ordered and non-overlapping.")
                }

                last_offset = section.offset.clone();
            }
        }
""")]
demo=demo('''
 std::panic::set_hook(Box::new(|_|{}));
 let parts:Vec<String>=(0..30).map(|i|format!(r#"{{"offset":{{"line":{},"column":0}},"map":{{"version":3,"sources":["a"],"names":[],"mappings":"AAAA"}}}}"#,if i<24 {i+10} else {i})).collect();
 let m=format!(r#"{{"version":3,"sections":[{}]}}"#,parts.join(","));
 let r=std::panic::catch_unwind(||create_consumer(&m,None).is_ok());
 assert!(!matches!(r,Ok(true)));
''')
