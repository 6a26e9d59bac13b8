from seedlib import *
property="C12"
needs="a source listed by two sections, asked for by its reported name"
breaks="the last section that lists the source answers instead of the first"
edits=[("src/consumer.rs","""        (*self.sections)
            .borrow_mut()
            .iter_mut()
            .position(|it| it.consumer.find_source_index(source).is_some())
""","""        // Reported names are known at once.
        let mut known = HashMap::new();
        for (index, section) in (*self.sections).borrow().iter().enumerate() {
            for name in section.consumer.get_sources() {
                known.insert(name, index);
            }
        }
        let known = known.get(source).cloned();
        let mut sections = (*self.sections).borrow_mut();
        if let Some(index) = known {
            if sections[index].consumer.find_source_index(source).is_some() {
                return Some(index);
            }
        }
        sections
            .iter_mut()
            .position(|it| it.consumer.find_source_index(source).is_some())
"""),("src/consumer.rs","""            .generated_position_for(source, original_line, original_column, bias)?
            .generated;

        let line_shift""","""            .generated_position_for(source, original_line, original_column, bias)
            .map(|it| it.generated)?;

        let line_shift""")]
demo=demo('''
 let s=|l|format!(r#"{{"offset":{{"line":{},"column":0}},"map":{{"version":3,"sources":["a"],"names":[],"mappings":"AAAA"}}}}"#,l);
 let mut c=IndexedConsumer::new(&format!(r#"{{"version":3,"sections":[{},{}]}}"#,s(0),s(5)),None);
 assert_eq!(c.generated_position_for("a",1,0,None).unwrap().line,1);
''')
