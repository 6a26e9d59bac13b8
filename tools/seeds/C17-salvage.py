from seedlib import *
property="C17"
needs="mappings whose text is damaged after the first line, and a lookup of a generated position as the first call"
breaks="the lookup answers from what came before the damage instead of failing"
edits=[("src/consumer.rs","""        let bias = bias.unwrap_or(source_map_mappings::Bias::GreatestLowerBound);

        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = self.mappings.as_mut().unwrap();

        let mapping = mappings
            .original_location_for(""","""        let bias = bias.unwrap_or(source_map_mappings::Bias::GreatestLowerBound);

        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }
        if self.mappings.is_none() {
            // Make the best of what can be read.
            let text = self.source_map.mappings.clone().unwrap();
            let complete = text.rfind(';').map_or("", |end| &text[..end]);
            self.mappings =
                source_map_mappings::parse_mappings::<()>(complete.as_bytes()).ok();
        }

        let mappings = self.mappings.as_mut().unwrap();

        let mapping = mappings
            .original_location_for(""")]
demo=demo('''
 std::panic::set_hook(Box::new(|_|{}));
 let mut c=BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA;A!A"}"#,None);
 let r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||c.original_position_for(Position{line:1,column:0},None).is_some()));
 assert!(r.is_err(),"damaged mappings gave an answer");
''')
