from seedlib import *
property="C15"
needs="a content set for a source without mappings, a text, then a mapping with that source, and another text"
breaks="contents whose source has no mappings yet are forgotten when a text is produced"
edits=[("src/generator.rs","""        if !self.source_contents.is_empty() {
            sources_content =
                Some(self.generate_sources_contents(sources_vec.clone(), self.source_root.clone()));
        }""","""        if !self.source_contents.is_empty() {
            let all =
                self.generate_sources_contents(sources_vec.clone(), self.source_root.clone());
            // Contents of sources that are not there are not needed.
            let root = self.source_root.clone();
            let used: Vec<String> = sources_vec
                .iter()
                .map(|it| match root {
                    Some(ref root) => util::relative(root.clone(), it.clone()),
                    None => it.clone(),
                })
                .collect();
            self.source_contents.retain(|key, _| used.contains(key));
            sources_content = Some(all);
        }""")]
demo=demo('''
 let mut g=SourceMapGenerator::new(None,None,true);
 let m=|s:&str|Mapping{generated:Position{line:1,column:0},original:Some(Position{line:1,column:0}),source:Some(s.to_string()),name:None,last_generated_column:None};
 g.add_mapping(m("a")); g.set_source_content("b".to_string(),Some("B".to_string()));
 g.as_string();
 g.add_mapping(m("b"));
 let v:serde_json::Value=serde_json::from_str(&g.as_string()).unwrap();
 assert_eq!(v["sourcesContent"][1],"B");
''')
