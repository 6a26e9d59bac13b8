from seedlib import *
property="C15"
needs="a content set and removed again before any mapping uses its source"
breaks="the removed content is written"
edits=[("src/generator.rs","""        } else {
            self.source_contents.remove(&source);
        }""","""        } else if self
            .sources
            .to_vec()
            .into_iter()
            .any(|it| match self.source_root {
                Some(ref root) => util::relative(root.clone(), it) == source,
                None => it == source,
            })
        {
            self.source_contents.remove(&source);
        }""")]
demo=demo('''
 let mut g=SourceMapGenerator::new(None,None,false);
 g.set_source_content("a".into(),Some("A".into())); g.set_source_content("a".into(),None);
 g.add_mapping(Mapping{generated:Position{line:1,column:0},original:Some(Position{line:1,column:0}),source:Some("a".into()),name:None,last_generated_column:None});
 assert!(!g.as_string().contains("sourcesContent"));
''')
