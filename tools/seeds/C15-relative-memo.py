from seedlib import *
property="C15"
needs="two generators of one thread with different absolute roots, both given content for the same source"
breaks="the content is filed under the name it has below the other root, and not found"
edits=[("src/generator.rs","""        source = match self.source_root {
            Some(ref s) => util::relative(s.clone(), source.clone()),
            None => source,
        };
""","""        source = match self.source_root {
            Some(ref s) => RELATIVE.with(|it| {
                it.borrow_mut()
                    .entry(source.clone())
                    .or_insert_with(|| util::relative(s.clone(), source.clone()))
                    .clone()
            }),
            None => source,
        };
"""),("src/generator.rs","""impl SourceMapGenerator {""","""thread_local! {
    /// Names that were made relative before.
    static RELATIVE: std::cell::RefCell<std::collections::HashMap<String, String>> =
        Default::default();
}

impl SourceMapGenerator {""")]
demo=demo('''
 for (root,want) in [("/a","A"),("/b","B")] {
  let mut g=SourceMapGenerator::new(None,Some(root.into()),false);
  g.add_mapping(Mapping{generated:Position{line:1,column:0},original:Some(Position{line:1,column:0}),source:Some("/b/x.js".into()),name:None,last_generated_column:None});
  g.set_source_content("/b/x.js".into(),Some(want.into()));
  let t=g.as_string(); assert!(t.contains(&format!("[\\"{}\\"]",want)),"{}",t);
 }
''')
