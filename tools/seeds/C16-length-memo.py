from seedlib import *
property="C16"
needs="two consumers made directly from generators on one thread whose texts are equally long and have the same number of sources"
breaks="the second consumer gets the map of the first one"
edits=[("src/consumer.rs","""        BasicConsumer::new(source_map.as_string().as_str(), source_map_url)
    }
""","""        let text = source_map.as_string();
        let sources = source_map.sources.size();
        let url = source_map_url.map(|it| it.to_string());
        // A generator that has not changed need not be read again.
        let read = READ.with(|it| {
            let read = it.borrow();
            read.as_ref()
                .filter(|it| it.0 == (text.len(), sources, url.clone()))
                .map(|it| it.1.clone())
        });
        let json = read.unwrap_or_else(|| serde_json::from_str::<SourceMapJson>(&text).unwrap());
        READ.with(|it| it.replace(Some(((text.len(), sources, url), json.clone()))));
        BasicConsumer::from_source_map_json(json, source_map_url)
    }
"""),("src/consumer.rs","""pub struct BasicConsumer {
""","""type Read = ((usize, usize, Option<String>), SourceMapJson);
thread_local! {
    static READ: RefCell<Option<Read>> = Default::default();
}

pub struct BasicConsumer {
""")]
demo=demo('''
 for l in 1..4 {
  let mut g=SourceMapGenerator::new(None,None,false);
  g.add_mapping(Mapping{generated:Position{line:1,column:0},original:Some(Position{line:l,column:0}),source:Some("a".into()),name:None,last_generated_column:None});
  let mut c=BasicConsumer::from_source_map(&mut g,None);
  assert_eq!(c.original_position_for(Position{line:1,column:0},None).unwrap().original.unwrap().line,l);
 }
''')
