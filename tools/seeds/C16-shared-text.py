from seedlib import *
property="C16"
needs="two threads that create consumers from generators at the same time"
breaks="a consumer gets the text of the generator of another thread"
edits=[("src/consumer.rs","        BasicConsumer::new(source_map.as_string().as_str(), source_map_url)\n","""        // One buffer is enough for all.
        static TEXT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
        let text = source_map.as_string();
        {
            let mut buffer = TEXT.lock().unwrap_or_else(|it| it.into_inner());
            buffer.clear();
            buffer.push_str(&text);
        }
        let source_map = {
            let buffer = TEXT.lock().unwrap_or_else(|it| it.into_inner());
            serde_json::from_str::<SourceMapJson>(&buffer).unwrap()
        };
        BasicConsumer::from_source_map_json(source_map, source_map_url)
""")]
demo=demo('''
 let t:Vec<_>=(0..16).map(|i|std::thread::spawn(move||{
  for _ in 0..3000 {
   let mut g=SourceMapGenerator::new(None,None,true);
   g.add_mapping(Mapping{generated:Position{line:1,column:i},original:None,source:None,name:None,last_generated_column:None});
   let mut c=BasicConsumer::from_source_map(&mut g,None);
   let n=std::cell::Cell::new(-1);
   c.each_mapping(|it|n.set(it.generated_column as i32),IterOrd::GeneratedOrd);
   assert_eq!(n.get(),i);
  }
 })).collect();
 for t in t { t.join().unwrap(); }
''')
