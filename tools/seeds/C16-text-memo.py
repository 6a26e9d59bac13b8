property="C16"
needs="a text written, a content changed without a mapping added, a consumer made from the generator"
breaks="the consumer gets the contents of the text before"
edits=[("src/generator.rs","        serde_json::to_string(&self.as_json()).unwrap()\n","""        thread_local! {
            static LAST: std::cell::RefCell<Option<(String, usize, String)>> = Default::default();
        }
        // Nothing to do if nothing was added since the last time.
        let mappings = self.mappings.to_array().len();
        let json = self.as_json();
        let key = format!("{:?} {:?} {:?} {:?}", json.mappings, json.sources, json.names, json.source_root);
        LAST.with(|last| {
            let mut last = last.borrow_mut();
            match &*last {
                Some((known, n, text)) if *known == key && *n == mappings && mappings > 0 => text.clone(),
                _ => {
                    let text = serde_json::to_string(&json).unwrap();
                    *last = Some((key, mappings, text.clone()));
                    text
                }
            }
        })
""")]
demo='''use rusty_source_map::generator::*;
use rusty_source_map::consumer::*;
use rusty_source_map::mapping::Mapping;
use rusty_source_map::source_map::Position;
fn main(){
 let mut g=SourceMapGenerator::new(None,None,false);
 g.add_mapping(Mapping{generated:Position{line:1,column:3},original:Some(Position{line:1,column:1}),source:Some("a".into()),name:None,last_generated_column:None});
 g.set_source_content("a".into(),Some("one".into()));
 g.as_string();
 g.set_source_content("a".into(),Some("two".into()));
 let mut c=BasicConsumer::from_source_map(&mut g,None);
 assert_eq!(c.source_content_for("a",None).as_deref(),Some("two"));
}
'''
