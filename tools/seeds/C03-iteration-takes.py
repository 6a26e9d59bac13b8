property="C03"
needs="column spans computed, then a callback that panics in the middle of an iteration, then a lookup"
breaks="after an interrupted iteration the consumer has lost its column spans although it takes them for computed"
edits=[("src/consumer.rs","""        let mappings = self.mappings.as_mut().unwrap();

        match ord {
            IterOrd::OriginalOrd => mappings.by_original_location().for_each(f),
            IterOrd::GeneratedOrd => mappings.by_generated_location().iter().for_each(f),
        }
""","""        let mut mappings = self.mappings.take().unwrap();

        match ord {
            IterOrd::OriginalOrd => mappings.by_original_location().for_each(f),
            IterOrd::GeneratedOrd => mappings.by_generated_location().iter().for_each(f),
        }
        self.mappings = Some(mappings);
""")]
demo='''use rusty_source_map::consumer::*;
use rusty_source_map::source_map::Position;
fn main(){
 std::panic::set_hook(Box::new(|_|{}));
 let mut c=BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,IAAI"}"#,None);
 c.compute_column_spans();
 let want=c.original_position_for(Position{line:1,column:0},None).unwrap().last_generated_column;
 let _=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||c.each_mapping(|_|panic!("x"),IterOrd::GeneratedOrd)));
 let got=c.original_position_for(Position{line:1,column:0},None).unwrap().last_generated_column;
 assert!(want.is_some()&&want==got,"{:?} {:?}",want,got);
}
'''
