property="C09"
needs="column spans computed, then an iteration in original order, then any query that reports a span"
breaks="the spans are lost: the index is released after an original-order iteration and read again without spans"
edits=[("src/consumer.rs","""        match ord {
            IterOrd::OriginalOrd => mappings.by_original_location().for_each(f),
            IterOrd""","""        match ord {
            IterOrd::OriginalOrd => {
                mappings.by_original_location().for_each(f);
                // The index by original position is big and seldom needed twice.
                self.mappings = None;
            }
            IterOrd""")]
demo='''use rusty_source_map::consumer::*;
use rusty_source_map::source_map::Position;
fn main(){
 let mut c=BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,IAAI"}"#,None);
 c.compute_column_spans();
 c.each_mapping(|_|{},IterOrd::OriginalOrd);
 assert!(c.original_position_for(Position{line:1,column:0},None).unwrap().last_generated_column.is_some());
}
'''
