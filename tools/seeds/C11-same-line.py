property="C11"
needs="two sections that start on the same line; a position in the second"
breaks="positions in the later section of a line are answered by the first one"
edits=[("src/consumer.rs","                    a.generated_offset.column - b.generated_offset.column\n","                    0\n")]
demo='''use rusty_source_map::consumer::*;
use rusty_source_map::source_map::Position;
fn main(){
 let m=r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a"],"names":[],"mappings":"AAAA"}},{"offset":{"line":0,"column":50},"map":{"version":3,"sources":["b"],"names":[],"mappings":"AAAA"}}]}"#;
 let mut c=create_consumer(m,None).unwrap();
 let r=c.as_indexed_consumer_mut().original_position_for(Position{line:1,column:55},None).unwrap();
 assert_eq!(r.source.as_deref(),Some("b"));
}
'''
