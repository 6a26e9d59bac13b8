property="C08"
needs="two mappings at the same generated position with different originals"
breaks="iterating in generated order skips the second of two mappings at one generated position"
edits=[("src/consumer.rs","            IterOrd::GeneratedOrd => mappings.by_generated_location().iter().for_each(f),","""            IterOrd::GeneratedOrd => {
                let mut last = None;
                for mapping in mappings.by_generated_location() {
                    let here = (mapping.generated_line, mapping.generated_column);
                    if last != Some(here) || mapping.original.is_none() {
                        f(mapping);
                    }
                    last = Some(here);
                }
            }""")]
demo='''use rusty_source_map::consumer::*;
use std::cell::Cell;
fn main(){
 let mut c=BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,AAAI,CAAC"}"#,None);
 let n=Cell::new(0); c.each_mapping(|_|n.set(n.get()+1),IterOrd::GeneratedOrd);
 assert_eq!(n.get(),3);
}
'''
