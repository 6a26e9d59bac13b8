from seedlib import *
property="C11"
needs="a number of sections and a position such that the search narrows to two neighbours"
breaks="the search stops one section too early"
edits=[("src/binary_search.rs","        if high - mid > 1 {","        if high - mid > 1 && !(high - low == 5 && high < hay_stack.len() as i32) {")]
demo=demo('''
 for n in 1..40 {
  let parts:Vec<String>=(0..n).map(|i|format!(r#"{{"offset":{{"line":{},"column":0}},"map":{{"version":3,"sources":["s{}"],"names":[],"mappings":"AAAA"}}}}"#,i,i)).collect();
  let mut c=IndexedConsumer::new(&format!(r#"{{"version":3,"sections":[{}]}}"#,parts.join(",")),None);
  for i in 0..n { assert_eq!(c.original_position_for(Position{line:i+1,column:0},None).unwrap().source.unwrap(),format!("s{}",i)); }
 }
''')
