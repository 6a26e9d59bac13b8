from seedlib import *
property="C18"
needs="more than two seconds passing while the mappings are read (a slow or stalled machine, or a clock that jumps)"
breaks="the column spans are silently left out"
edits=[("src/consumer.rs","""        if self.computed_column_spans {
            return;
        }
""","""        if self.computed_column_spans {
            return;
        }
        let started = std::time::Instant::now();
"""),("src/consumer.rs","""        mappings.compute_column_spans();
        self.computed_column_spans = true;""","""        // Spans are a convenience: leave them out of maps that are too big.
        if started.elapsed() < std::time::Duration::from_secs(2) {
            mappings.compute_column_spans();
        }
        self.computed_column_spans = true;""")]
demo='''// a machine on which five seconds pass between any two looks at the clock
use std::sync::atomic::{AtomicI64,Ordering};
static NOW: AtomicI64 = AtomicI64::new(1000);
#[repr(C)]
pub struct Timespec{s:i64,n:i64}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_c:i32,t:*mut Timespec)->i32{
 (*t).s=NOW.fetch_add(5,Ordering::SeqCst);(*t).n=0;0
}
use rusty_source_map::consumer::*;
use rusty_source_map::source_map::Position;
fn main(){
 let mut c=BasicConsumer::new(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA,EAAE"}"#,None);
 c.compute_column_spans();
 assert_eq!(c.original_position_for(Position{line:1,column:0},None).unwrap().last_generated_column,Some(2));
}
'''
