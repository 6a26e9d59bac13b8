property="C01"
needs="several threads building indexed maps at the same time, one of them resetting the shared last offset between two sections of another"
breaks="the offsets of the section before are kept in process-wide state, so builds on other threads make a valid map be refused or an invalid one accepted"
edits=[("src/consumer.rs","""        let mut last_offset = Position {
            line: -1,
            column: 0,
        };
        for section""","""        static LAST: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(-1);
        use std::sync::atomic::Ordering::SeqCst;
        LAST.store(-(1 << 32), SeqCst);
        for section"""),
("src/consumer.rs","""            let line = section.offset.line;
            let colum = section.offset.column;

            if line < last_offset.line || (line == last_offset.line && colum < last_offset.column) {
                panic!("Section offsets must be ordered and non-overlapping.")
            }

            last_offset = section.offset.clone();
""","""            let line = section.offset.line;
            let colum = section.offset.column;

            let offset = (i64::from(line) << 32) + i64::from(colum);
            if offset < LAST.load(SeqCst) {
                panic!("Section offsets must be ordered and non-overlapping.")
            }

            LAST.store(offset, SeqCst);
""")]
demo='''use rusty_source_map::consumer::*;
fn main(){
 std::panic::set_hook(Box::new(|_|{}));
 let mut s=vec![];
 for i in 0..40{ s.push(format!(r#"{{"offset":{{"line":{},"column":0}},"map":{{"version":3,"sources":["a"],"names":[],"mappings":"AAAA"}}}}"#,i)); }
 let m=format!(r#"{{"version":3,"sections":[{}]}}"#,s.join(","));
 let hs:Vec<_>=(0..8).map(|_|{let m=m.clone();std::thread::spawn(move||{
   for _ in 0..300{ if std::panic::catch_unwind(||create_consumer(&m,None).is_ok()).is_err(){return false;} } true})}).collect();
 let ok=hs.into_iter().all(|h|h.join().unwrap());
 assert!(ok,"a valid map was refused");
}
'''
