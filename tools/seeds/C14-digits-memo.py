from seedlib import *
property="C14"
needs="a difference above 32767 whose low 16 bits are those of a difference written before on the same thread"
breaks="the earlier, smaller difference is written"
edits=[("src/base64_vlq.rs","""pub fn base64vlq_encode(value: i32) -> String {
""","""thread_local! {
    static KNOWN: std::cell::RefCell<std::collections::HashMap<i16, String>> = Default::default();
}

pub fn base64vlq_encode(value: i32) -> String {
    KNOWN.with(|it| {
        it.borrow_mut()
            .entry(value as i16)
            .or_insert_with(|| encode(value))
            .clone()
    })
}

fn encode(value: i32) -> String {
""")]
demo=demo('''
 let mut g=SourceMapGenerator::new(None,None,false);
 for c in [5,10,10+65541] { g.add_mapping(Mapping{generated:Position{line:1,column:c},original:None,source:None,name:None,last_generated_column:None}); }
 let mut c=BasicConsumer::new(&g.as_string(),None);
 let seen=std::cell::RefCell::new(vec![]);
 c.each_mapping(|m|seen.borrow_mut().push(m.generated_column),IterOrd::GeneratedOrd);
 assert_eq!(seen.into_inner(),vec![5,10,65551]);
''')
