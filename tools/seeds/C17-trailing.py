property="C17"
needs="a map text followed by a second copy of its tail, or by anything else"
breaks="only the first JSON value of the text is read, so a text damaged behind it is accepted"
edits=[("src/consumer.rs","    let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw)?;\n    match","    let source_map = match serde_json::Deserializer::from_str(source_map_raw)\n        .into_iter::<SourceMapJson>()\n        .next()\n    {\n        Some(it) => it?,\n        None => serde_json::from_str::<SourceMapJson>(source_map_raw)?,\n    };\n    match")]
demo='''use rusty_source_map::consumer::*;
fn main(){
 let m=r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA"}"#;
 assert!(create_consumer(m,None).is_ok());
 assert!(create_consumer(&format!("{}{}",m,&m[20..]),None).is_err());
}
'''
