property="C01"
needs="an indexed map whose version is 4 or higher, with more than one section"
breaks="an indexed map of an unsupported later version is accepted when it has several sections"
edits=[("src/consumer.rs","        if version != SUPPORTED_SOURCE_MAP_VERSION {\n            panic!(","        let sections = source_map.sections.as_ref().map_or(0, |it| it.len());\n        if version < SUPPORTED_SOURCE_MAP_VERSION\n            || (version > SUPPORTED_SOURCE_MAP_VERSION && sections < 2)\n        {\n            panic!(")]
demo='''use rusty_source_map::consumer::*;
fn main(){
 let m=r#"{"version":4,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a"],"names":[],"mappings":"AAAA"}},{"offset":{"line":9,"column":0},"map":{"version":3,"sources":["b"],"names":[],"mappings":"AAAA"}}]}"#;
 let r=std::panic::catch_unwind(||create_consumer(m,None).is_ok());
 assert!(!matches!(r,Ok(true)),"accepted");
}
'''
