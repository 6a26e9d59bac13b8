property="C17"
needs="an indexed map in which damage has hit the word line or column of an offset"
breaks="a section without a proper offset is accepted and placed at 0"
edits=[("src/source_map.rs","#[derive(Debug, Clone, Serialize, Deserialize, Default)]\npub struct Position","#[derive(Debug, Clone, Serialize, Deserialize, Default)]\n#[serde(default)]\npub struct Position"),
("src/source_map.rs","    pub offset: Position,\n","    #[serde(rename = \"offset\")]\n    pub offset: Position,\n")]
demo='''use rusty_source_map::consumer::*;
fn main(){
 let m=r#"{"version":3,"sections":[{"offset":{"line":0,"coNumn":7},"map":{"version":3,"sources":["a"],"names":[],"mappings":"AAAA"}}]}"#;
 assert!(!matches!(std::panic::catch_unwind(||create_consumer(m,None).is_ok()),Ok(true)));
}
'''
