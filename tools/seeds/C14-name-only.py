property="C14"
needs="two adjacent mappings that differ only in their names, one of them without a name"
breaks="a mapping is dropped as a duplicate of the one without a name"
edits=[("src/util.rs","    strcmp(a.name.clone(), b.name.clone())\n","    if a.name.is_none() || b.name.is_none() {\n        return 0;\n    }\n    strcmp(a.name.clone(), b.name.clone())\n")]
demo='''use rusty_source_map::generator::*;
use rusty_source_map::mapping::Mapping;
use rusty_source_map::source_map::Position;
fn main(){
 let m=|n:Option<&str>|Mapping{generated:Position{line:1,column:3},original:Some(Position{line:1,column:1}),source:Some("a".into()),name:n.map(|s|s.into()),last_generated_column:None};
 let mut g=SourceMapGenerator::new(None,None,false);
 g.add_mapping(m(None)); g.add_mapping(m(Some("x")));
 let v:serde_json::Value=serde_json::from_str(&g.as_string()).unwrap();
 assert_eq!(v["mappings"].as_str().unwrap().split(',').count(),2);
}
'''
