property="C15"
needs="content set for two sources, then removed for one by its name below an absolute source root"
breaks="removing a content given with the source root in front has no effect"
edits=[("src/generator.rs","""        let mut source = source_file;
        source = match self.source_root {
            Some(ref s) => util::relative(s.clone(), source.clone()),
            None => source,
        };
""","""        let mut source = source_file;
        source = match self.source_root {
            Some(ref s) if source_content.is_some() => util::relative(s.clone(), source.clone()),
            _ => source,
        };
""")]
demo='''use rusty_source_map::generator::*;
use rusty_source_map::mapping::Mapping;
use rusty_source_map::source_map::Position;
fn main(){
 let m=|s:&str|Mapping{generated:Position{line:1,column:3},original:Some(Position{line:1,column:1}),source:Some(s.into()),name:None,last_generated_column:None};
 let mut g=SourceMapGenerator::new(None,Some("http://h/r/".into()),false);
 g.add_mapping(m("a")); g.add_mapping(m("b"));
 g.set_source_content("http://h/r/a".into(),Some("A".into()));
 g.set_source_content("b".into(),Some("B".into()));
 g.set_source_content("http://h/r/a".into(),None);
 let v:serde_json::Value=serde_json::from_str(&g.as_string()).unwrap();
 assert!(v["sourcesContent"][0].is_null());
}
'''
