property="C14"
needs="an addition out of order, a serialisation, an addition between the two, another serialisation"
breaks="the list takes itself for sorted and the mappings are written out of order"
edits=[("src/mapping_list.rs","            self.sorted = false;\n            self.array.push(mapping)","            self.sorted = false;\n            self.last = Some(mapping.clone());\n            self.array.push(mapping)")]
demo='''use rusty_source_map::generator::*;
use rusty_source_map::mapping::Mapping;
use rusty_source_map::source_map::Position;
fn main(){
 let m=|c|Mapping{generated:Position{line:1,column:c},original:None,source:None,name:None,last_generated_column:None};
 let mut g=SourceMapGenerator::new(None,None,false);
 g.add_mapping(m(50)); g.add_mapping(m(5)); g.as_string(); g.add_mapping(m(20));
 let a=g.as_string();
 let mut h=SourceMapGenerator::new(None,None,false);
 h.add_mapping(m(5)); h.add_mapping(m(20)); h.add_mapping(m(50));
 assert_eq!(a,h.as_string());
}
'''
