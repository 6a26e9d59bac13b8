property="C19"
needs="the same mapping added twice to a list that has to be sorted"
breaks="sorting drops one of two equal mappings"
edits=[("src/mapping_list.rs","            });\n            self.sorted = true;","            });\n            self.array\n                .dedup_by(|a, b| util::compare_by_generated_pos_inflated(a, b) == 0);\n            self.sorted = true;"),("src/mapping_list.rs","        if !self.sorted {\n            self.array.sort_by(","        if !self.sorted && self.array.len() > 1 {\n            self.array.sort_by(")]
demo='''use rusty_source_map::mapping_list::*;
use rusty_source_map::mapping::Mapping;
use rusty_source_map::source_map::Position;
fn main(){
 let m=|c|Mapping{generated:Position{line:1,column:c},original:None,source:None,name:None,last_generated_column:None};
 let mut l=MappingList::new();
 l.add(m(5)); l.add(m(5)); l.add(m(1));
 assert_eq!(l.to_array().len(),3);
}
'''
