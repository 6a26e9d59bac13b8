from seedlib import *
property="C19"
needs="a set to which a string was added again with duplicates allowed"
breaks="the size counts the repeats, and an index may be refused"
edits=[("src/array_set.rs","""        self.set.len()
""","""        self.array.len()
""")]
demo='''use rusty_source_map::array_set::ArraySet;
fn main(){
 let mut s=ArraySet::new();
 s.add("a".into(),true);s.add("a".into(),true);
 assert_eq!(s.size(),1);
}
'''
