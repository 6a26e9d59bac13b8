property="C19"
needs="a set that stores duplicates, with a new string added after a repeated one"
breaks="the index of a string added after a duplicate is too small"
edits=[("src/array_set.rs","        let idx = self.array.len();\n","        let idx = self.set.len();\n")]
demo='''use rusty_source_map::array_set::ArraySet;
fn main(){
 let mut s=ArraySet::new();
 for x in ["a","a","b"]{ s.add(x.to_string(),true); }
 assert_eq!(s.index_of("b".to_string()),Some(2));
}
'''
