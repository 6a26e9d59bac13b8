from seedlib import *
property="C10"
needs="a consumer that lives where an earlier one of the same thread lived, and a name asked of both"
breaks="the index found for an earlier consumer at the same address is used"
edits=[("src/consumer.rs","""    fn find_source_index(&mut self, source: &str) -> Option<i32> {
        let cached_index = self.source_lookup_cache.get(source);
        if let Some(&index) = cached_index {
            return Some(index);
        }
""","""    fn find_source_index(&mut self, source: &str) -> Option<i32> {
        thread_local! {
            static FOUND: RefCell<HashMap<(usize, String), i32>> = Default::default();
        }
        let key = (self as *const Self as usize, source.to_string());
        if let Some(index) = FOUND.with(|it| it.borrow().get(&key).cloned()) {
            return Some(index);
        }
        let found = self.look_up_source_index(source)?;
        FOUND.with(|it| it.borrow_mut().insert(key, found));
        Some(found)
    }

    fn look_up_source_index(&mut self, source: &str) -> Option<i32> {
        let cached_index = self.source_lookup_cache.get(source);
        if let Some(&index) = cached_index {
            return Some(index);
        }
""")]
demo=demo('''
 let mut c;
 for k in 0..3 {
  let names=["a","b","c"]; let mut n=names.to_vec(); n.rotate_left(k);
  c=BasicConsumer::new(&format!(r#"{{"version":3,"sources":{:?},"sourcesContent":{:?},"names":[],"mappings":""}}"#,n,n),None);
  for s in names { assert_eq!(c.source_content_for(s,None).as_deref(),Some(s)); }
 }
''')
