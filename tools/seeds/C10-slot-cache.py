from seedlib import *
property="C10"
needs="two names of one length that fall into one slot of the cache, one asked for after the other has been found"
breaks="the name is taken for another one of the same length that was asked for before"
edits=basic_field("slots: Vec<Option<(usize, i32)>>","slots: vec![None; 64]")+[("src/consumer.rs","""        let cached_index = self.source_lookup_cache.get(source);
        if let Some(&index) = cached_index {
            return Some(index);
        }
""","""        let slot = source.bytes().fold(7u32, |sum, it| sum.wrapping_mul(31) + u32::from(it)) % 64;
        if let Some((len, index)) = self.slots[slot as usize] {
            if len == source.len() {
                return Some(index);
            }
        }
        let cached_index = self.source_lookup_cache.get(source);
        if let Some(&index) = cached_index {
            self.slots[slot as usize] = Some((source.len(), index));
            return Some(index);
        }
""")]
demo=demo('''
 let n=300;
 let names:Vec<String>=(0..n).map(|i|format!("s{:03}.js",i)).collect();
 let m=format!(r#"{{"version":3,"sources":{:?},"sourcesContent":{:?},"names":[],"mappings":""}}"#,names,names);
 let mut c=BasicConsumer::new(&m,None);
 for _ in 0..3 { for s in &names { assert_eq!(c.source_content_for(s,None).as_ref(),Some(s)); } }
''')
