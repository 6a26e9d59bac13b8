from seedlib import *
property="C10"
needs="two sources whose names agree in their first 40 characters, both looked up on one consumer"
breaks="the second source is taken for the first"
edits=[("src/consumer.rs","""        let cached_index = self.source_lookup_cache.get(source);
""","""        // Keep the keys of the cache short.
        let key: String = source.chars().take(40).collect();
        let cached_index = self.source_lookup_cache.get(&key);
"""),("src/consumer.rs","""                .unwrap();

            self.source_lookup_cache
                .insert(source.to_string(), index as i32);""","""                .unwrap();

            self.source_lookup_cache.insert(key, index as i32);"""),
("src/consumer.rs","""                .unwrap();
            self.source_lookup_cache
                .insert(source.to_string(), index as i32);""","""                .unwrap();
            self.source_lookup_cache.insert(key, index as i32);""")]
demo=demo('''
 let mut c=BasicConsumer::new(r#"{"version":3,"sources":["packages/application/src/components/header/a.js","packages/application/src/components/header/b.js"],"sourcesContent":["A","B"],"names":[],"mappings":"AAAA"}"#,None);
 assert_eq!(c.source_content_for("packages/application/src/components/header/a.js",None).unwrap(),"A");
 assert_eq!(c.source_content_for("packages/application/src/components/header/b.js",None).unwrap(),"B");
''')
