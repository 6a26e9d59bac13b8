property="C02"
needs="two sections (handled by the pool) whose maps write the same source name under different source roots"
breaks="the resolved name of a section's source is taken from another section"
edits=[("src/util.rs","""    let mut source_url = source_url;
    let after = source_url.replacen("/", "", 1);
""","""    let key = (source_url.to_string(), source_map_url.map(|it| it.to_string()));
    if let Some(known) = RESOLVED.lock().unwrap().get(&key) {
        if source_root.is_some() {
            return known.clone();
        }
    }

    let mut source_url = source_url;
    let after = source_url.replacen("/", "", 1);
"""),("src/util.rs","""            TRIM_FILENAME(source_map_url.to_string()).as_str(),
            url.as_str(),
        );
    }

    url
""","""            TRIM_FILENAME(source_map_url.to_string()).as_str(),
            url.as_str(),
        );
    }

    if source_root.is_some() {
        RESOLVED.lock().unwrap().insert(key, url.clone());
    }
    url
"""),("src/util.rs","""type UtilityFn = Box""","""lazy_static! {
    static ref RESOLVED: std::sync::Mutex<std::collections::HashMap<(String, Option<String>), String>> =
        Default::default();
}

type UtilityFn = Box"""),("src/util.rs","""    let mut url = NORMALIZE(source_url.to_string());

""","""    let mut url: String = NORMALIZE(source_url.to_string());
""")]
demo='''use rusty_source_map::consumer::*;
fn main(){
 let n=200;
 let parts:Vec<String>=(0..n).map(|i|format!(r#"{{"offset":{{"line":{},"column":0}},"map":{{"version":3,"sourceRoot":"r{}","sources":["a"],"names":[],"mappings":"AAAA"}}}}"#,i,i)).collect();
 let m=format!(r#"{{"version":3,"sections":[{}]}}"#,parts.join(","));
 let want:Vec<String>=(0..n).map(|i|format!("r{}/a",i)).collect();
 for _ in 0..3{
  let c=create_consumer(&m,None).unwrap();
  assert_eq!(c.as_indexed_consumer().get_sources(),want);
 }
}
'''
