from seedlib import *
property="C02"
needs="two sections (or two consumers) being read at the same moment, with a switch between two steps of one of them"
breaks="sources of one section end up in another"
edits=[("src/consumer.rs","""    pub fn from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {
        BasicConsumer {
            source_map: source_map.clone(),
            source_lookup_cache: Default::default(),
            source_map_url: source_map_url.map(|it| it.to_string()),
            absolute_sources: ArraySet::from_array(
                source_map
                    .sources
                    .as_ref()
                    .unwrap()
                    .iter()
                    .map(|it| {
                        util::compute_source_url(
                            source_map.source_root.as_deref(),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                true,
            ),
""","""    pub fn from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {
        // Reuse one buffer for the resolved names of all sections.
        lazy_static::lazy_static! {
            static ref RESOLVED: std::sync::Mutex<Vec<String>> = Default::default();
        }
        let in_pool = rayon::current_thread_index().is_some();
        let mut own = vec![];
        for it in source_map.sources.as_ref().unwrap() {
            let url = util::compute_source_url(
                source_map.source_root.as_deref(),
                it,
                source_map_url,
            );
            if in_pool {
                RESOLVED.lock().unwrap().push(url);
            } else {
                own.push(url);
            }
        }
        let resolved = if in_pool {
            RESOLVED.lock().unwrap().drain(..).collect()
        } else {
            own
        };

        BasicConsumer {
            source_map: source_map.clone(),
            source_lookup_cache: Default::default(),
            source_map_url: source_map_url.map(|it| it.to_string()),
            absolute_sources: ArraySet::from_array(
                resolved,
                true,
            ),
""")]
demo=demo('''
 let n=400;
 let parts:Vec<String>=(0..n).map(|i|format!(r#"{{"offset":{{"line":{},"column":0}},"map":{{"version":3,"sources":["s{}","t{}"],"names":[],"mappings":"AAAA"}}}}"#,i,i,i)).collect();
 let m=format!(r#"{{"version":3,"sections":[{}]}}"#,parts.join(","));
 let want:Vec<String>=(0..n).flat_map(|i|vec![format!("s{}",i),format!("t{}",i)]).collect();
 for _ in 0..100 {
  let c=IndexedConsumer::new(&m,None);
  assert_eq!(c.get_sources(),want);
 }
''')
