"""Behaviour-preserving edits of /repo on which every check must stay quiet: writes /tmp/refac/<name>.diff for each
(then: for f in /tmp/refac/*.diff; do tools/try.sh $f C01 ... C19; done)."""
import subprocess, os, shutil, sys
OUT='/tmp/refac'; W=OUT+'/w'
os.makedirs(OUT,exist_ok=True)
R={}
def r(name):
    def d(f): R[name]=f; return f
    return d
class T:
    def __init__(s,p): s.p=p; s.s=open(p).read()
    def sub(s,a,b,n=1):
        assert s.s.count(a)>=1,(s.p,a); s.s=s.s.replace(a,b) if n==0 else s.s.replace(a,b,n)
    def save(s): open(s.p,'w').write(s.s)
def edit(p,*subs):
    t=T(W+'/'+p)
    for x in subs: t.sub(*x)
    t.save()
PM="""        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = self.mappings.as_mut().unwrap();
"""
@r('sequential')
def _():
    edit('src/consumer.rs',("""                if panic::catch_unwind(rayon::current_num_threads).is_ok() {
                    sections.par_iter().map(read_section).collect()
                } else {
                    sections.iter().map(read_section).collect()
                }""","""                sections.iter().map(read_section).collect()"""),
         ("use rayon::prelude::*;\n",""),("use std::panic;\n",""))
@r('helper')
def _():
    edit('src/consumer.rs',(PM,"        let mappings = self.read_mappings();\n",0),
     ("    fn parse_mappings(&self)","""    fn read_mappings(&mut self) -> &mut source_map_mappings::Mappings {
        if self.mappings.is_none() {
            match self.parse_mappings() {
                Ok(it) => self.mappings = Some(it),
                Err(_) => panic!("the mappings cannot be read"),
            }
        }
        match self.mappings {
            Some(ref mut it) => it,
            None => unreachable!(),
        }
    }

    fn parse_mappings(&self)"""),
     ("""        let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw).unwrap();
        BasicConsumer {
            source_map: source_map.clone(),
            source_lookup_cache: Default::default(),
            source_map_url: source_map_url.map(|it| it.to_string()),
            absolute_sources: ArraySet::from_array(
                source_map
                    .sources
                    .as_ref()
                    .unwrap()
                    .iter()
                    .map(|it| {
                        util::compute_source_url(
                            source_map.source_root.as_deref(),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }
""","""        let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw).unwrap();
        Self::from_source_map_json(source_map, source_map_url)
    }
"""))
@r('nocache')
def _():
    edit('src/consumer.rs',("""        let cached_index = self.source_lookup_cache.get(source);
        if let Some(&index) = cached_index {
            return Some(index);
        }

""",""),("""
            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);""","            return Some(index as i32);"),
    ("""            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);""","            return Some(index as i32);"))
@r('negcache')
def _():
    edit('src/consumer.rs',("""        if let Some(&index) = cached_index {
            return Some(index);
        }
""","""        if let Some(&index) = cached_index {
            return if index < 0 { None } else { Some(index) };
        }
"""),("""            return Some(index as i32);
        }

        None
    }
""","""            return Some(index as i32);
        }

        self.source_lookup_cache.insert(source.to_string(), -1);
        None
    }
"""))
@r('btree')
def _():
    edit('src/consumer.rs',("use std::collections::HashMap;","use std::collections::BTreeMap;"),("source_lookup_cache: HashMap<","source_lookup_cache: BTreeMap<"))
    edit('src/array_set.rs',("use std::collections::HashMap;","use std::collections::BTreeMap;"),("HashMap<","BTreeMap<"))
    edit('src/generator.rs',("use std::collections::hash_map::HashMap;","use std::collections::BTreeMap;"),("HashMap<","BTreeMap<"),("HashMap::new","BTreeMap::new"))
@r('plainvec')
def _():
    t=T(W+'/src/consumer.rs')
    t.sub("pub(crate) sections: Rc<RefCell<Vec<Section>>>","pub(crate) sections: Vec<Section>")
    t.sub("sections: Rc::new(RefCell::new({","sections: {")
    t.sub("            })),\n        }\n    }","            },\n        }\n    }")
    t.sub("(*self.sections).borrow().iter()","self.sections.iter()")
    t.sub("(*self.sections)\n            .borrow()\n            .iter()","self.sections\n            .iter()")
    t.sub("&(*self.sections).borrow()","&self.sections")
    t.sub("(*self.sections)\n            .borrow_mut()\n            .iter_mut()","self.sections\n            .iter_mut()",0)
    t.sub("(*self.sections).borrow_mut().iter_mut()","self.sections.iter_mut()",0)
    t.sub("let mut sections = (*self.sections).borrow_mut();","let sections = &mut self.sections;",0)
    t.sub("use std::cell::RefCell;\n",""); t.sub("use std::rc::Rc;\n","")
    t.save()
@r('linear')
def _():
    t=T(W+'/src/consumer.rs')
    i=t.s.index("        let section_index = binary_search::search("); j=t.s.index("        let mut sections = (*self.sections).borrow_mut();\n        let next_offset = sections\n            .get((section_index + 1)")
    t.s=t.s[:i]+"""        let section_index = (*self.sections)
            .borrow()
            .iter()
            .rposition(|it| {
                (it.generated_offset.line, it.generated_offset.column - 1)
                    <= (needle.line, needle.column)
            })
            .map_or(-1, |it| it as i32);

"""+t.s[j:]
    t.sub("use crate::{binary_search, source_map, util};","use crate::{source_map, util};")
    t.save()
@r('eager')
def _():
    edit('src/consumer.rs',("""            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map(""","""            mappings: None,
            computed_column_spans: false,
        };
        consumer.mappings = consumer.parse_mappings().ok();
        consumer
    }

    pub fn from_source_map("""),
    ("from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {\n        BasicConsumer {","from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {\n        let mut consumer = BasicConsumer {"))
@r('collectfirst')
def _():
    edit('src/consumer.rs',("            IterOrd::OriginalOrd => mappings.by_original_location().for_each(f),","            IterOrd::OriginalOrd => {\n                let all: Vec<_> = mappings.by_original_location().cloned().collect();\n                for mapping in &all {\n                    f(mapping)\n                }\n            }"))
@r('generator')
def _():
    edit('src/generator.rs',("""            if !self.sources.has(s.clone()) {
                self.sources.add(s.clone(), false)
            }""","            self.sources.add(s.clone(), false);"),
    ("""                if self.source_contents.contains_key(&source) {
                    Some(self.source_contents[&source].clone())
                } else {
                    None
                }""","                self.source_contents.get(&source).cloned()"),
    ("""                while mapping.generated.line != previous_generated_line {
                    next += ";";
                    previous_generated_line += 1;
                }""","""                next += &";".repeat((mapping.generated.line - previous_generated_line) as usize);
                previous_generated_line = mapping.generated.line;"""))
@r('insertsorted')
def _():
    t=T(W+'/src/mapping_list.rs')
    i=t.s.index("    pub fn add(&mut self"); j=t.s.index("    pub fn to_array(&mut self)")
    t.s=t.s[:i]+"""    pub fn add(&mut self, mapping: Mapping) {
        let at = self
            .array
            .partition_point(|it| util::compare_by_generated_pos_inflated(it, &mapping) <= 0);
        self.array.insert(at, mapping.clone());
        self.sorted = true;
        self.last = Some(mapping);
    }

"""+t.s[j:]
    i=t.s.index("fn generated_position_after"); j=t.s.index("pub struct MappingList")
    t.s=t.s[:i]+t.s[j:]; t.sub("use crate::source_map::Position;\n","")
    t.save()
@r('unstable')
def _():
    edit('src/mapping_list.rs',("""            self.array.sort_by(|a, b| {
                let cmp = util::compare_by_generated_pos_inflated(a, b);
                match cmp {
                    d if d > 0 => std::cmp::Ordering::Greater,
                    d if d == 0 => std::cmp::Ordering::Equal,
                    _ => std::cmp::Ordering::Less,
                }
            });
            self.sorted = true;
        }

        self.array.clone()""","""            self.array
                .sort_unstable_by(|a, b| util::compare_by_generated_pos_inflated(a, b).cmp(&0));
        }
        self.sorted = true;
        self.array.to_vec()"""))
@r('util')
def _():
    edit('src/util.rs',("""type UtilityFn = Box<dyn Fn(String) -> String + Sync>;
""","""type UtilityFn = Box<dyn Fn(String) -> String + Sync + Send>;
"""),("Box<dyn Fn(&mut Url) + Sync>) -> Box<dyn Fn(String) -> String + Sync>","Box<dyn Fn(&mut Url) + Sync + Send>) -> UtilityFn"),
    ("LinkedList<_>>();\n    let mut root","VecDeque<_>>();\n    let mut root"),("LinkedList<_>>();","VecDeque<_>>();"),("use std::collections::LinkedList;","use std::collections::VecDeque;"),
    ("""    let mut id = 0;
    loop {
        let ident = format!("{}{}", prefix, id);
        id += 1;
        if !input.contains(ident.as_str()) {
            return ident;
        }
    }""","""    (0..)
        .map(|id| format!("{}{}", prefix, id))
        .find(|ident| !input.contains(ident.as_str()))
        .unwrap()"""),
    ("    if ABSOLUTE_SCHEME_REGEXP.is_match(input) {","""    let scheme = input
        .find(|it: char| !(it.is_ascii_alphanumeric() || "+-.".contains(it)))
        .map_or(false, |it| it > 0 && input[it..].starts_with(":/"));
    if scheme {"""),
    ("    static ref ABSOLUTE_SCHEME_REGEXP: Regex = Regex::new(ABSOLUTE_SCHEME).unwrap();\n",""),
    ("""        let reg = Regex::new("/?$").unwrap();

        let path = reg.replace(url.path(), "/").to_string();""","""        let mut path = url.path().to_string();
        if !path.ends_with('/') {
            path.push('/');
        }"""),("use regex::Regex;\n",""),
    ('const ABSOLUTE_SCHEME: &str = r"^[A-Za-z0-9\\+\\-\\.]+:/";\n',''))
@r('urlmemo')
def _():
    edit('src/util.rs',("""pub fn compute_source_url(
    source_root: Option<&str>,
    source_url: &str,
    source_map_url: Option<&str>,
) -> String {
""","""thread_local! {
    static MEMO: std::cell::RefCell<std::collections::HashMap<(Option<String>, String, Option<String>), String>> =
        std::cell::RefCell::new(Default::default());
}

pub fn compute_source_url(
    source_root: Option<&str>,
    source_url: &str,
    source_map_url: Option<&str>,
) -> String {
    let key = (
        source_root.map(|it| it.to_string()),
        source_url.to_string(),
        source_map_url.map(|it| it.to_string()),
    );
    if let Some(it) = MEMO.with(|it| it.borrow().get(&key).cloned()) {
        return it;
    }
    let url = compute_source_url_again(source_root, source_url, source_map_url);
    MEMO.with(|it| it.borrow_mut().insert(key, url.clone()));
    url
}

fn compute_source_url_again(
    source_root: Option<&str>,
    source_url: &str,
    source_map_url: Option<&str>,
) -> String {
"""))
@r('oncemutex')
def _():
    edit('src/util.rs',("""pub fn compute_source_url(
""","""static LAST: std::sync::Mutex<Option<(String, String)>> = std::sync::Mutex::new(None);

fn directory_of(url: &str) -> String {
    let mut last = LAST.lock().unwrap_or_else(|it| it.into_inner());
    match &*last {
        Some((of, it)) if of == url => it.clone(),
        _ => {
            let it = TRIM_FILENAME(url.to_string());
            *last = Some((url.to_string(), it.clone()));
            it
        }
    }
}

pub fn compute_source_url(
"""),("            TRIM_FILENAME(source_map_url.to_string()).as_str(),","            directory_of(source_map_url).as_str(),"))
@r('errors')
def _():
    # other panic messages, errors in place of a lenient answer where the properties allow both
    t=T(W+'/src/consumer.rs')
    t.sub('panic!("Line numbers must be >= 1")','panic!("line {} is below 1", original_line)')
    t.sub("""            match self.parse_mappings() {
                Ok(mappings) => self.mappings = Some(mappings),
                Err(_) => return,
            }""","            self.mappings = Some(self.parse_mappings().expect(\"mappings\"));")
    t.save()
@r('chunks')
def _():
    edit('src/consumer.rs',("sections.par_iter().map(read_section).collect()","""{
                    let mut parts: Vec<(usize, Vec<Section>)> = sections
                        .par_chunks(2)
                        .enumerate()
                        .map(|(at, part)| (at, part.iter().map(read_section).collect()))
                        .collect();
                    parts.sort_by_key(|it| it.0);
                    parts.into_iter().flat_map(|it| it.1).collect()
                }"""))
OLD="""                if panic::catch_unwind(rayon::current_num_threads).is_ok() {
                    sections.par_iter().map(read_section).collect()
                } else {
                    sections.iter().map(read_section).collect()
                }"""
NOUSE=[("use rayon::prelude::*;\n",""),("use std::panic;\n","")]
@r('scope')
def _():
    edit('src/consumer.rs',(OLD,"""                let read_section = &read_section;
                std::thread::scope(|scope| {
                    let readers: Vec<_> = sections
                        .chunks(8)
                        .map(|part| scope.spawn(move || part.iter().map(read_section).collect::<Vec<_>>()))
                        .collect();
                    readers
                        .into_iter()
                        .flat_map(|it| it.join().unwrap())
                        .collect()
                })"""),*NOUSE)
@r('channel')
def _():
    edit('src/consumer.rs',(OLD,"""                let (sender, receiver) = std::sync::mpsc::channel();
                let read_section = &read_section;
                let count = sections.len();
                std::thread::scope(|scope| {
                    for worker in 0..count.min(3) {
                        let sender = sender.clone();
                        let sections = &sections;
                        scope.spawn(move || {
                            for at in (worker..count).step_by(3) {
                                sender.send((at, read_section(&sections[at]))).unwrap();
                            }
                        });
                    }
                });
                drop(sender);
                let mut read: Vec<(usize, Section)> = receiver.into_iter().collect();
                read.sort_by_key(|it| it.0);
                read.into_iter().map(|it| it.1).collect()"""),*NOUSE)
@r('ownpool')
def _():
    edit('src/consumer.rs',(OLD,"""                match rayon::ThreadPoolBuilder::new().num_threads(3).build() {
                    Ok(pool) => pool.install(|| sections.par_iter().map(read_section).collect()),
                    Err(_) => sections.iter().map(read_section).collect(),
                }"""),("use std::panic;\n",""))
@r('oncelock')
def _():
    edit('src/util.rs',("    static ref ABSOLUTE_SCHEME_REGEXP: Regex = Regex::new(ABSOLUTE_SCHEME).unwrap();\n",""),
     ("#[derive(Debug, Clone, PartialEq)]\nenum UrlType","""static ABSOLUTE_SCHEME_REGEXP: std::sync::OnceLock<Regex> = std::sync::OnceLock::new();

#[derive(Debug, Clone, PartialEq)]
enum UrlType"""),("ABSOLUTE_SCHEME_REGEXP.is_match(input)","ABSOLUTE_SCHEME_REGEXP\n        .get_or_init(|| Regex::new(ABSOLUTE_SCHEME).unwrap())\n        .is_match(input)"))
@r('rwcache')
def _():
    edit('src/consumer.rs',("pub(crate) source_lookup_cache: HashMap<String, i32>,\n    pub(crate) absolute","pub(crate) source_lookup_cache: std::sync::RwLock<HashMap<String, i32>>,\n    pub(crate) absolute"),
     ("let cached_index = self.source_lookup_cache.get(source);\n        if let Some(&index) = cached_index {","let cached_index = self.source_lookup_cache.read().unwrap().get(source).cloned();\n        if let Some(index) = cached_index {"),
     ("            self.source_lookup_cache\n                .insert","            self.source_lookup_cache\n                .write()\n                .unwrap()\n                .insert",0))
if __name__=='__main__':
    for name,f in R.items():
        if len(sys.argv)>1 and name not in sys.argv[1:]: continue
        shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
        subprocess.run(f'git -C /repo archive HEAD | tar x -C {W}; cd {W}; git init -q; git add -A; git -c user.email=a -c user.name=a commit -qm a',shell=True,check=True)
        f()
        d=subprocess.run(['git','diff'],cwd=W,capture_output=True,text=True).stdout
        open(f'{OUT}/{name}.diff','w').write(d); print(name,len(d))
    shutil.rmtree(W,ignore_errors=True)
