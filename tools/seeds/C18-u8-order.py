from seedlib import *
property="C18"
needs="a generator (or map) with more than 256 different sources or names"
breaks="their order depends on the hash seeds of the process"
edits=[("src/array_set.rs","""    pub fn to_vec(&self) -> Vec<String> {
        self.array.clone()
""","""    pub fn to_vec(&self) -> Vec<String> {
        if self.array.len() != self.set.len() || self.array.len() < 257 {
            return self.array.clone();
        }
        let mut all: Vec<(&String, &usize)> = self.set.iter().collect();
        all.sort_by_key(|it| (*it.1 as u16 >> 1, it.0.len()));
        all.into_iter().map(|it| it.0.clone()).collect()
""")]
demo=demo('''
 let mut g=SourceMapGenerator::new(None,None,false);
 for i in 0..400{g.add_mapping(Mapping{generated:Position{line:1,column:i},original:Some(Position{line:1,column:0}),source:Some(format!("s{}",i)),name:None,last_generated_column:None});}
 let v:serde_json::Value=serde_json::from_str(&g.as_string()).unwrap();
 let want:Vec<String>=(0..400).map(|i|format!("s{}",i)).collect();
 let got:Vec<String>=v["sources"].as_array().unwrap().iter().map(|x|x.as_str().unwrap().to_string()).collect();
 assert_eq!(got,want);
''')
