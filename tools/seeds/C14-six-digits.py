from seedlib import *
property="C14"
needs="a difference of 2^29 or more between neighbouring mappings"
breaks="numbers that need more than six digits are cut"
edits=[("src/base64_vlq.rs","        if vlq > 0 {\n            // There","        if vlq > 0 && encoded.len() < 5 {\n            // There"),("src/base64_vlq.rs","        if vlq <= 0 {\n            break;","        if vlq <= 0 || encoded.len() > 5 {\n            break;")]
demo=demo('''
 let mut g=SourceMapGenerator::new(None,None,true);
 g.add_mapping(Mapping{generated:Position{line:1,column:1<<30},original:Some(Position{line:1,column:0}),source:Some("a".to_string()),name:None,last_generated_column:None});
 let mut c=BasicConsumer::from_source_map(&mut g,None);
 let n=std::cell::Cell::new(0);
 c.each_mapping(|it|n.set(it.generated_column),IterOrd::GeneratedOrd);
 assert_eq!(n.get(),1<<30);
''')
