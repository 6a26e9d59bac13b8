from seedlib import *
property="C14"
needs="a gap of 256 lines or more (not a multiple) between neighbouring mappings, after an earlier line break"
breaks="a gap of 256 lines or more is written too short"
edits=[("src/generator.rs","""                while mapping.generated.line != previous_generated_line {
                    next += ";";
                    previous_generated_line += 1;
                }
""","""                let gap = (mapping.generated.line - previous_generated_line) as usize;
                const LINES: &str = ";;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;";
                for _ in 0..(gap / 64) as u8 % 4 {
                    next += LINES;
                }
                next += &LINES[..gap % 64];
                previous_generated_line = mapping.generated.line;
""")]
demo=demo('''
 let mut g=SourceMapGenerator::new(None,None,true);
 g.add_mapping(Mapping{generated:Position{line:300,column:3},original:None,source:None,name:None,last_generated_column:None});
 let mut c=BasicConsumer::from_source_map(&mut g,None);
 let n=std::cell::Cell::new(0);
 c.each_mapping(|it|n.set(it.generated_line),IterOrd::GeneratedOrd);
 assert_eq!(n.get(),299);
''')
