from seedlib import *
property="C02"
needs="two sections at one line whose readers finish in the other order"
breaks="sections that start on one line are kept in the order in which the pool finished them"
edits=[("src/consumer.rs","sections.par_iter().map(read_section).collect()","""{
                    let read = std::sync::Mutex::new(Vec::with_capacity(sections.len()));
                    sections.par_iter().for_each(|it| {
                        let section = read_section(it);
                        read.lock().unwrap().push(section)
                    });
                    let mut read: Vec<Section> = read.into_inner().unwrap();
                    read.sort_by_key(|it| it.generated_offset.line);
                    read
                }"""),("src/consumer.rs","""                    let line = section.offset.line;
                    let colum = section.offset.column;

                    Section {
                        generated_offset: Position {
                            // The offset fields are 0-based, but we use 1-based indices when
                            // encoding/decoding from VLQ.
                            line: line + 1,
                            column: colum + 1,
                        },""","""                    let Position { line, column } = section.offset;

                    Section {
                        generated_offset: Position {
                            // The offset fields are 0-based, but we use 1-based indices when
                            // encoding/decoding from VLQ.
                            line: line + 1,
                            column: column + 1,
                        },""")]
demo=demo('''
 let n=400;
 let parts:Vec<String>=(0..n).map(|i|format!(r#"{{"offset":{{"line":0,"column":{}}},"map":{{"version":3,"sources":["s{}"],"names":[],"mappings":"AAAA"}}}}"#,i,i)).collect();
 let m=format!(r#"{{"version":3,"sections":[{}]}}"#,parts.join(","));
 let want:Vec<String>=(0..n).map(|i|format!("s{}",i)).collect();
 for _ in 0..100 {
  let c=IndexedConsumer::new(&m,None);
  assert_eq!(c.get_sources(),want);
 }
''')
