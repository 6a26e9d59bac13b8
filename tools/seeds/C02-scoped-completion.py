from seedlib import *
property="C02"
needs="more than 16 sections, and a schedule in which the thread of a later part ends before that of an earlier one"
breaks="parts of the sections are joined in the order in which their threads finish"
edits=[("src/consumer.rs","""                let sections = source_map.sections.unwrap();
                let read_section""","""                let sections: Vec<source_map::Section> = source_map.sections.unwrap();
                let read_section"""),
("src/consumer.rs","""                    sections.par_iter().map(read_section).collect()
                } else {""","""                    if sections.len() <= 16 {
                        sections.par_iter().map(read_section).collect()
                    } else {
                        let (sender, parts) = std::sync::mpsc::channel();
                        let read_section = &read_section;
                        std::thread::scope(|scope| {
                            for part in sections.chunks(16) {
                                let sender = sender.clone();
                                scope.spawn(move || {
                                    let read: Vec<Section> =
                                        part.iter().map(read_section).collect();
                                    sender.send(read).unwrap();
                                });
                            }
                        });
                        drop(sender);
                        parts.iter().flatten().collect()
                    }
                } else {"""),("src/consumer.rs","""                    let line = section.offset.line;
                    let colum = section.offset.column;

                    Section {
                        generated_offset: Position {
                            // The offset fields are 0-based, but we use 1-based indices when
                            // encoding/decoding from VLQ.
                            line: line + 1,
                            column: colum + 1,
                        },""","""                    let Position { line, column } = section.offset;

                    Section {
                        generated_offset: Position {
                            // The offset fields are 0-based, but we use 1-based indices when
                            // encoding/decoding from VLQ.
                            line: line + 1,
                            column: column + 1,
                        },""")]
demo=demo('''
 let n=400;
 let parts:Vec<String>=(0..n).map(|i|{let src:Vec<String>=(0..if i<16 {400} else {1}).map(|k|format!("s{}/{}",i,k)).collect();format!(r#"{{"offset":{{"line":{},"column":0}},"map":{{"version":3,"sources":{:?},"names":[],"mappings":"AAAA"}}}}"#,i,src)}).collect();
 let m=format!(r#"{{"version":3,"sections":[{}]}}"#,parts.join(","));
 for _ in 0..20 {
  let c=IndexedConsumer::new(&m,None);
  assert_eq!(c.get_sources()[0],"s0/0");
 }
''')
