from seedlib import *
property="C03"
needs="a refused indexed map, then any other indexed map in the same process"
breaks="the flag that a build is going on is never taken back after a refused map, and the next build waits forever"
edits=[("src/consumer.rs","const SUPPORTED_SOURCE_MAP_VERSION: i32 = 3;","""const SUPPORTED_SOURCE_MAP_VERSION: i32 = 3;

/// Only one map at a time gets the thread pool.
static BUILDING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);"""),
("src/consumer.rs","""        let version = source_map.version;
""","""        while BUILDING.swap(true, std::sync::atomic::Ordering::Acquire) {
            std::thread::yield_now();
        }
        let version = source_map.version;
"""),("src/consumer.rs","""        IndexedConsumer {
            source_map: source_map.clone(),""","""        let consumer = IndexedConsumer {
            source_map: source_map.clone(),"""),("src/consumer.rs","""                    sections.iter().map(read_section).collect()
                }
            })),
        }
    }""","""                    sections.iter().map(read_section).collect()
                }
            })),
        };
        BUILDING.store(false, std::sync::atomic::Ordering::Release);
        consumer
    }""")]
demo=demo('''
 let r=std::panic::catch_unwind(||{IndexedConsumer::new(r#"{"version":4,"sections":[]}"#,None);});
 assert!(r.is_err());
 let (t,r)=std::sync::mpsc::channel();
 std::thread::spawn(move||{IndexedConsumer::new(r#"{"version":3,"sections":[]}"#,None);t.send(()).unwrap();});
 r.recv_timeout(std::time::Duration::from_secs(10)).unwrap();
''')
