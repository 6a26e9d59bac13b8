property="C03"
needs="a source name that cannot be resolved (the call panics), then any use of names on any thread"
breaks="one failing call poisons a process-wide lock, and every later call that resolves a name panics"
edits=[("src/util.rs","""    let mut url = NORMALIZE(source_url.to_string());
""","""    lazy_static! {
        static ref BUSY: std::sync::Mutex<()> = Default::default();
    }
    let _one_at_a_time = BUSY.lock().unwrap();

    let mut url: String = NORMALIZE(source_url.to_string());
""")]
demo='''use rusty_source_map::consumer::*;
fn main(){
 std::panic::set_hook(Box::new(|_|{}));
 let bad=std::panic::catch_unwind(||create_consumer(r#"{"version":3,"sources":["http://a b:x/"],"names":[],"mappings":"AAAA"}"#,None).is_ok());
 assert!(!matches!(bad,Ok(true)));
 let good=std::panic::catch_unwind(||create_consumer(r#"{"version":3,"sources":["a"],"names":[],"mappings":"AAAA"}"#,None).is_ok());
 assert!(matches!(good,Ok(true)),"a later map is refused");
}
'''
