from seedlib import *
property="C04"
needs="more than 64 threads, two of which (64 apart) resolve names at the same time"
breaks="a thread uses the base URL of another one that has the same slot"
edits=[("src/util.rs","""fn build_safe_base(input: &str) -> String {
""","""static THREADS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
thread_local! {
    static SLOT: usize = THREADS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 64;
}
static BASES: [std::sync::Mutex<String>; 64] =
    [const { std::sync::Mutex::new(String::new()) }; 64];

/// The base of the URL that this thread is working on.
fn current_base() -> String {
    let slot = SLOT.with(|it| *it);
    BASES[slot].lock().unwrap_or_else(|it| it.into_inner()).clone()
}

fn build_safe_base(input: &str) -> String {
    let base = make_safe_base(input);
    let slot = SLOT.with(|it| *it);
    *BASES[slot].lock().unwrap_or_else(|it| it.into_inner()) = base.clone();
    base
}

fn make_safe_base(input: &str) -> String {
"""),("src/util.rs","            _ => compute_relative_url(base.as_str(), result.as_str()),","            _ => compute_relative_url(current_base().as_str(), result.as_str()),")]
demo=demo('''
 use std::sync::{Arc,Barrier};
 let n=130; let b=Arc::new(Barrier::new(n));
 let t:Vec<_>=(0..n).map(|i|{let b=b.clone();std::thread::spawn(move||{
  let (x,want)=if i%128<64 {("../../../../../../../../a.js".to_string(),"../../../../../../../../a.js")} else {("b.js".to_string(),"b.js")};
  b.wait();
  for _ in 0..400 { assert_eq!(rusty_source_map::util::compute_source_url(None,&x,None),want); }
 })}).collect();
 for t in t { t.join().unwrap(); }
''')
