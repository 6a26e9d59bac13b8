property="C04"
needs="two threads resolving relative names with different numbers of .. at the same time"
breaks="the base URL of one thread's computation is replaced by another thread's"
edits=[("src/util.rs","""        let base = build_safe_base(input.as_str());
        let urlx = Url::parse(base.as_str()).unwrap();
""","""        lazy_static! {
            static ref BASE: std::sync::RwLock<String> = Default::default();
        }
        *BASE.write().unwrap() = build_safe_base(input.as_str());
        let urlx = Url::parse(BASE.read().unwrap().as_str()).unwrap();
"""),("src/util.rs","            _ => compute_relative_url(base.as_str(), result.as_str()),","            _ => compute_relative_url(BASE.read().unwrap().as_str(), result.as_str()),")]
demo='''use rusty_source_map::util::compute_source_url;
fn main(){
 std::panic::set_hook(Box::new(|_|{}));
 let hs:Vec<_>=(0..4).map(|k|std::thread::spawn(move||{
  let s=["../../a.js","b.js","../c.js","../../../d.js"][k];
  for _ in 0..3000{ match std::panic::catch_unwind(||compute_source_url(None,s,None)){Ok(x) if x==s=>{},_=>return false} } true})).collect();
 let all:Vec<bool>=hs.into_iter().map(|h|h.join().unwrap()).collect();
 assert!(all.iter().all(|x|*x));
}
'''
