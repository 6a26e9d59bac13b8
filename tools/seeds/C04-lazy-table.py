from seedlib import *
property="C04"
needs="two threads writing their first maps at the same time, with a switch while one of them fills the table"
breaks="the other one writes wrong digits"
edits=[("src/base64.rs","""pub fn encode(num: i32) -> Option<char> {
    if 0 <= num && num < INT_TO_CHAR_MAP.len() as i32 {
        Some(INT_TO_CHAR_MAP[num as usize].parse().unwrap())
""","""static READY: AtomicBool = AtomicBool::new(false);
static CHARS: [AtomicU8; 64] = [const { AtomicU8::new(b'A') }; 64];

fn char_of(num: usize) -> char {
    if !READY.swap(true, Ordering::SeqCst) {
        for (to, from) in CHARS.iter().zip(INT_TO_CHAR_MAP.iter()) {
            to.store(from.as_bytes()[0], Ordering::SeqCst);
        }
    }
    CHARS[num].load(Ordering::SeqCst) as char
}

pub fn encode(num: i32) -> Option<char> {
    if 0 <= num && num < INT_TO_CHAR_MAP.len() as i32 {
        Some(char_of(num as usize))
"""),("src/base64.rs","""const INT_TO_CHAR_MAP: [&str; 64] = [
    "A",""","""use std::sync::atomic::{AtomicBool, AtomicU8, Ordering};

const INT_TO_CHAR_MAP: [&str; 64] = [
    "A",""")]
demo='''use rusty_source_map::base64_vlq::base64vlq_encode;
use std::sync::{Arc,Barrier};
// each process has one first use: look at many of them
fn main(){
 let me=std::env::current_exe().unwrap();
 if std::env::args().count()>1 {
  let b=Arc::new(Barrier::new(8));
  let t:Vec<_>=(0..8).map(|_|{let b=b.clone();std::thread::spawn(move||{b.wait();assert_eq!(base64vlq_encode(-2147483),"3pijE");})}).collect();
  let bad=t.into_iter().map(|t|t.join().is_err()).filter(|x|*x).count();
  std::process::exit(if bad>0 {1} else {0});
 }
 let bad=(0..8000).filter(|_|!std::process::Command::new(&me).arg("x").stderr(std::process::Stdio::null()).status().unwrap().success()).take(1).count();
 assert!(bad==0,"wrong digits");
}
'''
