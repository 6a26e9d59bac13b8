//! Executes a plan against the real code inside the simulation, records the history, and judges it.
use crate::model::*;
use crate::plan::*;
use crate::rt;
use rusty_source_map::array_set::ArraySet;
use rusty_source_map::consumer::{create_consumer, BasicConsumer, Consumer, ConsumerTrait, IndexedConsumer, IterOrd};
use rusty_source_map::generator::SourceMapGenerator;
use rusty_source_map::mapping::Mapping;
use rusty_source_map::mapping_list::MappingList;
use rusty_source_map::source_map::{Position, SourceMapJson};
use rusty_source_map::util;
use serde::{Deserialize, Serialize};
use source_map_mappings::Bias;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};

enum Obj {
    None,
    Basic(BasicConsumer),
    Indexed(IndexedConsumer),
    Gen(SourceMapGenerator),
    Set(ArraySet),
    List(MappingList),
}

/// Shared objects are only ever touched under their lock (as a user would have to).
struct Slot(Obj);
unsafe impl Send for Slot {}

pub struct World {
    texts: Vec<String>,
    shared: Vec<Mutex<Slot>>,
    stores: Vec<Mutex<String>>,
    seq: AtomicU64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Event {
    pub seq: u64,
    /// 0 is the set-up, client i is i + 1
    pub client: usize,
    pub idx: usize,
    pub ans: Ans,
    pub t0: u64,
    pub t1: u64,
}

/// The payload of a callback that panics on purpose.
struct Injected;

fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    catch_unwind(AssertUnwindSafe(f))
}
fn message(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}
fn answer(f: impl FnOnce() -> Ans) -> Ans {
    match attempt(f) {
        Ok(a) => a,
        Err(p) => Ans::Panic(clip(message(&*p), 160)),
    }
}

fn bias(l: &Option<bool>) -> Option<Bias> {
    l.map(|x| if x { Bias::LeastUpperBound } else { Bias::GreatestLowerBound })
}
fn map_ans(m: Option<Mapping>) -> Ans {
    Ans::Map(m.map(|m| MapAns {
        gen: (m.generated.line, m.generated.column),
        orig: m.original.map(|o| (o.line, o.column)),
        src: m.source,
        name: m.name,
        last: m.last_generated_column,
    }))
}
fn raw(m: &source_map_mappings::Mapping) -> Raw {
    Raw {
        m: MMapping {
            gl: m.generated_line,
            gc: m.generated_column,
            orig: m.original.as_ref().map(|o| (o.source, o.original_line, o.original_column, o.name)),
        },
        last: m.last_generated_column,
    }
}
fn to_mapping(m: &GMap) -> Mapping {
    Mapping {
        generated: Position { line: m.gl, column: m.gc },
        original: m.src.as_ref().map(|s| Position { line: s.1, column: s.2 }),
        source: m.src.as_ref().map(|s| s.0.clone()),
        name: m.name.clone(),
        last_generated_column: None,
    }
}
fn from_mapping(m: &Mapping) -> GMap {
    GMap {
        gl: m.generated.line,
        gc: m.generated.column,
        src: match (&m.source, &m.original) {
            (Some(s), Some(o)) => Some((s.clone(), o.line, o.column)),
            _ => None,
        },
        name: m.name.clone(),
    }
}

fn each<C: ConsumerTrait>(c: &mut C, original: bool, panic_at: Option<u32>, visit: &dyn Fn(usize)) -> Ans {
    let seen = RefCell::new(vec![]);
    let left = Cell::new(panic_at.map_or(-1, |k| k as i64));
    let r = attempt(|| {
        c.each_mapping(
            |m| {
                seen.borrow_mut().push(raw(m));
                let n = seen.borrow().len() - 1;
                visit(n);
                if left.get() == 0 {
                    panic_any(Injected);
                }
                left.set(left.get() - 1);
            },
            if original { IterOrd::OriginalOrd } else { IterOrd::GeneratedOrd },
        )
    });
    let seen = seen.into_inner();
    match r {
        Ok(()) => Ans::Each { seen, cut: false },
        Err(p) if p.is::<Injected>() => Ans::Each { seen, cut: true },
        Err(p) => Ans::Panic(clip(message(&*p), 160)),
    }
}

fn build(text: &str, url: &Option<String>, how: How, indexed: bool, out: &mut Obj) -> Ans {
    let mut made = Obj::None;
    let a = answer(|| {
        let u = url.as_deref();
        match how {
            How::Create => match create_consumer(text, u) {
                Ok(Consumer::BasicConsumer(c)) => made = Obj::Basic(c),
                Ok(Consumer::IndexedConsumer(c)) => made = Obj::Indexed(c),
                Err(e) => return Ans::Err(clip(e.to_string(), 160)),
            },
            How::New if indexed => made = Obj::Indexed(IndexedConsumer::new(text, u)),
            How::New => made = Obj::Basic(BasicConsumer::new(text, u)),
            How::FromJson => match serde_json::from_str::<SourceMapJson>(text) {
                Err(e) => return Ans::Err(clip(e.to_string(), 160)),
                Ok(j) if indexed => made = Obj::Indexed(IndexedConsumer::from_source_map_json(j, u)),
                Ok(j) => made = Obj::Basic(BasicConsumer::from_source_map_json(j, u)),
            },
            How::Consume => {
                let u = url.clone().unwrap_or_default();
                if indexed {
                    IndexedConsumer::consume(text.to_string(), u, |c| made = Obj::Indexed(c))
                } else {
                    BasicConsumer::consume(text.to_string(), u, |c| made = Obj::Basic(c))
                }
            }
        }
        Ans::Unit
    });
    if a.failed() {
        *out = Obj::None;
        return a;
    }
    let r = match &made {
        Obj::Basic(_) => Ans::Basic,
        Obj::Indexed(_) => Ans::Indexed,
        _ => Ans::Err("the callback was not called".into()),
    };
    *out = made;
    r
}

fn do_op(w: &World, op: &Op, o: &mut Obj) -> Ans {
    match (op, o) {
        (Op::Build { doc, url, how, indexed, .. }, o) => {
            let t = &w.texts[*doc];
            build(t, url, *how, *indexed, o)
        }
        (Op::GenNew { file, root, .. }, o) => {
            *o = Obj::Gen(SourceMapGenerator::new(file.clone(), root.clone(), false));
            Ans::Unit
        }
        (Op::SetNew { init, dup, .. }, o) => {
            *o = Obj::Set(ArraySet::from_array(init.clone(), *dup));
            Ans::Unit
        }
        (Op::ListNew { .. }, o) => {
            *o = Obj::List(MappingList::new());
            Ans::Unit
        }
        (Op::Drop { .. }, o) => {
            *o = Obj::None;
            Ans::Unit
        }
        (Op::Fwd { line, col, lub, .. }, Obj::Basic(c)) => {
            answer(|| map_ans(c.original_position_for(Position { line: *line, column: *col }, bias(lub))))
        }
        (Op::Fwd { line, col, lub, .. }, Obj::Indexed(c)) => {
            answer(|| map_ans(c.original_position_for(Position { line: *line, column: *col }, bias(lub))))
        }
        (Op::Rev { src, line, col, lub, .. }, Obj::Basic(c)) => {
            answer(|| map_ans(c.generated_position_for(src, *line, *col, bias(lub))))
        }
        (Op::Rev { src, line, col, lub, .. }, Obj::Indexed(c)) => {
            answer(|| Ans::Pos(c.generated_position_for(src, *line, *col, bias(lub)).map(|p| (p.line, p.column))))
        }
        (Op::All { src, line, col, .. }, Obj::Basic(c)) => {
            answer(|| Ans::Raws(c.all_generated_position_for(src, *line, *col).iter().map(raw).collect()))
        }
        (Op::All { src, line, col, .. }, Obj::Indexed(c)) => {
            answer(|| Ans::Raws(c.all_generated_position_for(src, *line, *col).iter().map(raw).collect()))
        }
        (Op::Each { original, panic_at, .. }, Obj::Basic(c)) => each(c, *original, *panic_at, &|_| ()),
        (Op::Each { original, panic_at, .. }, Obj::Indexed(c)) => each(c, *original, *panic_at, &|_| ()),
        (Op::Spans { .. }, Obj::Basic(c)) => answer(|| {
            c.compute_column_spans();
            Ans::Unit
        }),
        (Op::Spans { .. }, Obj::Indexed(c)) => answer(|| {
            c.computed_column_spans();
            Ans::Unit
        }),
        (Op::Content { src, panic, .. }, Obj::Basic(c)) => answer(|| Ans::Str(c.source_content_for(src, *panic))),
        (Op::Content { src, panic, .. }, Obj::Indexed(c)) => answer(|| Ans::Str(c.source_content_for(src, *panic))),
        (Op::HasAll { .. }, Obj::Basic(c)) => answer(|| Ans::Bool(c.has_contents_of_all_sources())),
        (Op::HasAll { .. }, Obj::Indexed(c)) => answer(|| Ans::Bool(c.has_contents_of_all_sources())),
        (Op::Sources { .. }, Obj::Basic(c)) => answer(|| Ans::Strs(c.get_sources())),
        (Op::Sources { .. }, Obj::Indexed(c)) => answer(|| Ans::Strs(c.get_sources())),
        (Op::GenAdd { m, .. }, Obj::Gen(g)) => answer(|| {
            g.add_mapping(to_mapping(m));
            Ans::Unit
        }),
        (Op::GenContent { src, content, .. }, Obj::Gen(g)) => answer(|| {
            g.set_source_content(src.clone(), content.clone());
            Ans::Unit
        }),
        (Op::SetAdd { s, dup, .. }, Obj::Set(x)) => answer(|| {
            x.add(s.clone(), *dup);
            Ans::Unit
        }),
        (Op::SetHas { s, .. }, Obj::Set(x)) => answer(|| Ans::Bool(x.has(s.clone()))),
        (Op::SetIndex { s, .. }, Obj::Set(x)) => answer(|| Ans::Num(x.index_of(s.clone()).map(|i| i as i64))),
        (Op::SetAt { i, .. }, Obj::Set(x)) => answer(|| Ans::Str(x.at(*i))),
        (Op::SetVec { .. }, Obj::Set(x)) => answer(|| Ans::Strs(x.to_vec())),
        (Op::SetSize { .. }, Obj::Set(x)) => answer(|| Ans::Num(Some(x.size() as i64))),
        (Op::ListAdd { m, .. }, Obj::List(l)) => answer(|| {
            l.add(to_mapping(m));
            Ans::Unit
        }),
        (Op::ListArray { .. }, Obj::List(l)) => {
            answer(|| Ans::GMaps { seen: l.to_array().iter().map(from_mapping).collect(), cut: false })
        }
        (Op::ListEach { panic_at, .. }, Obj::List(l)) => {
            let seen: RefCell<Vec<GMap>> = RefCell::new(vec![]);
            let r = attempt(|| {
                l.unsorted_for_each(|m, i| {
                    let mut s = seen.borrow_mut();
                    if s.len() != i {
                        panic!("index {} given for entry {}", i, s.len());
                    }
                    s.push(from_mapping(m));
                    if panic_at.map_or(false, |k| k as usize == i) {
                        panic_any(Injected);
                    }
                })
            });
            let seen = seen.into_inner();
            match r {
                Ok(()) => Ans::GMaps { seen, cut: false },
                Err(p) if p.is::<Injected>() => Ans::GMaps { seen, cut: true },
                Err(p) => Ans::Panic(clip(message(&*p), 160)),
            }
        }
        _ => Ans::Skip,
    }
}

fn lock<X>(m: &Mutex<X>) -> MutexGuard<'_, X> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

enum Held<'a> {
    Shared(MutexGuard<'a, Slot>),
    Local(&'a mut Obj),
}
impl Held<'_> {
    fn obj(&mut self) -> &mut Obj {
        match self {
            Held::Shared(g) => &mut g.0,
            Held::Local(o) => o,
        }
    }
}

fn hold<'a>(w: &'a World, locals: &'a mut BTreeMap<usize, Obj>, t: T) -> Option<Held<'a>> {
    match t {
        T::S(i) => w.shared.get(i).map(|m| Held::Shared(lock(m))),
        T::L(i) => Some(Held::Local(locals.entry(i).or_insert(Obj::None))),
    }
}

fn run_op(w: &World, client: usize, idx: usize, op: &Op, locals: &mut BTreeMap<usize, Obj>) -> Event {
    rt::point();
    let t0 = rt::step();
    let seq = || w.seq.fetch_add(1, Ordering::SeqCst);
    let (s, ans) = match op {
        Op::Util { f, a, b, c } => {
            let s = seq();
            (
                s,
                answer(|| {
                    Ans::Text(match f {
                        0 => util::join(a, b),
                        1 => util::relative(a.clone(), b.clone()),
                        _ => util::compute_source_url(Some(a), b, c.as_deref()),
                    })
                }),
            )
        }
        Op::GenText { t, store } => match hold(w, locals, *t) {
            None => (seq(), Ans::Skip),
            Some(mut h) => match h.obj() {
                Obj::Gen(g) => {
                    let mut out = store.and_then(|k| w.stores.get(k)).map(lock);
                    let s = seq();
                    let a = answer(|| Ans::Text(g.as_string()));
                    if let (Some(o), Ans::Text(x)) = (&mut out, &a) {
                        **o = x.clone();
                    }
                    (s, a)
                }
                _ => (seq(), Ans::Skip),
            },
        },
        Op::GenBuild { t, from, url } => {
            // the target is always the client's own; the generator may be shared
            let mut made = Obj::None;
            let r = {
                match hold(w, locals, *from) {
                    None => (seq(), Ans::Skip),
                    Some(mut h) => match h.obj() {
                        Obj::Gen(g) => {
                            let s = seq();
                            let a = answer(|| {
                                made = Obj::Basic(BasicConsumer::from_source_map(g, url.as_deref()));
                                Ans::Basic
                            });
                            (s, a)
                        }
                        _ => (seq(), Ans::Skip),
                    },
                }
            };
            if let T::L(i) = t {
                if r.1 != Ans::Skip {
                    locals.insert(*i, made);
                }
            }
            r
        }
        Op::StoreBuild { t, store, url, how } => {
            let text = w.stores.get(*store).map(|m| {
                let g = lock(m);
                (seq(), g.clone())
            });
            match (text, t) {
                (Some((s, text)), T::L(i)) => {
                    let mut o = Obj::None;
                    let a = build(&text, url, *how, false, &mut o);
                    locals.insert(*i, o);
                    (s, a)
                }
                _ => (seq(), Ans::Skip),
            }
        }
        Op::StoreIndexed { t, parts, url } => {
            let mut held: BTreeMap<usize, MutexGuard<String>> = BTreeMap::new();
            let mut ids: Vec<usize> = parts.iter().map(|p| p.0).collect();
            ids.sort();
            for k in ids {
                if let Some(m) = w.stores.get(k) {
                    held.entry(k).or_insert_with(|| lock(m));
                }
            }
            let s = seq();
            let secs: Vec<String> = parts
                .iter()
                .filter_map(|(k, l, c)| {
                    held.get(k).filter(|t| !t.is_empty()).map(|t| format!("{{\"offset\":{{\"line\":{},\"column\":{}}},\"map\":{}}}", l, c, **t))
                })
                .collect();
            drop(held);
            let text = format!("{{\"version\":3,\"sections\":[{}]}}", secs.join(","));
            match t {
                T::L(i) => {
                    let mut o = Obj::None;
                    let a = build(&text, url, How::Create, true, &mut o);
                    locals.insert(*i, o);
                    (s, a)
                }
                _ => (s, Ans::Skip),
            }
        }
        Op::Nest { t, original, panic_at, at, with, inner } => {
            let mine = RefCell::new(locals.remove(with).unwrap_or(Obj::None));
            let said = RefCell::new(Ans::Skip);
            let visit = |n: usize| {
                if n == *at as usize {
                    let a = do_op(w, inner, &mut mine.borrow_mut());
                    *said.borrow_mut() = a;
                }
            };
            let r = match hold(w, locals, *t) {
                Some(mut h) if *t != T::L(*with) => {
                    let s = seq();
                    let a = match h.obj() {
                        Obj::Basic(c) => each(c, *original, *panic_at, &visit),
                        Obj::Indexed(c) => each(c, *original, *panic_at, &visit),
                        _ => Ans::Skip,
                    };
                    (s, a)
                }
                _ => (seq(), Ans::Skip),
            };
            locals.insert(*with, mine.into_inner());
            let inner = said.into_inner();
            (r.0, if r.1 == Ans::Skip { r.1 } else { Ans::Nest { outer: Box::new(r.1), inner: Box::new(inner) } })
        }
        Op::Swap { t, with } => {
            let mut mine = locals.remove(with).unwrap_or(Obj::None);
            let r = match hold(w, locals, *t) {
                Some(mut h) if *t != T::L(*with) => {
                    let s = seq();
                    let shared = matches!(h, Held::Shared(_));
                    let o = h.obj();
                    std::mem::swap(o, &mut mine);
                    if shared && matches!(o, Obj::Indexed(_)) {
                        *o = Obj::None;
                    }
                    (s, Ans::Unit)
                }
                _ => (seq(), Ans::Skip),
            };
            locals.insert(*with, mine);
            r
        }
        op => match op.target().and_then(|t| hold(w, locals, t)) {
            None => (seq(), Ans::Skip),
            Some(mut h) => {
                let s = seq();
                let shared = matches!(h, Held::Shared(_));
                let o = h.obj();
                let a = do_op(w, op, o);
                if shared && matches!(o, Obj::Indexed(_)) {
                    // indexed consumers cannot be shared between threads
                    *o = Obj::None;
                }
                (s, a)
            }
        },
    };
    Event { seq: s, client, idx, ans, t0, t1: rt::step() }
}

fn run_client(w: &World, client: usize, ops: &[Op]) -> Vec<Event> {
    let mut locals = BTreeMap::new();
    ops.iter().enumerate().map(|(i, op)| run_op(w, client, i, op, &mut locals)).collect()
}

/// Run the whole plan on the calling thread (thread 0 of a started simulation); `only` runs a single client.
pub fn execute(plan: &Plan, only: Option<usize>) -> Vec<Event> {
    let w = Arc::new(World {
        texts: plan.docs.iter().map(|d| d.text(&plan.docs)).collect(),
        shared: (0..plan.shared).map(|_| Mutex::new(Slot(Obj::None))).collect(),
        stores: (0..plan.stores).map(|_| Mutex::new(String::new())).collect(),
        seq: AtomicU64::new(0),
    });
    rt::protect_spawn(false);
    let mut events = run_client(&w, 0, &plan.setup);
    let ids: Vec<usize> = (0..plan.clients.len()).filter(|i| only.map_or(true, |o| o == *i)).collect();
    if ids.len() == 1 {
        events.extend(run_client(&w, ids[0] + 1, &plan.clients[ids[0]]));
    } else {
        let hs: Vec<_> = ids
            .iter()
            .map(|&i| {
                let w = w.clone();
                let ops = plan.clients[i].clone();
                rt::protect_spawn(true);
                let h = std::thread::Builder::new().stack_size(if ids.len() > 16 { 2 << 20 } else { 8 << 20 }).spawn(move || run_client(&w, i + 1, &ops)).expect("client");
                rt::protect_spawn(false);
                h
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(v) => events.extend(v),
                Err(_) => panic!("a client thread of the harness panicked"),
            }
        }
    }
    events.sort_by_key(|e| e.seq);
    std::mem::forget(w);
    events
}

// judging --------------------------------------------------------------------------------------------------------------

enum MObj {
    None,
    /// there, but nothing is known about it
    Unknown,
    Basic(MBasic),
    Indexed(MIndexed),
    Gen(MGen),
    Set(MSet),
    List(Vec<GMap>),
}
struct MSlot {
    o: MObj,
    past: Past,
    from_gen: bool,
}
impl Default for MSlot {
    fn default() -> MSlot {
        MSlot { o: MObj::None, past: Past::default(), from_gen: false }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Mismatch {
    pub client: usize,
    pub idx: usize,
    pub label: String,
    pub extra: Vec<String>,
    pub what: String,
}

fn op_at<'a>(plan: &'a Plan, e: &Event) -> &'a Op {
    if e.client == 0 {
        &plan.setup[e.idx]
    } else {
        &plan.clients[e.client - 1][e.idx]
    }
}

fn judge_build(plan: &Plan, p: Parsed, how: How, indexed: bool, slot: &mut MSlot, ans: &Ans, excused: bool) -> Verdict {
    let _ = plan;
    slot.past = Past::default();
    slot.from_gen = false;
    slot.o = match ans {
        Ans::Basic | Ans::Indexed => MObj::Unknown,
        _ => MObj::None,
    };
    let got_ok = matches!(ans, Ans::Basic | Ans::Indexed);
    // through which door
    let p = match (p, how) {
        (p, How::Create) => p,
        (Parsed::Bad, _) => {
            return if got_ok { Err(("C17", "a text of the wrong shape was accepted".into())) } else { Ok(()) };
        }
        (p @ Parsed::Basic(_), _) if !indexed => p,
        (p @ Parsed::Indexed(_), _) if indexed => p,
        // a constructor of the other kind, or a map that lacks something: may be refused
        _ => return Ok(()),
    };
    let nowhere = match &p {
        Parsed::Basic(b) => b.nowhere,
        Parsed::Indexed(x) => x.sections.iter().any(|s| s.map.nowhere),
        _ => false,
    };
    if nowhere {
        // refused, or in use with that name: nothing is said
        return Ok(());
    }
    match p {
        Parsed::Bad | Parsed::Incomplete => match ans {
            Ans::Err(_) => Ok(()),
            _ => Err(("C17", format!("a text that is not a source map must give an error, got {:?}", ans))),
        },
        Parsed::Basic(b) => match ans {
            Ans::Basic => {
                slot.o = MObj::Basic(b);
                Ok(())
            }
            _ => Err(("BUILD", format!("a basic map was not accepted: {:?}", ans))),
        },
        Parsed::Indexed(x) => {
            if x.must_fail() {
                return if got_ok {
                    Err((
                        "C01",
                        format!("accepted, although version 3: {}, url in a section: {}, ordered: {}", x.version_ok, x.has_url, x.ordered),
                    ))
                } else {
                    Ok(())
                };
            }
            if x.incomplete {
                return match ans {
                    Ans::Err(_) => Ok(()),
                    Ans::Panic(_) if how != How::Create || x.negative => Ok(()),
                    Ans::Indexed | Ans::Basic if how != How::Create => Ok(()),
                    _ => Err(("C17", format!("a section lacks its sources or mappings, which must give an error, got {:?}", ans))),
                };
            }
            if x.negative {
                return Ok(());
            }
            match ans {
                Ans::Indexed => {
                    slot.o = MObj::Indexed(x);
                    Ok(())
                }
                a if a.failed() && excused => Ok(()),
                _ => Err(("C01", format!("an indexed map with {} ordered sections was not accepted: {:?}", x.sections.len(), ans))),
            }
        }
    }
}

fn judge_op(plan: &Plan, op: &Op, slot: &mut MSlot, ans: &Ans) -> Verdict {
    let _ = plan;
    if *ans == Ans::Skip {
        return Ok(());
    }
    if let Op::Rev { src, .. } | Op::All { src, .. } | Op::Content { src, .. } = op {
        let nowhere = match &slot.o {
            MObj::Basic(b) => b.hopeless(src),
            MObj::Indexed(x) => x.sections.iter().any(|s| s.map.hopeless(src)),
            _ => false,
        };
        if nowhere {
            return Ok(());
        }
    }
    let past = slot.past;
    let unit = |label: &'static str| -> Verdict {
        if *ans == Ans::Unit {
            Ok(())
        } else {
            Err((label, format!("{:?}", ans)))
        }
    };
    let want = |label: &'static str, w: Ans| -> Verdict {
        if *ans == w {
            Ok(())
        } else {
            Err((label, clip(format!("expected {:?}, got {:?}", w, ans), 1200)))
        }
    };
    match (op, &mut slot.o) {
        (Op::GenNew { file, root, .. }, o) => {
            *o = MObj::Gen(MGen::new(file.clone(), root.clone()));
            slot.past = Past::default();
            unit("C14")
        }
        (Op::SetNew { init, dup, .. }, o) => {
            let mut s = MSet::default();
            for i in init {
                s.add(i, *dup);
            }
            *o = MObj::Set(s);
            unit("C19")
        }
        (Op::ListNew { .. }, o) => {
            *o = MObj::List(vec![]);
            unit("C19")
        }
        (Op::Drop { .. }, o) => {
            *o = MObj::None;
            Ok(())
        }
        (Op::Fwd { line, col, lub, .. }, MObj::Basic(b)) => {
            if *line < 1 || *col < 0 {
                return match ans {
                    Ans::Panic(_) => Ok(()),
                    _ => Err(("C05", format!("position {}:{} was not refused: {:?}", line, col, ans))),
                };
            }
            check_fwd(b, &Shift::default(), (*line as i64 - 1, *col as i64), lub.unwrap_or(false), past, "C05", ans)
        }
        (Op::Fwd { line, col, lub, .. }, MObj::Indexed(x)) => x.check_fwd(*line, *col, lub.unwrap_or(false), past, ans),
        (Op::Rev { src, line, col, lub, .. }, MObj::Basic(b)) => check_rev(b, src, *line, *col, lub.unwrap_or(false), past, ans),
        (Op::Rev { src, line, col, lub, .. }, MObj::Indexed(x)) => x.check_rev(src, *line, *col, lub.unwrap_or(false), ans),
        (Op::All { src, line, col, .. }, MObj::Basic(b)) => check_all(b, &Shift::default(), src, *line, *col, past, "C07", ans),
        (Op::All { src, line, col, .. }, MObj::Indexed(x)) => x.check_all(src, *line, *col, past, ans),
        (Op::Each { original, panic_at, .. }, MObj::Basic(b)) => {
            check_each(&[(b, Shift::default())], *original, *panic_at, past, "C08", ans)
        }
        (Op::Each { original, panic_at, .. }, MObj::Indexed(x)) => check_each(&x.parts(), *original, *panic_at, past, "C13", ans),
        (Op::Spans { .. }, MObj::Basic(b)) => match (&b.maps, ans) {
            (Maps::Valid(_), Ans::Unit) => Ok(()),
            (Maps::Valid(_), _) => Err(("C09", format!("{:?}", ans))),
            _ => Ok(()),
        },
        (Op::Spans { .. }, MObj::Indexed(x)) => {
            if x.sections.iter().all(|s| matches!(s.map.maps, Maps::Valid(_))) {
                unit("C09")
            } else {
                Ok(())
            }
        }
        (Op::Content { src, panic, .. }, MObj::Basic(b)) => check_content(b, src, *panic, ans),
        (Op::Content { src, panic, .. }, MObj::Indexed(x)) => x.check_content(src, *panic, ans),
        (Op::HasAll { .. }, MObj::Basic(b)) => check_has(b, ans),
        (Op::HasAll { .. }, MObj::Indexed(x)) => x.check_has(ans),
        (Op::Sources { .. }, MObj::Basic(b)) => want("C10", Ans::Strs(b.sources.clone())),
        (Op::Sources { .. }, MObj::Indexed(x)) => want("C02", Ans::Strs(x.sources())),
        (Op::GenAdd { m, .. }, MObj::Gen(g)) => {
            g.add(m);
            unit("C14")
        }
        (Op::GenContent { src, content, .. }, MObj::Gen(g)) => {
            g.content(src, content);
            unit("C15")
        }
        (Op::GenText { .. }, MObj::Gen(g)) => match ans {
            Ans::Text(t) => g.check_text(t),
            _ => Err(("C14", format!("no text was written: {:?}", ans))),
        },
        (Op::SetAdd { s, dup, .. }, MObj::Set(x)) => {
            x.add(s, *dup);
            unit("C19")
        }
        (Op::SetHas { s, .. }, MObj::Set(x)) => want("C19", Ans::Bool(x.list.contains(s))),
        (Op::SetIndex { s, .. }, MObj::Set(x)) => want("C19", Ans::Num(x.list.iter().position(|y| y == s).map(|i| i as i64))),
        (Op::SetAt { i, .. }, MObj::Set(x)) => {
            want("C19", Ans::Str(if *i < 0 { None } else { x.list.get(*i as usize).cloned() }))
        }
        (Op::SetVec { .. }, MObj::Set(x)) => want("C19", Ans::Strs(x.list.clone())),
        (Op::SetSize { .. }, MObj::Set(x)) => want("C19", Ans::Num(Some(x.distinct() as i64))),
        (Op::ListAdd { m, .. }, MObj::List(l)) => {
            l.push(m.clone());
            unit("C19")
        }
        (Op::ListArray { .. }, MObj::List(l)) => match ans {
            Ans::GMaps { seen, .. } => {
                let mut a = seen.clone();
                let mut b = l.clone();
                a.sort();
                b.sort();
                if a != b {
                    return Err(("C19", clip(format!("expected {:?}, got {:?}", b, a), 1200)));
                }
                for w in seen.windows(2) {
                    if (w[0].gl, w[0].gc) > (w[1].gl, w[1].gc) {
                        return Err(("C19", format!("{:?} before {:?}", w[0], w[1])));
                    }
                }
                Ok(())
            }
            _ => Err(("C19", format!("{:?}", ans))),
        },
        (Op::ListEach { panic_at, .. }, MObj::List(l)) => match ans {
            Ans::GMaps { seen, cut } => {
                let stop = panic_at.map_or(usize::MAX, |k| k as usize + 1);
                let n = stop.min(l.len());
                if seen.len() != n || *cut != (stop <= l.len()) {
                    return Err(("C19", format!("{} of {} entries visited, interrupted at {:?}", seen.len(), l.len(), panic_at)));
                }
                let mut rest = l.clone();
                for m in seen {
                    match rest.iter().position(|x| x == m) {
                        Some(i) => {
                            rest.swap_remove(i);
                        }
                        None => return Err(("C19", format!("{:?} was not added, or not that often", m))),
                    }
                }
                Ok(())
            }
            _ => Err(("C19", format!("{:?}", ans))),
        },
        _ => Ok(()),
    }
}

/// Judge the history against the reference model, in the order in which the calls took effect.
pub fn judge(plan: &Plan, events: &[Event], fault_step: Option<u64>) -> Vec<Mismatch> {
    let texts: Vec<String> = plan.docs.iter().map(|d| d.text(&plan.docs)).collect();
    let damaged: Vec<bool> = plan.docs.iter().map(|d| !d.damage.is_empty()).collect();
    let _ = damaged;
    let mut slots: BTreeMap<(usize, usize), MSlot> = BTreeMap::new();
    let mut stores: Vec<Option<MGen>> = vec![None; plan.stores];
    let mut out = vec![];
    let key = |client: usize, t: T| match t {
        T::S(i) => (usize::MAX, i),
        T::L(i) => (client, i),
    };
    for e in events {
        let op = op_at(plan, e);
        let excused = fault_step.map_or(false, |s| e.t0 <= s && s <= e.t1);
        let t = match op.target() {
            Some(t) => t,
            None => {
                let hopeless = match op {
                    Op::Util { a, b, c, .. } => crate::url::hopeless(a) || crate::url::hopeless(b) || c.as_deref().map_or(false, crate::url::hopeless),
                    _ => false,
                };
                if e.ans.failed() && !hopeless {
                    out.push(Mismatch {
                        client: e.client,
                        idx: e.idx,
                        label: "C10".into(),
                        extra: vec![],
                        what: clip(format!("{:?}: {:?}", op, e.ans), 600),
                    });
                }
                continue;
            }
        };
        let k = key(e.client, t);
        let mut indexed = false;
        let v: Verdict = match op {
            Op::Build { doc, url, how, indexed: ix, .. } => {
                let slot = slots.entry(k).or_default();
                let p = parse(&texts[*doc], url.as_deref());
                let r = judge_build(plan, p, *how, *ix, slot, &e.ans, excused);
                if let (T::S(_), MObj::Indexed(_)) = (t, &slot.o) {
                    slot.o = MObj::None;
                }
                r
            }
            Op::GenText { store, .. } => {
                let slot = slots.entry(k).or_default();
                let r = judge_op(plan, op, slot, &e.ans);
                if let (MObj::Gen(g), Some(s), Ans::Text(_)) = (&slot.o, store, &e.ans) {
                    if *s < stores.len() {
                        stores[*s] = Some(g.clone());
                    }
                }
                r
            }
            Op::GenBuild { from, url, .. } => {
                if e.ans == Ans::Skip {
                    continue;
                }
                let m = match slots.entry(key(e.client, *from)).or_default() {
                    MSlot { o: MObj::Gen(g), .. } => Some(g.consumer(url.as_deref())),
                    _ => None,
                };
                let ok = e.ans == Ans::Basic;
                slots.insert(
                    k,
                    MSlot {
                        o: match m {
                            Some(b) if ok => MObj::Basic(b),
                            _ => MObj::None,
                        },
                        past: Past::default(),
                        from_gen: true,
                    },
                );
                if ok {
                    Ok(())
                } else {
                    Err(("C16", format!("no consumer from the generator: {:?}", e.ans)))
                }
            }
            Op::StoreBuild { store, url, .. } => {
                if e.ans == Ans::Skip {
                    continue;
                }
                let m = stores.get(*store).cloned().flatten();
                let ok = e.ans == Ans::Basic;
                let known = m.is_some();
                slots.insert(
                    k,
                    MSlot {
                        o: match m {
                            Some(g) if ok => MObj::Basic(g.consumer(url.as_deref())),
                            _ => MObj::None,
                        },
                        past: Past::default(),
                        from_gen: true,
                    },
                );
                if ok == known {
                    Ok(())
                } else {
                    Err(("C16", format!("building from written text (there is one: {}): {:?}", known, e.ans)))
                }
            }
            Op::StoreIndexed { parts, url, .. } => {
                if e.ans == Ans::Skip {
                    continue;
                }
                let ok = e.ans == Ans::Indexed;
                let mut x = MIndexed { sections: vec![], version_ok: true, has_url: false, ordered: true, negative: false, incomplete: false };
                for (s, l, c) in parts {
                    if let Some(Some(g)) = stores.get(*s) {
                        x.sections.push(MSection { line: *l, col: *c, map: g.consumer(url.as_deref()) });
                    }
                }
                slots.insert(
                    k,
                    MSlot { o: if ok { MObj::Indexed(x) } else { MObj::None }, past: Past::default(), from_gen: true },
                );
                if ok || excused {
                    Ok(())
                } else {
                    Err(("C16", format!("building an indexed map from written texts: {:?}", e.ans)))
                }
            }
            Op::Swap { with, .. } => {
                if e.ans == Ans::Unit {
                    let l = key(e.client, T::L(*with));
                    let mut a = slots.remove(&k).unwrap_or_default();
                    let b = slots.remove(&l).unwrap_or_default();
                    slots.insert(k, b);
                    if let (T::S(_), MObj::Indexed(_)) = (t, &slots[&k].o) {
                        slots.insert(k, MSlot::default());
                    }
                    slots.insert(l, std::mem::take(&mut a));
                }
                continue;
            }
            Op::Nest { original, panic_at, at, with, inner, .. } => match &e.ans {
                Ans::Nest { outer, inner: said } => {
                    let each = Op::Each { t, original: *original, panic_at: *panic_at };
                    let slot = slots.entry(k).or_default();
                    let v = judge_op(plan, &each, slot, outer);
                    if let Ans::Each { cut: true, .. } = **outer {
                        slot.past.cut = true;
                    }
                    let all = match &**outer {
                        Ans::Each { seen, .. } => *at as usize >= seen.len(),
                        _ => true,
                    };
                    let slot = slots.entry(key(e.client, T::L(*with))).or_default();
                    let u = match &**inner {
                        _ if **said == Ans::Skip && all => Ok(()),
                        Op::Build { doc, url, how, indexed: ix, .. } => {
                            let p = parse(&texts[*doc], url.as_deref());
                            judge_build(plan, p, *how, *ix, slot, said, excused)
                        }
                        op => judge_op(plan, op, slot, said),
                    };
                    if let Op::Spans { .. } = **inner {
                        slot.past.spans |= **said == Ans::Unit;
                    }
                    if let Ans::Each { cut: true, .. } = **said {
                        slot.past.cut = true;
                    }
                    slot.past.failed |= said.failed();
                    match (v, u) {
                        (Err(v), _) => Err(v),
                        (_, Err((l, what))) => {
                            let inside = matches!(slot.o, MObj::Indexed(_));
                            out.push(Mismatch {
                                client: e.client,
                                idx: e.idx,
                                label: l.to_string(),
                                extra: if inside { vec!["indexed".to_string()] } else { vec![] },
                                what: clip(format!("within {:?}: {}", op, what), 2500),
                            });
                            Ok(())
                        }
                        _ => Ok(()),
                    }
                }
                _ => Ok(()),
            },
            op => {
                let slot = slots.entry(k).or_default();
                judge_op(plan, op, slot, &e.ans)
            }
        };
        let slot = slots.entry(k).or_default();
        if let MObj::Indexed(_) = slot.o {
            indexed = true;
        }
        if let Op::Build { indexed: true, .. } = op {
            indexed = true;
        }
        if let Err((label, what)) = v {
            let mut extra = vec![];
            if slot.past.spans {
                extra.push("spans".to_string());
            }
            if slot.past.cut {
                extra.push("cut".to_string());
            }
            if slot.from_gen {
                extra.push("gen".to_string());
            }
            if indexed {
                extra.push("indexed".to_string());
            }
            out.push(Mismatch {
                client: e.client,
                idx: e.idx,
                label: label.to_string(),
                extra,
                what: clip(format!("{:?}: {}", op, what), 2500),
            });
        }
        let slot = slots.entry(k).or_default();
        match (op, &e.ans) {
            (Op::Spans { .. }, Ans::Unit) => slot.past.spans = true,
            (Op::Each { .. }, Ans::Each { cut: true, .. }) => slot.past.cut = true,
            _ => {}
        }
        if e.ans.failed() {
            slot.past.failed = true;
        }
    }
    out
}
