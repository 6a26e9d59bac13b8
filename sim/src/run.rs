//! One run = one forked child: a fresh process image with a chosen pool size, hash seed, clock, memory limit and schedule.
use crate::exec::{execute, judge, Event, Mismatch};
use crate::model::{Ans, Maps, Parsed};
use crate::plan::*;
use crate::prng::splitmix;
use crate::url::hopeless;
use crate::rt::{self, Counters, Policy, SimCfg, Trace};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

const RESULT_MAX: usize = 24 << 20;

#[repr(C)]
pub struct Shm {
    trace: Trace,
    result_len: usize,
    result: [u8; RESULT_MAX],
}

pub struct Lane {
    shm: *mut Shm,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Status {
    Done,
    /// deadlock or no progress
    Dead(String),
    /// the process was killed: abort, out of memory, stack overflow
    Killed(i32),
    /// real time ran out
    Wall,
    Harness(String),
    /// more threads than the simulator can run: the run says nothing
    Limit,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Outcome {
    pub status: Status,
    pub mismatches: Vec<Mismatch>,
    pub counters: Counters,
    pub events: Vec<Event>,
    /// what the calls were and how they ended
    pub reach: BTreeMap<String, u64>,
    pub digest: u64,
}

fn class(a: &Ans) -> &'static str {
    match a {
        Ans::Skip => "no object",
        Ans::Panic(_) => "panic",
        Ans::Err(_) => "error",
        Ans::Map(None) | Ans::Pos(None) | Ans::Str(None) | Ans::Num(None) => "nothing",
        Ans::Raws(v) if v.is_empty() => "nothing",
        Ans::Each { cut: true, .. } | Ans::GMaps { cut: true, .. } => "interrupted",
        Ans::Bool(false) => "false",
        Ans::Nest { outer, .. } => class(outer),
        _ => "answer",
    }
}

static mut DEAD_SHM: *mut Shm = core::ptr::null_mut();

fn put(shm: *mut Shm, o: &Outcome) {
    let v = serde_json::to_vec(o).unwrap_or_default();
    unsafe {
        if v.len() <= RESULT_MAX {
            let p = core::ptr::addr_of_mut!((*shm).result) as *mut u8;
            core::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
            (*shm).result_len = v.len();
        }
    }
}

fn on_dead(msg: &str) -> ! {
    let c = rt::counters();
    rt::leave();
    if std::env::var_os("DST_STDERR").is_some() {
        eprintln!("{}", msg);
    }
    let status = if msg.starts_with("harness") {
        Status::Harness(msg.to_string())
    } else if msg.starts_with("limit") {
        Status::Limit
    } else {
        Status::Dead(msg.to_string())
    };
    let o = Outcome { status, mismatches: vec![], counters: c, events: vec![], reach: BTreeMap::new(), digest: 0 };
    unsafe {
        put(DEAD_SHM, &o);
        libc::_exit(0);
    }
}

impl Drop for Lane {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.shm as *mut libc::c_void, core::mem::size_of::<Shm>());
        }
    }
}

fn hash_bytes(b: &[u8], mut h: u64) -> u64 {
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = splitmix(h ^ u64::from_le_bytes(x));
    }
    h
}

/// A call that makes no simulated step and does not end (the step budget cannot see it) is stopped by SIGPROF.
const CPU_SECS: i64 = 150;

unsafe fn processor_limit(secs: i64) {
    let zero = libc::timeval { tv_sec: 0, tv_usec: 0 };
    let t = libc::itimerval { it_interval: zero, it_value: libc::timeval { tv_sec: secs, tv_usec: 0 } };
    libc::syscall(libc::SYS_setitimer, libc::ITIMER_PROF, &t, 0usize);
}

impl Lane {
    pub fn new() -> Lane {
        unsafe {
            let p = libc::mmap(
                core::ptr::null_mut(),
                core::mem::size_of::<Shm>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            Lane { shm: p as *mut Shm }
        }
    }

    /// The schedule and faults of the last run.
    pub fn trace(&self) -> Vec<(u64, i64)> {
        unsafe {
            let t = &*core::ptr::addr_of!((*self.shm).trace);
            t.ev[..t.len].to_vec()
        }
    }

    pub fn run(&self, plan: &Plan, only: Option<usize>, replay: Option<&[(u64, i64)]>, keep: bool) -> Outcome {
        unsafe {
            (*self.shm).result_len = 0;
            (*self.shm).trace.len = 0;
            let pid = libc::fork();
            if pid < 0 {
                return Outcome {
                    status: Status::Harness("fork failed".into()),
                    mismatches: vec![],
                    counters: Counters::default(),
                    events: vec![],
                    reach: BTreeMap::new(),
                    digest: 0,
                };
            }
            if pid == 0 {
                // a fresh thread: fresh thread-locals (hash keys, generators), whatever the parent did before
                std::thread::scope(|sc| {
                    let me = self as *const Lane as usize;
                    let b = std::thread::Builder::new().stack_size(8 << 20);
                    let h = b.spawn_scoped(sc, move || (*(me as *const Lane)).child(plan, only, replay, keep));
                    if h.is_err() {
                        libc::_exit(3);
                    }
                });
                libc::_exit(3);
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            let n = (*self.shm).result_len;
            let fail = |status| Outcome {
                status,
                mismatches: vec![],
                counters: Counters::default(),
                events: vec![],
                reach: BTreeMap::new(),
                digest: 0,
            };
            if libc::WIFSIGNALED(st) {
                let s = libc::WTERMSIG(st);
                return fail(if s == libc::SIGPROF {
                    Status::Wall
                } else if s == libc::SIGALRM || s == libc::SIGKILL || s == libc::SIGTERM || s == libc::SIGINT {
                    Status::Harness(format!("killed by signal {}", s))
                } else {
                    Status::Killed(s)
                });
            }
            if n == 0 {
                return fail(Status::Killed(0));
            }
            let p = core::ptr::addr_of!((*self.shm).result) as *const u8;
            let b = core::slice::from_raw_parts(p, n);
            match serde_json::from_slice(b) {
                Ok(o) => o,
                Err(e) => fail(Status::Harness(format!("unreadable result: {}", e))),
            }
        }
    }

    unsafe fn child(&self, plan: &Plan, only: Option<usize>, replay: Option<&[(u64, i64)]>, keep: bool) -> ! {
        let lim = libc::rlimit { rlim_cur: 1600 << 20, rlim_max: 1600 << 20 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &nocore);
        libc::alarm(880);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        if std::env::var("DST_STDERR").is_err() {
            libc::dup2(null, 2);
        }
        std::env::set_var("RAYON_NUM_THREADS", plan.sim.pool.to_string());
        std::env::remove_var("RUST_BACKTRACE");
        std::panic::set_hook(Box::new(|_| {}));
        DEAD_SHM = self.shm;
        let rp: Option<&'static [(u64, i64)]> = replay.map(|r| &*Box::leak(r.to_vec().into_boxed_slice()));
        crate::url::SIMULATING.store(true, std::sync::atomic::Ordering::Relaxed);
        rt::start(&plan.sim, rp, core::ptr::addr_of_mut!((*self.shm).trace), on_dead);
        processor_limit(CPU_SECS);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| execute(plan, only)));
        processor_limit(0);
        let c = rt::stop();
        let o = match r {
            Err(_) => Outcome {
                status: Status::Harness("the harness panicked".into()),
                mismatches: vec![],
                counters: c,
                events: vec![],
                reach: BTreeMap::new(),
                digest: 0,
            },
            Ok(events) => {
                let fs = if c.spawn_fail > 0 { Some(c.spawn_fail_step) } else { None };
                let mismatches = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| judge(plan, &events, fs)));
                let mut reach: BTreeMap<String, u64> = BTreeMap::new();
                let mut digest = 0u64;
                for e in &events {
                    let op = if e.client == 0 { &plan.setup[e.idx] } else { &plan.clients[e.client - 1][e.idx] };
                    *reach.entry(format!("{}: {}", op.kind(), class(&e.ans))).or_insert(0) += 1;
                    let s = format!("{}.{} {:?}", e.client, e.idx, e.ans);
                    digest = hash_bytes(s.as_bytes(), digest);
                }
                match mismatches {
                    Ok(m) => Outcome {
                        status: Status::Done,
                        mismatches: m,
                        counters: c,
                        events: if keep { events } else { vec![] },
                        reach,
                        digest,
                    },
                    Err(_) => Outcome {
                        status: Status::Harness("the judge panicked".into()),
                        mismatches: vec![],
                        counters: c,
                        events: vec![],
                        reach,
                        digest,
                    },
                }
            }
        };
        put(self.shm, &o);
        libc::_exit(0);
    }
}

// ---------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub what: String,
    pub client: usize,
    pub idx: usize,
    /// schedule of the main run
    pub trace: Vec<(u64, i64)>,
}

pub struct Eval {
    pub violation: Option<Violation>,
    pub harness: Option<String>,
    pub outcomes: Vec<Outcome>,
}

fn counts(prop: &str, m: &Mismatch) -> bool {
    let l = m.label.as_str();
    let has = |x: &str| m.extra.iter().any(|e| e == x);
    if l == "BUILD" {
        return matches!(prop, "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C17" | "C03");
    }
    match prop {
        "C02" => has("indexed"),
        "C03" | "C17" => true,
        "C08" => l == "C08" || has("cut") && !has("indexed"),
        "C09" => l == "C09" || has("spans"),
        "C13" => l == "C13" || has("cut") && has("indexed"),
        "C16" => l == "C16" || has("gen"),
        p => l == p,
    }
}

fn stuck(s: &Status) -> Option<String> {
    match s {
        Status::Dead(m) => Some(m.clone()),
        Status::Killed(n) => Some(format!("the process was killed by signal {} (abort, exhausted memory or stack)", n)),
        Status::Wall => Some("no progress: a call did not end within 150 s of processor time".into()),
        _ => None,
    }
}

/// Calls that are expected to fail, whatever state the object is in.
fn is_failing(plan: &Plan, op: &Op) -> bool {
    match op {
        Op::Rev { src, .. } | Op::All { src, .. } | Op::Content { src, .. } if hopeless(src) => true,
        Op::Fwd { line, col, .. } | Op::Rev { line, col, .. } => *line < 1 || *col < 0,
        Op::All { line, col, .. } => *line < 1 || col.unwrap_or(0) < 0,
        Op::Each { panic_at, .. } => panic_at.is_some(),
        Op::Nest { panic_at, inner, .. } => panic_at.is_some() || is_failing(plan, inner),
        Op::ListEach { panic_at, .. } => panic_at.is_some(),
        Op::Content { src, panic, .. } => panic.unwrap_or(true) && src == "missing.js",
        Op::Util { a, b, c, .. } => hopeless(a) || hopeless(b) || c.as_deref().map_or(false, hopeless),
        Op::Build { t: T::L(20), .. } => true,
        Op::Build { doc, url, how, indexed, .. } => {
            let d = &plan.docs[*doc];
            let t = d.text(&plan.docs);
            match crate::model::parse(&t, url.as_deref()) {
                Parsed::Bad | Parsed::Incomplete => true,
                Parsed::Indexed(x) => x.must_fail() || x.incomplete || x.negative || (*how != How::Create && !indexed),
                Parsed::Basic(b) => !matches!(b.maps, Maps::Valid(_)) || (*how != How::Create && *indexed),
            }
        }
        _ => false,
    }
}

/// A map that can be read but whose mappings are not valid: it is its queries that fail.
fn lazily_failing(plan: &Plan, op: &Op) -> bool {
    match op {
        Op::Build { t: T::L(20), .. } => false,
        Op::Nest { panic_at: None, inner, .. } => lazily_failing(plan, inner),
        Op::Build { doc, url, .. } => match crate::model::parse(&plan.docs[*doc].text(&plan.docs), url.as_deref()) {
            Parsed::Basic(_) => true,
            Parsed::Indexed(x) => !x.must_fail() && !x.incomplete,
            _ => false,
        },
        _ => false,
    }
}

fn plain(a: &Ans) -> Ans {
    match a {
        Ans::Panic(_) => Ans::Panic(String::new()),
        Ans::Err(_) => Ans::Err(String::new()),
        Ans::Nest { outer, inner } => Ans::Nest { outer: Box::new(plain(outer)), inner: Box::new(plain(inner)) },
        a => a.clone(),
    }
}

fn by_client(o: &Outcome, client: usize) -> Vec<(usize, Ans)> {
    let mut v: Vec<(usize, Ans)> = o.events.iter().filter(|e| e.client == client).map(|e| (e.idx, plain(&e.ans))).collect();
    v.sort_by_key(|x| x.0);
    v
}

fn first_diff(a: &[(usize, Ans)], b: &[(usize, Ans)]) -> Option<(usize, String)> {
    for (x, y) in a.iter().zip(b.iter()) {
        if x != y {
            return Some((
                x.0,
                format!(
                    "{} / {}",
                    crate::model::clip(format!("{:?}", x.1), 600),
                    crate::model::clip(format!("{:?}", y.1), 600)
                ),
            ));
        }
    }
    if a.len() != b.len() {
        return Some((a.len().min(b.len()), "one history is shorter".into()));
    }
    None
}

fn serial(plan: &Plan) -> Plan {
    let mut p = plan.clone();
    p.sim.policy = Policy::Serial;
    p.sim.stall = 0;
    p.sim.spurious = 0;
    p.sim.eintr = 0;
    p.sim.wake_any = false;
    p.sim.clock_jump = 0;
    p.sim.spawn_fail = None;
    p
}

/// Run a plan (with a given schedule, if any) and decide the property on it.
pub fn evaluate(lane: &Lane, prop: &str, plan: &Plan, replay: Option<&[(u64, i64)]>) -> Eval {
    let diff = matches!(prop, "C04" | "C18" | "C03");
    let main = lane.run(plan, None, replay, diff);
    let trace = match replay {
        Some(r) => r.to_vec(),
        None => lane.trace(),
    };
    let harness = |o: &Outcome| match &o.status {
        Status::Harness(m) => Some(m.clone()),
        _ => None,
    };
    if let Some(h) = harness(&main) {
        return Eval { violation: None, harness: Some(h), outcomes: vec![main] };
    }
    let v = |what: String, client: usize, idx: usize| Some(Violation { what, client, idx, trace: trace.clone() });
    let none = |outcomes: Vec<Outcome>| Eval { violation: None, harness: None, outcomes };
    if main.status == Status::Limit {
        return none(vec![main]);
    }
    if let Some(m) = stuck(&main.status) {
        if prop == "C04" {
            // does a client alone get stuck just the same?
            let mut outs = vec![];
            for i in 0..plan.clients.len() {
                let o = lane.run(&serial(plan), Some(i), None, false);
                let s = stuck(&o.status).is_some();
                outs.push(o);
                if s {
                    outs.push(main);
                    return none(outs);
                }
            }
        }
        return Eval { violation: v(m, 0, 0), harness: None, outcomes: vec![main] };
    }
    match prop {
        "C03" => {
            if main.mismatches.is_empty() {
                return none(vec![main]);
            }
            // the same plan without its failing calls
            let mut ctl = serial(plan);
            for c in std::iter::once(&mut ctl.setup).chain(ctl.clients.iter_mut()) {
                for op in c.iter_mut() {
                    if is_failing(plan, op) && !lazily_failing(plan, op) {
                        *op = Op::Util { f: 0, a: "lib".into(), b: "a.js".into(), c: None };
                    }
                }
            }
            ctl.sim.policy = plan.sim.policy;
            let base = lane.run(&ctl, None, None, false);
            if let Some(h) = harness(&base) {
                return Eval { violation: None, harness: Some(h), outcomes: vec![main, base] };
            }
            if base.status == Status::Limit {
                return none(vec![main, base]);
            }
            let mut found = None;
            for m in &main.mismatches {
                let op = if m.client == 0 { &plan.setup[m.idx] } else { &plan.clients[m.client - 1][m.idx] };
                let failing = is_failing(plan, op);
                if !failing && !base.mismatches.iter().any(|b| b.client == m.client && b.idx == m.idx) {
                    found = v(format!("after failing calls (not without them): [{}] {}", m.label, m.what), m.client, m.idx);
                    break;
                }
            }
            Eval { violation: found, harness: None, outcomes: vec![main, base] }
        }
        "C04" => {
            let mut outs = vec![];
            for i in 0..plan.clients.len() {
                let o = lane.run(&serial(plan), Some(i), None, true);
                if let Some(h) = harness(&o) {
                    return Eval { violation: None, harness: Some(h), outcomes: vec![o] };
                }
                if o.status == Status::Done {
                    if let Some((k, d)) = first_diff(&by_client(&main, i + 1), &by_client(&o, i + 1)) {
                        let op = &plan.clients[i][k.min(plan.clients[i].len() - 1)];
                        let what = format!("{:?}: together / alone: {}", op, d);
                        outs.push(o);
                        outs.push(main);
                        return Eval { violation: v(what, i + 1, k), harness: None, outcomes: outs };
                    }
                }
                outs.push(o);
            }
            outs.insert(0, main);
            none(outs)
        }
        "C18" => {
            let half = plan.clients.len() / 2;
            for i in 0..half {
                let j = i + half;
                if plan.clients[i] != plan.clients[j] {
                    continue;
                }
                if let Some((k, d)) = first_diff(&by_client(&main, i + 1), &by_client(&main, j + 1)) {
                    let op = &plan.clients[i][k.min(plan.clients[i].len() - 1)];
                    let what = format!("{:?}: the same calls on a fresh object gave: {}", op, d);
                    return Eval { violation: v(what, i + 1, k), harness: None, outcomes: vec![main] };
                }
            }
            let mut other = serial(plan);
            other.sim = SimCfg {
                seed: splitmix(plan.sim.seed),
                pool: 1 + (plan.sim.pool * 3) % 5,
                policy: Policy::Walk { mean: 40 },
                hash_seed: splitmix(plan.sim.hash_seed) >> 8,
                clock_base: plan.sim.clock_base / 2 + 77_777,
                ..plan.sim.clone()
            };
            // earlier objects: the set-up of this run uses some first
            for i in 0..plan.docs.len() {
                other.setup.push(Op::Build { t: T::L(900), doc: i, url: None, how: How::Create, indexed: false });
                other.setup.push(Op::Sources { t: T::L(900) });
                other.setup.push(Op::Fwd { t: T::L(900), line: 1, col: 0, lub: Some(true) });
            }
            let undamaged: Vec<usize> = (0..plan.docs.len()).filter(|&i| plan.docs[i].damage.is_empty()).collect();
            if plan.sim.seed % 8 == 0 && !undamaged.is_empty() && plan.clients.len() < 20 {
                // and in some runs a great many
                for k in 0..(64 + splitmix(plan.sim.seed ^ 1) % 300) as usize {
                    let i = undamaged[k % undamaged.len()];
                    let indexed = matches!(plan.docs[i].body, crate::spec::Body::Indexed { .. });
                    other.setup.push(Op::Build { t: T::L(901 + k % 3), doc: i, url: None, how: How::Create, indexed });
                    other.setup.push(Op::Fwd { t: T::L(901 + k % 3), line: 1 + (k % 2) as i32, col: (k % 5) as i32, lub: None });
                }
            }
            let o = lane.run(&other, None, None, true);
            if let Some(h) = harness(&o) {
                return Eval { violation: None, harness: Some(h), outcomes: vec![main, o] };
            }
            let mut found = stuck(&o.status).and_then(|m| v(format!("under another schedule: {}", m), 0, 0));
            if o.status == Status::Done {
                for i in 0..plan.clients.len() {
                    if let Some((k, d)) = first_diff(&by_client(&main, i + 1), &by_client(&o, i + 1)) {
                        let op = &plan.clients[i][k.min(plan.clients[i].len() - 1)];
                        found = v(format!("{:?}: under different hash seeds, pool, schedule or time: {}", op, d), i + 1, k);
                        break;
                    }
                }
            }
            Eval { violation: found, harness: None, outcomes: vec![main, o] }
        }
        p => {
            let hit = main.mismatches.iter().find(|m| counts(p, m)).cloned();
            let found = hit.and_then(|m| v(format!("[{}] {}", m.label, m.what), m.client, m.idx));
            Eval { violation: found, harness: None, outcomes: vec![main] }
        }
    }
}

/// All mismatches, for exploring by hand.
pub fn all_mismatches(lane: &Lane, plan: &Plan) -> Outcome {
    lane.run(plan, None, None, false)
}

// minimisation ---------------------------------------------------------------------------------------------------------

pub struct Shrinker<'a> {
    pub lane: &'a Lane,
    pub prop: &'a str,
    pub until: std::time::Instant,
    pub tried: u64,
}

impl Shrinker<'_> {
    fn late(&self) -> bool {
        std::time::Instant::now() > self.until
    }
    /// Does this plan fail, under its own schedule seed or one of a few others?
    fn fails(&mut self, p: &Plan, tries: u64) -> Option<(Plan, Violation)> {
        for k in 0..tries {
            if self.late() {
                return None;
            }
            let mut q = p.clone();
            if k > 0 {
                q.sim.seed = splitmix(p.sim.seed ^ k);
            }
            self.tried += 1;
            let e = evaluate(self.lane, self.prop, &q, None);
            if let Some(v) = e.violation {
                return Some((q, v));
            }
        }
        None
    }

    pub fn shrink(&mut self, plan: &Plan, v: &Violation) -> (Plan, Violation) {
        let mut best = (plan.clone(), v.clone());
        // the plainest schedule that still fails
        let mut s = serial(plan);
        s.sim.pool = 1;
        let mut tries = 6;
        for cand in [s, serial(plan), {
            let mut p = plan.clone();
            p.sim.stall = 0;
            p.sim.spurious = 0;
            p.sim.eintr = 0;
            p.sim.wake_any = false;
            p.sim.clock_jump = 0;
            p.sim.spawn_fail = None;
            p
        }] {
            if let Some(b) = self.fails(&cand, 2) {
                if b.0.sim.policy == Policy::Serial {
                    tries = 1;
                }
                best = b;
                break;
            }
        }
        for _ in 0..3 {
            let before = size(&best.0);
            self.cut_clients(&mut best, tries);
            self.cut_ops(&mut best, tries);
            self.cut_docs(&mut best, tries);
            if size(&best.0) == before || self.late() {
                break;
            }
        }
        // now the schedule itself
        let tr = best.1.trace.clone();
        if !tr.is_empty() && !self.late() {
            let e = evaluate(self.lane, self.prop, &best.0, Some(&tr));
            if let Some(v) = e.violation {
                best.1 = v;
                let mut cur = tr;
                let mut n = 2usize;
                while !cur.is_empty() && !self.late() {
                    let len = cur.len();
                    let chunk = len.div_ceil(n).max(1);
                    let mut hit = false;
                    let mut i = 0;
                    while i < cur.len() && !self.late() {
                        let mut t = cur.clone();
                        t.drain(i..(i + chunk).min(cur.len()));
                        self.tried += 1;
                        let e = evaluate(self.lane, self.prop, &best.0, Some(&t));
                        if let Some(v) = e.violation {
                            best.1 = v;
                            cur = t;
                            hit = true;
                        } else {
                            i += chunk;
                        }
                    }
                    if !hit {
                        if chunk == 1 {
                            break;
                        }
                        n = (n * 2).min(cur.len().max(2));
                    } else {
                        n = n.max(2).min(cur.len().max(2));
                    }
                }
                best.1.trace = cur;
            }
        }
        best
    }

    fn try_plan(&mut self, best: &mut (Plan, Violation), p: Plan, tries: u64) -> bool {
        if p == best.0 {
            return false;
        }
        match self.fails(&p, tries) {
            Some(b) => {
                *best = b;
                true
            }
            None => false,
        }
    }

    fn cut_clients(&mut self, best: &mut (Plan, Violation), tries: u64) {
        let mut i = 0;
        while i < best.0.clients.len() && best.0.clients.len() > 1 && !self.late() {
            let mut p = best.0.clone();
            if self.prop == "C18" {
                let half = p.clients.len() / 2;
                if half < 2 || i >= half {
                    return;
                }
                p.clients.remove(i + half);
            }
            p.clients.remove(i);
            if !self.try_plan(best, p, tries) {
                i += 1;
            }
        }
    }

    fn cut_ops(&mut self, best: &mut (Plan, Violation), tries: u64) {
        let n = best.0.clients.len();
        let twins = self.prop == "C18";
        for c in 0..=n {
            if twins && c > n / 2 {
                break;
            }
            let len = |p: &Plan| if c == 0 { p.setup.len() } else { p.clients[c - 1].len() };
            let mut chunk = (len(&best.0) / 2).max(1);
            loop {
                let mut i = 0;
                while i < len(&best.0) && !self.late() {
                    let mut p = best.0.clone();
                    let end = (i + chunk).min(len(&p));
                    if c == 0 {
                        p.setup.drain(i..end);
                    } else {
                        p.clients[c - 1].drain(i..end);
                        if twins {
                            let t = p.clients[c - 1].clone();
                            p.clients[c - 1 + n / 2] = t;
                        }
                    }
                    if !self.try_plan(best, p, tries) {
                        i += chunk;
                    }
                }
                if chunk == 1 || self.late() {
                    break;
                }
                chunk = (chunk / 2).max(1);
            }
        }
    }

    fn cut_docs(&mut self, best: &mut (Plan, Violation), tries: u64) {
        use crate::spec::*;
        for d in 0..best.0.docs.len() {
            // sections
            let nsec = |p: &Plan| match &p.docs[d].body {
                Body::Indexed { sections, .. } => sections.len(),
                _ => 0,
            };
            let mut chunk = (nsec(&best.0) / 2).max(1);
            while nsec(&best.0) > 0 && !self.late() {
                let mut i = 0;
                while i < nsec(&best.0) && !self.late() {
                    let mut p = best.0.clone();
                    if let Body::Indexed { sections, .. } = &mut p.docs[d].body {
                        let e = (i + chunk).min(sections.len());
                        sections.drain(i..e);
                    }
                    if !self.try_plan(best, p, tries) {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
            for k in 0..nsec(&best.0).max(1) {
                fn map(p: &mut Plan, d: usize, k: usize) -> Option<&mut Basic> {
                    match &mut p.docs[d].body {
                        Body::Basic(b) => Some(b),
                        Body::Indexed { sections, .. } => sections.get_mut(k).map(|s| &mut s.map),
                    }
                }
                let nseg = |p: &mut Plan| map(p, d, k).map_or(0, |b| b.segs.len());
                let mut chunk = (nseg(&mut best.0) / 2).max(1);
                while nseg(&mut best.0) > 0 && !self.late() {
                    let mut i = 0;
                    while i < nseg(&mut best.0) && !self.late() {
                        let mut p = best.0.clone();
                        if let Some(b) = map(&mut p, d, k) {
                            let e = (i + chunk).min(b.segs.len());
                            b.segs.drain(i..e);
                        }
                        if !self.try_plan(best, p, tries) {
                            i += chunk;
                        }
                    }
                    if chunk == 1 {
                        break;
                    }
                    chunk /= 2;
                }
                let edits: [fn(&mut Basic); 5] = [
                    |b| b.contents = None,
                    |b| b.root = None,
                    |b| b.file = None,
                    |b| {
                        for s in &mut b.segs {
                            s.name = None
                        }
                        b.names = None
                    },
                    |b| {
                        let n = b.segs.iter().filter_map(|s| s.orig.as_ref().map(|o| o.0 as usize + 1)).max().unwrap_or(0);
                        b.sources.truncate(n)
                    },
                ];
                for f in edits {
                    let mut p = best.0.clone();
                    if let Some(b) = map(&mut p, d, k) {
                        f(b);
                    }
                    self.try_plan(best, p, tries);
                }
            }
            for i in (0..best.0.docs[d].damage.len()).rev() {
                let mut p = best.0.clone();
                p.docs[d].damage.remove(i);
                self.try_plan(best, p, tries);
            }
            let mut p = best.0.clone();
            p.docs[d].style = 0;
            self.try_plan(best, p, tries);
        }
        // documents nothing uses
        for d in 0..best.0.docs.len() {
            let used = best.0.setup.iter().chain(best.0.clients.iter().flatten()).any(|o| matches!(o, Op::Build { doc, .. } if *doc == d));
            if !used {
                let mut p = best.0.clone();
                p.docs[d] = Doc { body: Body::Basic(Basic { version: 3, ..Default::default() }), damage: vec![], style: 0 };
                self.try_plan(best, p, tries);
            }
        }
    }
}

fn size(p: &Plan) -> usize {
    serde_json::to_string(p).map(|s| s.len()).unwrap_or(0)
}
