//! The deterministic runtime: real threads, one of which runs at a time, chosen by a seeded scheduler.
//!
//! Everything by which threads of a Rust process start, block, wake, sleep, read clocks or obtain randomness on Linux
//! is interposed here (pthread_create/join, the futex system call under every std lock/condvar/park/once, sched_yield,
//! nanosleep, clock_gettime, getrandom), and the code under test is compiled with a callback on every control-flow edge
//! (`__sanitizer_cov_trace_pc_guard`), where the running thread may be preempted. Outside a simulation (thread id < 0)
//! everything passes through to the real system.
//!
//! A run's schedule is the list of its deviations from a fixed default policy: (step, value) pairs, value >= 0 being
//! the thread switched to and value < 0 a fault. Feeding that list back reproduces the run exactly.

use crate::prng::{splitmix, Rng};
use core::arch::asm;
use core::cell::{Cell, UnsafeCell};
use core::sync::atomic::{AtomicU32, Ordering};
use libc::{c_int, c_long, c_uint, c_void, pthread_attr_t, pthread_t, size_t, ssize_t, timespec};

pub const MAXT: usize = 512;
pub const MAX_TRACE: usize = 1 << 18;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Free,
    Runnable,
    Blocked,
    Finished,
}

struct Thr {
    park: AtomicU32,
    st: St,
    addr: usize,
    mask: u32,
    deadline: u64,
    timed_out: bool,
    prio: u64,
    stalled_until: u64,
    pt: pthread_t,
    detached: bool,
    yields: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Policy {
    /// Switch to a uniformly chosen runnable thread about every `mean` steps and at every blocking operation.
    Walk { mean: u64 },
    /// Random priorities with `changes` priority drops at random steps within the first `horizon` steps.
    Pct { changes: u32, horizon: u64 },
    /// Round robin with a quantum.
    Robin { quantum: u64 },
    /// No preemption; a random choice whenever the running thread blocks, yields or ends.
    Block,
    /// The default policy only: no preemption, next thread in order when the running one blocks.
    Serial,
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct SimCfg {
    pub seed: u64,
    pub pool: u32,
    pub policy: Policy,
    /// chances in 1/1000
    pub stall: u32,
    pub spurious: u32,
    pub eintr: u32,
    pub wake_any: bool,
    pub clock_jump: u32,
    /// fail the n-th thread creation that is not a simulated client
    pub spawn_fail: Option<u32>,
    pub hash_seed: u64,
    pub clock_base: u64,
    pub max_steps: u64,
}

impl SimCfg {
    pub fn serial(seed: u64) -> SimCfg {
        SimCfg {
            seed,
            pool: 1,
            policy: Policy::Serial,
            stall: 0,
            spurious: 0,
            eintr: 0,
            wake_any: false,
            clock_jump: 0,
            spawn_fail: None,
            hash_seed: 1,
            clock_base: 1_700_000_000,
            max_steps: 1_000_000_000,
        }
    }
}

/// Counters of what actually happened in a run.
#[derive(Clone, Copy, Default, Debug, serde::Serialize, serde::Deserialize)]
#[repr(C)]
pub struct Counters {
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub stalls: u64,
    pub spurious: u64,
    pub eintr: u64,
    pub wake_reorder: u64,
    pub spawn_fail: u64,
    pub spawn_fail_step: u64,
    pub clock_jumps: u64,
    pub clock_reads: u64,
    pub random_reads: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub threads: u64,
    pub max_runnable: u64,
    pub sim_ns: u64,
    pub hash: u64,
}

#[repr(C)]
pub struct Trace {
    pub len: usize,
    pub overflow: bool,
    pub ev: [(u64, i64); MAX_TRACE],
}

struct Sim {
    active: bool,
    cur: usize,
    n: usize,
    thr: [Thr; MAXT],
    rng: Rng,
    hash_rng: Rng,
    cfg: SimCfg,
    replay: Option<(*const (u64, i64), usize)>,
    replay_pos: usize,
    next_point: u64,
    base_ns: u64,
    protect: bool,
    spawned: u32,
    pct_low: u64,
    pct_points: [u64; 16],
    last_switch: u64,
    /// kernel id of the thread that has just ended
    ending: i32,
    c: Counters,
    trace: *mut Trace,
    on_dead: fn(&str) -> !,
}

struct Global(UnsafeCell<core::mem::MaybeUninit<Sim>>);
unsafe impl Sync for Global {}
static SIM: Global = Global(UnsafeCell::new(core::mem::MaybeUninit::uninit()));
static mut STEPS: u64 = 0;
static mut NEXT: u64 = u64::MAX;
/// Set while the scheduler itself runs: it may share instances of generic functions with instrumented crates.
static mut BUSY: bool = false;
static mut KEY: libc::pthread_key_t = 0;

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
}

#[inline(always)]
fn sim() -> &'static mut Sim {
    unsafe { (*SIM.0.get()).assume_init_mut() }
}
#[inline(always)]
fn tid() -> i32 {
    TID.with(|t| t.get())
}

unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e,
         in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

fn real_wait(p: &AtomicU32) {
    while p.swap(0, Ordering::Acquire) == 0 {
        unsafe {
            raw(libc::SYS_futex, p as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, 0, 0, 0, 0);
        }
    }
}
fn real_wake(p: &AtomicU32) {
    p.store(1, Ordering::Release);
    unsafe {
        raw(libc::SYS_futex, p as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
    }
}

/// Held by the running thread while it is inside the scheduler; whoever comes out of `decide` runs.
struct Busy(bool);
impl Busy {
    #[inline(always)]
    fn enter() -> Busy {
        unsafe {
            let was = BUSY;
            BUSY = true;
            Busy(was)
        }
    }
}
impl Drop for Busy {
    #[inline(always)]
    fn drop(&mut self) {
        unsafe { BUSY = self.0 }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Kind {
    Preempt,
    Wake,
    Yield,
    Block,
}

impl Sim {
    fn eligible(&self, i: usize) -> bool {
        self.thr[i].st == St::Runnable && self.thr[i].stalled_until <= unsafe { STEPS }
    }
    fn record(&mut self, step: u64, v: i64) {
        unsafe {
            let t = &mut *self.trace;
            if t.len < MAX_TRACE {
                t.ev[t.len] = (step, v);
                t.len += 1;
            } else {
                t.overflow = true;
            }
        }
    }
    fn mix(&mut self, a: u64, b: u64) {
        self.c.hash = splitmix(self.c.hash ^ splitmix(a.wrapping_mul(31).wrapping_add(b)));
    }
    fn replayed(&mut self, step: u64, fault: bool) -> Option<i64> {
        let (p, n) = self.replay?;
        let ev = unsafe { core::slice::from_raw_parts(p, n) };
        while self.replay_pos < n && ev[self.replay_pos].0 < step {
            self.replay_pos += 1;
        }
        if self.replay_pos < n && ev[self.replay_pos].0 == step && (ev[self.replay_pos].1 < 0) == fault {
            let v = ev[self.replay_pos].1;
            self.replay_pos += 1;
            return Some(v);
        }
        None
    }
    /// A fault decision of code `-code`; `num` chances in 1000.
    fn fault(&mut self, code: i64, num: u32) -> bool {
        unsafe { STEPS += 1 };
        let step = unsafe { STEPS };
        if self.replay.is_some() {
            let hit = self.replayed(step, true) == Some(-code);
            return hit;
        }
        if num > 0 && self.rng.chance(num as u64, 1000) {
            self.record(step, -code);
            return true;
        }
        false
    }
    fn default_next(&self, kind: Kind) -> usize {
        let c = self.cur;
        if kind == Kind::Preempt || kind == Kind::Wake {
            return c;
        }
        for k in 1..=self.n {
            let i = (c + k) % self.n;
            if self.thr[i].st == St::Runnable {
                return i;
            }
        }
        c
    }
    fn pick_random(&mut self, not_cur: bool) -> Option<usize> {
        let mut cand = [0usize; MAXT];
        let mut n = 0;
        for i in 0..self.n {
            if self.eligible(i) && !(not_cur && i == self.cur) {
                cand[n] = i;
                n += 1;
            }
        }
        if n == 0 {
            for i in 0..self.n {
                if self.thr[i].st == St::Runnable && !(not_cur && i == self.cur) {
                    cand[n] = i;
                    n += 1;
                }
            }
        }
        if n == 0 {
            None
        } else {
            Some(cand[self.rng.us(n)])
        }
    }
    fn policy_next(&mut self, kind: Kind) -> usize {
        let steps = unsafe { STEPS };
        let dflt = self.default_next(kind);
        match self.cfg.policy {
            Policy::Serial => dflt,
            Policy::Block => {
                if kind == Kind::Yield || kind == Kind::Block {
                    self.pick_random(kind == Kind::Yield).unwrap_or(dflt)
                } else {
                    dflt
                }
            }
            Policy::Walk { .. } => match kind {
                Kind::Yield => self.pick_random(true).unwrap_or(dflt),
                _ => self.pick_random(false).unwrap_or(dflt),
            },
            Policy::Robin { .. } => {
                if kind == Kind::Wake {
                    return dflt;
                }
                let c = self.cur;
                for k in 1..=self.n {
                    let i = (c + k) % self.n;
                    if self.eligible(i) {
                        return i;
                    }
                }
                dflt
            }
            Policy::Pct { .. } => {
                let mut change = false;
                for p in self.pct_points.iter_mut() {
                    if *p != 0 && *p <= steps {
                        *p = 0;
                        change = true;
                    }
                }
                // a thread that keeps running (or spinning) for long is demoted, so that every thread gets its turn
                if change || kind == Kind::Yield || steps - self.last_switch > 60_000 {
                    self.pct_low -= 1;
                    let cur = self.cur;
                    self.thr[cur].prio = self.pct_low;
                }
                let mut best: Option<usize> = None;
                for i in 0..self.n {
                    if self.eligible(i) && best.map_or(true, |b| self.thr[i].prio > self.thr[b].prio) {
                        best = Some(i);
                    }
                }
                best.unwrap_or(dflt)
            }
        }
    }
    /// Long runs switch less and less often: the number of switches of a run stays below about half a million.
    fn plan_next_point(&mut self) {
        let steps = unsafe { STEPS };
        let mut next = if self.replay.is_some() {
            let (p, n) = self.replay.unwrap();
            let ev = unsafe { core::slice::from_raw_parts(p, n) };
            let mut k = self.replay_pos;
            while k < n && ev[k].0 <= steps {
                k += 1;
            }
            if k < n {
                ev[k].0
            } else {
                u64::MAX
            }
        } else {
            match self.cfg.policy {
                Policy::Serial | Policy::Block => u64::MAX,
                Policy::Walk { mean } => {
                    let mean = mean << (self.c.preemptions / 20_000).min(24);
                    // geometric-like gap
                    let r = self.rng.below(1 << 20) + 1;
                    let lg = 20 - (63 - r.leading_zeros() as u64); // 0.. about 20, mean about 1
                    let g = mean * lg + self.rng.below(mean + 1);
                    steps + 1 + g
                }
                Policy::Robin { quantum } => steps + (quantum.max(1) << (self.c.preemptions / 20_000).min(24)),
                Policy::Pct { .. } => {
                    let mut m = steps + 60_001;
                    for &p in self.pct_points.iter() {
                        if p > steps && p < m {
                            m = p;
                        }
                    }
                    m
                }
            }
        };
        if next > self.cfg.max_steps {
            next = self.cfg.max_steps + 1;
        }
        self.next_point = next;
        unsafe { NEXT = next };
    }

    /// If the thread that ran before has ended, wait until it is gone: what glibc does at the end of a thread (it gives
    /// memory back) must not happen beside the schedule.
    fn reap(&mut self) {
        let t = self.ending;
        if t != 0 {
            unsafe {
                let pid = raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as usize;
                while raw(libc::SYS_tgkill, pid, t as usize, 0, 0, 0, 0) != -(libc::ESRCH as isize) {
                    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
                }
            }
            self.ending = 0;
        }
    }

    fn thread(&self, t: pthread_t) -> Option<usize> {
        (0..self.n).find(|&i| self.thr[i].pt == t && self.thr[i].st != St::Free && !self.thr[i].detached)
    }

    /// The running thread offers the processor.
    fn decide(&mut self, kind: Kind) {
        let _b = Busy::enter();
        self.decide_inner(kind);
    }
    fn decide_inner(&mut self, kind: Kind) {
        if kind != Kind::Preempt {
            // dearer and dearer, so that threads that wait for each other forever use up the budget in reasonable time
            unsafe { STEPS += 1 + self.c.switches / 2000 };
        }
        let steps = unsafe { STEPS };
        if steps > self.cfg.max_steps {
            (self.on_dead)("no progress: the step budget of the run is used up");
        }
        let cur = self.cur;
        // nobody can run: let time pass, else it is a deadlock
        while !(0..self.n).any(|i| self.thr[i].st == St::Runnable) {
            let mut best: Option<usize> = None;
            for i in 0..self.n {
                let t = &self.thr[i];
                if t.st == St::Blocked && t.deadline != u64::MAX && best.map_or(true, |b| t.deadline < self.thr[b].deadline) {
                    best = Some(i);
                }
            }
            match best {
                None => (self.on_dead)("deadlock: every thread is blocked"),
                Some(i) => {
                    if self.thr[i].deadline > self.c.sim_ns {
                        self.c.sim_ns = self.thr[i].deadline;
                    }
                    self.thr[i].st = St::Runnable;
                    self.thr[i].timed_out = true;
                }
            }
        }
        let runnable = (0..self.n).filter(|&i| self.thr[i].st == St::Runnable).count() as u64;
        if runnable > self.c.max_runnable {
            self.c.max_runnable = runnable;
        }
        let dflt = self.default_next(kind);
        let next = if self.replay.is_some() {
            match self.replayed(steps, false) {
                Some(v) if (v as usize) < self.n && self.thr[v as usize].st == St::Runnable => v as usize,
                _ => dflt,
            }
        } else {
            let p = self.policy_next(kind);
            if p != dflt {
                self.record(steps, p as i64);
                if self.cfg.stall > 0 && self.thr[cur].st == St::Runnable && self.rng.chance(self.cfg.stall as u64, 1000) {
                    let d = 1u64 << self.rng.range(4, 16);
                    self.thr[cur].stalled_until = steps + d;
                    self.c.stalls += 1;
                }
            }
            p
        };
        if next != cur {
            self.c.switches += 1;
            if kind == Kind::Preempt {
                self.c.preemptions += 1;
            }
            self.mix(steps, next as u64);
            self.last_switch = steps;
        }
        self.cur = next;
        self.plan_next_point();
        if next != cur {
            let fin = matches!(self.thr[cur].st, St::Finished | St::Free);
            real_wake(&self.thr[next].park);
            if !fin {
                real_wait(&self.thr[cur].park);
                self.reap();
            }
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_a: *mut u32, _b: *mut u32) {}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_g: *mut u32) {
    unsafe {
        if BUSY || tid() < 0 {
            return;
        }
        STEPS += 1;
        if STEPS >= NEXT {
            sim().decide(Kind::Preempt);
        }
    }
}

/// A preemption point of the harness itself.
pub fn point() {
    if tid() >= 0 {
        sim().decide(Kind::Wake);
    }
}

/// Start simulating on this thread, which becomes thread 0.
pub fn start(cfg: &SimCfg, replay: Option<&'static [(u64, i64)]>, trace: *mut Trace, on_dead: fn(&str) -> !) {
    unsafe {
        let mut rng = Rng::new(cfg.seed ^ 0x5c4e_d01e);
        let mut pct_points = [0u64; 16];
        if let Policy::Pct { changes, horizon } = cfg.policy {
            for p in pct_points.iter_mut().take(changes as usize) {
                *p = 1 + rng.below(horizon);
            }
        }
        (*trace).len = 0;
        (*trace).overflow = false;
        let thr = core::array::from_fn(|_| Thr {
            park: AtomicU32::new(0),
            st: St::Free,
            addr: 0,
            mask: 0,
            deadline: u64::MAX,
            timed_out: false,
            prio: 0,
            stalled_until: 0,
            pt: 0,
            detached: false,
            yields: 0,
        });
        let s = Sim {
            active: true,
            cur: 0,
            n: 1,
            thr,
            rng,
            hash_rng: Rng::new(cfg.hash_seed ^ 0x4a5b),
            cfg: cfg.clone(),
            replay: replay.map(|r| (r.as_ptr(), r.len())),
            replay_pos: 0,
            next_point: 0,
            base_ns: cfg.clock_base.wrapping_mul(1_000_000_000),
            protect: true,
            spawned: 0,
            pct_low: 1 << 32,
            pct_points,
            last_switch: 0,
            ending: 0,
            c: Counters::default(),
            trace,
            on_dead,
        };
        (*SIM.0.get()).write(s);
        let s = sim();
        s.thr[0].st = St::Runnable;
        s.thr[0].pt = libc::pthread_self();
        s.thr[0].prio = (1 << 33) + s.rng.below(1 << 32);
        s.c.threads = 1;
        libc::pthread_key_create(core::ptr::addr_of_mut!(KEY), Some(at_exit));
        STEPS = 0;
        s.plan_next_point();
        TID.with(|t| t.set(0));
    }
}

/// Stop simulating; the other threads stay parked for good.
pub fn stop() -> Counters {
    let s = sim();
    s.active = false;
    TID.with(|t| t.set(-1));
    let mut c = s.c;
    c.steps = unsafe { STEPS };
    c.sim_ns += c.steps * 100;
    c
}

/// Counters so far (for a run that ends by deadlock or exhaustion).
pub fn counters() -> Counters {
    let mut c = sim().c;
    c.steps = unsafe { STEPS };
    c.sim_ns += c.steps * 100;
    c
}

pub fn leave() {
    TID.with(|t| t.set(-1));
}

/// Client threads of the harness are never the target of a thread-creation fault.
pub fn protect_spawn(on: bool) {
    if tid() >= 0 {
        sim().protect = on;
    }
}

pub fn step() -> u64 {
    unsafe { STEPS }
}

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    id: usize,
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let s = Box::from_raw(p as *mut Start);
        real_wait(&sim().thr[s.id].park);
        sim().reap();
        libc::pthread_setspecific(KEY, (3usize << 8 | 1) as *const c_void);
        let (f, arg) = (s.f, s.arg);
        TID.with(|t| t.set(s.id as i32));
        drop(s);
        BUSY = false;
        f(arg)
        // the thread-local destructors run after this, still simulated; `at_exit` comes last
    }
}

extern "C" fn at_exit(v: *mut c_void) {
    // from here to the end this thread is inside the scheduler; the next one to run clears the flag
    let b = Busy::enter();
    unsafe {
        let left = (v as usize) >> 8;
        if left > 1 {
            // come back in a later round, after destructors that other keys may still run
            libc::pthread_setspecific(KEY, (((left - 1) << 8) | 1) as *const c_void);
            return;
        }
        let me = tid();
        if me < 0 {
            return;
        }
        core::mem::forget(b);
        let me = me as usize;
        let s = sim();
        s.thr[me].st = if s.thr[me].detached { St::Free } else { St::Finished };
        let key = JOIN_BASE + me;
        for i in 0..s.n {
            if s.thr[i].st == St::Blocked && s.thr[i].addr == key {
                s.thr[i].st = St::Runnable;
            }
        }
        TID.with(|t| t.set(-1));
        s.ending = raw(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) as i32;
        // the thread that runs next waits until this one is gone
        s.decide_inner(Kind::Block);
    }
}

const JOIN_BASE: usize = 1; // never a valid futex address
const SLEEP_ADDR: usize = usize::MAX;

type CreateFn =
    unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
type JoinFn = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;

static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;
static mut REAL_DETACH: Option<unsafe extern "C" fn(pthread_t) -> c_int> = None;

/// Resolve the real functions before any simulation (and before any thread).
pub fn init() {
    unsafe {
        REAL_CREATE = core::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()));
        REAL_JOIN = core::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()));
        REAL_DETACH = core::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_detach".as_ptr()));
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let real = REAL_CREATE.expect("init");
    if tid() < 0 {
        return real(t, attr, f, arg);
    }
    let _b = Busy::enter();
    let s = sim();
    if !s.protect {
        s.spawned += 1;
        let fail = match s.cfg.spawn_fail {
            Some(n) if n == s.spawned => 1000,
            _ => 0,
        };
        if s.fault(3, fail) {
            s.c.spawn_fail += 1;
            s.c.spawn_fail_step = STEPS;
            return libc::EAGAIN;
        }
    }
    let id = (1..s.n).find(|&i| s.thr[i].st == St::Free).unwrap_or(s.n);
    if id == MAXT {
        (s.on_dead)("limit: too many threads");
    }
    let b = Box::into_raw(Box::new(Start { f, arg, id }));
    let mut pt: pthread_t = 0;
    s.thr[id].park.store(0, Ordering::Release);
    let r = real(&mut pt, attr, trampoline, b as *mut c_void);
    if r != 0 {
        (s.on_dead)("limit: no more real threads");
    }
    s.n = s.n.max(id + 1);
    s.c.threads += 1;
    s.thr[id].st = St::Runnable;
    s.thr[id].pt = pt;
    s.thr[id].prio = (1 << 33) + s.rng.below(1 << 32);
    s.thr[id].deadline = u64::MAX;
    s.thr[id].stalled_until = 0;
    s.thr[id].timed_out = false;
    s.thr[id].detached = false;
    s.thr[id].yields = 0;
    s.thr[id].addr = 0;
    *t = pt;
    s.decide(Kind::Wake);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, ret: *mut *mut c_void) -> c_int {
    let real = REAL_JOIN.expect("init");
    if tid() < 0 {
        return real(t, ret);
    }
    let _b = Busy::enter();
    let s = sim();
    if let Some(i) = s.thread(t) {
        let me = s.cur;
        while s.thr[i].st != St::Finished {
            s.thr[me].st = St::Blocked;
            s.thr[me].addr = JOIN_BASE + i;
            s.thr[me].deadline = u64::MAX;
            s.decide(Kind::Block);
        }
        s.thr[i].st = St::Free;
    }
    real(t, ret)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: pthread_t) -> c_int {
    let real = REAL_DETACH.expect("init");
    if tid() < 0 {
        return real(t);
    }
    let _b = Busy::enter();
    let s = sim();
    if let Some(i) = s.thread(t) {
        s.thr[i].detached = true;
        if s.thr[i].st == St::Finished {
            s.thr[i].st = St::Free;
        }
    }
    real(t)
}

fn ts_ns(ts: *const timespec) -> u64 {
    unsafe { (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64 }
}
fn now_mono() -> u64 {
    let s = sim();
    1_000_000_000 + s.c.sim_ns + unsafe { STEPS } * 100
}

unsafe fn futex(uaddr: usize, op: c_int, val: u32, timeout: *const timespec, val3: u32) -> isize {
    let _b = Busy::enter();
    let s = sim();
    let me = s.cur;
    let cmd = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            s.c.futex_waits += 1;
            if (*(uaddr as *const AtomicU32)).load(Ordering::SeqCst) != val {
                return -(libc::EAGAIN as isize);
            }
            if s.fault(1, s.cfg.spurious) {
                s.c.spurious += 1;
                s.decide(Kind::Wake);
                return 0;
            }
            if s.fault(2, s.cfg.eintr) {
                s.c.eintr += 1;
                s.decide(Kind::Wake);
                return -(libc::EINTR as isize);
            }
            let mut deadline = u64::MAX;
            if !timeout.is_null() {
                let t = ts_ns(timeout);
                deadline = if cmd == libc::FUTEX_WAIT {
                    s.c.sim_ns + t
                } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                    s.c.sim_ns + t.saturating_sub(s.base_ns + now_mono())
                } else {
                    s.c.sim_ns + t.saturating_sub(now_mono())
                };
            }
            s.thr[me].st = St::Blocked;
            s.thr[me].addr = uaddr;
            s.thr[me].mask = if cmd == libc::FUTEX_WAIT_BITSET { val3 } else { u32::MAX };
            s.thr[me].deadline = deadline;
            s.thr[me].timed_out = false;
            s.decide(Kind::Block);
            if sim().thr[me].timed_out {
                return -(libc::ETIMEDOUT as isize);
            }
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            s.c.futex_wakes += 1;
            let mask = if cmd == libc::FUTEX_WAKE_BITSET { val3 } else { u32::MAX };
            let mut woken = 0;
            while (woken as u32) < val {
                let mut cand = [0usize; MAXT];
                let mut n = 0;
                for i in 0..s.n {
                    if s.thr[i].st == St::Blocked && s.thr[i].addr == uaddr && s.thr[i].mask & mask != 0 {
                        cand[n] = i;
                        n += 1;
                    }
                }
                if n == 0 {
                    break;
                }
                let mut k = 0;
                if n > 1 {
                    STEPS += 1;
                    let step = STEPS;
                    if s.replay.is_some() {
                        if let Some(v) = s.replayed(step, true) {
                            if v <= -100 {
                                k = ((-v - 100) as usize).min(n - 1);
                            }
                        }
                    } else if s.cfg.wake_any {
                        k = s.rng.us(n);
                        if k != 0 {
                            s.record(step, -(100 + k as i64));
                        }
                    }
                    if k != 0 {
                        s.c.wake_reorder += 1;
                    }
                }
                s.thr[cand[k]].st = St::Runnable;
                woken += 1;
            }
            s.decide(Kind::Wake);
            woken
        }
        _ => raw(libc::SYS_futex, uaddr, op as usize, val as usize, timeout as usize, 0, val3 as usize),
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let r = if n == libc::SYS_futex && tid() >= 0 {
        futex(a, b as c_int, c as u32, d as *const timespec, f as u32)
    } else if n == libc::SYS_getrandom && tid() >= 0 {
        fill_random(a as *mut u8, b)
    } else {
        raw(n, a, b, c, d, e, f)
    };
    if (-4095..0).contains(&r) {
        set_errno(-r as c_int);
        return -1;
    }
    r as c_long
}

unsafe fn fill_random(p: *mut u8, n: usize) -> isize {
    let _b = Busy::enter();
    let s = sim();
    s.c.random_reads += 1;
    for i in 0..n {
        *p.add(i) = s.hash_rng.next() as u8;
    }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if tid() >= 0 {
        return fill_random(p as *mut u8, n);
    }
    let r = raw(libc::SYS_getrandom, p as usize, n, flags as usize, 0, 0, 0);
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if tid() >= 0 {
        let s = sim();
        let me = s.cur;
        s.thr[me].yields = s.thr[me].yields.wrapping_add(1);
        s.decide(Kind::Yield);
    } else {
        raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut timespec) -> c_int {
    if tid() < 0 {
        let r = raw(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0);
        if r < 0 {
            set_errno(-r as c_int);
            return -1;
        }
        return 0;
    }
    let _b = Busy::enter();
    let s = sim();
    s.c.clock_reads += 1;
    let jump = s.cfg.clock_jump;
    if s.fault(4, jump) {
        s.c.clock_jumps += 1;
        s.c.sim_ns += 3_600_000_000_000;
    }
    let mut ns = now_mono();
    if clk == libc::CLOCK_REALTIME {
        ns += s.base_ns;
    }
    (*ts).tv_sec = (ns / 1_000_000_000) as i64;
    (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
    0
}

unsafe fn sim_sleep(ns: u64) {
    let _b = Busy::enter();
    let s = sim();
    let me = s.cur;
    s.thr[me].st = St::Blocked;
    s.thr[me].addr = SLEEP_ADDR;
    s.thr[me].mask = 0;
    s.thr[me].deadline = s.c.sim_ns + ns;
    s.thr[me].timed_out = false;
    s.decide(Kind::Block);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if tid() >= 0 {
        sim_sleep(ts_ns(req));
        return 0;
    }
    let r = raw(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if tid() >= 0 {
        let t = ts_ns(req);
        let ns = if flags & libc::TIMER_ABSTIME != 0 {
            let now = if clk == libc::CLOCK_REALTIME { sim().base_ns + now_mono() } else { now_mono() };
            t.saturating_sub(now)
        } else {
            t
        };
        sim_sleep(ns);
        return 0;
    }
    let r = raw(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0);
    (-r) as c_int
}

// How many processors there are is part of a run: drawn from its seed, not taken from the machine.

fn processors() -> usize {
    1 + (splitmix(sim().cfg.hash_seed ^ 0xc9) % 8) as usize
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, n: size_t, set: *mut u8) -> c_int {
    if tid() >= 0 && n >= 8 {
        let _b = Busy::enter();
        for i in 0..n {
            *set.add(i) = 0;
        }
        *set = ((1u32 << processors()) - 1) as u8;
        return 0;
    }
    let r = raw(libc::SYS_sched_getaffinity, pid as usize, n, set as usize, 0, 0, 0);
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    for i in r as usize..n {
        *set.add(i) = 0;
    }
    0
}

extern "C" {
    fn __sysconf(name: c_int) -> c_long;
}

#[no_mangle]
pub unsafe extern "C" fn sysconf(name: c_int) -> c_long {
    if tid() >= 0 && (name == libc::_SC_NPROCESSORS_ONLN || name == libc::_SC_NPROCESSORS_CONF) {
        let _b = Busy::enter();
        return processors() as c_long;
    }
    __sysconf(name)
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if tid() >= 0 {
        let _b = Busy::enter();
        return 2 + (splitmix(sim().cfg.hash_seed ^ 0x91d) % 30000) as libc::pid_t;
    }
    raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as libc::pid_t
}

unsafe fn open_file(dir: c_int, path: *const libc::c_char, flags: c_int, mode: c_uint) -> c_int {
    if tid() >= 0 {
        let _b = Busy::enter();
        let p = core::ffi::CStr::from_ptr(path).to_bytes();
        // limits on processors come from the run as well
        if p.starts_with(b"/proc/self/cgroup") || p.starts_with(b"/sys/fs/cgroup") {
            set_errno(libc::ENOENT);
            return -1;
        }
    }
    let r = raw(libc::SYS_openat, dir as usize, path as usize, flags as usize, mode as usize, 0, 0);
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    r as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: c_int, mode: c_uint) -> c_int {
    open_file(libc::AT_FDCWD, path, flags, mode)
}
