//! Deterministic simulation of rusty-source-map with fault injection. See /verif/DESIGN.md.
#![allow(static_mut_refs)]
mod exec;
mod model;
mod plan;
mod prng;
mod rt;
mod run;
mod spec;
mod url;

use run::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Read, Write};
use std::time::{Duration, Instant};

#[derive(Default, Serialize, Deserialize)]
struct LaneReport {
    runs: u64,
    plans: u64,
    seeds: Vec<u64>,
    counters: BTreeMap<String, u64>,
    reach: BTreeMap<String, u64>,
    histories: Vec<u64>,
    schedules: Vec<u64>,
    policies: BTreeMap<String, u64>,
    pools: BTreeMap<String, u64>,
    clients: BTreeMap<String, u64>,
    damage: BTreeMap<String, u64>,
    found: Option<u64>,
    found_what: String,
    harness: Option<String>,
    /// runs without an answer, for the simulator's own sake
    no_answer: u64,
    samples: Vec<String>,
}

fn add(m: &mut BTreeMap<String, u64>, k: &str, n: u64) {
    *m.entry(k.to_string()).or_insert(0) += n;
}

fn tally(r: &mut LaneReport, o: &Outcome) {
    r.runs += 1;
    let c = &o.counters;
    for (k, v) in [
        ("steps", c.steps),
        ("thread switches", c.switches),
        ("preemptions", c.preemptions),
        ("threads", c.threads),
        ("futex waits", c.futex_waits),
        ("futex wakes", c.futex_wakes),
        ("simulated ns", c.sim_ns),
        ("clock reads", c.clock_reads),
        ("random reads", c.random_reads),
        ("fault: thread stalled", c.stalls),
        ("fault: spurious wake-up", c.spurious),
        ("fault: interrupted wait (EINTR)", c.eintr),
        ("fault: wake order changed", c.wake_reorder),
        ("fault: thread creation failed", c.spawn_fail),
        ("fault: clock jump", c.clock_jumps),
    ] {
        add(&mut r.counters, k, v);
    }
    for (k, v) in &o.reach {
        add(&mut r.reach, k, *v);
    }
    if o.status == Status::Limit {
        add(&mut r.counters, "runs beyond the simulator's number of threads", 1);
    }
    if o.counters.switches > 0 {
        r.schedules.push(o.counters.hash);
    }
    r.histories.push(o.digest);
}

fn policy_name(p: &rt::Policy) -> &'static str {
    match p {
        rt::Policy::Walk { .. } => "random walk",
        rt::Policy::Pct { .. } => "priorities with random drops",
        rt::Policy::Robin { .. } => "round robin",
        rt::Policy::Block => "switch when blocked",
        rt::Policy::Serial => "serial",
    }
}

fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let mut h = prng::splitmix(base);
    for b in prop.bytes() {
        h = prng::splitmix(h ^ b as u64);
    }
    prng::splitmix(h ^ i.wrapping_mul(0x1000_0001)) >> 1
}

struct Shared {
    stop: *mut u64,
}

fn lane_main(prop: &str, base: u64, lane_no: u64, lanes: u64, secs: f64, min_plans: u64, sh: &Shared) -> LaneReport {
    let lane = Lane::new();
    let t0 = Instant::now();
    let mut r = LaneReport::default();
    let mut i = lane_no;
    loop {
        let el = t0.elapsed().as_secs_f64();
        if el > secs && (r.plans >= min_plans || el > secs * 4.0) {
            break;
        }
        if unsafe { core::ptr::read_volatile(sh.stop) } != 0 {
            break;
        }
        let seed = seed_of(base, prop, i);
        let plan = plan::generate(prop, seed);
        let e = evaluate(&lane, prop, &plan, None);
        r.plans += 1;
        if r.seeds.len() < 3 {
            r.seeds.push(seed);
        }
        add(&mut r.policies, policy_name(&plan.sim.policy), 1);
        add(&mut r.pools, &plan.sim.pool.to_string(), 1);
        add(&mut r.clients, &plan.clients.len().to_string(), 1);
        for d in &plan.docs {
            for x in &d.damage {
                let s = format!("{:?}", x);
                let k = s.split([' ', '{']).next().unwrap_or("?").to_string();
                add(&mut r.damage, &format!("damaged text: {}", k), 1);
            }
        }
        for o in &e.outcomes {
            tally(&mut r, o);
        }
        if r.samples.is_empty() && r.plans == 3 {
            let s = serde_json::to_string(&plan).unwrap_or_default();
            r.samples.push(model::clip(format!("seed {}: {}", seed, s), 1800));
        }
        if let Some(h) = e.harness {
            r.harness.get_or_insert(format!("seed {}: {}", seed, h));
            r.no_answer += 1;
        }
        if let Some(v) = &e.violation {
            r.found = Some(seed);
            r.found_what = v.what.clone();
            unsafe { core::ptr::write_volatile(sh.stop, 1) };
            break;
        }
        i += lanes;
    }
    let dedup = |v: &mut Vec<u64>| {
        v.sort();
        v.dedup();
    };
    dedup(&mut r.histories);
    dedup(&mut r.schedules);
    r
}

fn pin(k: u64) {
    unsafe {
        let mut have: libc::cpu_set_t = core::mem::zeroed();
        if libc::sched_getaffinity(0, core::mem::size_of_val(&have), &mut have) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &have)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut set: libc::cpu_set_t = core::mem::zeroed();
        libc::CPU_SET(cpus[k as usize % cpus.len()], &mut set);
        libc::sched_setaffinity(0, core::mem::size_of_val(&set), &set);
    }
}

fn run_lanes(prop: &str, base: u64, lanes: u64, secs: f64, min_plans: u64) -> Vec<LaneReport> {
    unsafe {
        let p = libc::mmap(core::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        let sh = Shared { stop: p as *mut u64 };
        let mut pipes = vec![];
        for k in 0..lanes {
            let mut fd = [0i32; 2];
            assert!(libc::pipe(fd.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                pin(k);
                let r = lane_main(prop, base, k, lanes, secs, min_plans, &sh);
                let v = serde_json::to_vec(&r).unwrap();
                let mut off = 0;
                while off < v.len() {
                    let n = libc::write(fd[1], v[off..].as_ptr() as *const libc::c_void, v.len() - off);
                    if n <= 0 {
                        break;
                    }
                    off += n as usize;
                }
                libc::_exit(0);
            }
            libc::close(fd[1]);
            pipes.push((pid, fd[0]));
        }
        let mut out = vec![];
        for (pid, fd) in pipes {
            use std::os::fd::FromRawFd;
            let mut f = std::fs::File::from_raw_fd(fd);
            let mut v = vec![];
            let _ = f.read_to_end(&mut v);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            match serde_json::from_slice(&v) {
                Ok(r) => out.push(r),
                Err(e) => out.push(LaneReport { harness: Some(format!("lane died: {} (status {})", e, st)), ..Default::default() }),
            }
        }
        out
    }
}

#[derive(Serialize, Deserialize)]
struct ReplayFile {
    property: String,
    seed: u64,
    violation: String,
    /// (step, thread switched to) or (step, -fault): deviations from the default schedule
    schedule: Vec<(u64, i64)>,
    minimised: bool,
    plan: plan::Plan,
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

const SMALL_BUDGET: u64 = 60_000_000;

fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let base = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let dir = std::env::var("DST_DIR").unwrap_or("/verif".into());
    let secs = std::env::var("DST_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600.0 } else { 40.0 });
    let lanes = env_u64("DST_LANES", 8);
    println!("seed {} tier {} property {} lanes {}", base, tier, prop, lanes);
    let mut reports = run_lanes(prop, base, lanes, secs, if tier == "thorough" { 400 } else { 60 });
    let explored = t0.elapsed().as_secs_f64();
    let mut exit = 0;
    let mut violations = 0;
    let mut seeds: Vec<u64> = reports.iter().filter_map(|r| r.found).collect();
    seeds.sort();
    if !seeds.is_empty() {
        let lane = Lane::new();
        let mut found = None;
        for &seed in &seeds {
            let p0 = plan::generate(prop, seed);
            // what never ends does not end within a smaller budget either: minimise with that one
            if reports.iter().any(|r| r.found == Some(seed) && r.found_what.starts_with("no progress")) {
                let mut p = p0.clone();
                p.sim.max_steps = SMALL_BUDGET;
                if let Some(v) = evaluate(&lane, prop, &p, None).violation {
                    found = Some((seed, p, v));
                    break;
                }
            }
            if let Some(v) = evaluate(&lane, prop, &p0, None).violation {
                found = Some((seed, p0, v));
                break;
            }
        }
        match found {
            None => {
                let seed = seeds[0];
                eprintln!("HARNESS: seed {} failed once and then did not: the simulation is not deterministic", seed);
                for r in reports.iter().filter(|r| r.found == Some(seed)) {
                    eprintln!("it was: {}", r.found_what);
                }
                exit = 2;
            }
            Some((seed, mut p0, v)) => {
                let whole = plan::generate(prop, seed).sim.max_steps;
                let mut s = Shrinker { lane: &lane, prop, until: Instant::now() + Duration::from_secs(env_u64("DST_SHRINK", if p0.sim.max_steps < whole { 20 } else { 60 })), tried: 0 };
                let (p, v2) = s.shrink(&p0, &v);
                let mut out = (p, v2, true);
                out.0.sim.max_steps = whole;
                p0.sim.max_steps = out.0.sim.max_steps;
                // the minimised file must fail again under exactly this schedule, and with the whole budget
                if evaluate(&lane, prop, &out.0, Some(&out.1.trace)).violation.is_none() {
                    out = (p0, v, false);
                }
                let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
                let path = format!("{}/evidence/replay-{}.json", dir, prop);
                let rf = ReplayFile {
                    property: prop.into(),
                    seed,
                    violation: out.1.what.clone(),
                    schedule: out.1.trace.clone(),
                    minimised: out.2,
                    plan: out.0,
                };
                std::fs::write(&path, serde_json::to_string_pretty(&rf).unwrap()).unwrap();
                println!("seed {}: {}", seed, model::clip(rf.violation.clone(), 1500));
                println!("minimised in {} runs to {} calls, {} schedule entries", s.tried,
                    rf.plan.setup.len() + rf.plan.clients.iter().map(|c| c.len()).sum::<usize>(), rf.schedule.len());
                let me = std::env::current_exe().unwrap();
                let again = std::process::Command::new(me).arg("replay").arg(&path).env("DST_QUIET", "1").status();
                println!("replayed in a fresh process: {}", match again {
                    Ok(s) if s.code() == Some(1) => "fails the same way",
                    _ => "NOT reproduced",
                });
                println!("VIOLATION property={} replay={}", prop, path);
                violations = 1;
                exit = 1;
            }
        }
    }
    if exit == 0 {
        if let Some(h) = reports.iter().filter_map(|r| r.harness.clone()).next() {
            let n: u64 = reports.iter().map(|r| r.no_answer).sum();
            let plans: u64 = reports.iter().map(|r| r.plans).sum();
            eprintln!("HARNESS: {} of {} runs without an answer; {}", n, plans, h);
            // a run in a thousand may be lost, not more
            if n * 1000 > plans || n == 0 {
                exit = 2;
            }
        }
    }
    let mut all = LaneReport::default();
    let mut hist: HashSet<u64> = HashSet::new();
    let mut sched: BTreeSet<u64> = BTreeSet::new();
    let mut samples = vec![];
    for r in reports.iter_mut() {
        all.runs += r.runs;
        all.plans += r.plans;
        for (a, b) in [
            (&mut all.counters, &r.counters),
            (&mut all.reach, &r.reach),
            (&mut all.policies, &r.policies),
            (&mut all.pools, &r.pools),
            (&mut all.clients, &r.clients),
            (&mut all.damage, &r.damage),
        ] {
            for (k, v) in b {
                add(a, k, *v);
            }
        }
        hist.extend(r.histories.drain(..));
        sched.extend(r.schedules.drain(..));
        samples.append(&mut r.samples);
    }
    samples.truncate(2);
    let faults: BTreeMap<String, u64> = all
        .counters
        .iter()
        .filter(|(k, _)| k.starts_with("fault"))
        .map(|(k, v)| (k.clone(), *v))
        .chain(all.damage.clone())
        .chain(all.reach.iter().filter(|(k, _)| k.ends_with(": panic") || k.ends_with(": interrupted")).map(|(k, v)| (format!("failed call: {}", k), *v)))
        .collect();
    let ev = serde_json::json!({
        "property": prop,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": all.runs,
            "distinct_nontrivial": hist.len(),
            "rule": "a run is one process executing a generated plan (maps, clients, calls, faults) under one seeded schedule; \
                     non-trivial and distinct: runs whose complete recorded history (every call and its answer, in order) differs from all others",
            "samples": samples,
            "plans": all.plans,
            "runs_per_hour": (all.runs as f64 / explored.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (all.plans as f64 / explored.max(0.001) * 3600.0) as u64,
            "simulated_seconds": all.counters.get("simulated ns").copied().unwrap_or(0) as f64 / 1e9,
            "simulated_steps": all.counters.get("steps").copied().unwrap_or(0),
            "distinct_interleavings": sched.len(),
            "interleaving_measure": "distinct sequences of (step, thread switched to) among runs with at least one thread switch",
            "faults_injected": faults,
            "schedulers": all.policies,
            "pool_sizes": all.pools,
            "client_threads": all.clients,
            "work": all.counters.iter().filter(|(k, _)| !k.starts_with("fault")).collect::<BTreeMap<_, _>>(),
            "calls_and_outcomes": all.reach,
            "real_components": ["rusty-source-map (instrumented, as built from /repo)", "source-map-mappings", "vlq", "rayon", "rayon-core", "crossbeam-*",
                "lazy_static", "serde_json", "url", "regex", "the Rust standard library's threads, locks and hashing"],
            "stubbed": ["which thread runs", "futex waits and wakes", "thread creation and join (may fail)", "clocks and sleeps", "getrandom", "the storage a map text passes through (damage model)"],
        },
        "assumptions": ["the reference model of source maps in /verif/sim/src/model.rs and url.rs", "preemption only at control-flow edges of instrumented crates and at calls into the operating system"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    std::fs::write(format!("{}/evidence/{}.json", dir, prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} runs of {} plans in {:.1} s, {} distinct histories, {} distinct interleavings, violations: {}",
        all.runs,
        all.plans,
        t0.elapsed().as_secs_f64(),
        hist.len(),
        sched.len(),
        violations
    );
    exit
}

fn replay(path: &str) -> i32 {
    let rf: ReplayFile = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let lane = Lane::new();
    let e = evaluate(&lane, &rf.property, &rf.plan, Some(&rf.schedule));
    let quiet = std::env::var("DST_QUIET").is_ok();
    match e.violation {
        Some(v) => {
            let same = v.what == rf.violation;
            if !quiet {
                println!("{}", v.what);
                println!("{}", if same { "as recorded" } else { "not as recorded" });
                println!("VIOLATION property={} replay={}", rf.property, path);
            }
            if same {
                1
            } else {
                3
            }
        }
        None => {
            if !quiet {
                println!("the property holds on this run");
            }
            0
        }
    }
}

/// Explore every mismatch, grouped (for development).
fn explore(prop: &str, n: u64) {
    let lane = Lane::new();
    let base = env_u64("VERIF_SEED", 1);
    let mut groups: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut steps = vec![];
    let mut switches = vec![];
    let t0 = Instant::now();
    for i in 0..n {
        let seed = seed_of(base, prop, i);
        let p = plan::generate(prop, seed);
        let o = all_mismatches(&lane, &p);
        steps.push(o.counters.steps);
        switches.push(o.counters.switches);
        if o.status != Status::Done {
            let e = groups.entry(format!("{:?}", o.status)).or_insert((0, seed, String::new()));
            e.0 += 1;
        }
        for m in &o.mismatches {
            let op = if m.client == 0 { &p.setup[m.idx] } else { &p.clients[m.client - 1][m.idx] };
            let k = format!("{} {} {}", m.label, op.kind(), m.extra.join(","));
            let e = groups.entry(k).or_insert((0, seed, m.what.clone()));
            e.0 += 1;
            if m.what.len() < e.2.len() {
                e.2 = m.what.clone();
                e.1 = seed;
            }
        }
    }
    steps.sort();
    switches.sort();
    println!("switches median {} max {}", switches[switches.len() / 2], switches[switches.len() - 1]);
    println!("{} runs in {:.1} s; steps median {} p99 {} max {}", n, t0.elapsed().as_secs_f64(), steps[steps.len() / 2], steps[steps.len() * 99 / 100], steps[steps.len() - 1]);
    for (k, (n, seed, w)) in groups {
        println!("{:6} {}  seed {}\n       {}", n, k, seed, model::clip(w, 900));
    }
}

fn selftest(n: u64) -> i32 {
    // every seed twice, in different processes and at different worker counts of the machine; histories and schedules must agree
    let mut bad = 0;
    let props = ["C01", "C02", "C03", "C04", "C05", "C09", "C11", "C14", "C16", "C17", "C18", "C19"];
    let lanes = env_u64("DST_LANES", 8);
    let mut kids = vec![];
    for k in 0..lanes {
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                let mut bad = 0;
                let lane = Lane::new();
                let mut i = k;
                while i < n {
                    for p in props {
                        let seed = seed_of(99, p, i);
                        let plan = plan::generate(p, seed);
                        let a = lane.run(&plan, None, None, true);
                        let ta = lane.trace();
                        let junk: Vec<Vec<u8>> = (0..(i % 7)).map(|x| vec![1; 1000 * x as usize]).collect();
                        // on one processor only
                        let mut all: libc::cpu_set_t = core::mem::zeroed();
                        libc::sched_getaffinity(0, core::mem::size_of_val(&all), &mut all);
                        pin(i);
                        let b = Lane::new().run(&plan, None, None, true);
                        libc::sched_setaffinity(0, core::mem::size_of_val(&all), &all);
                        drop(junk);
                        let c = lane.run(&plan, None, Some(&ta), true);
                        let d = |o: &Outcome| format!("{:?} {} {} {}", o.status, o.digest, o.counters.hash, o.counters.steps);
                        if d(&a) != d(&b) || d(&a) != d(&c) {
                            println!("{} seed {}: {} / {} / replay {}", p, seed, d(&a), d(&b), d(&c));
                            bad += 1;
                        }
                    }
                    i += lanes;
                }
                let _ = std::io::stdout().flush();
                libc::_exit((bad > 0) as i32);
            }
            kids.push(pid);
        }
    }
    for pid in kids {
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if st != 0 {
            bad += 1;
        }
    }
    println!("self-test: {} plans each run twice and replayed, {}", n * props.len() as u64, if bad == 0 { "all identical" } else { "DIFFERENCES" });
    bad
}

/// Digests of the runs number `from` to `to` of a property, made one after another in this process.
fn digests(prop: &str, from: u64, to: u64) {
    let lane = Lane::new();
    for i in from..to {
        let seed = seed_of(env_u64("VERIF_SEED", 1), prop, i);
        let plan = plan::generate(prop, seed);
        let o = lane.run(&plan, None, None, true);
        println!("{} {} {:?} {} {} {}", i, seed, o.status, o.digest, o.counters.hash, o.counters.steps);
    }
}

fn urlcmp() {
    use rusty_source_map::util;
    std::panic::set_hook(Box::new(|_| {}));
    url::SIMULATING.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut n = 0;
    let mut bad = 0;
    for root in plan::ROOTS.iter().collect::<BTreeSet<_>>() {
        for u in plan::URLS.iter().collect::<BTreeSet<_>>() {
            for s in plan::SOURCES.iter().chain(plan::GEN_SOURCES) {
                n += 1;
                let want = url::resolve(*root, s, *u);
                let got = std::panic::catch_unwind(|| util::compute_source_url(*root, s, *u));
                match got {
                    Ok(g) if g == want => {}
                    g => {
                        bad += 1;
                        println!("root {:?} source {:?} url {:?}: model {:?} code {:?}", root, s, u, want, g.ok());
                    }
                }
            }
        }
    }
    println!("{} of {} differ", bad, n);
    // names damaged a little, where the model takes them for ordinary ones
    let mut r = prng::Rng::new(env_u64("VERIF_SEED", 1));
    let (mut n, mut bad) = (0, 0);
    let hurt = |r: &mut prng::Rng, s: &str| -> String {
        let mut b = s.as_bytes().to_vec();
        for _ in 0..r.below(3) {
            let k = r.us(b.len() + 1);
            match r.below(4) {
                0 if k < b.len() => {
                    b.remove(k);
                }
                1 if k < b.len() => b[k] ^= 1 << r.below(7),
                2 => b.insert(k, *r.pick(b"/./.abp0:?#% ")),
                _ => {
                    b.truncate(k.max(1));
                }
            }
        }
        String::from_utf8_lossy(&b).to_string()
    };
    for _ in 0..400_000 {
        let root = r.pick(plan::ROOTS).map(|s| hurt(&mut r, s));
        let u = r.pick(plan::URLS).map(|s| hurt(&mut r, s));
        let s = *r.pick(plan::SOURCES);
        let s = hurt(&mut r, s);
        let want = url::resolve(root.as_deref(), &s, u.as_deref());
        let got = std::panic::catch_unwind(|| util::compute_source_url(root.as_deref(), &s, u.as_deref())).unwrap_or(url::NOWHERE.into());
        n += 1;
        if got != want {
            bad += 1;
            if bad < 40 {
                println!("root {:?} source {:?} url {:?}: model {:?} code {:?}", root, s, u, want, got);
            }
        }
    }
    println!("{} of {} damaged ones differ", bad, n);
}

fn main() {
    rt::init();
    unsafe { libc::mallopt(libc::M_ARENA_MAX, 1) };
    let args: Vec<String> = std::env::args().collect();
    // the same addresses in every run
    if std::env::var("DST_NOASLR").is_err() {
        unsafe {
            let old = libc::personality(0xffff_ffff);
            if old >= 0 && libc::personality(old as libc::c_ulong | libc::ADDR_NO_RANDOMIZE as libc::c_ulong) >= 0 {
                use std::os::unix::process::CommandExt;
                let me = std::env::current_exe().unwrap();
                let _ = std::process::Command::new(me).args(&args[1..]).env("DST_NOASLR", "1").exec();
            }
        }
    }
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2]),
        Some("replay") => replay(&args[2]),
        Some("explore") => {
            explore(&args[2], args[3].parse().unwrap());
            0
        }
        Some("show") => {
            let p = plan::generate(&args[2], args[3].parse().unwrap());
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            0
        }
        Some("one") => {
            let p = plan::generate(&args[2], args[3].parse().unwrap());
            let o = Lane::new().run(&p, None, None, true);
            println!("{:?} {:?}", o.status, o.counters);
            let mut slow: Vec<_> = o.events.iter().map(|e| (e.t1 - e.t0, e)).collect();
            slow.sort_by_key(|x| std::cmp::Reverse(x.0));
            for (n, e) in slow.iter().take(5) {
                let op = if e.client == 0 { &p.setup[e.idx] } else { &p.clients[e.client - 1][e.idx] };
                println!("{} steps: client {} {:?} -> {}", n, e.client, op, model::clip(format!("{:?}", e.ans), 300));
            }
            for m in o.mismatches {
                println!("{:?}", m);
            }
            0
        }
        Some("digests") => {
            let n = |k: usize| args.get(k).and_then(|s| s.parse().ok()).unwrap_or(0);
            digests(&args[2], n(3), n(4));
            0
        }
        Some("selftest") => selftest(args.get(2).and_then(|s| s.parse().ok()).unwrap_or(40)),
        Some("urlcmp") => {
            urlcmp();
            0
        }
        _ => {
            eprintln!("usage: dst check|replay|explore|show|one|selftest|urlcmp ...");
            2
        }
    };
    std::process::exit(code);
}
