//! Runs many simulated executions in forked children, minimises failures and writes evidence.
use crate::plan::*;
use crate::props::{self, Prop};
use crate::sim::{self, Decision, Shared, SimParams};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::{Duration, Instant};

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut std::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize;
    fn poll(f: *mut PollFd, n: u64, t: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const std::ffi::c_char, f: i32, ...) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(c: i32) -> !;
    fn kill(p: i32, s: i32) -> i32;
    fn mallopt(a: i32, b: i32) -> i32;
    fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32;
    fn sched_setaffinity(p: i32, n: usize, m: *const u8) -> i32;
}
#[repr(C)]
#[derive(Clone, Copy)]
struct PollFd { fd: i32, ev: i16, rev: i16 }
const JOBMAX: usize = 16 << 20;
#[repr(C)]
struct JobMem { len: usize, record: i32, trace: i32, status: i32, alarm: u32, text: [u8; JOBMAX] }

fn shared_map<T>() -> *mut T { unsafe { mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), 3, 0x21 | 0x4000, -1, 0) as *mut T } }

struct Worker { job: *mut JobMem, sh: *mut Shared, to: i32, from: i32, pid: i32 }

/// The child side of one run.
fn child(job: &JobMem, sh: *mut Shared) -> ! {
    let j = Job::parse(std::str::from_utf8(&job.text[..job.len]).unwrap());
    crate::world::set_prop(&j.prop);
    crate::world::set_tracing(job.trace != 0);
    let p = props::find(&j.prop).expect("property");
    let (ptr, n, rm) = match &j.dev { Some(d) => (d.as_ptr(), d.len(), 1), None => (std::ptr::null(), 0, 0) };
    unsafe { sim::sim_start(&j.params, sh, ptr, n, rm, job.record); }
    (p.run)(&j.plan);
    finish_ok("")
}
/// End a run in which nothing was found to be wrong.
pub fn finish_ok(m: &str) -> ! { sim::finish(sim::OK, m) }

fn panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        // a second worker that waited for a component whose handler panicked finds the lock poisoned; it is caught and harmless
        if m.starts_with("INJ") || m.contains("is poisoned but not faulty") || crate::world::allowed(&m) { return; }
        let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit("/repo/").next().unwrap_or(""), l.line())).unwrap_or_default();
        if std::env::var("KSIM_BT").is_ok() { eprintln!("{}", std::backtrace::Backtrace::force_capture()); }
        sim::note_panic(&format!("panic at {loc}: {m}"));
    }));
}

impl Worker {
    fn spawn(cpu: Option<usize>) -> Worker {
        let (job, sh) = (shared_map::<JobMem>(), shared_map::<Shared>());
        let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
        unsafe {
            pipe(a.as_mut_ptr()); pipe(b.as_mut_ptr());
            let pid = fork();
            if pid == 0 {
                prctl(1, 9, 0, 0, 0); // die with the driver
                if let Some(c) = cpu { let mut m = [0u8; 128]; m[c / 8] = 1 << (c % 8); sched_setaffinity(0, 128, m.as_ptr()); }
                if std::env::var_os("KSIM_STDERR").is_none() { let n = open(c"/dev/null".as_ptr(), 2); dup2(n, 2); dup2(n, 1); }
                for fd in 3..256 { if fd != a[0] && fd != b[1] { close(fd); } }
                panic_hook();
                let mut c = 0u8;
                loop {
                    if read(a[0], &mut c as *mut u8 as _, 1) != 1 { _exit(0) }
                    let k = fork();
                    if k == 0 { alarm((*job).alarm); let _ = std::panic::catch_unwind(|| child(&*job, sh)); sim::finish(sim::PANIC, "main thread of the scenario panicked") }
                    let mut s = 0;
                    waitpid(k, &mut s, 0);
                    (*job).status = s;
                    write(b[1], &c as *const u8 as _, 1);
                }
            }
            close(a[0]); close(b[1]);
            Worker { job, sh, to: a[1], from: b[0], pid }
        }
    }
    fn submit(&mut self, j: &Job, record: bool, trace: bool, alarm: u32) {
        let t = j.to_text(None);
        unsafe {
            let m = &mut *self.job;
            assert!(t.len() < JOBMAX, "job too large");
            m.text[..t.len()].copy_from_slice(t.as_bytes());
            m.len = t.len(); m.record = record as i32; m.trace = trace as i32; m.alarm = alarm;
            let s = &mut *self.sh;
            let n = std::mem::offset_of!(Shared, panics);
            std::ptr::write_bytes(self.sh as *mut u8, 0, n);
            s.panics[..].fill(0);
            write(self.to, &0u8 as *const u8 as _, 1);
        }
    }
    fn collect(&mut self) -> RunResult {
        let mut c = 0u8;
        unsafe {
            if read(self.from, &mut c as *mut u8 as _, 1) != 1 { let mut s = 0; let r = waitpid(self.pid, &mut s, 0); panic!("zygote died: {r} status {s:x}") }
            RunResult::from(&*self.sh, (*self.job).status)
        }
    }
}
impl Drop for Worker { fn drop(&mut self) { unsafe { kill(self.pid, 9); let mut s = 0; waitpid(self.pid, &mut s, 0); close(self.to); close(self.from); } } }

#[derive(Clone, Debug)]
pub struct RunResult {
    pub outcome: u32, pub msg: String, pub steps: u64, pub switches: u64, pub virt: u64, pub hash: u64, pub state: u64,
    pub faults: [u64; 32], pub counters: [u64; 32], pub threads: u32, pub dec: Vec<Decision>, pub trace: String, pub hung: bool,
}
impl RunResult {
    fn from(h: &Shared, status: i32) -> RunResult {
        let mut r = RunResult { outcome: h.outcome, msg: String::from_utf8_lossy(&h.msg[..h.msglen as usize]).to_string(), steps: h.steps,
            switches: h.switches, virt: h.virt_ns, hash: h.hash, state: h.state_hash, faults: h.faults, counters: h.counters, threads: h.threads,
            dec: h.dec[..h.ndec as usize].to_vec(), trace: String::from_utf8_lossy(&h.trace[..h.tracelen as usize]).to_string(), hung: false };
        let panics = String::from_utf8_lossy(&h.panics[..h.panics.iter().position(|b| *b == 0).unwrap_or(0)]).to_string();
        if status != 0 {
            let sig = status & 0x7f;
            if sig == 14 { r.outcome = sim::INTERNAL; r.hung = true; r.msg = "hang: a thread ran for the whole wall-clock limit without reaching a scheduling point".into(); }
            else if sig != 0 { r.outcome = sim::VIOLATION; r.msg = format!("process-abort: the process died with signal {sig} {}", panics.lines().next().unwrap_or("")); }
            else { r.outcome = sim::PANIC; r.msg = format!("unexpected-panic: {}", panics.lines().next().unwrap_or("main thread panicked")); }
        } else if h.npanics > 0 && r.outcome != sim::INTERNAL {
            r.outcome = sim::PANIC; r.msg = format!("unexpected-panic: {} [{}]", panics.lines().next().unwrap_or(""), r.msg);
        } else {
            match r.outcome {
                sim::DEADLOCK => r.msg = format!("deadlock: {}", r.msg),
                sim::STEPS => r.msg = format!("no-progress: {}", r.msg),
                sim::TIME => r.msg = format!("no-progress: {}", r.msg),
                sim::INTERNAL => r.msg = format!("internal: {}", r.msg),
                _ => (),
            }
        }
        r
    }
    pub fn bad(&self) -> bool { !matches!(self.outcome, sim::OK | sim::SKIP | sim::INTERNAL) }
    pub fn class(&self) -> String { self.msg.split([':', '|']).next().unwrap_or("").trim().to_string() }
}

pub struct Pool { ws: Vec<Worker> }
impl Pool {
    pub fn new(n: usize) -> Pool {
        unsafe { mallopt(-8, 1); } // M_ARENA_MAX: allocation must not depend on arena choice
        Pool { ws: (0..n).map(|i| Worker::spawn(Some(i))).collect() }
    }
    /// Run jobs from `next` until it returns None; `done` sees results in completion order.
    pub fn run(&mut self, record: bool, trace: bool, mut next: impl FnMut() -> Option<(u64, Job)>, mut done: impl FnMut(u64, &Job, RunResult) -> bool) {
        let n = self.ws.len();
        let mut cur: Vec<Option<(u64, Job)>> = vec![None; n];
        let mut stop = false;
        loop {
            for (i, c) in cur.iter_mut().enumerate() {
                if c.is_none() && !stop {
                    match next() { Some(j) => { self.ws[i].submit(&j.1, record, trace, 30); *c = Some(j) } None => stop = true }
                }
            }
            let mut pf: Vec<PollFd> = vec![]; let mut ix = vec![];
            for i in 0..n { if cur[i].is_some() { pf.push(PollFd { fd: self.ws[i].from, ev: 1, rev: 0 }); ix.push(i) } }
            if pf.is_empty() { return; }
            unsafe { poll(pf.as_mut_ptr(), pf.len() as u64, -1); }
            for (k, p) in pf.iter().enumerate() {
                if p.rev != 0 {
                    let i = ix[k];
                    let r = self.ws[i].collect();
                    let (id, j) = cur[i].take().unwrap();
                    if !done(id, &j, r) { stop = true; }
                }
            }
        }
    }
    pub fn one(&mut self, j: &Job, record: bool, trace: bool) -> RunResult { self.ws[0].submit(j, record, trace, 60); self.ws[0].collect() }
    fn batch(&mut self, jobs: Vec<Job>, record: bool) -> Vec<RunResult> {
        let mut out: Vec<Option<RunResult>> = vec![None; jobs.len()];
        let mut it = jobs.into_iter().enumerate();
        self.run(record, false, || it.next().map(|(i, j)| (i as u64, j)), |i, _, r| { out[i as usize] = Some(r); true });
        out.into_iter().map(|x| x.unwrap()).collect()
    }
}

pub fn make_job(p: &Prop, seed: u64, index: u64, thorough: bool) -> Job {
    let s = mix(mix(seed, hash_str(p.id)), index);
    let mut r = Rng::new(s);
    let mut params = base_params(&mut r, s);
    let plan = (p.gen_)(&mut r, &mut params, thorough);
    Job { prop: p.id.to_string(), params, plan, dev: None }
}
fn base_params(r: &mut Rng, s: u64) -> SimParams {
    let mut p = SimParams { seed: s, ..Default::default() };
    p.strategy = *r.pick(&[0, 0, 0, 1, 1, 1, 2, 3]);
    p.preempt_gap = *r.pick(&[2, 5, 10, 20, 40, 100, 300]);
    p.pct_depth = r.range(1, 8) as u32;
    p.pct_span = *r.pick(&[3000, 8000, 20000, 40000]);
    p.slice = *r.pick(&[500, 2000, 5000]);
    p.tick_ns = *r.pick(&[20, 50, 100]);
    p.late_max_us = *r.pick(&[0, 50, 200, 2000]);
    p.p_spurious = *r.pick(&[0, 0, 300, 2000]);
    if p.strategy == 2 { p.p_stall = *r.pick(&[300, 1500, 4000]); p.stall_max_us = *r.pick(&[200, 2000, 20000]); }
    if p.strategy == 1 && r.chance(1, 4) { p.p_stall = 10; p.stall_max_us = 2000; }
    p.lat_min_us = 10; p.lat_max_us = 100; p.sockbuf = 65536; p.p_epoll_subset = 8000;
    p.max_steps = 4_000_000; p.max_time_ns = 600_000_000_000;
    p
}

fn known_findings(prop: &str) -> Vec<(String, String)> {
    // KNOWN property=<id> match=<substring of the violation message> :: <what fails>
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string("known_findings.txt") {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix("KNOWN ") {
                let mut it = rest.splitn(2, " :: ");
                let (h, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
                let (pid, m) = h.split_once(" match=").unwrap_or((h, ""));
                if pid.trim() == format!("property={prop}") && !m.is_empty() { v.push((m.trim().to_string(), d.trim().to_string())) }
            }
        }
    }
    v
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}

/// Shrink a failing job: fewer operations, then fewer schedule/fault deviations.
fn minimise(pool: &mut Pool, p: &Prop, job: &Job, class: &str, budget: Duration) -> Option<(Job, RunResult, usize)> {
    let t0 = Instant::now();
    let mut best = job.clone();
    let mut tries = 0usize;
    let same = |r: &RunResult| r.bad() && r.class() == class;
    // 1. operations (each candidate is tried under several schedules)
    let mut chunk = (best.plan.ops.len() / 2).max(1);
    while t0.elapsed() < budget / 2 && !best.plan.ops.is_empty() {
        let n = best.plan.ops.len();
        let mut cands: Vec<Job> = vec![];
        let mut i = 0;
        while i < n {
            let mut c = best.clone();
            c.plan.ops.drain(i..(i + chunk).min(n));
            cands.push(c);
            i += chunk;
        }
        let k = (64 / cands.len()).clamp(4, 24);
        let mut jobs = vec![];
        for c in &cands { for s in 0..k { let mut j = c.clone(); if s > 0 { j.params.seed = mix(best.params.seed, s as u64); } jobs.push(j) } }
        tries += jobs.len();
        let rs = pool.batch(jobs.clone(), false);
        if let Some(w) = rs.iter().position(same) { best = jobs[w].clone(); chunk = chunk.min((best.plan.ops.len() / 2).max(1)); continue; }
        if chunk == 1 { break; }
        chunk = (chunk / 2).max(1);
    }
    // 2. configuration knobs towards their simplest value
    for (key, simple) in p.simple {
        if t0.elapsed() > budget * 6 / 10 { break; }
        if best.plan.get(key) == *simple || !best.plan.cfg.iter().any(|c| c.0 == *key) { continue; }
        let mut jobs = vec![];
        for s in 0..16u64 { let mut j = best.clone(); j.plan.set(key, *simple); if s > 0 { j.params.seed = mix(best.params.seed, s) } jobs.push(j) }
        tries += jobs.len();
        let rs = pool.batch(jobs.clone(), false);
        if let Some(w) = rs.iter().position(same) { best = jobs[w].clone(); }
    }
    // 3. record the decisions of the failing run and delete as many as possible
    let r = pool.one(&best, true, false);
    if !same(&r) { return None; }
    let mut dev = r.dec.clone();
    let mut cur = best.clone();
    cur.dev = Some(dev.clone());
    let chk = pool.one(&cur, false, false);
    if !same(&chk) { // the decision log does not reproduce the run; fall back on the seed
        best.dev = None;
        return Some((best.clone(), r, tries));
    }
    let mut last = chk;
    let mut chunk = (dev.len() / 2).max(1);
    while t0.elapsed() < budget && !dev.is_empty() {
        let n = dev.len();
        let mut jobs = vec![];
        let mut i = 0;
        while i < n { let mut d = dev.clone(); d.drain(i..(i + chunk).min(n)); let mut j = cur.clone(); j.dev = Some(d); jobs.push(j); i += chunk; }
        tries += jobs.len();
        let mut won = None;
        for part in jobs.chunks(32) {
            if t0.elapsed() > budget { break; }
            let rs = pool.batch(part.to_vec(), false);
            if let Some(w) = rs.iter().position(same) { won = Some((part[w].clone(), rs[w].clone())); break; }
        }
        if let Some((j, r)) = won { dev = j.dev.clone().unwrap(); cur = j; last = r; chunk = chunk.min((dev.len() / 2).max(1)); continue; }
        if chunk == 1 { break; }
        chunk = (chunk / 2).max(1);
    }
    Some((cur, last, tries))
}

pub fn check(p: &Prop, thorough: bool, seed: u64, secs: f64, jobs: usize) -> i32 {
    let t0 = Instant::now();
    let mut pool = Pool::new(jobs);
    let known = known_findings(p.id);
    let budget = Duration::from_secs_f64(secs);
    let mut agg = Agg::default();
    let mut index = 0u64;
    let mut found: Vec<(u64, Job, RunResult)> = vec![];
    let mut hung: Vec<(u64, Job)> = vec![];
    let (mut unrepro, mut nondet, mut dets) = (0u64, 0u64, 0u64);
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut exit = 0;
    'outer: loop {
        let left = budget.saturating_sub(t0.elapsed());
        if left.is_zero() { break; }
        let mut recheck: Vec<(u64, u64, Job)> = vec![];
        let batch_end = index + 4000;
        pool.run(false, false,
            || { if t0.elapsed() >= budget || index >= batch_end { return None; } let i = index; index += 1; Some((i, make_job(p, seed, i, thorough))) },
            |i, j, r| {
                agg.add(i, j, &r);
                if i % 401 == 7 && recheck.len() < 8 { recheck.push((i, r.hash, j.clone())) }
                if r.hung { if hung.len() < 3 { hung.push((i, j.clone())) } }
                if r.bad() {
                    if let Some(k) = known.iter().find(|k| r.msg.contains(&k.0)) { *known_hits.entry(k.0.clone()).or_default() += 1; return true; }
                    if found.len() < 16 { found.push((i, j.clone(), r)); }
                    return false;
                }
                true
            });
        // the same seed twice must be the same execution
        for (_, h, j) in recheck { dets += 1; let r = pool.one(&j, false, false); if r.hash != h { nondet += 1; } }
        for (i, j) in hung.drain(..) {
            let r = pool.one(&j, false, false);
            if r.hung { let mut r = r; r.outcome = sim::VIOLATION; found.push((i, j, r)); }
        }
        if found.is_empty() { continue; }
        found.sort_by_key(|f| (f.1.plan.ops.len(), f.0));
        for (i, j, r) in std::mem::take(&mut found) {
            if r.hung { exit = report(&mut pool, p, seed, i, &j, &r, 0, false); break 'outer; }
            let again = pool.one(&j, true, false);
            if !again.bad() || again.class() != r.class() { unrepro += 1; println!("note: run {i} failed once ({}) and did not fail again; not reported", r.msg); if unrepro > 20 { break 'outer; } continue; }
            println!("property {}: run {i} violates it: {}", p.id, again.msg);
            let mb = Duration::from_secs(if thorough { 120 } else { 50 });
            let (mj, mr, tries) = minimise(&mut pool, p, &j, &again.class(), mb).unwrap_or((j.clone(), again.clone(), 0));
            if let Some(k) = known.iter().find(|k| mr.msg.contains(&k.0)) { *known_hits.entry(k.0.clone()).or_default() += 1; continue; }
            exit = report(&mut pool, p, seed, i, &mj, &mr, tries, true);
            break 'outer;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    for (m, d) in &known { println!("KNOWN-FINDING: property={} {} ({} runs of this check met it)", p.id, if d.is_empty() { m } else { d }, known_hits.get(m).copied().unwrap_or(0)); }
    agg.write(p, thorough, seed, wall, exit, dets, nondet, unrepro, &known_hits, jobs);
    println!("property {}: {} runs, {} distinct interleavings, {:.1} simulated s, {:.0} runs/h, {} determinism re-runs ({} differed), {:.0} s",
        p.id, agg.runs, agg.hashes.len(), agg.virt as f64 / 1e9, agg.runs as f64 / wall * 3600.0, dets, nondet, wall);
    if agg.internal > 0 { println!("note: {} runs ended in a simulator limitation: {}", agg.internal, agg.internal_msg); }
    exit
}

fn report(pool: &mut Pool, p: &Prop, seed: u64, index: u64, j: &Job, r: &RunResult, tries: usize, traced: bool) -> i32 {
    let tr = if traced { pool.one(j, false, true).trace } else { String::new() };
    std::fs::create_dir_all("evidence/replays").ok();
    let path = format!("evidence/replays/{}-{}-{}.replay", p.id, seed, index);
    let mut s = format!("# violation of {}: {}\n# found by VERIF_SEED={} run {}; minimised in {} runs to {} operations and {} schedule/fault deviations\n# expect class={} hash={:x}\n",
        p.id, r.msg.replace('\n', " "), seed, index, tries, j.plan.ops.len(), j.dev.as_ref().map(|d| d.len()).unwrap_or(0), r.class(), r.hash);
    s.push_str(&j.to_text(Some(&|k| (p.op_name)(k))));
    for l in tr.lines() { s.push_str(&format!("# {l}\n")); }
    std::fs::write(&path, s).expect("write replay");
    // replay in a fresh process
    let exe = std::env::current_exe().unwrap();
    let out = std::process::Command::new(exe).args(["replay", &path]).output();
    let ok = out.as_ref().map(|o| String::from_utf8_lossy(&o.stdout).contains("REPRODUCED")).unwrap_or(false);
    println!("replay in a fresh process: {}", if ok { "reproduced exactly" } else { "NOT reproduced" });
    println!("{}", r.msg);
    println!("VIOLATION property={} replay=/verif/{}", p.id, path);
    std::io::stdout().flush().ok();
    1
}

pub fn replay(path: &str, verbose: bool) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let j = Job::parse(&t);
    let exp = t.lines().find_map(|l| l.strip_prefix("# expect ")).unwrap_or("").to_string();
    let mut pool = Pool::new(1);
    let r = pool.one(&j, false, verbose);
    if verbose { println!("{}", r.trace); }
    println!("outcome {} {} steps {} virt {} us hash {:x}", r.outcome, r.msg, r.steps, r.virt / 1000, r.hash);
    let cls = exp.split_whitespace().find_map(|w| w.strip_prefix("class=")).unwrap_or("").to_string();
    let h = exp.split_whitespace().find_map(|w| w.strip_prefix("hash=")).unwrap_or("").to_string();
    if r.bad() && r.class() == cls && (h.is_empty() || format!("{:x}", r.hash) == h || r.hash == 0) { println!("REPRODUCED"); println!("VIOLATION property={} replay={}", j.prop, path); 1 } else if r.bad() { println!("violation of another class or schedule"); 1 } else { println!("not reproduced (the property held)"); 0 }
}

#[derive(Default)]
struct Agg { runs: u64, steps: u64, switches: u64, virt: u64, hashes: HashSet<u64>, nontrivial: HashSet<u64>, states: HashSet<u64>, faults: [u64; 32], counters: [u64; 32], ops: u64,
    op_kinds: BTreeMap<u16, u64>, max_threads: u32, max_steps: u64, internal: u64, internal_msg: String, skip: u64, samples: Vec<String>, strat: [u64; 4], fault_runs: u64 }
impl Agg {
    fn add(&mut self, i: u64, j: &Job, r: &RunResult) {
        self.runs += 1; self.steps += r.steps; self.switches += r.switches; self.virt += r.virt;
        self.hashes.insert(r.hash); self.states.insert(r.state);
        if r.switches >= 20 && r.state != 0 { self.nontrivial.insert(r.hash); }
        for k in 0..32 { self.faults[k] += r.faults[k]; self.counters[k] += r.counters[k]; }
        if r.faults[3..].iter().any(|f| *f > 0) { self.fault_runs += 1; }
        self.ops += j.plan.ops.len() as u64;
        for o in &j.plan.ops { *self.op_kinds.entry(o.k).or_default() += 1; }
        self.max_threads = self.max_threads.max(r.threads); self.max_steps = self.max_steps.max(r.steps);
        self.strat[(j.params.strategy & 3) as usize] += 1;
        if r.outcome == sim::INTERNAL { self.internal += 1; self.internal_msg = r.msg.clone(); }
        if r.outcome == sim::SKIP { self.skip += 1; }
        if self.samples.len() < 2 && i >= 3 { self.samples.push(format!("run {i}: outcome {} steps {} switches {} threads {} virtual_us {} hash {:x}\n{}", r.outcome, r.steps, r.switches, r.threads, r.virt / 1000, r.hash, j.to_text(None))); }
    }
    #[allow(clippy::too_many_arguments)]
    fn write(&self, p: &Prop, thorough: bool, seed: u64, wall: f64, viol: i32, dets: u64, nondet: u64, unrepro: u64, known: &BTreeMap<String, u64>, jobs: usize) {
        let mut f = String::new();
        for k in 0..32 { if self.faults[k] > 0 && !sim::KIND_NAMES[k].is_empty() { f.push_str(&format!("{}{}: {}", if f.is_empty() { "" } else { ", " }, esc(sim::KIND_NAMES[k]), self.faults[k])); } }
        let ops: Vec<String> = self.op_kinds.iter().map(|(k, n)| format!("{}: {}", esc((p.op_name)(*k)), n)).collect();
        let probes: Vec<String> = p.probes.iter().enumerate().map(|(i, n)| format!("{}: {}", esc(n), self.counters[i])).collect();
        let s: Vec<String> = self.samples.iter().map(|s| esc(s)).collect();
        let kn: Vec<String> = known.iter().map(|(k, n)| format!("{}: {}", esc(k), n)).collect();
        let t = format!(r#"{{
"property": {}, "tier": {}, "seed": {}, "level": "exploration",
"coverage": {{
 "evaluations": {}, "distinct_nontrivial": {},
 "rule": {},
 "samples": [{}],
 "simulated_runs": {}, "runs_per_hour": {:.0}, "seeds_per_hour": {:.0}, "parallel_workers": {},
 "simulated_seconds": {:.3}, "scheduling_points": {}, "context_switches": {}, "max_threads_in_a_run": {}, "max_steps_in_a_run": {},
 "distinct_interleavings": {}, "distinct_observed_histories": {},
 "strategies": {{"random_walk": {}, "priority_pct": {}, "random_with_stalls": {}, "run_to_block": {}}},
 "runs_with_environment_faults": {}, "faults_injected": {{{}}},
 "workload_operations": {}, "operations_by_kind": {{{}}}, "rare_conditions_hit": {{{}}},
 "determinism_reruns": {}, "determinism_mismatches": {}, "unreproducible_failures": {}, "simulator_limit_runs": {}, "skipped_runs": {}, "known_findings_met": {{{}}},
 "real_components": {}, "stubbed_components": {}
}},
"assumptions": ["sequentially consistent interleavings at atomic/syscall granularity; weak-memory reorderings are not explored", "the simulated TCP/UDP/epoll model follows Linux semantics", "sampling: absence of a violation is evidence, not proof"],
"wall_s": {:.1}, "violations": {}
}}
"#, esc(p.id), esc(if thorough { "thorough" } else { "quick" }), seed, self.runs, self.nontrivial.len(),
            esc(&format!("Each run is one seeded plan ({}) executed under a seeded scheduler, fault injector and virtual clock; a run is non-trivial when it had at least 20 context switches and its oracle observed events, and distinct when the hash over its complete sequence of context switches and fault decisions is new.", p.about)),
            s.join(","), self.runs, self.runs as f64 / wall * 3600.0, self.runs as f64 / wall * 3600.0, jobs, self.virt as f64 / 1e9, self.steps, self.switches, self.max_threads, self.max_steps,
            self.hashes.len(), self.states.len(), self.strat[0], self.strat[1], self.strat[2], self.strat[3], self.fault_runs, f, self.ops, ops.join(", "), probes.join(", "),
            dets, nondet, unrepro, self.internal, self.skip, kn.join(", "),
            esc("kompact (core), kompact-net, and every crate below them (executors, crossbeam, async-std/async-io, mio, polling, hierarchical_hash_wheel_timer, parking_lot, std) compiled unmodified"),
            esc("operating-system threads' scheduling, futexes, clocks, sleeping, randomness, epoll/eventfd, TCP and UDP sockets (all simulated); logging backend (records dropped)"),
            wall, viol);
        std::fs::create_dir_all("evidence").ok();
        std::fs::write(format!("evidence/{}.json", p.id), t).expect("write evidence");
    }
}

pub fn selftest(n: u64, jobs: usize) -> i32 {
    // Every property, n seeds, each run twice in different worker processes: histories must be identical.
    let mut bad = 0;
    let mut a = Pool::new(jobs);
    for p in props::all() {
        let mut m: BTreeMap<u64, (u64, u64)> = BTreeMap::new();
        for round in 0..2 {
            let mut i = 0;
            let order: Vec<u64> = if round == 0 { (0..n).collect() } else { (0..n).rev().collect() };
            a.run(false, false, || { if i >= order.len() { None } else { i += 1; let x = order[i - 1]; Some((x, make_job(p, 99, x, false))) } },
                |x, _, r| { let e = m.entry(x).or_insert((r.hash, r.state)); if *e != (r.hash, r.state) { bad += 1; println!("{} seed index {x}: {:x} vs {:x}", p.id, e.0, r.hash) } true });
        }
        // replay from the decision log must give the same execution as the seed
        let mut rep_bad = 0;
        for x in 0..n.min(24) { let j = make_job(p, 99, x, false); let r = a.one(&j, true, false); let mut k = j.clone(); k.dev = Some(r.dec.clone()); let q = a.one(&k, false, false); if (q.hash, q.outcome) != (r.hash, r.outcome) { rep_bad += 1; println!("{} index {x}: log replay {:x}/{} vs {:x}/{} {}", p.id, q.hash, q.outcome, r.hash, r.outcome, q.msg) } }
        bad += rep_bad;
        println!("{}: {} seeds twice, log replay mismatches {}", p.id, n, rep_bad);
    }
    println!("determinism self-test: {} mismatches", bad);
    (bad > 0) as i32
}

pub fn sweep(p: &Prop, seed: u64, from: u64, n: u64, jobs: usize) {
    let mut pool = Pool::new(jobs);
    let mut i = from;
    let mut classes: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut agg = Agg::default();
    let t0 = Instant::now();
    pool.run(false, false, || { if i >= from + n { None } else { i += 1; Some((i - 1, make_job(p, seed, i - 1, false))) } },
        |x, j, r| { agg.add(x, j, &r); if r.outcome != sim::OK { let c = classes.entry(r.class()).or_insert((0, x, r.msg.clone())); c.0 += 1; if x < c.1 { c.1 = x; c.2 = r.msg.clone(); } } true });
    println!("{}: {} runs in {:.1}s, {} interleavings, max steps {}, mean steps {}, virt {:.1}s threads {}", p.id, agg.runs, t0.elapsed().as_secs_f64(), agg.hashes.len(), agg.max_steps, agg.steps / agg.runs.max(1), agg.virt as f64 / 1e9, agg.max_threads);
    for (i, n) in p.probes.iter().enumerate() { print!(" {}={}", n, agg.counters[i]); }
    println!();
    for (c, (n, x, m)) in classes { println!("  {n} x {c} (first index {x}): {}", &m[..m.len().min(300)]); }
}
