//! Building systems whose own components may fail to start, and shutting systems down from several places at once.
use crate::plan::*;
use crate::sim;
use crate::world::*;

use kompact::prelude::*;
use kompact_net::prelude::*;
use std::sync::Arc;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const S_SYS: u16 = 1; // machine, kind, fault, when, delay_us
pub const S_END: u16 = 2; // system, mode, delay_us
pub const S_MORE: u16 = 3; // system, delay_us: another component is started
pub fn op_name(k: u16) -> &'static str { ["?", "system", "end", "more"].get(k as usize).copied().unwrap_or("?") }
const KINDS: [&str; 5] = ["default components", "own components", "own components and a dedicated dispatcher", "network", "network on a dedicated thread"];
const FAULTS: [&str; 8] = ["no fault", "the deadletter box panics", "the deadletter box reports a recoverable error", "the deadletter box reports an unrecoverable error", "the dispatcher panics", "the dispatcher reports a recoverable error", "the dispatcher reports an unrecoverable error", "the address is taken"];
const MODES: [&str; 5] = ["shutdown", "kill_system", "shutdown_async", "shutdown_async by a component", "await_termination"];
pub const ALLOWED: &[&str] = &["KompactRuntime was not in active state!", "Failed to build a Network Thread", "NetworkThread time-out during boot sequence", "could not bind UDP on TCP port",
    // the executor, when it is dropped after having been told to stop
    "Pool didn't shut down"];

struct Comp { comp: Option<Arc<Component<Unit>>>, aref: Option<ActorRef<Do>>, before: bool, started: bool, kills: u32 }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Built { No, Up, Failed }
struct Sys { built: Built, sys: Option<KompactSystem>, c: Vec<Comp>, ended: bool, down: bool, oks: u32, errs: u32, refused: u32, open: u32, term: bool }
struct Fault { sys: usize, at: u64 }
struct W { s: Vec<Sys>, faults: Vec<Fault>, hook_us: u64 }
static WORLD: Global<W> = Global::new();
fn w() -> &'static mut W { WORLD.get() }

#[derive(Debug)]
pub enum Do { Shutdown, Ping(KPromise<()>) }
#[derive(ComponentDefinition)]
pub struct Unit { ctx: ComponentContext<Self>, sys: usize, ix: usize, us: u64 }
impl ComponentLifecycle for Unit {
    fn on_start(&mut self) -> HandlerResult { w().s[self.sys].c[self.ix].started = true; Handled::OK }
    fn on_kill(&mut self) -> HandlerResult {
        let (s, i, us) = (self.sys, self.ix, self.us);
        if us == 0 { w().s[s].c[i].kills += 1; tr!("component {i} of system {s} was killed"); return Handled::OK; }
        Handled::block_on(self, move |_| async move { for _ in 0..us / 10 { crate::fair::Yield(false).await } w().s[s].c[i].kills += 1; tr!("component {i} of system {s} was killed"); Handled::OK })
    }
}
impl Actor for Unit {
    type Message = Do;
    fn receive_local(&mut self, m: Do) -> HandlerResult {
        match m { Do::Shutdown => self.ctx.system().shutdown_async(), Do::Ping(p) => { let _ = p.complete(); } }
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult { Handled::OK }
}

/// What a system component does when it is started.
fn begin(sys: usize, fault: i64, late: bool, ready: &mut Option<KPromise<()>>) -> HandlerResult {
    let fail = |f: i64| {
        tr!("a component of system {sys} fails to start");
        w().faults.push(Fault { sys, at: sim::now() });
        match f { 1 => panic!("INJ start"), 2 => Err(HandlerError::recoverable(std::io::Error::other("start"))), _ => Err(HandlerError::unrecoverable(std::io::Error::other("start"))) }
    };
    if fault > 0 && !late { return fail(fault); }
    if let Some(p) = ready.take() { let _ = p.complete(); }
    if fault > 0 { return fail(fault); }
    Handled::OK
}
#[derive(ComponentDefinition)]
pub struct Dead { ctx: ComponentContext<Self>, ready: Option<KPromise<()>>, sys: usize, fault: i64, late: bool }
impl ComponentLifecycle for Dead { fn on_start(&mut self) -> HandlerResult { begin(self.sys, self.fault, self.late, &mut self.ready) } }
impl Actor for Dead {
    type Message = Never;
    fn receive_local(&mut self, _: Never) -> HandlerResult { Handled::OK }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult { Handled::OK }
}
#[derive(ComponentDefinition)]
pub struct Disp { ctx: ComponentContext<Self>, ready: Option<KPromise<()>>, sys: usize, fault: i64, late: bool }
impl ComponentLifecycle for Disp { fn on_start(&mut self) -> HandlerResult { begin(self.sys, self.fault, self.late, &mut self.ready) } }
impl Actor for Disp {
    type Message = DispatchEnvelope;
    fn receive_local(&mut self, _: DispatchEnvelope) -> HandlerResult { Handled::OK }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult { Handled::OK }
}
impl Dispatcher for Disp {
    fn system_path(&mut self) -> SystemPath { SystemPath::new(Transport::Local, "127.0.0.1".parse().unwrap(), 0) }
}

fn addr(m: i64) -> std::net::SocketAddr { format!("10.0.0.{}:{}", m + 1, 9000 + m).parse().unwrap() }
fn config(plan: &Plan, ix: usize, m: i64, kind: i64, fault: i64, late: bool) -> KompactConfig {
    let mut conf = crate::local::config(plan);
    let (df, pf) = (if (1..=3).contains(&fault) { fault } else { 0 }, if (4..=6).contains(&fault) { fault - 3 } else { 0 });
    let dead = move |p| Dead { ctx: ComponentContext::uninitialised(), ready: Some(p), sys: ix, fault: df, late };
    let disp = move |p| Disp { ctx: ComponentContext::uninitialised(), ready: Some(p), sys: ix, fault: pf, late };
    let mut nc = NetworkConfig::new(addr(m));
    nc.set_boot_timeout(60_000);
    match kind { 0 if df + pf == 0 => (), 0 | 1 => { conf.system_components(dead, disp); } 2 => { conf.system_components_with_dedicated_dispatcher(dead, disp); } 3 => { conf.system_components(dead, nc.build()); } _ => { conf.system_components_with_dedicated_dispatcher(dead, nc.build()); } }
    conf
}
/// A thread of the simulated machine `m`; it is waited for with `finished`.
fn thread(m: i64, f: impl FnOnce() + Send + 'static) -> &'static AtomicU32 {
    let done: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    sim::set_node(m as i32);
    std::thread::spawn(move || { f(); done.store(1, SeqCst); });
    sim::set_node(7);
    done
}
fn create(s: usize, before: bool, us: u64, dedicated: bool) -> bool {
    let Some(sys) = still(|| w().s[s].sys.clone()) else { return false };
    let ix = w().s[s].c.len();
    w().s[s].c.push(Comp { aref: None, comp: None, before, started: false, kills: 0 });
    let unit = move || Unit { ctx: ComponentContext::uninitialised(), sys: s, ix, us };
    let c = if dedicated { sys.create_dedicated(unit) } else { sys.create(unit) };
    w().s[s].c[ix].aref = Some(c.actor_ref());
    if before { sys.start_notify(&c).wait(); } else { sys.start(&c); }
    w().s[s].c[ix].comp = Some(c);
    true
}

pub fn run(plan: &Plan) {
    let defs: Vec<&Op> = plan.ops.iter().filter(|o| o.k == S_SYS).collect();
    let n = defs.len();
    WORLD.init(W { s: (0..n).map(|_| Sys { built: Built::No, sys: None, c: Vec::with_capacity(64), ended: false, down: false, oks: 0, errs: 0, refused: 0, open: 0, term: false }).collect(), faults: vec![], hook_us: plan.get("hook_us") as u64 });
    set_allowed(ALLOWED);
    // someone else has the address
    let mut taken: Vec<std::net::TcpListener> = vec![];
    for o in &defs { if o.a[2] == 7 { sim::set_node(o.a[0] as i32); if let Ok(l) = std::net::TcpListener::bind(addr(o.a[0])) { taken.push(l); } } }
    sim::set_node(7);
    let mut builders = vec![];
    for (ix, o) in defs.iter().enumerate() {
        let (m, kind, fault, late, us) = (o.a[0], o.a[1], o.a[2], o.a[3] != 0, o.a[4] as u64);
        let p = plan.clone();
        tr!("building system {ix} on machine {m}: {}, {} {}", KINDS[kind as usize % 5], FAULTS[fault as usize % 8], if fault == 0 || fault == 7 { "" } else if late { "once ready" } else { "before it is ready" });
        builders.push(thread(m, move || {
            sleep_ns(us * 1000);
            let r = config(&p, ix, m, kind, fault, late).build().wait();
            w().s[ix].built = if r.is_ok() { Built::Up } else { Built::Failed };
            tr!("system {ix}: {}", if r.is_ok() { "built".to_string() } else { format!("{:?}", r.as_ref().err()) });
            w().s[ix].sys = r.ok();
        }));
    }
    let netport = |m: i64| defs.iter().filter(|o| o.a[0] == m && o.a[1] >= 3).count();
    for (ix, o) in defs.iter().enumerate() {
        let ok = wait_until(60 * SEC, || builders[ix].load(SeqCst) == 1);
        let (fault, late, kind) = (o.a[2], o.a[3] != 0, o.a[1]);
        if !ok { ensure!("S01", false, "build-stuck", "building system {ix} ({}, {}) had neither succeeded nor failed after 60 simulated seconds", KINDS[kind as usize % 5], FAULTS[fault as usize % 8]); return; }
        let must_fail = (fault == 7) || (fault > 0 && !late);
        let may_fail = must_fail || fault > 0 || (kind >= 3 && netport(o.a[0]) > 1);
        match w().s[ix].built {
            Built::Up => ensure!("S01", !must_fail, "built-broken", "building system {ix} ({}) succeeded although {}", KINDS[kind as usize % 5], FAULTS[fault as usize % 8]),
            _ => ensure!("S01", may_fail, "build-failed", "building system {ix} ({}) failed without any fault", KINDS[kind as usize % 5]),
        }
        sim::state(mix(mix(kind as u64, fault as u64), w().s[ix].built as u64));
    }
    // of several with the same address exactly one comes up
    for m in 0..4 {
        let same: Vec<usize> = (0..n).filter(|i| defs[*i].a[0] == m && defs[*i].a[1] >= 3 && defs[*i].a[2] == 0).collect();
        let others = (0..n).any(|i| defs[i].a[0] == m && defs[i].a[1] >= 3 && defs[i].a[2] != 0);
        let up = same.iter().filter(|i| w().s[**i].built == Built::Up).count();
        if same.len() > 1 && !others { ensure!("S01", up == 1, "address-shared", "{up} of the {} systems with the address {} came up", same.len(), addr(m)); }
    }
    // the broken ones come to their end on their own and don't bother the others
    let mut poisoned = vec![];
    for ix in 0..n {
        let o = defs[ix];
        if w().s[ix].built != Built::Up || o.a[3] == 0 || !(1..=6).contains(&o.a[2]) || !still(|| w().faults.iter().any(|f| f.sys == ix)) { continue; }
        let us = o.a[4] as u64;
        let (s1, s2) = (still(|| w().s[ix].sys.clone().unwrap()), still(|| w().s[ix].sys.clone().unwrap()));
        let t = thread(o.a[0], move || s1.await_termination());
        let e = plan.get("end_poisoned");
        let c = if e == 0 { None } else { Some(thread(o.a[0], move || {
            sleep_ns(us * 1000);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match e { 1 => s2.shutdown().wait().is_ok(), 2 => s2.kill_system().is_ok(), _ => { s2.shutdown_async(); true } }));
            tr!("ending the broken system {ix}: {r:?}", r = r.as_ref().ok());
        })) };
        poisoned.push((ix, t, c));
    }
    sleep_ns(5 * MS);
    let mut threads = vec![];
    for ix in 0..n {
        if w().s[ix].built != Built::Up || defs[ix].a[2] > 0 { continue; }
        let m = defs[ix].a[0];
        let (units, ded, us) = (plan.get("units") as usize, plan.get("dedicated"), plan.get("hook_us") as u64);
        let t = thread(m, move || {
            for k in 0..units { create(ix, true, if k % 2 == 0 { us } else { 0 }, ded >> k & 1 == 1); }
            for k in 0..units { let (p, f) = promise(); if let Some(a) = still(|| w().s[ix].c[k].aref.clone()) { a.tell(Do::Ping(p)); } let r = f.wait_timeout(std::time::Duration::from_secs(20)); ensure!("S01", r.is_ok(), "unusable", "component {k} of system {ix}, which was built successfully, did not answer within 20 simulated seconds"); }
        });
        threads.push((ix, t));
    }
    for (ix, t) in &threads { if !wait_until(60 * SEC, || t.load(SeqCst) == 1) { ensure!("S01", false, "unusable", "components of system {ix}, which was built successfully, could not be started"); return; } }
    // a fault in a component of the system itself ends the whole system, for everyone who waits for it
    for &(ix, ref t, ref c) in &poisoned {
        ensure!("S02", wait_until(60 * SEC, || t.load(SeqCst) == 1), "poisoned-not-terminated", "await_termination for system {ix} has not returned 60 simulated seconds after {}", FAULTS[defs[ix].a[2] as usize % 8]);
        if let Some(c) = c { ensure!("S02", wait_until(60 * SEC, || c.load(SeqCst) == 1), "poisoned-call-stuck", "a call to end system {ix} has not returned 60 simulated seconds after {}", FAULTS[defs[ix].a[2] as usize % 8]); }
        sim::state(mix(0x50, defs[ix].a[2] as u64));
    }
    // freed addresses can be used
    drop(taken);
    if plan.get("again") != 0 {
        for ix in 0..n {
            let (m, kind) = (defs[ix].a[0], defs[ix].a[1]);
            if w().s[ix].built != Built::Failed || kind < 3 || defs[ix].a[2] != 7 || (0..n).any(|i| i != ix && defs[i].a[0] == m && defs[i].a[1] >= 3) { continue; }
            let p = plan.clone();
            let t = thread(m, move || { let r = config(&p, ix, m, kind, 0, false).build().wait(); w().s[ix].built = if r.is_ok() { Built::Up } else { Built::Failed }; w().s[ix].sys = r.ok(); });
            let ok = wait_until(60 * SEC, || t.load(SeqCst) == 1);
            ensure!("S01", ok && w().s[ix].built == Built::Up, "again", "after the first attempt to build system {ix} had failed ({}), building it at the same address without that fault {}", FAULTS[defs[ix].a[2] as usize % 8], if ok { "failed" } else { "did not complete" });
            tr!("system {ix} built again");
        }
    }
    let victims: Vec<usize> = (0..n).filter(|i| w().s[*i].built == Built::Up && (defs[*i].a[2] == 0 || still(|| w().s[*i].sys.is_some()) && plan.get("again") != 0 && defs[*i].a[1] >= 3 && defs[*i].a[2] > 0 && !(defs[*i].a[3] != 0 && defs[*i].a[2] != 7))).collect();
    tr!("ending systems {victims:?}");
    let mut enders = vec![];
    for o in &plan.ops {
        match o.k {
            S_END if !victims.is_empty() => {
                let s = victims[o.a[0].unsigned_abs() as usize % victims.len()];
                let (mode, us) = (o.a[1] as usize % 5, o.a[2] as u64);
                enders.push((s, mode, end(s, defs[s].a[0], mode, us)));
            }
            S_MORE if !victims.is_empty() => {
                let s = victims[o.a[0].unsigned_abs() as usize % victims.len()];
                let us = o.a[1] as u64;
                thread(defs[s].a[0], move || { sleep_ns(us * 1000); let _ = std::panic::catch_unwind(|| create(s, false, us % 300, us % 4 == 3)); });
            }
            _ => (),
        }
    }
    for &s in &victims { if !enders.iter().any(|e| e.0 == s && e.1 != 4) { enders.push((s, 0, end(s, defs[s].a[0], 0, 500))); } }
    for (k, (s, mode, t)) in enders.iter().enumerate() {
        let ok = wait_until(60 * SEC, || t.load(SeqCst) == 1);
        if !ok { ensure!("S02", false, "call-stuck", "call {k} ({}) for system {s} has not returned after 60 simulated seconds; {} calls for it have succeeded", MODES[*mode], w().s[*s].oks); return; }
    }
    for &s in &victims {
        let sys = still(|| w().s[s].sys.take().unwrap());
        let t = thread(defs[s].a[0], move || { sys.await_termination(); });
        let ok = wait_until(60 * SEC, || t.load(SeqCst) == 1);
        ensure!("S02", ok, "not-terminated", "system {s} was not terminated 60 simulated seconds after the calls to end it had returned");
        let direct = enders.iter().filter(|e| e.0 == s && e.1 < 2).count() as u32;
        ensure!("S02", direct == 0 || w().s[s].oks > 0 || enders.iter().any(|e| e.0 == s && (e.1 == 2 || e.1 == 3)), "no-success", "system {s} was shut down but each of the {direct} calls to do so reported an error");
        dead_all(s, "the system was terminated");
        for (i, c) in w().s[s].c.iter().enumerate() { ensure!("S02", c.kills <= 1, "killed-twice", "component {i} of system {s} was killed {} times", c.kills); }
    }
    sim::quiet();
}
/// Everything that had been started before has ended.
fn dead_all(s: usize, what: &str) {
    for (i, c) in w().s[s].c.iter().enumerate() { if c.before { ensure!("S02", c.kills == 1, "not-killed", "{what} although component {i} of system {s} had been started before and had not been killed"); } }
}
fn end(s: usize, m: i64, mode: usize, us: u64) -> &'static AtomicU32 {
    thread(m, move || {
        sleep_ns(us * 1000);
        let Some(sys) = still(|| w().s[s].sys.clone()) else { return };
        tr!("{} of system {s}", MODES[mode]);
        let was_down = w().s[s].down;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match mode {
            0 => Some(sys.shutdown().wait().map_err(|e| format!("{e:?}"))),
            1 => Some(sys.kill_system().map_err(|e| format!("{e:?}"))),
            2 => { sys.shutdown_async(); None }
            3 => { match still(|| w().s[s].c.first().and_then(|c| c.aref.clone())) { Some(a) => a.tell(Do::Shutdown), None => sys.shutdown_async() } None }
            _ => { sys.await_termination(); None }
        }));
        match r {
            Ok(Some(Ok(()))) => { w().s[s].oks += 1; w().s[s].down = true; dead_all(s, "a call to end it succeeded"); tr!("{} of system {s} succeeded", MODES[mode]); }
            Ok(Some(Err(e))) => { w().s[s].errs += 1; tr!("{} of system {s} failed: {e}", MODES[mode]); dead_all(s, "a call to end it reported an error"); }
            Ok(None) => if mode == 4 { dead_all(s, "await_termination returned"); tr!("await_termination of system {s} returned"); },
            Err(e) => {
                let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
                w().s[s].refused += 1; tr!("{} of system {s} was refused: {m}", MODES[mode]);
                let _ = was_down;
                // a system which is no longer running refuses
                ensure!("S02", m.contains("not in active state"), "shutdown-panic", "{} of system {s} panicked: {m}", MODES[mode]);
                dead_all(s, "a call to end it was refused because it had ended");
            }
        }
    })
}
