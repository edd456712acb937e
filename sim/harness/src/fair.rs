//! Endlessly busy components, ports and futures, and probes which must be handled all the same within a bounded amount of
//! that work.
use crate::plan::*;
use crate::sim;
use crate::world::*;

use kompact::prelude::*;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

pub const F_LOAD: u16 = 1; // comp kind tokens
pub const F_PROBE: u16 = 2; // comp kind delay_us
pub const F_SLEEP: u16 = 3; // us
pub fn op_name(k: u16) -> &'static str { ["?", "load", "probe", "sleep"].get(k as usize).copied().unwrap_or("?") }
const LOADS: [&str; 10] = ["messages to itself", "messages to the next", "events of the first port", "events of the second port", "a yielding local future", "a yielding pool future", "messages to itself which block on something ready", "messages to itself which block for a moment", "blocking events of the first port", "blocking events of the second port"];
const PROBES: [&str; 9] = ["message", "request on the first port", "request on the second port", "indication on the first port", "indication on the second port", "local future", "timer", "stop", "a new component"];

#[derive(Clone, Copy, Debug)]
pub enum Tok { Busy, Block, Probe(usize) }
pub struct FA;
impl Port for FA { type Indication = Tok; type Request = Tok; }
pub struct FB;
impl Port for FB { type Indication = Tok; type Request = Tok; }
#[derive(Debug)]
pub enum M { Own, Ring, Block(bool), Load(i64), Probe(usize), Await(usize, KFuture<()>), Timer(usize, u64) }

struct P { comp: usize, kind: usize, since: u64, at: u64, due: u64, done: bool }
struct C { comp: Option<Arc<Component<Busy>>>, aref: ActorRef<M>, pa: ProvidedRef<FA>, pb: ProvidedRef<FB>, ra: RequiredRef<FA>, rb: RequiredRef<FB>, stop: Option<usize>, stopped: bool }
struct W { sys: Option<KompactSystem>, c: Vec<C>, p: Vec<P>, work: u64, bound: u64, tbound: u64, worst: u64, slack: u64, stop: bool, waits: Vec<Option<(usize, KPromise<()>)>> }
static WORLD: Global<W> = Global::new();
fn w() -> &'static mut W { WORLD.get() }
/// Some of the endless work was done. Returns false when it is to end.
fn busy(what: usize) -> bool {
    let ww = w();
    ww.work += 1;
    for (i, p) in ww.p.iter_mut().enumerate() {
        if p.done { continue; }
        if p.due > 0 { if sim::now() > p.due { p.due = 0; p.since = ww.work; p.at = sim::now(); } continue; }
        let n = ww.work - p.since;
        ww.worst = ww.worst.max(n);
        // (the executors look for work of other threads once in a millisecond)
        ensure!("A08", n <= ww.bound || sim::now() - p.at <= ww.tbound, "starved", "{} (probe {i}) of component {} was not handled while the components handled {n} other messages and events (bound {}), the last of them being {} of the load", PROBES[p.kind], p.comp, ww.bound, LOADS[what]);
    }
    !ww.stop
}
fn probe_done(i: usize) {
    let Some(p) = w().p.get_mut(i) else { return };
    if p.done { return; }
    p.done = true;
    let n = if p.due > 0 { 0 } else { w().work - p.since };
    tr!("probe {i} ({} of {}) handled after {n} steps of work", PROBES[p.kind], p.comp);
    sim::state(mix(mix(p.kind as u64, p.comp as u64), n.min(64)));
}
fn new_probe(comp: usize, kind: usize, due: u64) -> usize { w().p.push(P { comp, kind, since: w().work, at: sim::now(), due, done: false }); w().p.len() - 1 }

/// Pending once, and woken up again at once.
pub struct Yield(pub bool);
impl std::future::Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { if self.0 { return Poll::Ready(()); } self.0 = true; cx.waker().wake_by_ref(); Poll::Pending }
}

#[derive(ComponentDefinition)]
pub struct Busy { ctx: ComponentContext<Self>, ix: usize, pa: ProvidedPort<FA>, ra: RequiredPort<FA>, pb: ProvidedPort<FB>, rb: RequiredPort<FB> }
impl ComponentLifecycle for Busy {
    fn on_start(&mut self) -> HandlerResult { if self.ix >= 1000 { probe_done(self.ix - 1000); } Handled::OK }
    fn on_stop(&mut self) -> HandlerResult { if let Some(i) = w().c.get_mut(self.ix).and_then(|c| { c.stopped = true; c.stop.take() }) { probe_done(i); let ix = self.ix; for p in &mut w().p { if p.comp == ix && p.kind != 8 { p.done = true; } } } Handled::OK }
    fn on_kill(&mut self) -> HandlerResult { Handled::OK }
}
macro_rules! port { ($tr:ident, $p:ty, $k:expr, $field:ident) => {
    impl $tr<$p> for Busy { fn handle(&mut self, e: Tok) -> HandlerResult { match e { Tok::Probe(i) => probe_done(i), Tok::Busy => if busy($k) { self.$field.trigger(Tok::Busy) },
        Tok::Block => if busy($k + 6) { self.$field.trigger(Tok::Block); return if w().work % 3 == 0 { Err(HandlerError::benign(std::io::Error::other("benign"))) } else { Handled::block_on(self, async move |_| Handled::OK) }; } } Handled::OK } }
} }
port!(Provide, FA, 2, pa); port!(Require, FA, 2, ra); port!(Provide, FB, 3, pb); port!(Require, FB, 3, rb);
impl Actor for Busy {
    type Message = M;
    fn receive_local(&mut self, m: M) -> HandlerResult {
        match m {
            M::Own => if busy(0) { self.actor_ref().tell(M::Own) },
            M::Ring => if busy(1) { let n = w().c.len(); w().c[(self.ix + 1) % n].aref.tell(M::Ring) },
            M::Block(y) => if busy(6 + y as usize) { self.actor_ref().tell(M::Block(y)); return Handled::block_on(self, async move |_| { if y { Yield(false).await } Handled::OK }); },
            M::Load(k) => match k {
                8 => self.pa.trigger(Tok::Block),
                9 => self.pb.trigger(Tok::Block),
                2 => self.pa.trigger(Tok::Busy),
                3 => self.pb.trigger(Tok::Busy),
                4 => { self.spawn_local(|_| async move { while busy(4) { Yield(false).await } Handled::OK }); }
                _ => { let _ = self.spawn_off(async move { while busy(5) { Yield(false).await } }); }
            },
            M::Probe(i) => probe_done(i),
            M::Await(i, f) => { self.spawn_local(move |_| async move { let _ = f.await; probe_done(w().waits[i].as_ref().map(|x| x.0).unwrap_or(usize::MAX)); Handled::OK }); }
            M::Timer(i, us) => { w().p[i].due = sim::now() + us * 1000 + w().slack; self.schedule_once(std::time::Duration::from_micros(us), move |_, _| { probe_done(i); Handled::OK }); }
        }
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult { Handled::OK }
}
fn new_busy(ix: usize) -> Busy { Busy { ctx: ComponentContext::uninitialised(), ix, pa: ProvidedPort::uninitialised(), ra: RequiredPort::uninitialised(), pb: ProvidedPort::uninitialised(), rb: RequiredPort::uninitialised() } }

pub fn run(plan: &Plan) {
    let n = plan.get("comps").clamp(2, 8) as usize;
    let tokens: i64 = plan.ops.iter().filter(|o| o.k == F_LOAD).map(|o| o.a[2]).sum();
    let probes = plan.ops.iter().filter(|o| o.k == F_PROBE).count() as u64;
    let bound = plan.get("bound") as u64 + 60 * (plan.get("throughput") as u64 * n as u64 + tokens as u64 * 4 + probes);
    let tbound = (10 + 3 * (probes + tokens as u64)) * MS;
    WORLD.init(W { sys: None, c: Vec::with_capacity(16), p: Vec::with_capacity(256), work: 0, bound, tbound, worst: 0, slack: plan.get("slack_us") as u64 * 1000, stop: false, waits: vec![] });
    let sys = crate::local::config(plan).build().wait().expect("system");
    let ded = plan.get("dedicated");
    for ix in 0..n {
        let c = if ded >> ix & 1 == 1 { sys.create_dedicated(move || new_busy(ix)) } else { sys.create(move || new_busy(ix)) };
        let (pa, pb, ra, rb) = c.on_definition(|d| (d.pa.share(), d.pb.share(), d.ra.share(), d.rb.share()));
        let aref = c.actor_ref();
        w().c.push(C { comp: Some(c), aref, pa, pb, ra, rb, stop: None, stopped: false });
    }
    for ix in 0..n {
        let (a, b) = (w().c[ix].comp.clone().unwrap(), w().c[(ix + 1) % n].comp.clone().unwrap());
        let x = loop { if let Ok(x) = biconnect_components::<FA, _, _>(&a, &b) { break x; } sleep_ns(20_000); };
        let y = loop { if let Ok(x) = biconnect_components::<FB, _, _>(&a, &b) { break x; } sleep_ns(20_000); };
        std::mem::forget((x, y));
    }
    for ix in 0..n { let c = w().c[ix].comp.clone().unwrap(); sys.start_notify(&c).wait(); }
    // futures must be there before the load, so that it is they who are probed and not the message that spawns them
    for o in plan.ops.iter().filter(|o| o.k == F_PROBE && o.a[1] == 5) {
        let (p, f) = promise(); let i = w().waits.len();
        w().waits.push(Some((usize::MAX, p)));
        w().c[o.a[0].unsigned_abs() as usize % n].aref.tell(M::Await(i, f));
    }
    for _ in 0..60 { sleep_ns(20_000); }
    let mut nth = 0;
    for o in &plan.ops {
        let c = o.a[0].unsigned_abs() as usize % n;
        match o.k {
            F_LOAD => { tr!("load: {} x {} at {c}", o.a[2], LOADS[o.a[1] as usize % 10]); for _ in 0..o.a[2] { match o.a[1] % 10 { 0 => w().c[c].aref.tell(M::Own), 1 => w().c[c].aref.tell(M::Ring), 6 => w().c[c].aref.tell(M::Block(false)), 7 => w().c[c].aref.tell(M::Block(true)), k => w().c[c].aref.tell(M::Load(k)) } } }
            F_SLEEP => sleep_ns(o.a[0] as u64 * 1000),
            F_PROBE => {
                let kind = o.a[1] as usize % 9;
                if w().c[c].stopped || w().c[c].stop.is_some() { if kind == 5 { nth += 1; } continue; }
                let i = new_probe(c, kind, 0);
                tr!("probe {i}: {} of {c}", PROBES[kind]);
                match kind {
                    0 => w().c[c].aref.tell(M::Probe(i)),
                    1 => sys.trigger_r(Tok::Probe(i), &w().c[c].pa),
                    2 => sys.trigger_r(Tok::Probe(i), &w().c[c].pb),
                    3 => sys.trigger_i(Tok::Probe(i), &w().c[c].ra),
                    4 => sys.trigger_i(Tok::Probe(i), &w().c[c].rb),
                    5 => { let x = std::mem::replace(&mut w().waits[nth], None); if let Some((_, p)) = x { let (d, _f) = promise::<()>(); w().waits[nth] = Some((i, d)); let _ = p.complete(); } nth += 1; }
                    6 => w().c[c].aref.tell(M::Timer(i, o.a[2] as u64)),
                    7 => { w().c[c].stop = Some(i); let x = still(|| w().c[c].comp.clone()).unwrap(); sys.stop(&x); }
                    _ => { let x = sys.create(move || new_busy(1000 + i)); sys.start(&x); std::mem::forget(x); }
                }
            }
            _ => (),
        }
    }
    let any_load = plan.ops.iter().any(|o| o.k == F_LOAD && o.a[2] > 0);
    // progress is judged in terms of work done, but there might be none
    let mut last = (w().work, sim::now());
    loop {
        if w().p.iter().all(|p| p.done) { break; }
        sleep_ns(100_000);
        if w().work > last.0 { last = (w().work, sim::now()); }
        if sim::now() > last.1 + 10 * SEC { let x: Vec<String> = w().p.iter().filter(|p| !p.done).map(|p| format!("{} of component {}", PROBES[p.kind], p.comp)).collect(); ensure!("A08", false, "stuck", "nothing was handled for 10 simulated seconds although these were outstanding: {} (load {any_load})", x.join(", ")); break; }
    }
    sim::points(0);
    tr!("worst {} of {bound}, work {}", w().worst, w().work);
    if plan.get("busy_shutdown") == 0 { w().stop = true; }
    sim::quiet();
    let done: &'static std::sync::atomic::AtomicU32 = Box::leak(Box::new(std::sync::atomic::AtomicU32::new(0)));
    let (start, t0) = (w().work, sim::now());
    std::thread::spawn(move || { let r = sys.shutdown().wait(); ensure!("A08", r.is_ok(), "shutdown-error", "shutdown failed"); done.store(1, std::sync::atomic::Ordering::SeqCst); });
    let mut last = (w().work, sim::now());
    while done.load(std::sync::atomic::Ordering::SeqCst) == 0 {
        sleep_ns(100_000);
        if w().work > last.0 { last = (w().work, sim::now()); }
        ensure!("A08", w().work - start <= bound + 3000 || sim::now() - t0 <= tbound + 20 * n as u64 * MS, "shutdown-starved", "the system did not shut down while its components handled {} messages and events", w().work - start);
        if sim::now() > last.1 + 10 * SEC { ensure!("A08", false, "shutdown-stuck", "shutting down did not complete within 10 simulated seconds"); return; }
    }
}
