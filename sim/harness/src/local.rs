//! The local playground: a set of components, driver threads issuing operations against them, and the oracles for
//! message delivery, mutual exclusion, lifecycle, futures, asks, timers, ports, supervision and shutdown.
use crate::plan::*;
use crate::sim;
use crate::world::*;

use futures::future::BoxFuture;
use kompact::prelude::*;
use std::collections::BTreeMap;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

// ---- driver operations -------------------------------------------------------------------------------------------
pub const O_SEND: u16 = 1; // thread target act x y
pub const O_ASK: u16 = 2; // thread target mode timeout_us
pub const O_START: u16 = 3; // _ target notify
pub const O_STOP: u16 = 4;
pub const O_KILL: u16 = 5;
pub const O_COMPLETE: u16 = 6; // thread k
pub const O_POKE: u16 = 7; // thread
pub const O_SLEEP: u16 = 8; // thread us
pub const O_ONDEF: u16 = 9; // thread target points
pub const O_DISC: u16 = 10; // thread chan
pub const O_CONN: u16 = 11; // thread prov req
pub const O_TRIG: u16 = 12; // thread target kind
pub const O_REPLY: u16 = 13; // thread k
pub const O_BURST: u16 = 14; // thread target n act x
pub const O_CANCEL_EXT: u16 = 15; // thread k: cancel a timer from outside of the component
pub fn op_name(k: u16) -> &'static str {
    ["?", "send", "ask", "start", "stop", "kill", "complete_promise", "poke_wakers", "sleep", "lock_definition", "disconnect", "connect",
        "trigger_event", "reply_held_ask", "burst", "cancel_timer_outside"].get(k as usize).copied().unwrap_or("?")
}
// ---- what a message makes its receiver do ---------------------------------------------------------------------------
pub const A_NOP: i64 = 0;
pub const A_FWD: i64 = 1; // x target, y count
pub const A_BLOCK_P: i64 = 2;
pub const A_BLOCK_Y: i64 = 3;
pub const A_SPAWN_P: i64 = 4;
pub const A_SPAWN_Y: i64 = 5;
pub const A_TRIG_I: i64 = 6;
pub const A_TRIG_R: i64 = 7;
pub const A_BENIGN: i64 = 8;
pub const A_RECOV: i64 = 9;
pub const A_UNREC: i64 = 10;
pub const A_PANIC: i64 = 11;
pub const A_SHUT: i64 = 12;
pub const A_SUICIDE: i64 = 13;
pub const A_ONCE: i64 = 14; // x us
pub const A_PERIODIC: i64 = 15; // x delay us, y period us
pub const A_CANCEL: i64 = 16; // x which
pub const A_ASK_B: i64 = 17; // x target y mode
pub const A_ASK_S: i64 = 18;
pub const A_NEST: i64 = 19; // block on a future that itself asks to block
pub const A_WAKER: i64 = 20; // spawn_local on a poked waker
pub const A_BLOCK_W: i64 = 21; // block on a poked waker
pub const A_OFF: i64 = 22; // spawn_off, awaited in spawn_local
pub const A_SELF: i64 = 23; // burst to self
pub const A_ASK_OFF: i64 = 24; // blocking future awaits a spawn_off task
pub const A_CANCEL_NEW: i64 = 25; // schedule x us, and cancel in the next message
pub const A_FUT_ERR: i64 = 26; // blocking future that ends in an error (x: 0 benign 1 recoverable 2 unrecoverable 3 panic 4 shutdown)
pub const A_SPAWN_B: i64 = 27; // local future that ends by asking to block (x yields, y what it blocks on)
pub const A_SPAWN_E: i64 = 28; // local future that ends in an error (x as for A_FUT_ERR)
pub const NACT: usize = 29;

#[derive(Clone, Debug)]
pub struct Data { pub stream: u32, pub seq: u32, pub act: i64, pub x: i64, pub y: i64 }
#[derive(Debug)]
pub enum Msg { D(Data), Q(Ask<Data, u64>) }
#[derive(Clone, Debug)]
pub struct Ev { src: u32, n: u32, direct: Option<(u32, u32)>, act: i64 }
pub struct PP;
impl Port for PP { type Indication = Ev; type Request = Ev; }

#[derive(Default, Clone)]
struct Stream { src: u32, dst: usize, sent: u32, recv: u32 }
struct Chan { ch: Option<TwoWayChannel<PP, Player, Player>>, p: usize, r: usize, ind: (u32, u32), req: (u32, u32), // certain from (>=), possible from
    ind_end: (u32, u32), req_end: (u32, u32), ind_last: u32, req_last: u32, ind_got: u32, req_got: u32, ind_must: u32, req_must: u32, open: bool }
#[derive(Clone, Copy, PartialEq, Debug)]
enum End { No, Killed, Fault, Unrec, Shut }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Hook { Start, Stop, Kill }
struct C {
    comp: Option<Arc<Component<Player>>>, aref: Option<ActorRef<Msg>>, preq: Option<ProvidedRef<PP>>, rreq: Option<RequiredRef<PP>>,
    inside: bool, blocked: bool, active: bool, end: End, dropped: bool, dedicated: bool, tid: i32, started_once: bool, hooks_behaviour: i64,
    reqs: Vec<Hook>, hooks: Vec<Hook>, done: [u32; 3], begun: [u32; 3], self_kill: bool, faults: u32, rec_fn: u32, rec_act: u32, trig_i: u32, trig_r: u32, kill_req: bool, hook_blocked: Option<Hook>,
    handled: u64, unack: [u32; 3], acked: bool, weak: std::sync::Weak<Component<Player>>,
}
#[derive(Debug, Clone)]
struct Ob { comp: usize, what: &'static str, done: u32, due: u64, void: bool }
struct Tm { comp: usize, at: u64, due: u64, period: u64, fired: u64, cancelled: bool, ext: bool, handle: Option<ScheduledTimer> }
struct Note { f: KFuture<()>, comp: usize, hook: Hook, base: u32, strict: bool, void: bool }
pub struct W {
    sys: Option<KompactSystem>, c: Vec<C>, streams: Vec<Stream>, skey: BTreeMap<(u32, usize, u32), usize>, chans: Vec<Chan>, obs: Vec<Ob>, timers: Vec<Tm>,
    open: Vec<KPromise<u64>>, held: Vec<(usize, Ask<Data, u64>)>, wakers: Vec<Arc<std::sync::Mutex<(bool, Option<Waker>)>>>, notes: Vec<Note>,
    shutting: bool, down: bool, restart: bool, kills_from_system: bool, pts: usize, token: u64, late: Vec<(KFuture<u64>, usize, u64, i64)>, ended_asks: u64, slack: u64, tids: BTreeMap<i32, (u64, u64)>, n_initial: usize,
}
static WORLD: Global<W> = Global::new();
fn w() -> &'static mut W { WORLD.get() }

impl W {
    fn stream(&mut self, src: u32, dst: usize, chan: u32) -> usize {
        if let Some(i) = self.skey.get(&(src, dst, chan)) { return *i; }
        let i = self.streams.len();
        self.streams.push(Stream { src, dst, ..Default::default() });
        self.skey.insert((src, dst, chan), i);
        i
    }
    fn data(&mut self, src: u32, dst: usize, act: i64, x: i64, y: i64) -> Data {
        let s = self.stream(src, dst, 0);
        let q = self.streams[s].sent;
        self.streams[s].sent += 1;
        Data { stream: s as u32, seq: q, act, x, y }
    }
    fn ob(&mut self, comp: usize, what: &'static str) -> usize { self.obs.push(Ob { comp, what, done: 0, due: sim::now(), void: false }); self.obs.len() - 1 }
    fn ob_done(&mut self, i: usize) { let o = &mut self.obs[i]; o.done += 1; let (d, wt, c) = (o.done, o.what, o.comp); ensure!("A07", d <= 1, "future-ran-twice", "{wt} of component {c} finished {d} times"); }
    fn live(&self, i: usize) -> bool { self.c[i].end == End::No && !self.c[i].kill_req && !self.c[i].self_kill }
}
fn st(a: u64, b: u64, c: u64) { sim::state(mix(mix(a, b), c)); }

fn send(src: u32, dst: usize, act: i64, x: i64, y: i64) {
    // a replacement that is still being created has no reference yet: nothing is sent, so nothing is counted
    let Some(r) = still(|| w().c[dst].aref.clone()) else { return };
    let d = w().data(src, dst, act, x, y);
    r.tell(Msg::D(d));
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Msg, Event, Timer, Hook, Fut, BFut }
/// Every piece of component code is bracketed by an `Enter`; the invariants about when code may run are checked here.
struct Enter(usize);
fn enter(ix: usize, k: Kind) -> Enter {
    let ww = w();
    let pts = ww.pts;
    let down = ww.down;
    let c = &mut ww.c[ix];
    c.handled += 1;
    ensure!("A02", !c.inside, "overlapping-execution", "component {ix} entered a {k:?} while already executing");
    ensure!("A02", !c.dropped, "execution-after-drop", "component {ix} executed a {k:?} after it was dropped");
    if k != Kind::BFut { ensure!("A06", !c.blocked, "ran-while-blocked", "component {ix} executed a {k:?} while it was suspended on a blocking future"); }
    if k != Kind::Hook {
        ensure!("L03", c.end == End::No || (k == Kind::BFut && c.hook_blocked == Some(Hook::Kill)), "ran-after-end", "component {ix} executed a {k:?} after it had ended ({:?})", c.end);
        if !(k == Kind::Fut || k == Kind::BFut) { ensure!("L01", c.active, "handler-while-inactive", "component {ix} executed a {k:?} while not started (hooks {:?})", c.hooks); }
    }
    // a component whose start was still under way when the shutdown began is not known to the system yet
    ensure!("L04", !(down && c.acked), "ran-after-shutdown", "component {ix} executed a {k:?} after shutdown had completed");
    let t = sim::tid();
    if c.dedicated {
        if c.tid < 0 { c.tid = t; }
        ensure!("L06", c.tid == t, "dedicated-on-wrong-thread", "dedicated component {ix} executed a {k:?} on thread {t} although its own thread is {}", c.tid);
    }
    let (ded, own) = (c.dedicated, c.tid);
    c.inside = true;
    if !ded { for (j, o) in ww.c.iter().enumerate() { ensure!("L06", !(o.dedicated && o.tid == t), "pool-component-on-dedicated-thread", "component {ix} ran on thread {t}, which belongs to dedicated component {j}"); } }
    let _ = own;
    if pts > 0 { sim::points(pts); }
    Enter(ix)
}
impl Drop for Enter { fn drop(&mut self) { w().c[self.0].inside = false; } }

/// A future of a component: every poll is bracketed by `enter`.
struct Guarded { ix: usize, kind: Kind, f: BoxFuture<'static, HandlerResult>, fin: bool }
impl std::future::Future for Guarded {
    type Output = HandlerResult;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<HandlerResult> {
        let (ix, kind) = (self.ix, self.kind);
        ensure!("A07", !self.fin, "polled-after-completion", "a finished future of component {ix} was polled again");
        let g = enter(ix, kind);
        let r = self.f.as_mut().poll(cx);
        if r.is_ready() {
            self.fin = true;
            if kind == Kind::BFut {
                let nested = matches!(r, Poll::Ready(Ok(Handled::BlockOn(_))));
                let c = &mut w().c[ix];
                if !nested {
                    c.blocked = false;
                    if let Some(h) = c.hook_blocked.take() { hook_finished(ix, h); }
                    if let Poll::Ready(Err(e)) = &r { note_err(ix, e); }
                    if let Poll::Ready(Ok(Handled::Shutdown)) = &r { w().c[ix].end = End::Shut; }
                }
            } else {
                match &r {
                    Poll::Ready(Err(e)) => note_err(ix, e),
                    Poll::Ready(Ok(Handled::BlockOn(_))) => w().c[ix].blocked = true,
                    Poll::Ready(Ok(Handled::Shutdown)) => w().c[ix].end = End::Shut,
                    _ => (),
                }
            }
        }
        drop(g);
        r
    }
}
fn note_err(ix: usize, e: &HandlerError) {
    let c = &mut w().c[ix];
    match e { HandlerError::Benign(_) => (), HandlerError::Recoverable(_) => { c.end = End::Fault; c.faults += 1 } HandlerError::Unrecoverable(_) => { c.end = End::Unrec } }
}
fn guarded(ix: usize, kind: Kind, f: impl std::future::Future<Output = HandlerResult> + Send + 'static) -> Guarded { Guarded { ix, kind, f: Box::pin(f), fin: false } }

/// Pending once, waking itself immediately.
struct YieldN(i64);
impl std::future::Future for YieldN {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 <= 0 { return Poll::Ready(()); }
        self.0 -= 1;
        if self.0 % 3 == 2 { cx.waker().wake_by_ref(); }
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
/// Completes when poked from outside (spurious and stale wake-ups included).
struct Poked(Arc<std::sync::Mutex<(bool, Option<Waker>)>>);
impl std::future::Future for Poked {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut g = self.0.lock().unwrap();
        if g.0 { return Poll::Ready(()); }
        g.1 = Some(cx.waker().clone());
        Poll::Pending
    }
}
fn poke(all: bool, k: usize) {
    let v: Vec<_> = still(|| w().wakers.to_vec());
    for (i, p) in v.iter().enumerate() {
        let wk = { let mut g = p.lock().unwrap(); if all || i % 2 == k % 2 { g.0 = true; } g.1.clone() };
        if let Some(wk) = wk { wk.wake_by_ref(); if (i + k) % 3 == 0 { wk.wake(); } }
    }
}

#[derive(ComponentDefinition)]
pub struct Player { ctx: ComponentContext<Self>, prov: ProvidedPort<PP>, req: RequiredPort<PP>, ix: usize }
impl Drop for Player { fn drop(&mut self) { let i = self.ix; let c = &mut w().c[i]; c.dropped = true; tr!("component {i} dropped");
    ensure!("A02", !c.inside, "dropped-while-executing", "component {i} was dropped while executing"); } }
fn hook_finished(ix: usize, h: Hook) {
    let c = &mut w().c[ix];
    c.done[h as usize] += 1;
}
impl Player {
    fn hook(&mut self, h: Hook) -> HandlerResult {
        let ix = self.ix;
        let _g = enter(ix, Kind::Hook);
        let ww = w();
        let (sysk, shutting) = (ww.kills_from_system, ww.shutting);
        let c = &mut ww.c[ix];
        tr!("component {ix} hook {h:?}");
        st(0x11, ix as u64, h as u64);
        ensure!("L03", !matches!(c.end, End::Killed | End::Unrec | End::Fault), "hook-after-end", "component {ix} ran its {h:?} hook although it had already ended ({:?}); hooks so far {:?}", c.end, c.hooks);
        if c.end == End::Shut { ensure!("L03", h == Hook::Kill && c.hooks.last() != Some(&Hook::Kill), "hook-after-end", "component {ix} ran its {h:?} hook after asking to be shut down; hooks so far {:?}", c.hooks); }
        // the n-th hook must be the n-th request, except for kills the component or the system asked for
        let n = c.hooks.len();
        let ok = c.reqs.get(n) == Some(&h) || (h == Hook::Kill && (c.self_kill || sysk || shutting || c.end == End::Shut));
        ensure!("L01", ok, "wrong-hook", "component {ix} ran hook {h:?} as number {n}, but the requests were {:?} and the hooks {:?}", c.reqs, c.hooks);
        c.hooks.push(h);
        c.begun[h as usize] += 1;
        match h { Hook::Start => { c.active = true; c.started_once = true } Hook::Stop => c.active = false, Hook::Kill => { c.active = false; if c.end == End::No { c.end = End::Killed } } }
        let via_shut = c.end == End::Shut;
        let b = c.hooks_behaviour;
        drop(_g);
        if via_shut { hook_finished(ix, h); return Handled::OK; } // must not block here (documented)
        match (h, b & 7) {
            (_, 1) | (Hook::Stop, 2) | (Hook::Kill, 3) | (Hook::Start, 4) => {
                let c = &mut w().c[ix];
                c.blocked = true; c.hook_blocked = Some(h);
                let n = 1 + (b >> 3) % 3;
                let o = w().ob(ix, "blocking hook");
                let how = if b >> 5 & 7 == 7 { (ix + c.hooks.len()) % 6 } else { 9 };
                let res = move || -> HandlerResult { let e = std::io::Error::other("end of a blocking hook"); match how { 0..=2 => Err(HandlerError::benign(e)), 3 => Err(HandlerError::recoverable(e)), 4 => Err(HandlerError::unrecoverable(e)), 5 => Handled::SHUTDOWN, _ => Handled::OK } };
                let fut: BoxFuture<'static, HandlerResult> = if (b >> 3) % 2 == 0 { Box::pin(async move { YieldN(n).await; w().ob_done(o); res() }) } else {
                    let (p, f) = promise::<u64>();
                    w().open.push(p);
                    Box::pin(async move { let _ = f.await; w().ob_done(o); res() })
                };
                return Handled::block_on(self, move |_| guarded(ix, Kind::BFut, fut));
            }
            (Hook::Start, 5) => { hook_finished(ix, h); self.act(A_ONCE, 3000, 0) }
            (Hook::Start, 6) => { hook_finished(ix, h); self.act(A_FWD, 0, 2) }
            (_, 7) => { hook_finished(ix, h); Err(HandlerError::benign(std::io::Error::other("benign hook error"))) }
            _ => { hook_finished(ix, h); Handled::OK }
        }
    }
    fn block(&mut self, what: &'static str, f: impl std::future::Future<Output = HandlerResult> + Send + 'static) -> HandlerResult {
        let ix = self.ix;
        let o = w().ob(ix, what);
        w().c[ix].blocked = true;
        Handled::block_on(self, move |_| guarded(ix, Kind::BFut, async move { let r = f.await; w().ob_done(o); r }))
    }
    fn spawn(&mut self, what: &'static str, f: impl std::future::Future<Output = HandlerResult> + Send + 'static) {
        let ix = self.ix;
        let o = w().ob(ix, what);
        self.spawn_local(move |_| guarded(ix, Kind::Fut, async move { let r = f.await; w().ob_done(o); r }));
    }
    fn err(&mut self, e: HandlerError) -> HandlerResult { note_err(self.ix, &e); Err(e) }
    fn fired(&mut self, t: usize) -> HandlerResult {
        let ix = self.ix;
        let _g = enter(ix, Kind::Timer);
        let now = sim::now();
        let tm = &mut w().timers[t];
        tm.fired += 1;
        if tm.fired < 30 { tr!("component {ix} timer {t} fired #{}", tm.fired); }
        st(0x22, t as u64, tm.fired);
        ensure!("T01", tm.period > 0 || tm.fired == 1, "one-shot-fired-twice", "one-shot timer {t} of component {ix} fired {} times", tm.fired);
        let due = if tm.period == 0 { tm.due } else { tm.due + (tm.fired - 1) * tm.period };
        let id = if tm.period == 0 { "T01" } else { "T02" };
        // the timer thread counts in milliseconds from its own last look at the clock, so it may be early by as much as it lags
        let slack = w().slack;
        ensure!(id, now + slack >= due, "timer-early", "timer {t} of component {ix} (period {} us) fired #{} at {} us but was due at {} us", tm.period / 1000, tm.fired, now / 1000, due / 1000);
        ensure!("T03", !tm.cancelled, "fired-after-cancel", "timer {t} of component {ix} fired after the component had cancelled it");
        Handled::OK
    }
    fn act(&mut self, act: i64, x: i64, y: i64) -> HandlerResult {
        let ix = self.ix;
        let n = w().c.len();
        let pick = move |x: i64| (x.unsigned_abs() as usize) % n;
        match act {
            A_FWD => { for k in 0..(1 + y.rem_euclid(4)) { send(ix as u32, pick(x + k), A_NOP, 0, 0); } }
            A_SELF => { for _ in 0..x.clamp(1, 60) { send(ix as u32, ix, A_NOP, 0, 0); } }
            A_BLOCK_P => { let (p, f) = promise::<u64>(); w().open.push(p); return self.block("blocking future on a promise", async move { let _ = f.await; Handled::OK }); }
            A_BLOCK_Y => { return self.block("blocking future that yields", async move { YieldN(x).await; Handled::OK }); }
            A_NEST => {
                let (p, f) = promise::<u64>();
                w().open.push(p);
                let o = w().ob(ix, "blocking future that blocks again");
                let o2 = w().ob(ix, "nested blocking future");
                w().c[ix].blocked = true;
                let want_promise = y % 2 == 0;
                return Handled::block_on(self, move |mut me| guarded(ix, Kind::BFut, async move {
                    YieldN(x).await;
                    w().ob_done(o);
                    Handled::block_on(&mut *me, move |_| guarded(ix, Kind::BFut, async move { if want_promise { let _ = f.await; } else { YieldN(2).await; } w().ob_done(o2); Handled::OK }))
                }));
            }
            A_FUT_ERR => {
                return self.block("blocking future ending in an error", async move {
                    YieldN(1).await;
                    let e = std::io::Error::other("injected");
                    match x { 0 => Err(HandlerError::benign(e)), 1 => Err(HandlerError::recoverable(e)), 2 => Err(HandlerError::unrecoverable(e)),
                        3 => { let c = &mut w().c[ix]; c.end = End::Fault; c.faults += 1; c.blocked = false; panic!("INJ fault in a blocking future") } _ => Handled::SHUTDOWN }
                });
            }
            A_SPAWN_P => { let (p, f) = promise::<u64>(); w().open.push(p); self.spawn("local future on a promise", async move { let _ = f.await; YieldN(1).await; send(ix as u32, pick(x), A_NOP, 0, 0); Handled::OK }); }
            A_SPAWN_B => {
                let (p, f) = promise::<u64>();
                w().open.push(p);
                let (o, o2) = (w().ob(ix, "local future"), w().ob(ix, "blocking future of a local future"));
                self.spawn_local(move |mut me| guarded(ix, Kind::Fut, async move {
                    YieldN(x).await;
                    w().ob_done(o);
                    Handled::block_on(&mut *me, move |_| guarded(ix, Kind::BFut, async move { if y % 2 == 0 { let _ = f.await; } else { YieldN(2).await; } w().ob_done(o2); Handled::OK }))
                }));
            }
            A_SPAWN_E => { let o = w().ob(ix, "local future ending in an error"); self.spawn_local(move |_| guarded(ix, Kind::Fut, async move { YieldN(1).await; w().ob_done(o);
                    let e = std::io::Error::other("injected");
                    match x { 0 => Err(HandlerError::benign(e)), 1 => Err(HandlerError::recoverable(e)), 2 => Err(HandlerError::unrecoverable(e)),
                        3 => { let c = &mut w().c[ix]; c.end = End::Fault; c.faults += 1; panic!("INJ fault in a local future") } _ => Handled::SHUTDOWN } })); }
            A_SPAWN_Y => { self.spawn("local future that yields", async move { YieldN(x).await; Handled::OK }); }
            A_WAKER | A_BLOCK_W => {
                let p = Arc::new(std::sync::Mutex::new((false, None)));
                w().wakers.push(p.clone());
                if act == A_WAKER { self.spawn("local future on a waker", async move { Poked(p).await; Handled::OK }); }
                else { return self.block("blocking future on a waker", async move { Poked(p).await; Handled::OK }); }
            }
            A_OFF | A_ASK_OFF => {
                let h = self.spawn_off(async move { YieldN(x).await; sim::points(2); 41u64 + x as u64 });
                let f = async move { let v = h.await; ensure!("A07", v == Ok(41 + x as u64), "task-result", "a spawned task returned {v:?}"); Handled::OK };
                if act == A_OFF { self.spawn("local future on a spawned task", f); } else { return self.block("blocking future on a spawned task", f); }
            }
            A_TRIG_I => { let c = &mut w().c[ix]; let e = Ev { src: ix as u32, n: c.trig_i, direct: None, act: A_NOP }; c.trig_i += 1; self.prov.trigger(e); }
            A_TRIG_R => { let c = &mut w().c[ix]; let e = Ev { src: ix as u32, n: c.trig_r, direct: None, act: A_NOP }; c.trig_r += 1; self.req.trigger(e); }
            A_BENIGN => return self.err(HandlerError::benign(std::io::Error::other("injected"))),
            A_RECOV => return self.err(HandlerError::recoverable(std::io::Error::other("injected"))),
            A_UNREC => return self.err(HandlerError::unrecoverable(std::io::Error::other("injected"))),
            A_PANIC => { let c = &mut w().c[ix]; c.end = End::Fault; c.faults += 1; panic!("INJ fault"); }
            A_SHUT => { w().c[ix].end = End::Shut; return Handled::SHUTDOWN; }
            A_SUICIDE => { w().c[ix].self_kill = true; self.ctx.suicide(); }
            A_ONCE | A_PERIODIC | A_CANCEL_NEW => {
                let t = w().timers.len();
                let now = sim::now();
                let d = (x.max(0) as u64) * 1000;
                let p = if act == A_PERIODIC { (y.max(1000) as u64) * 1000 } else { 0 };
                w().timers.push(Tm { comp: ix, at: now, due: now + d, period: p, fired: 0, cancelled: false, ext: false, handle: None });
                let h = if p == 0 { self.schedule_once(Duration::from_nanos(d), move |s, _| s.fired(t)) } else { self.schedule_periodic(Duration::from_nanos(d), Duration::from_nanos(p), move |s, _| s.fired(t)) };
                tr!("component {ix} scheduled timer {t} delay {} us period {} us", d / 1000, p / 1000);
                w().timers[t].handle = Some(h);
                if act == A_CANCEL_NEW { send(ix as u32, ix, A_CANCEL, t as i64, 77); }
            }
            A_CANCEL => {
                let own: Vec<usize> = (0..w().timers.len()).filter(|t| w().timers[*t].comp == ix && !w().timers[*t].cancelled).collect();
                let t = if y == 77 { Some(x as usize).filter(|t| w().timers.get(*t).is_some_and(|t| t.comp == ix)) } else if own.is_empty() { None } else { Some(own[x.unsigned_abs() as usize % own.len()]) };
                if let Some(t) = t { if let Some(h) = w().timers[t].handle.clone() { self.cancel_timer(h); w().timers[t].cancelled = true; tr!("component {ix} cancelled timer {t}"); } }
            }
            A_ASK_B | A_ASK_S => {
                let t = if act == A_ASK_B { if ix + 1 >= w().n_initial { return Handled::OK; } ix + 1 + (x.unsigned_abs() as usize) % (w().n_initial - ix - 1) } else { pick(x) };
                // suspending on a component that nobody has started would be the workload's own deadlock
                if act == A_ASK_B && !w().c[t].reqs.contains(&Hook::Start) { return Handled::OK; }
                if let Some(r) = still(|| w().c[t].aref.clone()) {
                    let (tok, f) = ask(&r, ix as u32, t, y);
                    let body = async move { let r = f.await; ask_result(t, tok, y, r.is_ok(), r.unwrap_or(0)); Handled::OK };
                    if act == A_ASK_B { return self.block("blocking ask", body); } else { self.spawn("local ask", body); }
                }
            }
            _ => (),
        }
        Handled::OK
    }
    fn event(&mut self, e: Ev, indication: bool) -> HandlerResult {
        let ix = self.ix;
        let g = enter(ix, Kind::Event);
        let ww = w();
        tr!("component {ix} event from {} #{} direct {:?}", e.src, e.n, e.direct);
        st(0x33 + indication as u64, ix as u64, mix(e.src as u64, e.n as u64));
        match e.direct {
            Some((s, q)) => check_stream(s, q, "A04"),
            None => {
                let src = e.src as usize;
                let m: Vec<usize> = (0..ww.chans.len()).filter(|k| { let c = &ww.chans[*k]; if indication { c.p == src && c.r == ix } else { c.r == src && c.p == ix } }).collect();
                // the channel whose possible interval contains this event
                let hit = m.iter().copied().find(|k| { let c = &ww.chans[*k]; let (f, t) = if indication { (c.ind.1, c.ind_end.1) } else { (c.req.1, c.req_end.1) }; e.n >= f && e.n < t });
                match hit {
                    None => ensure!("A04", false, "event-without-channel", "component {ix} received {} #{} of component {src} although no channel connected them then", if indication { "indication" } else { "request" }, e.n),
                    Some(k) => {
                        let c = &mut ww.chans[k];
                        let (last, got, must, f, t) = if indication { (&mut c.ind_last, &mut c.ind_got, &mut c.ind_must, c.ind.0, c.ind_end.0) } else { (&mut c.req_last, &mut c.req_got, &mut c.req_must, c.req.0, c.req_end.0) };
                        ensure!("A04", e.n + 1 > *last, "event-order", "component {ix} received event #{} of component {src} after event #{}", e.n, last.wrapping_sub(1));
                        *last = e.n + 1;
                        *got += 1;
                        if e.n >= f && e.n < t { *must += 1; }
                    }
                }
            }
        }
        let _g = g;
        self.act(e.act, 1, 1)
    }
}
fn check_stream(s: u32, q: u32, prop: &str) {
    let x = &mut w().streams[s as usize];
    let (exp, dst, src) = (x.recv, x.dst, x.src);
    ensure!(prop, q >= exp, "duplicate-delivery", "component {dst} received message {q} of sender {src} again (expected {exp})");
    ensure!(prop, q <= exp, "lost-or-reordered", "component {dst} received message {q} of sender {src} but {exp} had not arrived");
    if q == exp { x.recv += 1; }
}
fn ask(r: &ActorRef<Msg>, src: u32, t: usize, mode: i64) -> (u64, KFuture<u64>) {
    w().token += 1;
    let tok = w().token;
    let s = w().stream(src, t, 0);
    let q = w().streams[s].sent;
    w().streams[s].sent += 1;
    let d = Data { stream: s as u32, seq: q, act: mode, x: tok as i64, y: 0 };
    (tok, r.ask_with(|p| Msg::Q(Ask::new(p, d))))
}
fn ask_result(t: usize, tok: u64, mode: i64, ok: bool, v: u64) {
    w().ended_asks += 1;
    st(0x44, t as u64, ok as u64);
    if ok { ensure!("A05", v == tok * 7 + 1, "wrong-answer", "ask {tok} to component {t} was answered with {v} (an answer to another ask)");
        ensure!("A05", mode != 2, "answer-without-reply", "ask {tok} was answered although the receiver dropped it"); }
    else { let c = &w().c[t]; ensure!("A05", mode == 2 || c.end != End::No || c.kill_req || c.self_kill || w().shutting, "ask-lost", "ask {tok} to component {t} failed although the component never dropped it and is alive"); }
}
impl Actor for Player {
    type Message = Msg;
    fn receive_local(&mut self, m: Msg) -> HandlerResult {
        let ix = self.ix;
        let g = enter(ix, Kind::Msg);
        match m {
            Msg::D(d) => {
                tr!("component {ix} message {} of stream {} (from {}) act {}", d.seq, d.stream, w().streams[d.stream as usize].src, d.act);
                st(0x55, d.stream as u64, d.seq as u64);
                let dst = w().streams[d.stream as usize].dst;
                ensure!("A01", dst == ix, "misdelivery", "component {ix} received a message that was sent to component {dst}");
                check_stream(d.stream, d.seq, "A01");
                let _g = g;
                self.act(d.act, d.x, d.y)
            }
            Msg::Q(a) => {
                let (s, q, mode, tok) = { let d = a.request(); (d.stream, d.seq, d.act, d.x as u64) };
                st(0x66, s as u64, q as u64);
                tr!("component {ix} ask {tok} mode {mode}");
                check_stream(s, q, "A01");
                let _g = g;
                match mode {
                    1 => { w().held.push((ix, a)); }
                    2 => drop(a),
                    3 => { return self.block("complete_with", async move { let _ = a.complete_with(|d| async move { YieldN(2).await; d.x as u64 * 7 + 1 }).await; Handled::OK }); }
                    4 => { self.spawn("late reply", async move { YieldN(2).await; let t = a.request().x as u64; let _ = a.reply(t * 7 + 1); Handled::OK }); }
                    _ => { let _ = a.complete(|d| d.x as u64 * 7 + 1); }
                }
                Handled::OK
            }
        }
    }
    fn receive_network(&mut self, _m: NetMessage) -> HandlerResult { Handled::OK }
}
impl ComponentLifecycle for Player {
    fn on_start(&mut self) -> HandlerResult { self.hook(Hook::Start) }
    fn on_stop(&mut self) -> HandlerResult { self.hook(Hook::Stop) }
    fn on_kill(&mut self) -> HandlerResult { self.hook(Hook::Kill) }
}
impl Provide<PP> for Player { fn handle(&mut self, e: Ev) -> HandlerResult { self.event(e, false) } }
impl Require<PP> for Player { fn handle(&mut self, e: Ev) -> HandlerResult { self.event(e, true) } }

fn new_player(ix: usize) -> Player { Player { ctx: ComponentContext::uninitialised(), prov: ProvidedPort::uninitialised(), req: RequiredPort::uninitialised(), ix } }
fn new_c(dedicated: bool, hooks: i64) -> usize {
    w().c.push(C { comp: None, aref: None, preq: None, rreq: None, inside: false, blocked: false, active: false, end: End::No, dropped: false, dedicated, tid: -1, started_once: false, hooks_behaviour: hooks,
        reqs: vec![], hooks: vec![], done: [0; 3], begun: [0; 3], self_kill: false, faults: 0, rec_fn: 0, rec_act: 0, trig_i: 0, trig_r: 0, kill_req: false, hook_blocked: None, handled: 0, unack: [0; 3], acked: false, weak: std::sync::Weak::new() });
    w().c.len() - 1
}
fn setup_c(ix: usize, comp: Arc<Component<Player>>) {
    comp.set_recovery_function(move |ctx| {
        w().c[ix].rec_fn += 1;
        tr!("recovery function of component {ix}");
        ctx.recover_with(move |_, sys, _| {
            w().c[ix].rec_act += 1;
            st(0x77, ix as u64, w().c[ix].rec_act as u64);
            tr!("recovery action of component {ix}");
            if w().restart && w().c.len() < 24 {
                let j = new_c(false, 0);
                let c = sys.create(move || new_player(j));
                setup_c(j, c.clone());
                w().c[j].reqs.push(Hook::Start);
                sys.start(&c);
            }
        })
    });
    let (p, r) = comp.on_definition(|d| (d.prov.share(), d.req.share()));
    let c = &mut w().c[ix];
    c.aref = Some(comp.actor_ref());
    c.preq = Some(p); c.rreq = Some(r);
    c.weak = Arc::downgrade(&comp);
    c.comp = Some(comp);
}

#[cfg(feature = "logs")]
struct Show;
#[cfg(feature = "logs")]
impl slog::Drain for Show {
    type Ok = (); type Err = slog::Never;
    fn log(&self, r: &slog::Record, _: &slog::OwnedKVList) -> Result<(), slog::Never> {
        let t = format!("[{:>9}us] {}:{} {}\n", sim::now() / 1000, r.file().rsplit('/').next().unwrap_or(""), r.line(), r.msg());
        unsafe { let mut _r: i64 = 1; std::arch::asm!("syscall", inlateout("rax") _r, in("rdi") 2, in("rsi") t.as_ptr(), in("rdx") t.len(), out("rcx") _, out("r11") _); }
        Ok(())
    }
}
#[cfg(feature = "logs")]
pub fn logger() -> kompact::KompactLogger { Logger::root_typed(Arc::new(slog_async::Async::new(Show.fuse()).chan_size(4096).build().fuse()), o!()) }
#[cfg(not(feature = "logs"))]
pub fn logger() -> kompact::KompactLogger { Logger::root_typed(Arc::new(slog_async::Async::new(slog::Discard.fuse()).build().fuse()), o!()) }

pub fn config(plan: &Plan) -> KompactConfig {
    use kompact::config_keys::system as keys;
    let mut conf = KompactConfig::default();
    conf.logger(logger());
    conf.set_config_value(&keys::LABEL, "sim".to_string());
    conf.set_config_value(&keys::THREADS, plan.get("threads").max(1) as usize);
    conf.set_config_value(&keys::THROUGHPUT, plan.get("throughput").max(1) as usize);
    conf.set_config_value(&keys::MESSAGE_PRIORITY, (plan.get("prio").clamp(1, 99) as f32) / 100.0);
    conf.set_config_value(&keys::SCHEDULER, ["auto", "small", "large", "dynamic"][(plan.get("sched") & 3) as usize].to_string());
    conf
}

fn try_connect(p: usize, r: usize) {
    let (cp, cr) = match (still(|| w().c[p].comp.clone()), still(|| w().c[r].comp.clone())) { (Some(a), Some(b)) => (a, b), _ => return };
    if p == r || w().chans.iter().any(|c| c.p == p && c.r == r && (c.open || c.ch.is_some())) { return; }
    let k = w().chans.len();
    let (i0, r0) = (w().c[p].trig_i, w().c[r].trig_r);
    // open before the call: events may flow before it returns
    w().chans.push(Chan { ch: None, p, r, ind: (u32::MAX, i0), req: (u32::MAX, r0), ind_end: (u32::MAX, u32::MAX), req_end: (u32::MAX, u32::MAX), ind_last: 0, req_last: 0, ind_got: 0, req_got: 0, ind_must: 0, req_must: 0, open: true });
    for _ in 0..50 {
        match biconnect_components::<PP, _, _>(&cp, &cr) {
            Ok(ch) => { let c = &mut w().chans[k]; c.ch = Some(ch); c.ind.0 = w().c[p].trig_i; c.req.0 = w().c[r].trig_r; tr!("connected provider {p} requirer {r} as channel {k}"); st(0x88, p as u64, r as u64); return; }
            Err(TryDualLockError::LeftWouldBlock | TryDualLockError::RightWouldBlock) => sleep_ns(30_000),
            Err(_) => break,
        }
    }
    let c = &mut w().chans[k];
    c.open = false; c.ind_end = (0, 0); c.req_end = (0, 0); c.ind.1 = u32::MAX; c.req.1 = u32::MAX;
}
fn try_disconnect(k: usize) {
    let n = w().chans.len();
    if n == 0 { return; }
    let k = k % n;
    let Some(mut ch) = w().chans[k].ch.take() else { return };
    let (p, r) = (w().chans[k].p, w().chans[k].r);
    { let (a, b) = (w().c[p].trig_i, w().c[r].trig_r); let c = &mut w().chans[k]; c.ind_end.0 = a; c.req_end.0 = b; }
    for _ in 0..50 {
        match ch.disconnect() {
            Ok(()) => { let (a, b) = (w().c[p].trig_i, w().c[r].trig_r); let c = &mut w().chans[k]; c.ind_end.1 = a; c.req_end.1 = b; c.open = false; tr!("disconnected channel {k} (provider {p} requirer {r})"); st(0x99, p as u64, r as u64); return; }
            Err(e) => { ch = e.channel; if !matches!(e.error, kompact::prelude::TryLockError::WouldBlock) { return; } sleep_ns(30_000); }
        }
    }
    // still (half) connected: nothing certain any more
}

fn ctrl(ix: usize, h: Hook, notify: i64) {
    if w().shutting { return; }
    let Some(sys) = still(|| w().sys.clone()) else { return };
    let Some(comp) = still(|| w().c[ix].comp.clone()) else { return };
    let base = w().c[ix].done[h as usize];
    // the supervisor matches notifications by component and kind only: an earlier request of the same kind that nobody
    // waited for may be what completes this one
    let strict = w().c[ix].unack[h as usize] == 0;
    w().c[ix].unack[h as usize] += 1;
    w().c[ix].reqs.push(h);
    tr!("request {h:?} for component {ix} notify {notify}");
    let f = match (h, notify > 0) {
        (Hook::Start, false) => { sys.start(&comp); None }
        (Hook::Start, true) => Some(sys.start_notify(&comp)),
        (Hook::Stop, false) => { sys.stop(&comp); None }
        (Hook::Stop, true) => Some(sys.stop_notify(&comp)),
        (Hook::Kill, n) => { w().c[ix].kill_req = true; drop(w().c[ix].comp.take()); if n { Some(sys.kill_notify(comp)) } else { sys.kill(comp); None } }
    };
    let void = w().c[ix].end != End::No; // it may have ended before the request was registered: nothing is promised then
    if let Some(f) = f {
        if notify > 1 {
            // wait for it here: the strict form, since the next request of this component only comes afterwards
            match block_until(Duration::from_millis(notify as u64), f) {
                Ok(Ok(())) => { note_done(ix, h, base, strict); if strict { w().c[ix].unack[h as usize] = 0; } }
                Ok(Err(_)) => note_dropped(ix, h),
                Err(f) => w().notes.push(Note { f, comp: ix, hook: h, base, strict, void }),
            }
        } else { w().notes.push(Note { f, comp: ix, hook: h, base, strict, void }); }
    }
}

fn note_done(ix: usize, h: Hook, base: u32, strict: bool) {
    // (a component ends only once, perhaps while the request is being made)
    let base = if strict && h != Hook::Kill { base } else { 0 };
    if h == Hook::Start { w().c[ix].acked = true; }
    let c = &w().c[ix];
    st(0xaa, ix as u64, h as u64);
    ensure!("L02", c.done[h as usize] > base || (h == Hook::Kill && matches!(c.end, End::Shut | End::Unrec)), "notified-early", "the future of the {h:?} request for component {ix} completed before the hook had finished (finished {} begun {})", c.done[h as usize], c.begun[h as usize]);
}
fn note_dropped(ix: usize, h: Hook) {
    let c = &w().c[ix];
    let dead = (c.end != End::No && !(h == Hook::Kill && c.end == End::Killed)) || w().shutting;
    ensure!("L02", dead, "notify-dropped", "the future of the {h:?} request for component {ix} was dropped although the component did what it was asked");
}

fn driver_op(o: &Op, th: u32) {
    let src = 1000 + th;
    let n = w().n_initial;
    let t = (o.a[1].unsigned_abs() as usize) % n;
    match o.k {
        O_SEND => send(src, t, o.a[2], o.a[3], o.a[4]),
        O_BURST => { for i in 0..o.a[2].clamp(1, 80) { send(src, t, if i % 3 == 0 { o.a[3] } else { A_NOP }, o.a[4], 1); } }
        O_ASK => {
            if let Some(r) = still(|| w().c[t].aref.clone()) {
                let (tok, f) = ask(&r, src, t, o.a[2]);
                let t0 = sim::now();
                let to = o.a[3].max(0) as u64 * 1000;
                match block_until(Duration::from_nanos(to), f) {
                    Ok(r) => ask_result(t, tok, o.a[2], r.is_ok(), r.unwrap_or(0)),
                    Err(f) => { let dt = sim::now() - t0; ensure!("A05", dt >= to, "timeout-early", "waiting {} us for an answer timed out after {} us", to / 1000, dt / 1000); w().late.push((f, t, tok, o.a[2])); }
                }
            }
        }
        O_START => ctrl(t, Hook::Start, o.a[2]),
        O_STOP => ctrl(t, Hook::Stop, o.a[2]),
        O_KILL => ctrl(t, Hook::Kill, o.a[2]),
        O_COMPLETE => { let n = w().open.len(); if n > 0 { let p = w().open.swap_remove(o.a[1].unsigned_abs() as usize % n); let _ = p.fulfil(7); } }
        O_POKE => poke(false, o.a[1].unsigned_abs() as usize),
        O_SLEEP => sleep_ns(o.a[1].max(1) as u64 * 1000),
        O_ONDEF => { if let Some(c) = still(|| w().c[t].comp.clone()) { c.on_definition(|d| { let ix = d.ix; let c = &mut w().c[ix];
            ensure!("A02", !c.inside, "overlapping-execution", "the definition of component {ix} was locked from outside while it was executing");
            c.inside = true; sim::points(o.a[2].clamp(1, 30) as usize); w().c[ix].inside = false; }) } }
        O_DISC => try_disconnect(o.a[1].unsigned_abs() as usize),
        O_CONN => try_connect(t, (o.a[2].unsigned_abs() as usize) % n),
        O_TRIG => {
            if w().shutting { return; }
            let Some(sys) = still(|| w().sys.clone()) else { return };
            let s = w().stream(src, t, 1 + (o.a[2] as u32 & 1));
            let q = w().streams[s].sent;
            w().streams[s].sent += 1;
            let e = Ev { src, n: q, direct: Some((s as u32, q)), act: o.a[3] };
            if o.a[2] & 1 == 0 { if let Some(p) = still(|| w().c[t].preq.clone()) { sys.trigger_r(e, &p); } } else if let Some(p) = still(|| w().c[t].rreq.clone()) { sys.trigger_i(e, &p); }
        }
        O_REPLY => reply_held(o.a[1].unsigned_abs() as usize),
        O_CANCEL_EXT => { if w().shutting { return; } let n = w().timers.len(); if n > 0 { let k = o.a[1].unsigned_abs() as usize % n; if let (Some(h), Some(s)) = (w().timers[k].handle.clone(), still(|| w().sys.clone())) { w().timers[k].ext = true; s.cancel_timer(h); } } }
        _ => (),
    }
}
fn reply_held(k: usize) {
    let n = w().held.len();
    if n == 0 { return; }
    let (_, a) = w().held.swap_remove(k % n);
    let t = a.request().x as u64;
    let _ = a.reply(t * 7 + 1);
}

static mut INFLIGHT: u32 = 0;

/// What still has to happen in a live component; empty when the system is settled.
fn unsettled() -> Vec<(&'static str, &'static str, String)> {
    let mut v = vec![];
    let ww = w();
    for (i, c) in ww.c.iter().enumerate() {
        if !ww.live(i) { continue; }
        if c.hooks.len() < c.reqs.len() { v.push(("L01", "hook-never-ran", format!("component {i}: requests {:?} hooks {:?}", c.reqs, c.hooks))); continue; }
        if c.blocked { v.push(("A06", "blocked-forever", format!("component {i} is still suspended although everything its blocking future waits for has completed"))); continue; }
        if !c.active { continue; }
        for (k, s) in ww.streams.iter().enumerate() { if s.dst == i && s.recv != s.sent { v.push(("A03", "undelivered", format!("component {i} is running and has received {} of {} messages of stream {k} from sender {}", s.recv, s.sent, s.src))); } }
    }
    for (k, c) in ww.chans.iter().enumerate() {
        for ind in [true, false] {
            let (src, dst) = if ind { (c.p, c.r) } else { (c.r, c.p) };
            if !ww.live(dst) || !ww.c[dst].active { continue; }
            let (f, t, got, sent) = if ind { (c.ind.0, c.ind_end.0, c.ind_must, ww.c[src].trig_i) } else { (c.req.0, c.req_end.0, c.req_must, ww.c[src].trig_r) };
            if f == u32::MAX { continue; }
            let want = t.min(sent).saturating_sub(f);
            if got != want { v.push(("A04", "event-lost", format!("channel {k}: component {dst} received {got} of the {want} events component {src} triggered while they were connected"))); }
        }
    }
    for o in &ww.obs { if ww.live(o.comp) && !o.void && o.done == 0 { v.push((if o.what.contains("block") { "A06" } else { "A07" }, "future-never-finished", format!("{} of component {} never finished", o.what, o.comp))); } }
    for (k, t) in ww.timers.iter().enumerate() {
        if !ww.live(t.comp) || t.cancelled || t.ext || !ww.c[t.comp].active { continue; }
        if t.period == 0 { if t.fired == 0 { v.push(("T01", "one-shot-never-fired", format!("one-shot timer {k} of component {} was due at {} us", t.comp, t.due / 1000))); } }
        else if sim::step() < 390_000 && sim::now() > t.due + 60 * MS && t.fired == 0 { v.push(("T02", "periodic-never-fired", format!("periodic timer {k} of component {} first due at {} us", t.comp, t.due / 1000))); }
    }
    for x in &ww.notes { if x.void { continue; } if x.hook == Hook::Kill { if ww.c[x.comp].end == End::No || (ww.c[x.comp].end == End::Killed && ww.c[x.comp].done[2] == 0) { v.push(("L02", "notify-pending", format!("component {} is still being killed", x.comp))); } else { v.push(("L02", "notify-never-completed", format!("the future of the Kill request for component {} is still pending although the component has ended ({:?})", x.comp, ww.c[x.comp].end))); } }
        else if !ww.live(x.comp) { let c = &ww.c[x.comp]; if c.hook_blocked.is_none() && !c.blocked { v.push(("L02", "notify-never-failed", format!("the future of the {:?} request for component {}, made before it ended ({:?}), is still pending", x.hook, x.comp, c.end))); } }
        else { v.push(("L02", "notify-never-completed", format!("the future of the {:?} request for component {} never completed", x.hook, x.comp))); } }
    for l in &ww.late { if ww.live(l.1) { v.push(("A05", "ask-never-answered", format!("ask {} to component {} never completed although it is alive and replies to everything", l.2, l.1))); }
        else { v.push(("A05", "ask-hangs-after-death", format!("ask {} to component {}, which has ended ({:?}), neither completed nor failed", l.2, l.1, ww.c[l.1].end))); } }
    for (i, c) in ww.c.iter().enumerate() {
        if c.end == End::Killed && c.done[2] == 0 && !c.blocked && c.hook_blocked.is_none() { v.push(("L03", "kill-unfinished", format!("component {i}"))); }
        if c.kill_req && c.end == End::No { v.push(("L03", "kill-ignored", format!("component {i} was asked to be killed (requests {:?}, hooks {:?}) and never was", c.reqs, c.hooks))); }
        if c.self_kill && c.end == End::No { v.push(("L03", "suicide-ignored", format!("component {i} never ran its kill hook after asking for it"))); }
        if c.end == End::Shut && c.begun[2] == 0 { v.push(("L03", "shutdown-result-ignored", format!("component {i} asked to be shut down and its kill hook never ran"))); }
        if matches!(c.end, End::Killed | End::Shut | End::Unrec) && !c.dropped && c.comp.is_none() && c.hook_blocked.is_none() { v.push(("L03", "never-deallocated", format!("component {i} has ended ({:?}) and nobody references it, but it was never deallocated", c.end))); }
        if c.end == End::Fault { if c.rec_fn != 1 || c.rec_act != 1 { v.push(("L05", "recovery-missing", format!("component {i} faulted {} times; recovery chosen {} times and run {} times", c.faults, c.rec_fn, c.rec_act))); } }
        else { ensure!("L05", c.rec_fn == 0 && c.rec_act == 0, "recovery-without-fault", "component {i} never reported a recoverable fault (ended {:?}) but its recovery ran", c.end); }
        ensure!("L05", c.rec_fn <= 1 && c.rec_act <= 1, "recovered-twice", "component {i}: recovery chosen {} times and run {} times", c.rec_fn, c.rec_act);
    }
    v
}
fn pump() {
    if w().shutting { for i in 0..w().c.len() { if w().c[i].end != End::No { drop(w().c[i].comp.take()); } } }
    loop { let Some(p) = w().open.pop() else { break }; let _ = p.fulfil(7); }
    while !w().held.is_empty() { reply_held(0); }
    for p in std::mem::take(&mut w().wakers) { let wk = { let mut g = p.lock().unwrap(); g.0 = true; g.1.take() }; if let Some(wk) = wk { wk.wake(); } }
    // notes and late answers that are ready by now
    let mut i = 0;
    while i < w().notes.len() {
        let n = w().notes.remove(i);
        match block_until(Duration::from_nanos(0), n.f) {
            Ok(Ok(())) => note_done(n.comp, n.hook, n.base, n.strict),
            Ok(Err(_)) => note_dropped(n.comp, n.hook),
            Err(f) => { w().notes.insert(i, Note { f, comp: n.comp, hook: n.hook, base: n.base, strict: n.strict, void: n.void }); i += 1; }
        }
    }
    let mut i = 0;
    while i < w().late.len() {
        let (f, t, tok, m) = w().late.remove(i);
        match block_until(Duration::from_nanos(0), f) {
            Ok(r) => ask_result(t, tok, m, r.is_ok(), r.unwrap_or(0)),
            Err(f) => { w().late.insert(i, (f, t, tok, m)); i += 1; }
        }
    }
}

pub fn run(plan: &Plan) {
    let n = plan.get("comps").max(1) as usize;
    let threads = plan.get("drivers").clamp(1, 4) as u32;
    // vectors never reallocate: references into them may live across scheduling points
    WORLD.init(W { sys: None, c: Vec::with_capacity(64), streams: Vec::with_capacity(4096), skey: BTreeMap::new(), chans: Vec::with_capacity(1024), obs: Vec::with_capacity(8192), timers: Vec::with_capacity(4096), open: vec![], held: vec![], wakers: vec![], notes: vec![], shutting: false, down: false,
        restart: plan.get("restart") != 0, kills_from_system: false, pts: plan.get("points") as usize, token: 0, late: vec![], ended_asks: 0, slack: plan.get("slack_us") as u64 * 1000, tids: BTreeMap::new(), n_initial: n });
    let sys = config(plan).build().wait().expect("system");
    w().sys = Some(sys.clone());
    let (ded, start, hooks) = (plan.get("dedicated"), plan.get("start"), plan.get("hooks"));
    for i in 0..n {
        let d = ded >> i & 1 == 1;
        let hb = if hooks == 0 { 0 } else { (mix(hooks as u64, i as u64) & 255) as i64 };
        let ix = new_c(d, hb);
        let c = if d { sys.create_dedicated(move || new_player(ix)) } else { sys.create(move || new_player(ix)) };
        setup_c(ix, c);
    }
    let cb = plan.get("chans") as u64;
    for k in 0..plan.get("nchans") { try_connect((mix(cb, k as u64) % n as u64) as usize, (mix(cb, 1000 + k as u64) % n as u64) as usize); }
    for i in 0..n { if start >> i & 1 == 1 { ctrl(i, Hook::Start, plan.get("ackstart") * 50); } }
    let mut hs = vec![];
    for t in 0..threads {
        let ops: Vec<Op> = plan.ops.iter().filter(|o| match o.k { O_START | O_STOP | O_KILL => o.a[1].unsigned_abs() as usize % n % threads as usize == t as usize, _ => o.a[0].unsigned_abs() % threads as u64 == t as u64 }).cloned().collect();
        hs.push(std::thread::Builder::new().name(format!("driver-{t}")).spawn(move || { for o in ops {
            unsafe { INFLIGHT += 1 } driver_op(&o, t); unsafe { INFLIGHT -= 1 } } }).unwrap());
    }
    let early = plan.get("early_shutdown");
    if early > 0 {
        sleep_ns(early as u64 * 1000);
        w().shutting = true;
        while unsafe { INFLIGHT } > 0 { sleep_ns(20_000); }
        // drivers go on sending messages and events
    } else {
        for h in hs { h.join().unwrap(); }
        tr!("end phase");
        sim::quiet();
        let t0 = sim::now();
        let end = t0 + 20 * SEC;
        let mut gap = 50_000;
        loop {
            pump();
            // many periodic timers are an overload under which messages may legitimately starve
            if !on("T02") || sim::now() > t0 + 100 * MS { cancel_periodic(); }
            for i in 0..w().c.len() { if w().live(i) && plan.get("startall") != 0 && i < n && !w().c[i].active && w().c[i].hooks.len() == w().c[i].reqs.len() && !w().c[i].blocked { ctrl(i, Hook::Start, 0); } }
            for i in 0..w().c.len() { if w().c[i].end != End::No { drop(w().c[i].comp.take()); } }
            let u = unsettled();
            if u.is_empty() { sleep_ns(10 * MS); for c in &mut w().c { if c.done[0] > 0 { c.acked = true; } } break; }
            if sim::now() > end {
                if world_debug() { for (i, c) in w().c.iter().enumerate() { tr!("component {i} references {} end {:?} own {}", c.weak.strong_count(), c.end, c.comp.is_some()); } for x in &u { tr!("unsettled {} {} {}", x.0, x.1, x.2); } }
                for (p, c, m) in &u { ensure!(p, false, c, "{m}"); if *p == "A03" { ensure!("A01", false, c, "{m}"); } }
                break;
            }
            sleep_ns(gap);
            if gap < 50 * MS { gap = gap * 3 / 2; }
        }
    }
    if on("A09") && early == 0 { idle_phase(); }
    shutdown_phase(plan, n);
}
/// Nothing is left to do: every thread of the system must come to rest.
fn idle_phase() {
    let busy = |t: &Tm| !t.cancelled && !t.ext && t.fired == 0 && sim::now() < t.due + 50 * MS;
    if !wait_until(2 * SEC, || !w().timers.iter().any(busy)) { return; }
    cancel_periodic();
    sleep_ns(20 * MS);
    cancel_periodic();
    let mut worst = 0;
    for _ in 0..2 { let s = sim::step(); sleep_ns(200 * MS); worst = sim::step() - s; if worst < 3000 { break; } }
    sim::state(worst);
    ensure!("A09", worst < 3000, "busy-while-idle", "the system kept executing ({worst} steps in 200 idle milliseconds) although nothing was left to do; components {:?}", w().c.iter().map(|c| (c.active, c.end)).collect::<Vec<_>>());
}
fn cancel_periodic() {
    let Some(sys) = still(|| w().sys.clone()) else { return };
    for t in 0..w().timers.len() { if w().timers[t].period > 0 && !w().timers[t].cancelled && !w().timers[t].ext { if let Some(h) = w().timers[t].handle.clone() { w().timers[t].ext = true; sys.cancel_timer(h); } } }
}
fn world_debug() -> bool { tracing() }

fn shutdown_phase(plan: &Plan, n: usize) {
    let started: Vec<usize> = (0..w().c.len()).filter(|i| w().c[*i].acked && w().live(*i)).collect();
    let _ = n;
    w().shutting = true;
    let sys = w().sys.take().unwrap();
    if plan.get("keep_refs") == 0 { for i in 0..w().c.len() { drop(w().c[i].comp.take()); } }
    tr!("shutting down, mode {}", plan.get("shutdown"));
    // something a suspended component waits for may still be outstanding: keep completing it
    let mode = plan.get("shutdown");
    let done: &'static std::sync::atomic::AtomicU32 = Box::leak(Box::new(std::sync::atomic::AtomicU32::new(0)));
    std::thread::spawn(move || {
        match mode {
            1 => { let r = sys.kill_system(); ensure!("L04", r.is_ok(), "shutdown-error", "kill_system failed"); }
            2 => { sys.shutdown_async(); sys.await_termination(); }
            _ => { let r = sys.shutdown().wait(); ensure!("L04", r.is_ok(), "shutdown-error", "shutdown failed"); }
        }
        done.store(1, std::sync::atomic::Ordering::SeqCst);
    });
    let end = sim::now() + 30 * SEC;
    let mut gap = 50_000;
    if plan.get("early_shutdown") > 0 { sleep_ns(3 * MS); sim::quiet(); }
    while done.load(std::sync::atomic::Ordering::SeqCst) == 0 {
        pump();
        if sim::now() + 20 * SEC > end { for i in 0..w().c.len() { drop(w().c[i].comp.take()); } } // asks to components that never started
        if sim::now() > end { for (i, c) in w().c.iter().enumerate() { tr!("component {i} refs {} end {:?} blocked {} active {} hooks {:?} reqs {:?}", c.weak.strong_count(), c.end, c.blocked, c.active, c.hooks, c.reqs); } ensure!("L04", false, "shutdown-stuck", "shutdown (mode {mode}) had not completed after 30 simulated seconds"); return; }
        sleep_ns(gap);
        if gap < 20 * MS { gap = gap * 3 / 2; }
    }
    w().down = mode != 2;
    tr!("shut down");
    for i in started {
        let c = &w().c[i];
        ensure!("L04", c.end != End::No, "not-killed-by-shutdown", "component {i} was running when shutdown began and shutdown completed without killing it");
        ensure!("L04", !(matches!(c.end, End::Killed | End::Shut) && c.done[2] != 1 && !(c.end == End::Killed && c.done[2] == 0 && false)), "kill-hook-count", "component {i}: shutdown completed and its kill hook finished {} times", c.done[2]);
    }
    for i in 0..w().c.len().min(3) { send(1999, i, A_NOP, 0, 0); }
    sleep_ns(20 * MS);
    pump();
    for x in &w().notes { ensure!("L02", false, "notify-never-resolved", "the future of the {:?} request for component {} is still pending after the system has shut down", x.hook, x.comp); }
}
