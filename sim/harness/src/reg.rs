//! The actor store: registrations and routing policies of one system (with the local or the network dispatcher), local and
//! remote senders, and a check of the whole history against a sequential reference model of the path tree.
use crate::plan::*;
use crate::sim;
use crate::world::*;

use kompact::prelude::*;
use kompact::routing::groups::{BroadcastRouting, RoundRobinRouting, SenderDefaultHashBucketRouting, StorePolicy};
use kompact_net::NetworkConfig;
use std::collections::{BTreeMap, HashSet};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::sync::Arc;

pub const R_REG: u16 = 1; // thread path comp update|wait<<1
pub const R_POL: u16 = 2; // thread path kind update|wait<<1
pub const R_SEND: u16 = 3; // thread who path|marker<<8 n api
pub const R_UNIQ: u16 = 4; // thread who comp n api
pub const R_KILL: u16 = 5; // thread comp
pub const R_SLEEP: u16 = 6; // thread us
pub const R_BAD: u16 = 7; // thread which comp update
pub const R_SETTLE: u16 = 8; // thread
pub const R_STOP: u16 = 9; // thread comp start
pub const R_BAD_LOOKUP: u16 = 10; // thread which
pub fn op_name(k: u16) -> &'static str { ["?", "register", "set_policy", "send", "send_unique", "kill", "sleep", "register_bad_path", "await_registrations", "stop_or_start", "parse_path"].get(k as usize).copied().unwrap_or("?") }

const PATHS: &[&str] = &["a", "g", "a/x", "a/y", "g/0", "g/1", "g/2", "g/h", "g/h/0", "g/h/1", "a/x/1", "b/x"];
const BAD: &[&str] = &["", "/a", "a/", "a//x", "g/*", "*", "g/?", "?", "g/x*", "?x", "g/*/0", "a#b", "#", "g/*x", "a/x?y"];
const LOOKUP: &[(&str, bool)] = &[("g/*", true), ("g/?", true), ("*", true), ("g/x", true), ("g/x*", false), ("g/*x", false), ("g/?x", false), ("*x", false), ("?x", false), ("g/*/0", false), ("a//x", false), ("a/x?y", false), ("a*/x", false), ("g/**", false), ("g/*?", false)];
const DRIVER: i32 = 7;
const SER_R: SerId = 7301;

/// A message: its number and content which follows from that.
#[derive(Clone, Debug)]
pub struct Num { id: u32, size: u32, local: bool, clonable: bool }
impl Serialisable for Num {
    fn ser_id(&self) -> SerId { SER_R }
    fn size_hint(&self) -> Option<usize> { Some(8 + self.size as usize) }
    fn serialise(&self, b: &mut dyn BufMut) -> Result<(), SerError> { b.put_u32(self.id); b.put_u32(self.size); for i in 0..self.size { b.put_u8(mix(self.id as u64, i as u64) as u8); } Ok(()) }
    fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> { if self.local { Ok(self) } else { Err(self) } }
    fn cloned(&self) -> Option<Box<dyn Serialisable>> { if self.clonable { Some(Box::new(self.clone())) } else { None } }
}
impl Deserialiser<Num> for Num {
    const SER_ID: SerId = SER_R;
    fn deserialise(b: &mut dyn Buf) -> Result<Num, SerError> {
        if b.remaining() < 8 { return Err(SerError::invalid_data("too short".to_string())); }
        let (id, size) = (b.get_u32(), b.get_u32());
        if b.remaining() != size as usize { return Err(SerError::invalid_data(format!("{} of {size} bytes", b.remaining()))); }
        for i in 0..size { if b.get_u8() != mix(id as u64, i as u64) as u8 { return Err(SerError::invalid_data(format!("wrong content at byte {i}"))); } }
        Ok(Num { id, size, local: true, clonable: true })
    }
}

/// What may be stored at a path.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Entry { Comp(usize), Pol(i64) }
#[derive(Clone, Debug)]
enum What { Reg { path: usize, e: Entry, update: bool }, Send { segs: Vec<String>, marker: u8 } }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Res { Open, Done, Dup, Bad }
/// One operation of the history. It takes effect at some point in between `inv` and `res`.
#[derive(Clone, Debug)]
struct H { what: What, inv: u64, res: u64, out: Res, to: Vec<usize>, lost: u32, by: usize, probe: bool, remote: bool, thread: u32 }
struct R { comp: Option<Arc<Component<Recv>>>, dref: Option<DynActorRef>, killed: Option<u64>, uniq: Option<ActorPath>, weak: std::sync::Weak<Component<Recv>>, stopped: bool }
struct W { sys: Option<KompactSystem>, far: Option<KompactSystem>, r: Vec<R>, h: Vec<H>, open: Vec<(usize, KFuture<RegistrationResult>)>, clock: u64, senders: Vec<ActorRef<Cmd>>, spath: Option<SystemPath>, uniqs: Vec<(u32, usize)>, ugot: BTreeMap<u32, Vec<usize>>, ulost: BTreeMap<u32, u32>, net: bool, reqs: usize, done: usize, last: BTreeMap<(usize, String, usize), u32>, path_of: Vec<ActorPath>, dead: bool }
static WORLD: Global<W> = Global::new();
fn w() -> &'static mut W { WORLD.get() }
fn tick() -> u64 { w().clock += 1; w().clock }
fn st(a: u64, b: u64, c: u64) { sim::state(mix(mix(a + 900, b), c)); }

#[derive(ComponentDefinition)]
pub struct Recv { ctx: ComponentContext<Self>, ix: usize }
ignore_lifecycle!(Recv);
impl Actor for Recv {
    type Message = ();
    fn receive_local(&mut self, _: ()) -> HandlerResult { Handled::OK }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        let rcv = m.receiver.to_string();
        let p = match m.data.try_deserialise::<Num, Num>() { Ok(p) => p, Err(e) => { for id in ["R01", "R02"] { ensure!(id, false, "corrupt", "component {} received a message that does not deserialise to what was sent: {e:?}", self.ix); } return Handled::OK; } };
        tr!("component {} received {} at {rcv}", self.ix, p.id);
        if let Some(x) = w().uniqs.iter().find(|x| x.0 == p.id) {
            ensure!("R01", x.1 == self.ix, "wrong-receiver", "message {} for the unique path of component {} was delivered to component {}", p.id, x.1, self.ix);
            w().ugot.entry(p.id).or_default().push(self.ix);
            return Handled::OK;
        }
        let t = tick();
        let Some(h) = w().h.get_mut(p.id as usize) else { ensure!("R01", false, "never-sent", "component {} received message {} which was never sent", self.ix, p.id); return Handled::OK };
        if h.to.is_empty() && h.lost == 0 { h.res = t; }
        h.to.push(self.ix);
        let k = (h.by, if let What::Send { segs, marker } = &h.what { format!("{segs:?}{marker}") } else { String::new() }, self.ix);
        // (several threads use the name of the system, their messages are not ordered)
        if h.by > 0 { if let Some(l) = w().last.get(&k) { for id in ["R01", "R02"] { ensure!(id, *l <= p.id, "reordered", "component {} received message {} from sender {} to {} after message {l}", self.ix, p.id, k.0, k.1); } } }
        w().last.insert(k, p.id);
        st(1, self.ix as u64, p.id as u64 % 16);
        Handled::OK
    }
}
/// The deadletter box.
#[derive(ComponentDefinition)]
pub struct Dead { ctx: ComponentContext<Self>, ready: Option<KPromise<()>>, first: bool }
impl ComponentLifecycle for Dead { fn on_start(&mut self) -> HandlerResult { if let Some(p) = self.ready.take() { let _ = p.complete(); } Handled::OK } }
impl Actor for Dead {
    type Message = Never;
    fn receive_local(&mut self, _: Never) -> HandlerResult { Handled::OK }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        let rcv = m.receiver.to_string();
        let Ok(p) = m.data.try_deserialise::<Num, Num>() else { ensure!("R03", false, "corrupt", "the deadletter box received a message for {rcv} that does not deserialise to what was sent"); return Handled::OK };
        tr!("deadletter {} for {rcv}", p.id);
        ensure!("R03", self.first, "wrong-box", "the deadletter box of another system received message {} for {rcv}", p.id);
        let t = tick();
        if let Some(h) = w().h.get_mut(p.id as usize) {
            if h.to.is_empty() && h.lost == 0 { h.res = t; }
            h.lost += 1;
            ensure!("R03", h.lost == 1, "deadletter-twice", "message {} for {rcv} was given to the deadletter box twice", p.id);
        } else { *w().ulost.entry(p.id).or_default() += 1; }
        Handled::OK
    }
}
#[derive(Debug)]
pub enum Cmd { Send { segs: Vec<String>, marker: u8, n: i64, api: i64, probe: bool }, Uniq { comp: usize, n: i64, api: i64 } }
#[derive(ComponentDefinition)]
pub struct Sender { ctx: ComponentContext<Self>, ix: usize }
ignore_lifecycle!(Sender);
fn num(id: u32, api: i64) -> Num { Num { id, size: if api & 4 != 0 { 300 } else { 20 }, local: api & 8 == 0, clonable: api & 16 == 0 } }
fn target(segs: &[String], marker: u8) -> ActorPath {
    let mut v = segs.to_vec();
    if marker > 0 { v.push(if marker == 1 { "*" } else { "?" }.to_string()); }
    ActorPath::Named(NamedPath::with_system(w().spath.clone().unwrap(), v))
}
fn record(segs: &[String], marker: u8, by: usize, probe: bool, thread: u32) -> u32 {
    let inv = tick();
    w().h.push(H { what: What::Send { segs: segs.to_vec(), marker }, inv, res: u64::MAX, out: Res::Open, to: vec![], lost: 0, by, probe, remote: by >= 3, thread });
    w().h.len() as u32 - 1
}
impl Sender {
    fn tell(&mut self, to: &ActorPath, id: u32, api: i64) {
        tr!("sender {} sends {id} to {to}", self.ix);
        let p = num(id, api);
        match api & 3 {
            0 | 1 => to.tell(p, self),
            2 => to.tell_serialised(p, self).expect("serialises"),
            _ => { let c = self.ctx.preserialise(&p).expect("serialises"); to.tell_preserialised(c, self).expect("serialises") }
        }
    }
}
impl Actor for Sender {
    type Message = Cmd;
    fn receive_local(&mut self, c: Cmd) -> HandlerResult {
        match c {
            Cmd::Send { segs, marker, n, api, probe } => { let to = target(&segs, marker); for _ in 0..n { let id = record(&segs, marker, self.ix, probe, 0); self.tell(&to, id, api); } }
            Cmd::Uniq { comp, n, api } => { let Some(to) = w().path_of.get(comp).cloned() else { w().done += 1; return Handled::OK }; for _ in 0..n { let id = 1_000_000 + w().uniqs.len() as u32; w().uniqs.push((id, comp)); self.tell(&to, id, api); } }
        }
        w().done += 1;
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult { Handled::OK }
}

fn policy(kind: i64) -> StorePolicy { match kind { 0 => BroadcastRouting.into(), 1 => SenderDefaultHashBucketRouting::default().into(), _ => RoundRobinRouting::default().into() } }
fn segs(path: usize) -> Vec<String> { PATHS[path].split('/').map(String::from).collect() }
fn begin(what: What, thread: u32) -> usize { let inv = tick(); w().h.push(H { what, inv, res: u64::MAX, out: Res::Open, to: vec![], lost: 0, by: 0, probe: false, remote: false, thread }); w().h.len() - 1 }
fn outcome(i: usize, r: RegistrationResult) {
    let t = tick();
    let h = &mut w().h[i];
    h.res = t;
    h.out = match r { Ok(_) => Res::Done, Err(RegistrationError::DuplicateEntry) => Res::Dup, Err(_) => Res::Bad };
    tr!("registration {i} {:?}: {:?}", h.what, h.out);
    st(2, h.out as u64, i as u64 % 8);
    if let (Ok(p), What::Reg { path, .. }) = (&r, &h.what) { let want = target(&segs(*path), 0); ensure!("R01", *p == want, "wrong-path", "registering {} returned the path {p} instead of {want}", PATHS[*path]); }
    ensure!("R01", h.out != Res::Bad, "refused", "registering the valid path of {:?} was refused", h.what);
}
fn settle_reg(bound: u64, only: Option<u32>) {
    let mine = |i: usize| only.is_none_or(|t| w().h[i].thread == t);
    while let Some(k) = (0..w().open.len()).find(|k| mine(w().open[*k].0)) {
        let (i, f) = w().open.remove(k);
        match f.wait_timeout(std::time::Duration::from_nanos(bound)) {
            Ok(r) => outcome(i, r),
            Err(_) => { ensure!("R01", false, "no-answer", "the registration {:?} was neither accepted nor refused within {} simulated seconds", w().h[i].what, bound / SEC); }
        }
    }
}
fn finish_reg(i: usize, f: KFuture<RegistrationResult>, wait: bool) {
    if !wait { w().open.push((i, f)); return; }
    match f.wait_timeout(std::time::Duration::from_secs(10)) { Ok(r) => outcome(i, r), Err(_) => { ensure!("R01", false, "no-answer", "the registration {:?} was neither accepted nor refused within 10 simulated seconds", w().h[i].what); } }
}
fn kill(c: usize) {
    if w().r[c].killed.is_some() { return; }
    let t = tick();
    w().r[c].killed = Some(t);
    tr!("killing component {c}");
    let comp = still(|| w().r[c].comp.clone()).unwrap();
    let f = w().sys.as_ref().unwrap().kill_notify(comp);
    let _ = f.wait_timeout(std::time::Duration::from_secs(10));
    drop(w().r[c].comp.take());
}
fn driver_op(o: &Op, thread: u32) {
    let n = w().r.len();
    let sys = still(|| w().sys.clone()).unwrap();
    let a = |k: usize| o.a[k].unsigned_abs() as usize;
    tr!("op {} {:?}", op_name(o.k), o.a);
    match o.k {
        R_REG => {
            let (path, comp, up, wait) = (a(1) % PATHS.len(), a(2) % n, a(3) & 1 == 1, a(3) & 2 != 0);
            let Some(d) = still(|| w().r[comp].dref.clone()) else { return };
            struct D(DynActorRef);
            impl DynActorRefFactory for D { fn dyn_ref(&self) -> DynActorRef { self.0.clone() } }
            let i = begin(What::Reg { path, e: Entry::Comp(comp), update: up }, thread);
            let f = if up { sys.update_alias_registration(&D(d), PATHS[path]) } else { sys.register_by_alias(&D(d), PATHS[path]) };
            finish_reg(i, f, wait);
        }
        R_POL => {
            let (path, kind, up, wait) = (a(1) % PATHS.len(), a(2) as i64 % 3, a(3) & 1 == 1, a(3) & 2 != 0);
            let i = begin(What::Reg { path, e: Entry::Pol(kind), update: up }, thread);
            finish_reg(i, sys.set_routing_policy(policy(kind), PATHS[path], up), wait);
        }
        R_SEND => send(a(1), &if a(2) & 255 >= PATHS.len() { vec![] } else { segs(a(2) & 255) }, (a(2) >> 8) as u8 % 3, o.a[3], o.a[4], false, thread),
        R_UNIQ => { let s = a(1) % 2 + if w().net && a(1) % 4 >= 2 { 2 } else { 0 }; w().reqs += 1; w().senders[s].tell(Cmd::Uniq { comp: a(2) % n, n: o.a[3], api: o.a[4] }); }
        R_KILL => kill(a(1) % n),
        R_SLEEP => sleep_ns(o.a[1].unsigned_abs() * 1000),
        R_BAD => {
            let (p, comp, up) = (BAD[a(1) % BAD.len()], a(2) % (n + 1), a(3) & 1 == 1);
            let f = if comp == n { sys.set_routing_policy(policy(0), p, up) } else {
                let Some(c) = still(|| w().r[comp].comp.clone()) else { return };
                if up { sys.update_alias_registration(&c, p) } else { sys.register_by_alias(&c, p) } };
            match f.wait_timeout(std::time::Duration::from_secs(10)) { Ok(Err(RegistrationError::InvalidPath(_))) => (), Ok(x) => ensure!("R01", false, "bad-path-accepted", "registering the invalid path {p:?} gave {x:?}"), Err(_) => ensure!("R01", false, "no-answer", "registering the invalid path {p:?} was neither accepted nor refused within 10 simulated seconds") }
        }
        R_BAD_LOOKUP => {
            let p = LOOKUP[a(1) % LOOKUP.len()];
            let (text, good) = (p.0, p.1);
            let x = format!("{}/{text}", w().spath.clone().unwrap()).parse::<ActorPath>();
            ensure!("R01", x.is_ok() == good, "bad-path-accepted", "parsing the path {text:?} gave {x:?}");
        }
        R_STOP => { let c = a(1) % n; let Some(x) = still(|| w().r[c].comp.clone()) else { return }; if a(2) & 1 == 1 { sys.start(&x) } else { w().r[c].stopped = true; sys.stop(&x) } }
        _ => settle_reg(10 * SEC, Some(thread)),
    }
}
/// who: 0 the system itself, 1 and 2 local components, 3 and 4 components of another system
fn send(who: usize, segs: &[String], marker: u8, n: i64, api: i64, probe: bool, thread: u32) {
    let who = if w().net { who % 5 } else { who % 3 };
    if who == 0 {
        let to = target(segs, marker);
        let sys = still(|| w().sys.clone()).unwrap();
        for _ in 0..n { let id = record(segs, marker, 0, probe, thread); tr!("the system sends {id} to {to}"); to.tell(num(id, api), &sys); }
    } else { w().reqs += 1; w().senders[who - 1].tell(Cmd::Send { segs: segs.to_vec(), marker, n, api, probe }); }
}
fn addr(m: usize) -> SocketAddr { SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 0, 0, 1 + m as u8)), 9000 + m as u16) }

pub fn run(plan: &Plan) {
    sim::set_node(DRIVER);
    let n = plan.get("comps").clamp(1, 8) as usize;
    let net = plan.get("net") != 0;
    WORLD.init(W { sys: None, far: None, r: Vec::with_capacity(16), h: Vec::with_capacity(4096), open: Vec::with_capacity(256), clock: 0, senders: vec![], spath: None, uniqs: Vec::with_capacity(4096), ugot: BTreeMap::new(), ulost: BTreeMap::new(), net, reqs: 0, done: 0, last: BTreeMap::new(), path_of: vec![], dead: false });
    let build = |m: usize| {
        sim::set_node(m as i32);
        let mut conf = crate::local::config(plan);
        if net {
            let mut nc = NetworkConfig::new(addr(m));
            nc.set_tcp_nodelay(true);
            nc.set_boot_timeout(60_000);
            conf.system_components(move |p| Dead { ctx: ComponentContext::uninitialised(), ready: Some(p), first: m == 0 }, nc.build());
        } else { conf.system_components(move |p| Dead { ctx: ComponentContext::uninitialised(), ready: Some(p), first: m == 0 }, LocalDispatcher::new); }
        conf.build().wait().expect("system")
    };
    let sys = build(0);
    for ix in 0..n {
        let c = sys.create(|| Recv { ctx: ComponentContext::uninitialised(), ix });
        sys.start_notify(&c).wait();
        let r = sys.register(&c).wait();
        match r { Ok(p) => w().path_of.push(p), Err(e) => { ensure!("R01", false, "refused", "registering component {ix} by its id failed: {e:?}"); return; } }
        w().r.push(R { dref: Some(c.actor_ref().dyn_ref()), weak: Arc::downgrade(&c), comp: Some(c), killed: None, uniq: None, stopped: false });
    }
    let make = |sys: &KompactSystem, ix: usize| { let c = sys.create(|| Sender { ctx: ComponentContext::uninitialised(), ix }); let _ = sys.register(&c).wait().expect("sender"); sys.start_notify(&c).wait(); w().senders.push(c.actor_ref()); std::mem::forget(c); };
    make(&sys, 1); make(&sys, 2);
    if net { let far = build(1); make(&far, 3); make(&far, 4); w().far = Some(far); }
    sim::set_node(DRIVER);
    w().spath = Some(sys.system_path());
    w().sys = Some(sys);
    for (k, which) in [("f_eintr", 0), ("f_partial", 1), ("f_again", 2)] { sim::set_param(which, plan.get(k) as u32); }
    let threads = plan.get("drivers").clamp(1, 4) as u32;
    let mut hs = vec![];
    for t in 0..threads {
        let ops: Vec<Op> = plan.ops.iter().filter(|o| o.a[0].unsigned_abs() % threads as u64 == t as u64).cloned().collect();
        hs.push(std::thread::Builder::new().name(format!("driver-{t}")).spawn(move || for o in ops { driver_op(&o, t) }).unwrap());
    }
    for h in hs { h.join().unwrap(); }
    tr!("end phase");
    sim::quiet();
    settle_reg(20 * SEC, None);
    // (concurrent requests to stop and to start may have taken effect in either order)
    for c in 0..n { if w().r[c].stopped { w().r[c].stopped = false; if let Some(x) = still(|| w().r[c].comp.clone()) { w().sys.as_ref().unwrap().start(&x); } } }
    quiet();
    // everything is asked for once more, now that nothing changes any more
    let mut probes: Vec<(Vec<String>, u8)> = vec![];
    for p in 0..PATHS.len() { for m in 0..3 { probes.push((segs(p), m)); } }
    for m in 1..3 { probes.push((vec![], m)); probes.push((vec!["b".into()], m)); probes.push((vec!["nobody".into()], m)); }
    probes.push((vec!["nobody".into()], 0)); probes.push((vec![], 0));
    let pick = plan.get("probes") as u64;
    probes.retain(|p| mix(pick, hash_str(&format!("{p:?}"))) % 3 > 0);
    let first = w().h.len();
    let mut extra = vec![];
    for (i, (s, m)) in probes.iter().enumerate() { for who in 1..3 {
        // (what is set elsewhere is of no concern to a group)
        if mix(pick, 99 + i as u64 * 4 + who as u64) % 4 == 0 { extra.push(w().sys.as_ref().unwrap().set_routing_policy(policy(0), &format!("z/{i}/{who}"), false)); }
        if mix(pick, 98 + i as u64 * 4 + who as u64) % 4 == 0 { sleep_ns(200_000); }
        if mix(pick, i as u64 * 8 + who as u64) % 3 > 0 { send(who, s, *m, 1 + (mix(pick, i as u64) % 6) as i64, mix(pick, i as u64 * 16 + who as u64) as i64 & 31, true, 0); } } }
    quiet();
    for f in extra { let r = f.wait_timeout(std::time::Duration::from_secs(10)); ensure!("R01", matches!(r, Ok(Ok(_))), "refused", "setting a policy at a new path gave {r:?}"); }
    // (what comes from afar may meet the same router at another point of its round)
    let fair = first..w().h.len();
    if net { for (i, (s, m)) in probes.iter().enumerate() { for who in 3..5 { if mix(pick, 7 + i as u64 * 8 + who as u64) % 3 == 0 { send(who, s, *m, 1 + (mix(pick, i as u64) % 3) as i64, mix(pick, i as u64 * 16 + who as u64) as i64 & 31, true, 0); } } } quiet(); }
    judge(fair);
    freed(plan);
    let s = w().sys.take().unwrap();
    if plan.get("shutdown") != 0 { if let Some(f) = w().far.take() { let _ = f.shutdown().wait(); } let _ = s.shutdown().wait(); } else { std::mem::forget(s); std::mem::forget(w().far.take()); }
}
/// Waits until everything sent has arrived where it will.
fn quiet() {
    let ok = wait_until(60 * SEC, || w().done == w().reqs);
    for id in ["R01", "R02"] { ensure!(id, ok, "sender-stuck", "a sender had not sent its messages after 60 simulated seconds"); }
    let mut last = (0, 0);
    loop {
        sleep_ns(if w().net { 400 * MS } else { 20 * MS });
        let now = (w().clock, w().ugot.len() as u64);
        if now == last { break; }
        last = now;
    }
}

// ---- the reference model -------------------------------------------------------------------------------------------
type Tree = Vec<Option<Entry>>;
enum Expect { Nothing, One(usize), All(Vec<usize>), Any(Vec<usize>) }
fn resolve(t: &Tree, at: &[String], marker: u8) -> Expect {
    let key = at.join("/");
    let under = |p: &str| key.is_empty() || p == key || (p.starts_with(&key) && p.as_bytes()[key.len()] == b'/');
    let members: Vec<usize> = (0..PATHS.len()).filter(|p| under(PATHS[*p])).filter_map(|p| match t[p] { Some(Entry::Comp(c)) => Some(c), _ => None }).collect();
    let exists = (0..PATHS.len()).any(|p| under(PATHS[p]) && t[p].is_some());
    // (a group without members is not the same as no group: what happens to its messages is open)
    if key.is_empty() && marker == 0 || !exists && !key.is_empty() { return Expect::Nothing; }
    let here = PATHS.iter().position(|p| *p == key).and_then(|p| t[p]);
    match (here, marker) {
        (Some(Entry::Comp(c)), 0) => Expect::One(c),
        (Some(Entry::Comp(_)), _) | (None, 0) => Expect::Nothing,
        (Some(Entry::Pol(0)), 0 | 1) | (None, 1) => Expect::All(members),
        (Some(Entry::Pol(0)), _) | (Some(Entry::Pol(_)), 1) => Expect::Nothing,
        (Some(Entry::Pol(_)), _) | (None, _) => Expect::Any(members),
    }
}
fn mortal(c: usize) -> bool { w().r[c].killed.is_some() }
fn fits(t: &Tree, h: &H) -> bool {
    let What::Send { segs, marker } = &h.what else { return false };
    // (what is left of a component that is gone may have been cleared away)
    if let Some(p) = PATHS.iter().position(|p| *p == segs.join("/")) { if matches!(t[p], Some(Entry::Comp(c)) if mortal(c)) { let mut t = t.clone(); t[p] = None; if fits(&t, h) { return true; } } }
    // (what becomes of the messages to a component that is gone is open)
    if on("R03") {
        let fine = match resolve(t, segs, *marker) { Expect::Nothing => h.lost == 1, Expect::One(c) => h.lost == 0 || mortal(c) && h.to.is_empty(), Expect::Any(m) | Expect::All(m) => h.lost == 0 || h.to.is_empty() && m.iter().all(|c| mortal(*c)) };
        if !fine { return false; }
    }
    match resolve(t, segs, *marker) {
        Expect::Nothing => h.to.is_empty(),
        Expect::One(c) => h.to == [c] || h.to.is_empty() && mortal(c),
        Expect::Any(m) => h.to.len() == 1 && m.contains(&h.to[0]) || h.to.is_empty() && (m.is_empty() || m.iter().any(|c| mortal(*c))),
        Expect::All(mut m) => { for c in &h.to { match m.iter().position(|x| x == c) { Some(p) => { m.remove(p); } None => return false } } m.iter().all(|c| mortal(*c)) }
    }
}
/// May `h` take effect here, and what does it leave behind?
fn apply(t: &Tree, h: &H) -> Option<Option<(usize, Entry)>> {
    match &h.what {
        What::Send { .. } => if fits(t, h) { Some(None) } else { None },
        What::Reg { path, e, update } => {
            // (what is left of a component that is gone may be cleared away at any time)
            let taken = t[*path].is_some();
            let freed = matches!(t[*path], Some(Entry::Comp(c)) if w().r[c].killed.is_some_and(|k| k < h.res));
            match h.out { Res::Done if *update || !taken || freed => Some(Some((*path, *e))), Res::Dup if !*update && taken => Some(None), _ => None }
        }
    }
}
fn reads(h: &H) -> bool { !matches!((&h.what, h.out), (What::Reg { .. }, Res::Done)) }
struct Search { seen: HashSet<(Vec<u64>, Tree)>, steps: u64, best: usize, stuck: Vec<usize> }
/// Is there an order of all operations, within their bounds, in which the model gives these outcomes?
fn linearise(hs: &[H], done: &mut Vec<u64>, n_done: usize, t: &Tree, s: &mut Search) -> bool {
    if n_done == hs.len() { return true; }
    s.steps += 1;
    if s.steps > 300_000 { return true; }
    let is = |d: &Vec<u64>, i: usize| d[i / 64] >> (i % 64) & 1 == 1;
    let horizon = (0..hs.len()).filter(|i| !is(done, *i)).map(|i| hs[i].res).min().unwrap();
    let may: Vec<usize> = (0..hs.len()).filter(|i| !is(done, *i) && hs[*i].inv < horizon).collect();
    // what only reads and fits may as well go first
    let ready: Vec<usize> = may.iter().copied().filter(|i| reads(&hs[*i]) && apply(t, &hs[*i]).is_some()).collect();
    if !ready.is_empty() {
        for i in &ready { done[i / 64] |= 1 << (i % 64); }
        if linearise(hs, done, n_done + ready.len(), t, s) { return true; }
        for i in &ready { done[i / 64] &= !(1 << (i % 64)); }
        return false;
    }
    if n_done >= s.best { s.best = n_done; s.stuck = may.clone(); }
    if !s.seen.insert((done.clone(), t.clone())) { return false; }
    for i in may {
        if let Some(Some((p, e))) = apply(t, &hs[i]) {
            let mut t2 = t.clone();
            t2[p] = Some(e);
            done[i / 64] |= 1 << (i % 64);
            if linearise(hs, done, n_done + 1, &t2, s) { return true; }
            done[i / 64] &= !(1 << (i % 64));
        }
    }
    false
}
fn judge(fair: std::ops::Range<usize>) {
    let hs: Vec<H> = w().h.clone();
    for (id, c) in &w().uniqs { let g = w().ugot.get(id).map_or(0, |g| g.len()); ensure!("R01", g == 1 || g == 0 && mortal(*c), "unique-path", "message {id} for the unique path of component {c} was delivered {g} times");
        let l = w().ulost.get(id).copied().unwrap_or(0); ensure!("R03", l == 0 || l == 1 && g == 0 && mortal(*c), "deadletter-although-delivered", "message {id} for the unique path of component {c}, which was delivered {g} times, was given to the deadletter box {l} times"); }
    // R01 decides what is addressed to a single component, R02 all of it
    let single = |h: &H| match &h.what { What::Reg { .. } => true, What::Send { segs, marker } => *marker == 0 && { let key = segs.join("/"); !hs.iter().any(|x| matches!(&x.what, What::Reg { path, e: Entry::Pol(_), .. } if PATHS[*path] == key)) } };
    for id in ["R01", "R02", "R03"] { if on(id) {
        let part: Vec<H> = hs.iter().filter(|h| id != "R01" || single(h)).cloned().collect();
        let mut s = Search { seen: HashSet::new(), steps: 0, best: 0, stuck: vec![] };
        let mut done = vec![0u64; part.len() / 64 + 1];
        let ok = linearise(&part, &mut done, 0, &vec![None; PATHS.len()], &mut s);
        if !ok {
            let x: Vec<String> = s.stuck.iter().take(6).map(|i| describe(&part[*i])).collect();
            // (a single message that went astray says most)
            ensure!(id, false, "not-sequential", "the outcomes of registrations and the deliveries of messages cannot be explained by any order of the operations; the search got stuck at: {}", x.join("; "));
        }
    } }
    // a group that does not change any more: the same sender always gets the same member, rounds are fair
    let mut groups: BTreeMap<String, Vec<&H>> = BTreeMap::new();
    for h in &hs[fair] { if let What::Send { segs, marker } = &h.what { if *marker != 1 { groups.entry(segs.join("/")).or_default().push(h); } } }
    for (g, mut v) in groups {
        let key = g.clone();
        // (a group without a policy of its own has no members unless they are asked for)
        let Some(kind) = last_policy(&hs, &key) else { continue };
        if kind == 3 { v.retain(|h| matches!(&h.what, What::Send { marker: 2, .. })); }
        let kind = if kind == 3 { 1 } else { kind };
        if v.iter().any(|h| h.to.len() != 1) { continue; }
        if (0..w().r.len()).any(mortal) { continue; }
        if kind == 1 { for by in 1..3 { let to: Vec<usize> = v.iter().filter(|h| h.by == by).map(|h| h.to[0]).collect(); ensure!("R02", to.windows(2).all(|x| x[0] == x[1]), "bucket-changed", "messages of one sender to {g} were delivered to the components {to:?} although the group did not change"); } }
        if kind == 2 {
            let members = member_paths(&hs, &key);
            let Some(members) = members else { continue };
            let mut n = vec![0usize; w().r.len()]; let mut share = vec![0usize; w().r.len()];
            for h in &v { n[h.to[0]] += 1; } for c in &members { share[*c] += 1; }
            for c in 0..n.len() { let (lo, hi) = (v.len() / members.len() * share[c], v.len().div_ceil(members.len()) * share[c]); ensure!("R02", n[c] >= lo && n[c] <= hi, "unfair-round", "{} messages to {g} with {} members: component {c} received {} of them", v.len(), members.len(), n[c]); }
        }
    }
}
fn describe(h: &H) -> String { match &h.what { What::Reg { path, e, update } => format!("{} {:?} at {} -> {:?} [{}..{}]", if *update { "update" } else { "register" }, e, PATHS[*path], h.out, h.inv, h.res), What::Send { segs, marker } => format!("message from sender {} to {}{} received by {:?}{} [{}..{}]", h.by, segs.join("/"), ["", "/*", "/?"][*marker as usize], h.to, if h.lost > 0 { " and the deadletter box" } else { "" }, h.inv, if h.res == u64::MAX { "-".to_string() } else { h.res.to_string() }) } }
/// The policy which is certainly in force for `key` in the end, if it selects: 1 hash, 2 round-robin, 3 the implicit one.
fn last_policy(hs: &[H], key: &str) -> Option<i64> {
    let set: Vec<&Entry> = hs.iter().filter_map(|h| match &h.what { What::Reg { path, e, .. } if PATHS[*path] == key && h.out == Res::Done => Some(e), _ => None }).collect();
    match set[..] { [] => Some(3), [Entry::Pol(k)] if *k > 0 => Some(*k), _ => None }
}
/// The members of a group if that is beyond doubt.
fn member_paths(hs: &[H], key: &str) -> Option<Vec<usize>> {
    let mut v = vec![];
    for p in 0..PATHS.len() { if PATHS[p].starts_with(&format!("{key}/")) {
        let set: Vec<&Entry> = hs.iter().filter_map(|h| match &h.what { What::Reg { path, e, .. } if *path == p && h.out == Res::Done => Some(e), _ => None }).collect();
        match set[..] { [] => (), [Entry::Comp(c)] => v.push(*c), [Entry::Pol(_)] => (), _ => return None }
    } }
    if v.is_empty() { None } else { Some(v) }
}
/// A name becomes free again some time after its component is gone.
fn freed(plan: &Plan) {
    if !w().net || !on("R01") || !(0..w().r.len()).any(mortal) { return; }
    let _ = plan;
    for c in 0..w().r.len() { if mortal(c) { w().r[c].dref = None; if !wait_until(5 * SEC, || w().r[c].weak.strong_count() == 0) { return; } } }
    sleep_ns(12 * SEC);
    let Some(live) = (0..w().r.len()).find(|c| !mortal(*c)) else { return };
    let comp = still(|| w().r[live].comp.clone()).unwrap();
    for p in 0..PATHS.len() {
        let set: Vec<&Entry> = w().h.iter().filter_map(|h| match &h.what { What::Reg { path, e, .. } if *path == p && h.out == Res::Done => Some(e), _ => None }).collect();
        let all_gone = !set.is_empty() && set.iter().all(|e| matches!(e, Entry::Comp(c) if mortal(*c)));
        if !all_gone { continue; }
        let r = w().sys.as_ref().unwrap().register_by_alias(&comp, PATHS[p]).wait_timeout(std::time::Duration::from_secs(10));
        ensure!("R01", matches!(r, Ok(Ok(_))), "never-freed", "12 simulated seconds after the only component registered at {} was gone the name could not be registered again", PATHS[p]);
    }
}
