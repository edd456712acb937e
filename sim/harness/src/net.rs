//! Several networked systems in one process: each node is a real kompact system with a real network thread on the simulated
//! network, and the driver sends traffic through every send API while it breaks connections, machines and sockets.
use crate::plan::*;
use crate::sim;
use crate::world::*;

use bytes::{Buf, BufMut};
use kompact::component::ComponentTraits;
use kompact::prelude::*;
use kompact_net::net::SessionId;
use kompact_net::{NetworkConfig, NetworkStatus, NetworkStatusPort, NetworkStatusRequest, NetworkSystemExt};
use std::any::Any;
use std::collections::{BTreeMap, VecDeque};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::sync::Arc;

pub const N_SEND: u16 = 1; // node peer dest(node*8+peer) n flags
pub const N_SLEEP: u16 = 2; // us
pub const N_RESET: u16 = 3; // a b
pub const N_PART: u16 = 4; // a b mode(0 both, 1 a->b only)
pub const N_HEAL: u16 = 5;
pub const N_CRASH: u16 = 6; // node host?
pub const N_RESTART: u16 = 7; // node
pub const N_DISC: u16 = 8; // node to
pub const N_CONNECT: u16 = 9; // node to
pub const N_HOLD: u16 = 10; // node peer
pub const N_RELEASE: u16 = 11; // node peer
pub const N_PARAM: u16 = 12; // which value
pub const N_GARBAGE: u16 = 13; // node kind len
pub const N_BLOCK: u16 = 14; // node to kind(0 system 1 ip 2 net)
pub const N_ALLOW: u16 = 15; // node to kind
pub const N_BOTH: u16 = 16; // a b n: both ends send at the same moment
pub const N_FWD: u16 = 17; // node peer via(node*8+peer) final(node*8+peer) n
pub const N_SHUT: u16 = 18; // node: graceful shutdown of the whole system
pub const N_WAIT: u16 = 19; // wait until everything sent so far has arrived, at most us
pub const N_TEMP: u16 = 20; // node dest(node*8+peer) n flags how: a short-lived actor sends and goes away
pub const N_VAULT: u16 = 21; // node peer on?: keep received messages beyond the lifetime of the actor and the system
pub const N_CHECK: u16 = 22; // read all messages kept so far
pub const N_UNVAULT: u16 = 23; // read and drop the oldest n kept messages
pub fn op_name(k: u16) -> &'static str {
    ["?", "send", "sleep", "reset_connections", "partition", "heal", "crash", "restart", "disconnect_request", "connect_request", "hold_messages", "release_messages",
        "fault_rate", "garbage_client", "block", "allow", "send_both_ways", "send_via_forwarder", "shutdown_system", "settle", "short_lived_sender", "keep_messages", "read_kept_messages", "drop_kept_messages"].get(k as usize).copied().unwrap_or("?")
}
const DRIVER: i32 = 7;

// ---- payload -------------------------------------------------------------------------------------------------------
/// A message: who it belongs to and `size` bytes of content which follow from that.
#[derive(Clone, Debug)]
pub struct Pay { stream: u32, seq: u32, size: u32, hint: u8, clonable: bool, fwd: u16 }
const SER_A: SerId = 7001;
const SER_B: SerId = 7002;
/// Serialisation ids of messages on their way through a forwarder: they say where to.
const SER_F: SerId = 7100;
struct ContentGen(u64);
impl ContentGen { fn new(stream: u32, seq: u32) -> Self { ContentGen(mix(stream as u64 + 1, seq as u64 + 77) | 1) }
    fn word(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 } }
impl Serialisable for Pay {
    fn ser_id(&self) -> SerId { if self.fwd > 0 { SER_F + self.fwd as SerId } else if self.hint == 0 { SER_A } else { SER_B } }
    fn size_hint(&self) -> Option<usize> { match self.hint { 0 => Some(12 + self.size as usize), 1 => None, _ => Some((12 + self.size as usize) / 2) } }
    fn serialise(&self, b: &mut dyn BufMut) -> Result<(), SerError> {
        b.put_u32(self.stream); b.put_u32(self.seq); b.put_u32(self.size);
        let mut g = ContentGen::new(self.stream, self.seq);
        let mut left = self.size as usize;
        // the ways of writing differ between messages
        match self.seq % 3 {
            0 => { let mut v = Vec::with_capacity(left + 8); while v.len() < left { v.extend_from_slice(&g.word().to_be_bytes()); } b.put_slice(&v[..left]); }
            1 => { while left >= 8 { b.put_u64(g.word()); left -= 8; } if left > 0 { b.put_slice(&g.word().to_be_bytes()[..left]); } }
            _ => { while left > 0 { let w = g.word().to_be_bytes(); let n = left.min(8); for x in &w[..n] { b.put_u8(*x); } left -= n; } }
        }
        Ok(())
    }
    fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> { if self.hint == 1 { Err(self) } else { Ok(self) } }
    fn cloned(&self) -> Option<Box<dyn Serialisable>> { if self.clonable { Some(Box::new(self.clone())) } else { None } }
}
fn read_pay(b: &mut dyn Buf) -> Result<Pay, SerError> {
    if b.remaining() < 12 { return Err(SerError::invalid_data(format!("{} bytes are too short", b.remaining()))); }
    let (stream, seq, size) = (b.get_u32(), b.get_u32(), b.get_u32());
    if b.remaining() != size as usize { return Err(SerError::invalid_data(format!("stream {stream} message {seq} of {size} bytes: {} bytes follow", b.remaining()))); }
    let mut g = ContentGen::new(stream, seq);
    let mut left = size as usize;
    let mut at = 0;
    while left > 0 {
        let w = g.word().to_be_bytes(); let n = left.min(8);
        let mut got = [0u8; 8]; b.copy_to_slice(&mut got[..n]);
        if got[..n] != w[..n] { return Err(SerError::invalid_data(format!("stream {stream} message {seq} of {size} bytes: wrong content at byte {at}"))); }
        left -= n; at += n;
    }
    Ok(Pay { stream, seq, size, hint: 0, clonable: true, fwd: 0 })
}
struct DA; struct DB;
impl Deserialiser<Pay> for DA { const SER_ID: SerId = SER_A; fn deserialise(b: &mut dyn Buf) -> Result<Pay, SerError> { read_pay(b) } }
impl Deserialiser<Pay> for DB { const SER_ID: SerId = SER_B; fn deserialise(b: &mut dyn Buf) -> Result<Pay, SerError> { read_pay(b) } }

// ---- buffers -------------------------------------------------------------------------------------------------------
/// Hands out chunks and overwrites those which are given back. Their memory stays mapped, so that whoever still reads it is found out.
#[derive(Debug)]
struct Poison { size: usize, net: bool, out: std::sync::atomic::AtomicI64 }
struct PoisonChunk { mem: Box<[u8]>, freed: bool }
impl kompact::net::buffers::Chunk for PoisonChunk { fn as_mut_ptr(&mut self) -> *mut u8 { self.mem.as_mut_ptr() } fn len(&self) -> usize { self.mem.len() } fn is_empty(&self) -> bool { self.mem.is_empty() } }
impl kompact::net::buffers::ChunkAllocator for Poison {
    fn get_chunk(&self) -> *mut dyn kompact::net::buffers::Chunk { self.out.fetch_add(1, std::sync::atomic::Ordering::SeqCst); Box::into_raw(Box::new(PoisonChunk { mem: vec![0; self.size].into_boxed_slice(), freed: false })) }
    unsafe fn release(&self, p: *mut dyn kompact::net::buffers::Chunk) {
        let c = unsafe { &mut *(p as *mut PoisonChunk) };
        ensure!("B01", !c.freed, "released-twice", "a chunk of {} bytes was given back to its allocator twice", self.size);
        c.freed = true; c.mem.fill(0xDB);
        self.out.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    }
}
fn poison(size: usize, net: bool) -> Arc<dyn kompact::net::buffers::ChunkAllocator> {
    let a = Arc::new(Poison { size, net, out: Default::default() });
    w().allocs.push(a.clone());
    a
}

// ---- world ---------------------------------------------------------------------------------------------------------
#[derive(Clone)]
pub struct Sent { size: u32, api: u8, t: u64, to_inc: Option<i32>, ok: bool, from_named: bool, via_unique: bool, fwd: Option<(usize, usize)> }
#[derive(Clone, Copy)]
pub struct Got { seq: u32, sess: Option<u128>, t: u64, inc: i32 }
/// All messages one actor sends to another one over one transport.
pub struct Stream { src: (usize, i32, usize), dst: (usize, usize), udp: bool, sent: Vec<Sent>, got: Vec<Got>, leg: u16, seen: Vec<u8>, via: Option<(usize, usize)> }
pub struct Node { inc: i32, up: bool, crashed: bool, sys: Option<KompactSystem>, peers: Vec<Arc<Component<Peer>>>, refs: Vec<ActorRef<Cmd>>, uniq: Vec<ActorPath>, uinc: i32, lis: Option<Arc<Component<Listener>>>, busy: usize, shut_t: u64 }
#[derive(Clone)]
pub struct Status { t: u64, ev: NetworkStatus }
struct W { n: Vec<Node>, s: Vec<Stream>, key: BTreeMap<((usize, i32, usize), (usize, usize), bool, u16), usize>, ev: Vec<Vec<Status>>, dead: Vec<bool>, ended: Vec<bool>, blocks: Vec<(usize, usize)>, rules: BTreeMap<(i32, usize), Rules>, cfg: BTreeMap<String, i64>, sess: BTreeMap<u128, Sess>, lossy: bool, part_t: Option<u64>, corrupting: bool, peers: usize, uniqs: Vec<Vec<ActorPath>>, reqs: usize, done: usize, gaps: Vec<(usize, Vec<u32>, u32, u32, Option<u128>)>, vault: VecDeque<(usize, u64, NetMessage)>, allocs: Vec<Arc<Poison>>, bufs: BufferConfig, temps: Vec<usize>, nokeep: bool }
#[derive(Clone, Default)]
struct Sess { ends: Vec<(i32, SocketAddr)>, }
static WORLD: Global<W> = Global::new();
fn w() -> &'static mut W { WORLD.get() }
fn tag(m: usize, inc: i32) -> i32 { m as i32 + 8 * inc }
pub fn ip(m: usize) -> IpAddr { IpAddr::V4(Ipv4Addr::new(10, 0, 0, 1 + m as u8)) }
pub fn addr(m: usize) -> SocketAddr { SocketAddr::new(ip(m), 9000 + m as u16) }
fn machine_of(a: &SocketAddr) -> Option<usize> { (0..w().n.len()).find(|m| addr(*m) == *a) }
fn spath(m: usize) -> SystemPath { SystemPath::with_socket(Transport::Tcp, addr(m)) }
fn st(a: u64, b: u64, c: u64) { sim::state(a.wrapping_mul(31) ^ b.wrapping_mul(1031) ^ c.wrapping_mul(65537)) }
/// `leg` 0: sent directly, otherwise 1 + 2 * forwarder + (the forwarder puts itself down as the sender?)
fn stream(src: (usize, i32, usize), dst: (usize, usize), udp: bool, leg: u16) -> usize {
    let ww = w();
    if let Some(k) = ww.key.get(&(src, dst, udp, leg)) { return *k; }
    let k = ww.s.len();
    let via = if leg > 0 { let v = (leg as usize - 1) / 2; Some((v / 8, v % 8)) } else { None };
    ww.s.push(Stream { src, dst, udp, sent: Vec::with_capacity(64), got: Vec::with_capacity(64), leg, seen: vec![], via });
    ww.key.insert((src, dst, udp, leg), k);
    k
}
fn size_of(class: i64, r: u64, udp: bool) -> u32 {
    let chunk = w().cfg["chunk"] as u64;
    let s = match class & 7 { 0 => 0, 1 => 1 + r % 50, 2 => 60 + r % 300, 3 => (chunk - 60).saturating_sub(r % 120) + r / 7 % 90, 4 => chunk + r % (2 * chunk), 5 => 2000 + r % 6000, 6 => r % (chunk.min(4000)), _ => chunk / 2 + r % 60 };
    let s = s.min(w().cfg["maxsize"] as u64);
    (if udp { s.min(chunk.min(60000).saturating_sub(250)) } else { s }) as u32
}

// ---- actors --------------------------------------------------------------------------------------------------------
#[derive(Debug)]
pub enum Cmd { Send { dst: (usize, usize), n: i64, flags: i64 }, Fwd { via: (usize, usize), dst: (usize, usize), n: i64, flags: i64 }, Hold, Release, Vault(bool), Odd { m: usize, which: u64, udp: bool } }
#[derive(ComponentDefinition)]
pub struct Peer { ctx: ComponentContext<Self>, m: usize, inc: i32, k: usize, hold: bool, vault: bool, held: VecDeque<NetMessage> }
ignore_lifecycle!(Peer);
fn alias(k: usize) -> String { format!("peers/p{k}") }
fn path_to(dst: (usize, usize), unique: bool, tr: Transport) -> ActorPath {
    let mut p = if unique { w().n[dst.0].uniq[dst.1].clone() } else { ActorPath::Named(NamedPath::with_system(spath(dst.0), alias(dst.1).split('/').map(String::from).collect())) };
    p.set_protocol(tr);
    p
}
#[derive(Clone, Copy)]
pub struct Me { m: usize, inc: i32, k: usize }
fn do_send<C: ComponentTraits + ComponentLifecycle + ActorPathFactory>(c: &C, me: Me, dst: (usize, usize), flags: i64) {
    let (api, unique, udp, class, named) = ((flags & 7) as u8, flags >> 3 & 1 == 1, flags >> 4 & 1 == 1, flags >> 5 & 7, flags >> 9 & 1 == 1);
    let udp = udp && w().cfg["udp"] != 0;
    let s = stream((me.m, me.inc, me.k), dst, udp, 0);
    let seq = w().s[s].sent.len() as u32;
    let size = size_of(class, mix(s as u64, seq as u64), udp);
    let tr = if udp { Transport::Udp } else { Transport::Tcp };
    let to = path_to(dst, unique, tr);
    let pay = Pay { stream: s as u32, seq, size, hint: match api { 1 => 1, 5 => 2, _ => 0 }, clonable: flags >> 8 & 1 == 1, fwd: 0 };
    let to_inc = if unique { Some(w().n[dst.0].uinc) } else { None };
    w().s[s].sent.push(Sent { size, api, t: sim::now(), to_inc, ok: true, from_named: api == 4 || named, via_unique: unique, fwd: None });
    tr!("node {} peer {} sends {seq} of stream {s} ({size} bytes, api {api}{}) to node {} peer {}", me.m, me.k, if udp { ", udp" } else { "" }, dst.0, dst.1);
    let from = path_to((me.m, me.k), false, tr);
    let ok = match (api, named) {
        (2, false) => to.tell_serialised(pay, c).map_err(|e| format!("{e:?}")),
        (2, true) => to.tell_serialised_with_sender(pay, c, from).map_err(|e| format!("{e:?}")),
        (3, _) => match c.ctx().preserialise(&pay) { Ok(x) => if named { to.tell_preserialised_with_sender(x, c, from) } else { to.tell_preserialised(x, c) }.map_err(|e| format!("{e:?}")), Err(e) => Err(format!("{e:?}")) },
        (4, _) | (_, true) => { to.tell_with_sender(pay, c, from); Ok(()) }
        _ => { to.tell(pay, c); Ok(()) }
    };
    if let Err(e) = ok {
        tr!("send error {e}");
        w().s[s].sent[seq as usize].ok = false;
        ensure!("B01", w().cfg["tight"] != 0, "send-error", "sending {size} bytes eagerly failed with {e} although the buffers of the actor were far from their limit");
    }
}
impl Peer {
    fn me(&self) -> Me { Me { m: self.m, inc: self.inc, k: self.k } }
    fn send(&mut self, dst: (usize, usize), flags: i64) { do_send(self, self.me(), dst, flags); }
    /// Sends a message that `via` passes on to `dst`.
    fn send_via(&mut self, via: (usize, usize), dst: (usize, usize), flags: i64) {
        let (api, class, replace) = ((flags & 7) as u8, flags >> 5 & 7, flags >> 9 & 1 == 1);
        let s = stream((self.m, self.inc, self.k), dst, false, 1 + 2 * (via.0 as u16 * 8 + via.1 as u16) + replace as u16);
        let seq = w().s[s].sent.len() as u32;
        let size = size_of(class, mix(s as u64, seq as u64), false);
        let to = path_to(via, flags >> 3 & 1 == 1 && up(via.0), Transport::Tcp);
        let pay = Pay { stream: s as u32, seq, size, hint: match api { 1 => 1, 5 => 2, _ => 0 }, clonable: flags >> 8 & 1 == 1, fwd: 1 + (dst.0 * 8 + dst.1) as u16 * 2 + replace as u16 };
        w().s[s].sent.push(Sent { size, api, t: sim::now(), to_inc: None, ok: true, from_named: api == 4 || replace, via_unique: false, fwd: Some(dst) });
        tr!("node {} peer {} sends {seq} of stream {s} ({size} bytes, api {api}) to node {} peer {} via node {} peer {}", self.m, self.k, dst.0, dst.1, via.0, via.1);
        let me = path_to((self.m, self.k), false, Transport::Tcp);
        match api { 2 => { if to.tell_serialised(pay, self).is_err() { w().s[s].sent[seq as usize].ok = false; } } 4 => to.tell_with_sender(pay, self, me), _ => to.tell(pay, self) }
    }
    fn got(&mut self, m: NetMessage) { self.me().got(m); }
}
impl Me {
    fn got(&self, m: NetMessage) {
        if w().dead[tag(self.m, self.inc) as usize] { return; }
        let sess = m.session().map(|s| s.as_u128());
        let (sender, receiver) = (m.sender().clone(), m.receiver.clone());
        let id = *m.ser_id();
        let serialised = format!("{:?}", m.data).len(); let _ = serialised;
        let r = match id { x if x > SER_F && x < SER_F + 256 => m.data.try_deserialise_unchecked::<Pay, DA>(), SER_A => m.data.try_deserialise::<Pay, DA>(), SER_B => m.data.try_deserialise::<Pay, DB>(), x => { ensure!("N01", false, "unknown-message", "node {} peer {} received a message with serialisation id {x} that nobody sent", self.m, self.k); return; } };
        let p = match r { Ok(p) => p, Err(e) => { let e = format!("{e:?}"); for id in ["N01", "B01", "N09", "N10"] { ensure!(id, false, "corrupt", "node {} peer {} received a message that does not deserialise to what was sent: {e}", self.m, self.k); } return; } };
        self.accept(p, sess, &sender, &receiver);
    }
    /// Called for everything that arrives over TCP from another system.
    fn accept(&self, p: Pay, sess: Option<u128>, sender: &ActorPath, receiver: &ActorPath) {
        let ww = w();
        let me = (self.m, self.k);
        ensure!("N01", (p.stream as usize) < ww.s.len() && (p.seq as usize) < ww.s[p.stream as usize].sent.len(), "never-sent", "node {} peer {} received message {} of stream {} which was never sent", self.m, self.k, p.seq, p.stream);
        let (Some(s), _) = (ww.s.get_mut(p.stream as usize), ()) else { return };
        let Some(x) = s.sent.get(p.seq as usize).cloned() else { return };
        ensure!("N01", x.size == p.size, "corrupt", "stream {} message {}: sent with {} bytes and received with {}", p.stream, p.seq, x.size, p.size);
        ensure!("N01", s.dst == me, "wrong-receiver", "message {} of stream {} for node {} peer {} was delivered to node {} peer {}", p.seq, p.stream, s.dst.0, s.dst.1, self.m, self.k);
        if let Some(i) = x.to_inc { ensure!("N01", i == self.inc, "wrong-receiver", "message {} of stream {} for the unique path of incarnation {i} of node {} was delivered to incarnation {}", p.seq, p.stream, self.m, self.inc); }
        let tr = if s.udp { Transport::Udp } else { Transport::Tcp };
        let mut want = if let (Some(v), true) = (s.via, s.leg & 1 == 0) { path_to(v, false, tr) } else if x.from_named { path_to((s.src.0, s.src.2), false, tr) } else { ww.uniqs[tag(s.src.0, s.src.1) as usize][s.src.2].clone() };
        want.set_protocol(tr);
        ensure!("N01", *sender == want, "wrong-sender", "message {} of stream {}: the sender's path is {sender} instead of {want}", p.seq, p.stream);
        let want = if x.via_unique { ww.uniqs[tag(self.m, self.inc) as usize][self.k].clone() } else { path_to(me, false, tr) };
        let mut r2 = receiver.clone(); r2.set_protocol(tr); let mut want = want; want.set_protocol(tr);
        ensure!("N01", r2 == want, "wrong-receiver-path", "message {} of stream {}: the receiver's path is {receiver} instead of {want}", p.seq, p.stream);
        let g = Got { seq: p.seq, sess, t: sim::now(), inc: self.inc };
        tr!("node {} peer {} received {} of stream {} session {:x?}", self.m, self.k, p.seq, p.stream, sess.map(|x| x as u16));
        st(0x21, p.stream as u64 * 8 + s.got.len() as u64 % 8, p.seq as u64);
        ensure!("N13", !ww.ended[tag(self.m, self.inc) as usize], "after-shutdown", "node {} peer {} received message {} of stream {} after its system had been shut down", self.m, self.k, p.seq, p.stream);
        if s.via.is_none() && s.src.0 != self.m && !s.udp {
            if let Some(since) = ww.rules.get(&(tag(self.m, self.inc), s.src.0)).and_then(|r| r.blocked_since) { ensure!("N07", x.t < since, "delivered-although-blocked", "message {} of stream {} which node {} sent at {} us was delivered on node {} although node {} had been blocked there since {} us", p.seq, p.stream, s.src.0, x.t / 1000, self.m, s.src.0, since / 1000); }
        }
        let remote = s.via.map_or(s.src.0, |v| v.0) != s.dst.0;
        if !s.udp && remote { ensure!("N02", sess.is_some() , "no-session", "message {} of stream {} came over TCP without a session", p.seq, p.stream); }
        while s.seen.len() <= p.seq as usize { s.seen.push(0); }
        s.seen[p.seq as usize] += 1;
        let last = s.got.last().copied();
        s.got.push(g);
        if !s.udp {
            for id in ["N02", "N03", "N12", "N10"] { ensure!(id, s.seen[p.seq as usize] == 1, "duplicate", "message {} of stream {} was delivered twice (sessions {:x?} and {:x?})", p.seq, p.stream, last.and_then(|l| l.sess), sess); }
            if let Some(l) = last {
                for id in ["N02", "N12"] { ensure!(id, p.seq > l.seq, "reordered", "stream {} (node {} to node {}): message {} ({}, sent at {} us) was delivered after message {}; sessions {:x?} and {:x?}", p.stream, s.src.0, s.dst.0, p.seq, if remote { "remote" } else { "local" }, x.t / 1000, l.seq, l.sess.map(|x| x as u16), sess.map(|x| x as u16)); }
                if l.sess == sess && l.inc == self.inc && p.seq > l.seq && s.via.is_none() {
                    let miss: Vec<u32> = (l.seq + 1..p.seq).filter(|q| { let m = &s.sent[*q as usize]; m.ok && m.to_inc.is_none_or(|i| i == self.inc) }).collect();
                    if !miss.is_empty() && !ww.corrupting && ww.cfg["tight"] == 0 { ww.gaps.push((p.stream as usize, miss, l.seq, p.seq, sess)); }
                }
            }
            if let Some(x) = sess { let e = ww.sess.entry(x).or_default(); let a = (tag(self.m, self.inc), addr(s.via.map_or(s.src.0, |v| v.0))); if !e.ends.contains(&a) { e.ends.push(a); } }
        } else if w().cfg["udpdup"] == 0 { ensure!("N09", s.seen[p.seq as usize] == 1, "duplicate", "datagram {} of stream {} was delivered twice although the network duplicated nothing", p.seq, p.stream); }
    }
}
impl Actor for Peer {
    type Message = Cmd;
    fn receive_local(&mut self, c: Cmd) -> HandlerResult {
        if w().cfg["alloc"] != 0 { self.ctx.init_buffers(Some(w().bufs.clone()), Some(poison(w().cfg["chunk"] as usize, false))); }
        match c {
            Cmd::Send { dst, n, flags } => { for _ in 0..n { self.send(dst, flags); } }
            Cmd::Fwd { via, dst, n, flags } => { for _ in 0..n { self.send_via(via, dst, flags); } }
            Cmd::Odd { m, which, udp } => {
                let tr = if udp { Transport::Udp } else { Transport::Tcp };
                let names: &[&[&str]] = &[&[], &["nobody"], &["peers"], &["peers", "nobody"], &["nobody", "*"], &["nobody", "?"], &["peers", "p0", "x"]];
                let name = names[which as usize % names.len()].iter().map(|x| x.to_string()).collect();
                let mut to = ActorPath::Named(NamedPath::with_system(spath(m), name));
                if which >> 8 & 3 == 3 { to = ActorPath::Unique(UniquePath::with_system(spath(m), uuid::Uuid::from_u128(which as u128))); }
                to.set_protocol(tr);
                let from = if which >> 16 & 1 == 1 { let mut p = ActorPath::Named(NamedPath::with_system(spath(self.m), vec![])); p.set_protocol(tr); p } else { path_to((self.m, self.k), false, tr) };
                tr!("node {} peer {} sends a message to {to} from {from}", self.m, self.k);
                to.tell_with_sender(Pay { stream: 0, seq: 0, size: 5, hint: 0, clonable: true, fwd: 0 }, self, from);
            }
            Cmd::Vault(on) => self.vault = on,
            Cmd::Hold => self.hold = true,
            Cmd::Release => { self.hold = false; while let Some(m) = self.held.pop_front() { self.got(m); } }
        }
        w().done += 1;
        Handled::OK
    }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        let id = *m.ser_id();
        if id > SER_F && id < SER_F + 256 {
            let (d, replace) = ((id - SER_F - 1) as usize / 2, (id - SER_F - 1) & 1 == 1);
            let dst = (d / 8, d % 8);
            if (self.m, self.k) != dst {
                tr!("node {} peer {} forwards a message to node {} peer {}", self.m, self.k, dst.0, dst.1);
                let to = path_to(dst, false, Transport::Tcp);
                if replace { to.forward_with_sender(m, self, path_to((self.m, self.k), false, Transport::Tcp)) } else { to.forward_with_original_sender(m, self) }
                return Handled::OK;
            }
        }
        if self.vault && !w().nokeep && id < SER_F { let t = tag(self.m, self.inc); if !w().dead[t as usize] { w().vault.push_back((self.k, (t as u64) << 32 | sim::now() / 1_000_000, m)); } }
        else if self.hold { self.held.push_back(m); } else { self.got(m); }
        Handled::OK
    }
}
/// Sends a few messages in the name of a peer and goes away at once, while they may still be under way.
#[derive(ComponentDefinition)]
pub struct Temp { ctx: ComponentContext<Self>, young: bool, me: Me, dst: (usize, usize), n: i64, flags: i64, how: i64 }
impl ComponentLifecycle for Temp {
    fn on_start(&mut self) -> HandlerResult {
        if w().cfg["alloc"] != 0 { self.ctx.init_buffers(Some(w().bufs.clone()), Some(poison(w().cfg["chunk"] as usize, false))); }
        for _ in 0..self.n { do_send(self, self.me, self.dst, self.flags | 512); }
        self.ran();
        if self.how == 0 { Handled::SHUTDOWN } else { if self.how == 1 { self.ctx.suicide(); } Handled::OK }
    }
}
impl Temp { fn ran(&mut self) { if self.young { self.young = false; if !w().dead[tag(self.me.m, self.me.inc) as usize] { w().temps[self.me.m] -= 1; } } } }
impl Drop for Temp { fn drop(&mut self) { self.ran(); } }
impl Actor for Temp { type Message = (); fn receive_local(&mut self, _: ()) -> HandlerResult { Handled::OK } fn receive_network(&mut self, _: NetMessage) -> HandlerResult { Handled::OK } }
#[derive(ComponentDefinition)]
pub struct Listener { ctx: ComponentContext<Self>, port: RequiredPort<NetworkStatusPort>, m: usize, inc: i32 }
ignore_lifecycle!(Listener);
impl Require<NetworkStatusPort> for Listener {
    fn handle(&mut self, ev: NetworkStatus) -> HandlerResult {
        tr!("node {} status {}", self.m, show(&ev));
        st(0x31, self.m as u64, hash_str(&show(&ev)) & 0xff);
        let t = tag(self.m, self.inc) as usize;
        if !w().dead[t] { w().ev[t].push(Status { t: sim::now(), ev }); check_status(self.m, self.inc); block_event(self.m, self.inc, &w().ev[t].last().unwrap().ev.clone()); }
        Handled::OK
    }
}
impl Actor for Listener {
    type Message = NetworkStatusRequest;
    fn receive_local(&mut self, r: NetworkStatusRequest) -> HandlerResult { tr!("node {} requests {r:?}", self.m); self.port.trigger(r); w().done += 1; Handled::OK }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult { Handled::OK }
}
fn show(e: &NetworkStatus) -> String {
    let s = |x: &SessionId| format!("{:04x}", x.as_u128() as u16);
    match e { NetworkStatus::ConnectionEstablished(p, i) => format!("established {} {}", p.socket_address(), s(i)), NetworkStatus::ConnectionLost(p, i) => format!("lost {} {}", p.socket_address(), s(i)), NetworkStatus::ConnectionClosed(p, i) => format!("closed {} {}", p.socket_address(), s(i)), o => format!("{o:?}") }
}
/// The status events of a node about each of its neighbours must alternate properly.
fn check_status(m: usize, inc: i32) {
    let evs = &w().ev[tag(m, inc) as usize];
    let last = evs.last().unwrap();
    let prior = &evs[..evs.len() - 1];
    let open = |p: &SystemPath| { let mut o = None; for e in prior { match &e.ev { NetworkStatus::ConnectionEstablished(q, i) if q.socket_address() == p.socket_address() => o = Some(*i), NetworkStatus::ConnectionLost(q, _) | NetworkStatus::ConnectionClosed(q, _) if q.socket_address() == p.socket_address() => o = None, NetworkStatus::ConnectionDropped(q) | NetworkStatus::BlockedSystem(q) if q.socket_address() == p.socket_address() => o = None, NetworkStatus::CriticalNetworkFailure => o = None, _ => () } } o };
    match &last.ev {
        NetworkStatus::ConnectionEstablished(p, i) => {
            ensure!("N05", !prior.iter().any(|e| matches!(&e.ev, NetworkStatus::ConnectionEstablished(_, j) if i == j)), "established-twice", "node {m} was told twice that session {:x} is established", i.as_u128() as u16);
            if let Some(o) = open(p) { ensure!("N05", false, "established-while-open", "node {m} was told that session {:x} with {} is established while session {:x} was neither lost nor closed", i.as_u128() as u16, p.socket_address(), o.as_u128() as u16); }
            let e = w().sess.entry(i.as_u128()).or_default(); let a = (tag(m, inc), p.socket_address()); if !e.ends.contains(&a) { e.ends.push(a); }
        }
        NetworkStatus::ConnectionLost(p, i) | NetworkStatus::ConnectionClosed(p, i) => {
            // a session may have been established before this listener's port was connected
            let first = !prior.iter().any(|e| matches!(&e.ev, NetworkStatus::ConnectionEstablished(q, _) | NetworkStatus::ConnectionLost(q, _) | NetworkStatus::ConnectionClosed(q, _) if q.socket_address() == p.socket_address()));
            ensure!("N05", open(p) == Some(*i) || first, "ended-without-start", "node {m} was told that session {:x} with {} has ended, but the open session is {:x?}", i.as_u128() as u16, p.socket_address(), open(p).map(|x| x.as_u128() as u16));
        }
        _ => (),
    }
}

/// What a system has confirmed to block, as far as one other system is concerned.
#[derive(Clone, Default)]
struct Rules { ip: bool, sys: bool, allow: bool, blocked_since: Option<u64>, allows_pending: u32, unsure: bool }
fn covers(ev: &NetworkStatus, b: usize) -> bool { match ev { NetworkStatus::BlockedSystem(p) | NetworkStatus::AllowedSystem(p) => p.socket_address() == addr(b), NetworkStatus::BlockedIp(i) | NetworkStatus::AllowedIp(i) => *i == ip(b), NetworkStatus::BlockedIpNet(n) | NetworkStatus::AllowedIpNet(n) => n.contains(&ip(b)), _ => false } }
fn block_event(m: usize, inc: i32, ev: &NetworkStatus) {
    for b in 0..w().n.len() { if b != m && covers(ev, b) {
        let r = w().rules.entry((tag(m, inc), b)).or_default();
        match ev { NetworkStatus::BlockedSystem(_) => { r.sys = true; r.allow = false; } NetworkStatus::AllowedSystem(_) => { r.sys = false; r.allow = true; } NetworkStatus::BlockedIp(_) | NetworkStatus::BlockedIpNet(_) => r.ip = true, _ => r.ip = false }
        if matches!(ev, NetworkStatus::AllowedIp(_) | NetworkStatus::AllowedIpNet(_)) { r.allows_pending = r.allows_pending.saturating_sub(1); }
        if matches!(ev, NetworkStatus::AllowedSystem(_)) { r.unsure = false; }
        let blocked = !r.allow && !r.unsure && (r.sys || r.ip);
        if blocked && r.allows_pending == 0 { if r.blocked_since.is_none() { r.blocked_since = Some(sim::now()); } } else { r.blocked_since = None; }
    } }
}

// ---- nodes ---------------------------------------------------------------------------------------------------------
fn boot(plan: &Plan, m: usize) -> bool {
    let inc = w().n[m].inc;
    sim::set_node(tag(m, inc));
    let g = |k: &str| plan.get(k);
    let mut b = BufferConfig::default();
    b.chunk_size(g("chunk") as usize); b.initial_chunk_count(g("chunks0").max(1) as usize); b.max_chunk_count(g("chunks1").max(2) as usize); b.encode_buf_min_free_space(g("minfree") as usize);
    w().bufs = b.clone();
    let mut nc = if g("alloc") != 0 { NetworkConfig::with_custom_allocator(addr(m), b, poison(g("chunk") as usize, true)) } else { NetworkConfig::with_buffer_config(addr(m), b) };
    nc.set_tcp_nodelay(true);
    nc.set_connection_retry_interval(g("retry_ms") as u64);
    nc.set_max_connection_retry_attempts(g("attempts") as u8);
    nc.set_boot_timeout(60_000);
    if g("soft") > 0 { nc.set_soft_connection_limit(g("soft") as u32); nc.set_hard_connection_limit(g("hard") as u32); }
    let mut conf = crate::local::config(plan);
    conf.system_components(DeadletterBox::new, nc.build());
    let sys = match conf.build().wait() { Ok(s) => s, Err(e) => { sim::set_node(DRIVER); tr!("boot of node {m} failed {e:?}"); for id in ["N11", "N13"] { ensure!(id, false, "boot-failed", "incarnation {inc} of node {m} could not be started at the address of the previous one: {e:?}"); } return false; } };
    let lis = sys.create(|| Listener { ctx: ComponentContext::uninitialised(), port: RequiredPort::uninitialised(), m, inc });
    lis.on_definition(|l| sys.connect_network_status_port(&mut l.port));
    sys.start_notify(&lis).wait();
    let mut peers = vec![]; let mut uniq = vec![];
    for k in 0..w().peers {
        let p = sys.create(|| Peer { ctx: ComponentContext::uninitialised(), m, inc, k, hold: false, vault: false, held: VecDeque::new() });
        uniq.push(sys.register(&p).wait().expect("unique registration"));
        sys.register_by_alias(&p, alias(k)).wait().expect("alias registration");
        sys.start_notify(&p).wait();
        peers.push(p);
    }
    sim::set_node(DRIVER);
    let n = &mut w().n[m];
    n.refs = peers.iter().map(|p| p.actor_ref()).collect();
    w().uniqs[tag(m, inc) as usize] = uniq.clone();
    n.uniq = uniq; n.uinc = inc; n.peers = peers; n.lis = Some(lis); n.sys = Some(sys); n.up = true; n.crashed = false;
    tr!("node {m} incarnation {inc} is up");
    true
}
fn cmd(m: usize, k: usize, c: Cmd) { let n = &w().n[m]; if n.up { w().reqs += 1; n.refs[k].tell(c); } }
fn request(m: usize, r: NetworkStatusRequest) { let n = &w().n[m]; if n.up { w().reqs += 1; n.lis.as_ref().unwrap().actor_ref().tell(r); } }
fn send(a: usize, k: usize, dst: (usize, usize), n: i64, flags: i64) { cmd(a, k, Cmd::Send { dst, n, flags }); }
fn crash(m: usize, host: bool) {
    let n = &mut w().n[m];
    if !n.up { return; }
    n.up = false; n.crashed = true;
    let t = tag(m, n.inc);
    w().temps[m] = 0;
    w().dead[t as usize] = true;
    tr!("node {m} crashes{}", if host { " with its machine" } else { "" });
    sim::crash_node(t, host);
    // its threads go on as zombies; nothing of it may be dropped from here
    let n = &mut w().n[m];
    std::mem::forget(n.sys.take()); std::mem::forget(std::mem::take(&mut n.peers)); std::mem::forget(std::mem::take(&mut n.refs)); std::mem::forget(n.lis.take());
}
fn restart(plan: &Plan, m: usize) {
    if w().n[m].up { return; }
    let t = tag(m, w().n[m].inc);
    sim::revive_node(t);
    sim::fault_note(28);
    w().n[m].inc += 1;
    boot(plan, m);
}
const MAGIC: u32 = 0xC0A1BA11;
fn head(magic: u32, len: u32, ty: u8) -> Vec<u8> { let mut v = vec![]; v.extend_from_slice(&magic.to_be_bytes()); v.extend_from_slice(&len.to_be_bytes()); v.push(ty); v }
fn frame(ty: u8, body: &[u8]) -> Vec<u8> { let mut v = head(MAGIC, body.len() as u32, ty); v.extend_from_slice(body); v }
/// Where the uninvited client claims to be.
const STRANGER: [u8; 6] = [10, 0, 0, 8, 30, 97];
fn hello(r: &mut Rng, id: bool) -> Vec<u8> {
    let mut b = vec![4u8]; b.extend_from_slice(&STRANGER);
    if id { for _ in 0..16 { b.push(r.next() as u8); } }
    match r.next() % 12 { 0 => b[0] = r.next() as u8, 1 => { let n = r.next() as usize % b.len(); b.truncate(n); } 2 => b[0] = 6, 3 => b.push(1), _ => () }
    b
}
/// A message for a peer of node `m` that is wrong in one place.
fn bad_message(m: usize, r: &mut Rng, len: usize) -> Vec<u8> {
    let mut b = vec![];
    let me = SystemPath::new(Transport::Tcp, IpAddr::V4(Ipv4Addr::new(10, 0, 0, 8)), 7777);
    let name = |r: &mut Rng| match r.next() % 8 { 0 => vec![], 1 => vec!["nobody".to_string()], 2 => vec!["peers".to_string()], 3 => vec!["peers".to_string(), "*".to_string()], 4 => vec!["peers".to_string(), "?".to_string()], _ => alias(0).split('/').map(String::from).collect() };
    let src = ActorPath::Named(NamedPath::with_system(me, name(r)));
    let dst = if r.chance(1, 3) { w().n[m].uniq.first().cloned().unwrap_or(src.clone()) } else { ActorPath::Named(NamedPath::with_system(spath(m), name(r))) };
    let _ = src.serialise(&mut b); let mid = b.len(); let _ = dst.serialise(&mut b); let end = b.len();
    b.extend_from_slice(&9999u64.to_be_bytes());
    b.extend((0..len).map(|_| r.next() as u8));
    match r.next() % 10 {
        0 | 1 => { let n = r.next() as usize % b.len(); b.truncate(n); }
        2 => { let n = mid + r.next() as usize % (end - mid); b.truncate(n); }
        3 | 4 => { let n = r.next() as usize % end; b[n] ^= 1 << (r.next() % 8); }
        5 => { let n = mid + r.next() as usize % (end - mid); b[n] = r.next() as u8; }
        6 => { for _ in 0..4 { let n = r.next() as usize % end; b[n] = *r.pick(&[0, 0x2f, 0x23, 0x2a, 0xff, 0x80]); } }
        7 => { b.truncate(end); b.extend_from_slice(&[0; 3]); }
        _ => (),
    }
    b
}
/// Uninvited traffic: a client that does not follow the protocol, datagrams of anybody, messages to paths that do not exist.
fn garbage(m: usize, kind: i64, len: i64, seed: u64) {
    use std::io::{Read, Write};
    sim::fault_note(31);
    let mut r = Rng::new(seed);
    if kind & 128 != 0 {
        // an actor of another system sends to a place that is not there
        let a = r.next() as usize % w().n.len();
        cmd(a, 0, Cmd::Odd { m, which: r.next(), udp: kind & 16 != 0 });
        return;
    }
    std::thread::spawn(move || {
        if kind & 64 != 0 {
            let Ok(u) = std::net::UdpSocket::bind("10.0.0.8:0") else { return };
            for _ in 0..1 + (kind >> 4 & 3) {
                let v = match r.next() % 8 { 0 => vec![], 1 => head(MAGIC, len as u32, 2), 2 => head(MAGIC, 0, 2), 3 => frame(2, &bad_message(m, &mut r, len as usize)), 4 => { let b = hello(&mut r, false); frame(4, &b) },
                    5 => { let mut v = frame(2, &bad_message(m, &mut r, len as usize)); let n = r.next() as usize % v.len(); v.truncate(n); v } 6 => { let mut v = frame(2, &bad_message(m, &mut r, 9)); v.extend(frame(2, &bad_message(m, &mut r, 9))); v } _ => (0..len).map(|_| r.next() as u8).collect() };
                let _ = u.send_to(&v, addr(m));
            }
            return;
        }
        let Ok(mut c) = std::net::TcpStream::connect(addr(m)) else { return };
        let mut v = match kind % 8 {
            0 => (0..len).map(|_| r.next() as u8).collect::<Vec<u8>>(),
            1 => head(MAGIC, len as u32, 2 + (r.next() % 7) as u8),
            2 => head(MAGIC, 0, 2 + (r.next() % 7) as u8),
            3 => frame(2, &bad_message(m, &mut r, len as usize)),
            4 => { let b = hello(&mut r, false); frame(4, &b) },
            5 => { let b = hello(&mut r, true); frame(5, &b) },
            _ => {
                // a handshake, and then something wrong
                let mut b = vec![4u8]; b.extend_from_slice(&STRANGER); b.extend((0..16).map(|_| r.next() as u8));
                let _ = c.write_all(&frame(5, &b));
                if r.chance(1, 2) { let mut b = [0u8; 64]; let _ = c.read(&mut b); }
                let mut v = vec![];
                for _ in 0..1 + r.next() % 3 { v.extend(match r.next() % 9 { 0 => head(MAGIC, 0, 2), 1 => { let b = hello(&mut r, false); frame(4, &b) } 2 => { let b = hello(&mut r, true); frame(5, &b) } 3 => head(MAGIC, 0, 6), 4 => head(MAGIC, 0, 7), 5 => head(MAGIC, r.next() as u32 % 100, 8), _ => frame(2, &bad_message(m, &mut r, len as usize)) }); }
                v
            }
        };
        if kind & 8 != 0 { v.extend((0..len).map(|_| r.next() as u8)); }
        let _ = c.write_all(&v);
        if kind & 16 != 0 { let mut b = [0u8; 64]; let _ = c.read(&mut b); }
        if kind & 32 != 0 { sleep_ns(200 * MS); }
    });
}
fn req_of(block: bool, to: usize, kind: i64) -> NetworkStatusRequest {
    let net = || format!("10.0.0.{}/{}", 1 + to, if kind & 4 != 0 { 24 } else { 32 }).parse().unwrap();
    match (block, kind & 3) {
        (true, 0) | (true, 3) => NetworkStatusRequest::BlockSystem(spath(to)), (true, 1) => NetworkStatusRequest::BlockIp(ip(to)), (true, _) => NetworkStatusRequest::BlockIpNet(net()),
        (false, 0) | (false, 3) => NetworkStatusRequest::AllowSystem(spath(to)), (false, 1) => NetworkStatusRequest::AllowIp(ip(to)), (false, _) => NetworkStatusRequest::AllowIpNet(net()),
    }
}
/// An allow request that has not been confirmed yet may already have been carried out.
fn note_block(m: usize, to: usize, block: bool, kind: i64) {
    for b in 0..w().n.len() { if b != m && (b == to || kind & 7 == 6) {
        w().blocks.push((m, b));
        if !block { let r = w().rules.entry((tag(m, w().n[m].inc), b)).or_default(); r.blocked_since = None; if kind & 3 == 1 || kind & 3 == 2 { r.allows_pending += 1; } else { r.unsure = true; } }
    } }
}
/// A connection attempt that a partition holds up for about a retry interval is abandoned, which may lose messages.
fn healed() { if let Some(t) = w().part_t.take() { if sim::now() - t > w().cfg["retry_ms"] as u64 * MS / 3 { w().lossy = true; } } }
fn up(m: usize) -> bool { w().n[m].up }
fn op(plan: &Plan, o: &Op, ix: usize) {
    let n = w().n.len();
    let nd = |x: i64| x.unsigned_abs() as usize % n;
    let pk = |x: i64| x.unsigned_abs() as usize % w().peers;
    let dst = |x: i64| (nd(x / 8), pk(x % 8));
    let a = &o.a;
    match o.k {
        N_SEND => send(nd(a[0]), pk(a[1]), dst(a[2]), a[3].clamp(1, 200), a[4]),
        N_BOTH => { let (x, y) = (nd(a[0]), nd(a[1])); if x != y { send(x, 0, (y, 0), a[2].clamp(1, 50), a[3]); send(y, 0, (x, 0), a[2].clamp(1, 50), a[3]); } }
        N_SLEEP => sleep_ns(a[0].unsigned_abs() * 1000),
        N_RESET => { let (x, y) = (nd(a[0]), nd(a[1])); if x != y { w().lossy = true; sim::reset_conns(tag(x, w().n[x].inc), tag(y, w().n[y].inc)); } }
        N_PART => { let (x, y) = (nd(a[0]), nd(a[1])); if x != y { if w().part_t.is_none() { w().part_t = Some(sim::now()); } if a[2] == 1 { sim::partition_oneway(x as i32, y as i32, true) } else { sim::partition(x as i32, y as i32, true) } } }
        N_HEAL => { for x in 0..n as i32 { for y in 0..n as i32 { if x != y { sim::partition_oneway(x, y, false); } } } healed(); }
        N_CRASH => { w().lossy = true; crash(nd(a[0]), a[1] == 1) }
        N_RESTART => restart(plan, nd(a[0])),
        N_DISC => if nd(a[0]) != nd(a[1]) { request(nd(a[0]), NetworkStatusRequest::DisconnectSystem(spath(nd(a[1])))) },
        N_CONNECT => if nd(a[0]) != nd(a[1]) { request(nd(a[0]), NetworkStatusRequest::ConnectSystem(spath(nd(a[1])))) },
        N_BLOCK | N_ALLOW => if nd(a[0]) != nd(a[1]) { note_block(nd(a[0]), nd(a[1]), o.k == N_BLOCK, a[2]); request(nd(a[0]), req_of(o.k == N_BLOCK, nd(a[1]), a[2])) },
        N_HOLD => cmd(nd(a[0]), pk(a[1]), Cmd::Hold),
        N_RELEASE => cmd(nd(a[0]), pk(a[1]), Cmd::Release),
        N_PARAM => sim::set_param((a[0] % 9) as i32, a[1].unsigned_abs() as u32),
        N_GARBAGE => { garbage(nd(a[0]), a[1], a[2].clamp(0, 5000), mix(ix as u64, a[3] as u64)); }
        N_FWD => { let (x, v, d) = (nd(a[0]), dst(a[2]), dst(a[3])); if v != d { cmd(x, pk(a[1]), Cmd::Fwd { via: v, dst: d, n: (a[4] >> 10).clamp(1, 50), flags: a[4] & 1023 }); } }
        N_TEMP => { let x = nd(a[0]); if up(x) {
            sim::set_node(tag(x, w().n[x].inc));
            let me = Me { m: x, inc: w().n[x].inc, k: 0 };
            let sys = w().n[x].sys.as_ref().unwrap();
            let (d, n, flags, how) = (dst(a[1]), a[2].clamp(1, 50), a[3], a[4] & 3);
            w().temps[x] += 1;
            let t = sys.create(|| Temp { ctx: ComponentContext::uninitialised(), young: true, me, dst: d, n, flags, how });
            sys.start(&t);
            if how == 2 { sys.kill(t); }
            sim::set_node(DRIVER);
        } }
        N_VAULT => cmd(nd(a[0]), pk(a[1]), Cmd::Vault(a[2] != 0)),
        N_UNVAULT => unvault(a[0].unsigned_abs() as usize),
        N_SHUT => { w().lossy = true; shutdown_node(nd(a[0])); }
        N_WAIT => { wait_until(a[0].unsigned_abs() * 1000, || missing().is_empty()); }
        _ => (),
    }
}
/// Reads and drops the oldest `n` messages kept.
fn unvault(n: usize) {
    for _ in 0..n { let Some((k, x, m)) = w().vault.pop_front() else { return };
        let t = (x >> 32) as i32;
        tr!("reading a message kept since {} ms", x as u32);
        Me { m: (t & 7) as usize, inc: t / 8, k }.got(m);
    }
}
/// No system on the way of these messages has ever blocked another one on the way.
fn unaffected(s: &Stream) -> bool { let b = |x: usize, y: usize| w().blocks.contains(&(x, y)) || w().blocks.contains(&(y, x)); let v = s.via.map_or(s.src.0, |v| v.0); !b(s.src.0, v) && !b(v, s.dst.0) }
/// Messages that have not arrived: (stream, seq)
/// The sender has been told since that it was given up.
fn given_up(s: &Stream, q: usize) -> bool { w().ev[tag(s.src.0, s.src.1) as usize].iter().any(|e| matches!(&e.ev, NetworkStatus::ConnectionDropped(p) if p.socket_address() == addr(s.dst.0)) && e.t >= s.sent[q].t) }
fn missing() -> Vec<(usize, u32)> {
    let mut v = vec![];
    for (i, s) in w().s.iter().enumerate() {
        if s.udp || !unaffected(s) { continue; }
        for (q, x) in s.sent.iter().enumerate() { if x.ok && s.seen.get(q).copied().unwrap_or(0) == 0 { v.push((i, q as u32)); } }
    }
    v
}
fn arrived(s: usize, from: usize) -> bool { w().s[s].got.iter().any(|g| g.seq as usize >= from) }

pub fn run(plan: &Plan) {
    let n = plan.get("nodes").clamp(1, 6) as usize;
    let peers = plan.get("peers").clamp(1, 4) as usize;
    sim::set_node(DRIVER);
    let mut cfg = BTreeMap::new();
    for k in ["chunk", "maxsize", "udp", "udpdup", "tight", "alloc", "retry_ms", "attempts"] { cfg.insert(k.to_string(), plan.get(k)); }
    WORLD.init(W { n: (0..n).map(|_| Node { inc: 0, up: false, crashed: false, sys: None, peers: vec![], refs: vec![], uniq: vec![], uinc: 0, lis: None, busy: 0, shut_t: 0 }).collect(), s: Vec::with_capacity(4096), key: BTreeMap::new(), ev: (0..256).map(|_| Vec::with_capacity(64)).collect(), dead: vec![false; 256], ended: vec![false; 256], blocks: vec![], rules: BTreeMap::new(), cfg, sess: BTreeMap::new(), lossy: false, part_t: None, corrupting: false, peers, uniqs: vec![vec![]; 256], reqs: 0, done: 0, gaps: vec![], vault: VecDeque::with_capacity(4096), allocs: vec![], bufs: BufferConfig::default(), temps: vec![0; n], nokeep: false });
    for m in 0..n { boot(plan, m); }
    // faults start only now
    for (k, which) in [("f_eintr", 0), ("f_partial", 1), ("f_again", 2), ("f_rst", 3), ("f_connfail", 4), ("f_udrop", 5), ("f_udup", 6)] { sim::set_param(which, plan.get(k) as u32); }
    if plan.get("f_rst") > 0 || plan.get("f_connfail") > 0 { w().lossy = true; }
    for (i, o) in plan.ops.iter().enumerate() { tr!("op {} {:?}", op_name(o.k), o.a); op(plan, o, i); limits(plan, false); }
    end_phase(plan);
    if plan.get("shutdown") != 0 { shutdown_all(); }
    unvault(usize::MAX);
    if plan.get("shutdown") != 0 { released(); }
}
fn end_phase(plan: &Plan) {
    tr!("end phase");
    sim::quiet();
    healed();
    let n = w().n.len();
    for m in 0..n { for k in 0..w().peers { cmd(m, k, Cmd::Vault(false)); cmd(m, k, Cmd::Release); } }
    if plan.get("nokeep") != 0 { w().nokeep = true; unvault(usize::MAX); }
    let retry = plan.get("retry_ms") as u64 * MS;
    rules_probe(plan);
    if !w().blocks.is_empty() {
        sleep_ns(300 * MS);
        for m in 0..n { for b in 0..n { if b != m { for kind in 0..3 { note_block(m, b, false, kind); request(m, req_of(false, b, kind)); } } } }
        sleep_ns(300 * MS);
    }
    // (narrow windows and long round trips take their time)
    let bytes: u64 = w().s.iter().filter(|s| !s.udp).flat_map(|s| s.sent.iter()).map(|x| x.size as u64 + 200).sum();
    let drain = bytes / plan.get("sockbuf").max(500) as u64 * 4 * plan.get("lat_hi") as u64 * 1000;
    let lossless = !w().lossy && plan.get("mayclose") == 0 && plan.get("tight") == 0;
    if lossless {
        let ok = wait_until(20 * retry + 10 * SEC + drain, || missing().is_empty());
        // (with few connections allowed, some attempts may be given up)
        if !ok && plan.get("soft") > 0 {
            wait_until(60 * retry, || missing().iter().all(|(i, q)| given_up(&w().s[*i], *q as usize)));
            if let Some((i, q)) = missing().into_iter().find(|(i, q)| !given_up(&w().s[*i], *q as usize)) { let s = &w().s[i]; ensure!("N08", false, "message-lost", "message {q} of {} from node {} to node {} ({} bytes, api {}, sent at {} us) never arrived although no connection was ever broken and none was given up", s.sent.len(), s.src.0, s.dst.0, s.sent[q as usize].size, s.sent[q as usize].api, s.sent[q as usize].t / 1000); }
        } else if !ok { let m = missing(); for id in ["N03", "N04", "N06", "N07", "N10", "N12"] { let s = &w().s[m[0].0]; ensure!(id, false, "message-lost", "{} messages never arrived although no connection was ever broken: first stream {} (node {} to node {}) message {} of {}, {} bytes, api {}, sent at {} us", m.len(), m[0].0, s.src.0, s.dst.0, m[0].1, s.sent.len(), s.sent[m[0].1 as usize].size, s.sent[m[0].1 as usize].api, s.sent[m[0].1 as usize].t / 1000); } }
    } else { wait_until(2 * retry + 500 * MS, || missing().is_empty()); }
    // messages sent from now on get through again
    if drain > SEC { wait_until(drain, || missing().is_empty()); }
    // (reading is tried again only so often while there are no buffers)
    if plan.get("nokeep") != 0 { wait_until(15 * retry, || missing().is_empty()); sleep_ns(2 * retry); }
    // (each connection is closed again for the sake of others when there may be only a few)
    let bound = (4 * retry + 3 * SEC) * if plan.get("soft") > 0 { 8 } else { 1 };
    if plan.get("probe") != 0 {
        // (in any order, as one end may be able to connect when the other one isn't)
        let mut pairs: Vec<(usize, usize)> = (0..n * n).map(|i| (i / n, i % n)).collect();
        let order = plan.get("probe") as u64;
        if order > 1 { pairs.sort_by_key(|(a, b)| mix(order, (a * 8 + b) as u64)); }
        for (a, b) in pairs { { if a != b && up(a) && up(b) {
            let s = stream((a, w().n[a].inc, 0), (b, 0), false, 0);
            let from = w().s[s].sent.len();
            let mut ok = false;
            for _ in 0..6 { send(a, 0, (b, 0), 1, 1 << 5); if wait_until(bound / 2, || arrived(s, from)) { ok = true; break; } }
            for id in ["N03", "N04", "N06", "N07", "N08", "N10", "N11", "B02"] { ensure!(id, ok, "no-progress", "node {a} cannot reach node {b} any more: after all faults had stopped, 6 messages over {} ms did not get through", 3 * bound / MS); }
        } } }
        // and once a connection has settled nothing is lost
        sleep_ns(2 * retry);
        let mut marks = vec![];
        for a in 0..n { for b in 0..n { if a != b && up(a) && up(b) { let s = stream((a, w().n[a].inc, 0), (b, 0), false, 0); marks.push((s, w().s[s].sent.len())); for api in 0..3 { send(a, 0, (b, 0), 1, 1 << 5 | api); } } } }
        // (with few connections allowed, some attempts may be given up, which is announced)
        let through = |s: usize, f: usize| (f..f + 3).all(|q| w().s[s].seen.get(q).copied().unwrap_or(0) > 0 || plan.get("soft") > 0 && given_up(&w().s[s], q));
        let ok = wait_until(bound, || marks.iter().all(|(s, f)| through(*s, *f)));
        if !ok { let (s, f) = *marks.iter().find(|(s, f)| !through(*s, *f)).unwrap(); let x = &w().s[s];
            for id in ["N03", "N04", "N06", "N07", "N08", "N10", "N11", "B02"] { ensure!(id, false, "lost-after-recovery", "messages from node {} to node {} sent long after all faults had stopped were lost (numbers {f} to {}, received {:?})", x.src.0, x.dst.0, f + 2, x.got.iter().rev().take(3).map(|g| g.seq).collect::<Vec<_>>()); } }
        // nor delayed by a shortage which is over
        if plan.get("nokeep") != 0 { for i in 0..4 { for a in 0..n { for b in 0..n { if a != b && up(a) && up(b) {
            let s = stream((a, w().n[a].inc, 0), (b, 0), false, 0);
            let (from, t0) = (w().s[s].sent.len(), sim::now());
            send(a, 0, (b, 0), 1, 1 << 5 | i % 3);
            wait_until(2 * retry, || arrived(s, from));
            ensure!("B02", sim::now() - t0 <= retry / 2, "slow", "a message from node {a} to node {b} was still delayed by {} ms long after all buffers had become available again", (sim::now() - t0) / MS);
        } } } }
            // nor are there fewer buffers than before
            let c = w().cfg["chunk"]; w().cfg.insert("maxsize".into(), 3 * c);
            for a in 0..n { for k in 0..w().peers { for i in 0..2 { if up(a) {
                let b = if i == 1 && up((a + 1) % n) { (a + 1) % n } else { a };
                let s = stream((a, w().n[a].inc, k), (b, 0), false, 0);
                let from = w().s[s].sent.len();
                send(a, k, (b, 0), 1, 4 << 5 | 2);
                let ok = wait_until(2 * retry + 4 * (3 * c as u64 / plan.get("sockbuf").max(500) as u64 + 1) * plan.get("lat_hi") as u64 * 1000, || arrived(s, from) || w().s[s].sent.get(from).is_some_and(|x| !x.ok));
                ensure!("B02", w().s[s].sent.get(from).is_some_and(|x| x.ok), "pool-shrunk", "node {a} peer {k} cannot serialise a message of at most {} bytes although none of its buffers is in use any more and it had {} of {c} bytes each", 3 * c, plan.get("chunks1"));
                ensure!("B02", ok, "pool-shrunk", "a message of at most {} bytes from node {a} did not arrive at node {b} although all buffers were available again and both had {} of {c} bytes each", 3 * c, plan.get("chunks1"));
            } } } }
        }
    }
    // datagrams get through as well
    if plan.get("probe") != 0 && plan.get("udp") != 0 && w().blocks.is_empty() {
        for a in 0..n { for b in 0..n { if a != b && up(a) && up(b) {
            let s = stream((a, w().n[a].inc, 0), (b, 0), true, 0);
            let from = w().s[s].sent.len();
            let mut ok = false;
            for _ in 0..4 { send(a, 0, (b, 0), 1, 1 << 5 | 16); if wait_until(SEC, || arrived(s, from)) { ok = true; break; } }
            for id in ["N09", "N10", "N11"] { ensure!(id, ok, "no-datagrams", "node {a} cannot reach node {b} over UDP: none of 4 messages arrived although all faults had stopped"); }
        } } }
    }
    gaps();
    sessions_agree();
    limits(plan, true);
}
/// One request to block or allow after the other against a model of the rules: what gets through is what they say.
fn rules_probe(plan: &Plan) {
    let steps = plan.get("rules");
    let n = w().n.len();
    if steps == 0 || n < 2 { return; }
    let retry = plan.get("retry_ms") as u64 * MS;
    let mut r = Rng::new(mix(plan.get("rulesseed") as u64, 77));
    let m = (r.next() % n as u64) as usize;
    let b = (m + 1 + (r.next() % (n as u64 - 1)) as usize) % n;
    sleep_ns(300 * MS);
    let ask = |block: bool, kind: i64| {
        let from = w().ev[tag(m, w().n[m].inc) as usize].len();
        note_block(m, b, block, kind);
        let q = req_of(block, b, kind);
        let text = format!("{q:?}");
        request(m, q);
        (from, text)
    };
    for k in [6, 0] { ask(false, k); note_block(b, m, false, k); request(b, req_of(false, m, k)); }
    sleep_ns(300 * MS);
    // (Some(true): blocked, Some(false): allowed, as a system)
    let (mut net, mut sys) = (false, Some(false));
    for _ in 0..steps {
        let block = r.next() % 2 == 0;
        let kind = [0, 0, 1, 2, 6][(r.next() % 5) as usize];
        let news = kind != 0 || sys != Some(block);
        if kind == 0 { sys = Some(block) } else { net = block }
        let (from, text) = ask(block, kind);
        let confirmed = || w().ev[tag(m, w().n[m].inc) as usize][from..].iter().any(|e| covers(&e.ev, b) && matches!((&e.ev, block, kind), (NetworkStatus::BlockedSystem(_), true, 0) | (NetworkStatus::AllowedSystem(_), false, 0) | (NetworkStatus::BlockedIp(_), true, 1) | (NetworkStatus::AllowedIp(_), false, 1) | (NetworkStatus::BlockedIpNet(_), true, 2 | 6) | (NetworkStatus::AllowedIpNet(_), false, 2 | 6)));
        let told = wait_until(if news { 5 * SEC } else { 100 * MS }, confirmed);
        ensure!("N07", told || !news, "not-confirmed", "node {m} was asked for {text}, but no status event confirmed that it has been done");
        sleep_ns(300 * MS);
        let blocked = sys == Some(true) || (sys != Some(false) && net);
        let ends = [(b, m), (m, b)];
        let mark = |(x, y): (usize, usize)| { let s = stream((x, w().n[x].inc, 0), (y, 0), false, 0); (s, w().s[s].sent.len()) };
        if blocked {
            let marks = ends.map(|e| { let k = mark(e); send(e.0, 0, (e.1, 0), 1, 1 << 5); k });
            sleep_ns(300 * MS);
            for (i, (s, f)) in marks.into_iter().enumerate() { ensure!("N07", !arrived(s, f), "passed-although-blocked", "a message from node {} to node {} got through although node {m} has confirmed {text} and blocks node {b} (as a system: {sys:?}, its address: {net})", ends[i].0, ends[i].1); }
        } else {
            for e in ends {
                let (s, f) = mark(e);
                let mut ok = false;
                for _ in 0..6 { send(e.0, 0, (e.1, 0), 1, 1 << 5); if wait_until(2 * retry + 2 * SEC, || arrived(s, f)) { ok = true; break; } }
                ensure!("N07", ok, "blocked-although-allowed", "no message from node {} to node {} gets through although node {m} has carried out {text} and does not block node {b} any more (as a system: {sys:?}, its address: {net})", e.0, e.1);
            }
        }
        st(7, blocked as u64, net as u64 * 4 + sys.map_or(2, |x| x as u64));
    }
}
/// Messages missing between others of the same session were given up by their sender, which has been told so.
fn gaps() {
    for (k, miss, from, to, sess) in &w().gaps {
        let s = &w().s[*k];
        let t = tag(s.src.0, s.src.1) as usize;
        let told = |sent: u64| w().ev[t].iter().any(|e| matches!(&e.ev, NetworkStatus::ConnectionDropped(p) if p.socket_address() == addr(s.dst.0)) && e.t >= sent);
        let miss: Vec<u32> = miss.iter().copied().filter(|q| !told(s.sent[*q as usize].t)).collect();
        if w().dead[t] || miss.is_empty() { continue; }
        for id in ["N02", "N12"] { ensure!(id, false, "gap-in-session", "stream {k} (node {} to node {}): messages {miss:?} were lost although {from} and {to} came over the same session {:x?} and nothing was reported as dropped", s.src.0, s.dst.0, sess.map(|x| x as u16)); }
    }
}
/// The number of connections stays within the configured limits.
fn limits(plan: &Plan, settled: bool) {
    let (soft, hard) = (plan.get("soft") as usize, plan.get("hard") as usize);
    if soft == 0 { return; }
    let n = w().n.len();
    let over = |m: usize| (0..n).filter(|b| *b != m && open_session(m, *b).is_some()).count() > soft;
    if settled { wait_until(10 * plan_retry() + 10 * SEC, || !(0..n).any(|m| up(m) && over(m))); }
    for m in 0..n { if up(m) {
        let open = (0..n).filter(|b| *b != m && open_session(m, *b).is_some()).count();
        ensure!("N08", open <= hard, "hard-limit-exceeded", "node {m} has {open} connections open although its hard limit is {hard}");
        if settled { ensure!("N08", open <= soft, "soft-limit-exceeded", "node {m} still has {open} connections open although its soft limit is {soft} and nothing has happened for a while"); }
        if settled { let c = sim::open_conns(tag(m, w().n[m].inc)) as usize; tr!("node {m}: {open} sessions, {c} sockets"); ensure!("N08", c <= hard, "too-many-sockets", "node {m} keeps {c} connections although its hard limit is {hard}"); }
    } }
}
fn open_session(m: usize, to: usize) -> Option<u128> {
    let mut o = None;
    for e in &w().ev[tag(m, w().n[m].inc) as usize] { match &e.ev {
        NetworkStatus::ConnectionEstablished(p, i) if p.socket_address() == addr(to) => o = Some(i.as_u128()),
        NetworkStatus::ConnectionLost(p, _) | NetworkStatus::ConnectionClosed(p, _) if p.socket_address() == addr(to) => o = None, NetworkStatus::ConnectionDropped(p) | NetworkStatus::BlockedSystem(p) if p.socket_address() == addr(to) => o = None, _ => () } }
    o
}
/// Every session belongs to one pair of systems, and both ends agree which one is current once everything is quiet.
fn sessions_agree() {
    let n = w().n.len();
    for (id, s) in &w().sess {
        let mut ms: Vec<usize> = s.ends.iter().flat_map(|(t, a)| [Some((*t & 7) as usize), machine_of(a)]).flatten().collect(); ms.sort(); ms.dedup();
        ensure!("N05", ms.len() <= 2 && s.ends.len() <= 2, "shared-session", "session {:x} is used between more than one pair of systems: {:?}", *id as u16, s.ends);
    }
    for a in 0..n { for b in a + 1..n { if up(a) && up(b) {
        let last = |x: usize, y: usize| w().s.iter().filter(|s| !s.udp && s.src.0 == x && s.src.1 == w().n[x].inc && s.dst.0 == y).flat_map(|s| s.got.iter()).filter(|g| g.inc == w().n[y].inc).max_by_key(|g| g.t).map(|g| (g.sess, g.t));
        let (oa, ob) = (open_session(a, b), open_session(b, a));
        tr!("nodes {a} and {b}: open sessions {:x?} {:x?}", oa.map(|x| x as u16), ob.map(|x| x as u16));
        let _ = last;
        ensure!("N05", oa.is_none() || ob.is_none() || oa == ob, "sessions-disagree", "after everything settled nodes {a} and {b} report different open sessions: {:x?} and {:x?}", oa.map(|x| x as u16), ob.map(|x| x as u16));
        ensure!("N04", oa.is_none() || ob.is_none() || oa == ob, "sessions-disagree", "after everything settled nodes {a} and {b} report different open sessions: {:x?} and {:x?}", oa.map(|x| x as u16), ob.map(|x| x as u16));
    } } }
}
/// Shuts a system down gracefully; that always completes, and its messages and events have ended then.
fn shutdown_node(m: usize) {
    if !up(m) { return; }
    // (what is still being started when a system is shut down is not part of its guarantees)
    wait_until(30 * SEC, || w().temps[m] == 0);
    let t = tag(m, w().n[m].inc);
    let nd = &mut w().n[m]; nd.up = false; nd.peers.clear(); nd.refs.clear(); nd.lis = None;
    let sys = nd.sys.take().unwrap();
    tr!("shutting node {m} down");
    let t0 = sim::now();
    let done: &'static std::sync::atomic::AtomicU32 = Box::leak(Box::new(std::sync::atomic::AtomicU32::new(0)));
    std::thread::spawn(move || { let _ = sys.shutdown().wait(); done.store(1, std::sync::atomic::Ordering::SeqCst); });
    let ok = wait_until(30 * SEC, || done.load(std::sync::atomic::Ordering::SeqCst) == 1);
    for id in ["N13", "N08"] { ensure!(id, ok, "shutdown-stuck", "shutting down node {m} had not completed after {} simulated seconds", (sim::now() - t0) / SEC); }
    tr!("node {m} has shut down");
    w().ended[t as usize] = true;
}
fn shutdown_all() {
    for m in 0..w().n.len() {
        let was = up(m);
        shutdown_node(m);
        // with the network in order, the others get to know
        let others = || (0..w().n.len()).filter(|b| up(*b) && open_session(*b, m).is_some()).collect::<Vec<_>>();
        let retry = plan_retry();
        if was && !wait_until(4 * retry + 5 * SEC, || others().is_empty()) { let o = others(); ensure!("N13", false, "end-not-reported", "node {m} has shut down, but node {} still reports a session with it", o[0]); }
    }
}
/// After everything has been shut down and dropped, the network's memory has been given back. (Chunks of
/// components that are gone are handed to the dispatcher, which keeps them, like itself, until the process ends.)
fn released() {
    let out = || w().allocs.iter().filter(|a| a.net).map(|a| a.out.load(std::sync::atomic::Ordering::SeqCst)).sum::<i64>();
    if w().n.iter().any(|n| n.crashed) { return; }
    if !wait_until(5 * SEC, || out() == 0) { ensure!("B02", false, "leak", "{} chunks were never given back to their allocators although all systems have shut down and all messages were dropped", out()); }
}
fn plan_retry() -> u64 { w().cfg["retry_ms"] as u64 * MS }
