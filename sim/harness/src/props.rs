//! The properties: for each one the workload generator, the scenario and what to report.
use crate::local::{self, *};
use crate::net::{self, *};
use crate::reg::{self, *};
use crate::fair::{self, *};
use crate::life::{self, *};
use crate::plan::*;
use crate::sim::SimParams;

pub struct Prop { pub id: &'static str, pub gen_: fn(&mut Rng, &mut SimParams, bool) -> Plan, pub run: fn(&Plan), pub op_name: fn(u16) -> &'static str, pub about: &'static str, pub probes: &'static [&'static str], pub simple: &'static [(&'static str, i64)] }

/// Weights of driver operations and message actions of a local workload.
#[derive(Clone)]
struct Mixture { ops: Vec<(u16, u32)>, acts: Vec<(i64, u32)>, n_ops: (i64, i64) }

fn gen_local(r: &mut Rng, p: &mut SimParams, m: &Mixture, thorough: bool) -> Plan {
    let mut pl = Plan::default();
    let big = r.chance(1, 4);
    let comps = r.range(2, if big { 6 } else { 4 });
    pl.set("comps", comps);
    pl.set("drivers", r.range(1, 3));
    pl.set("threads", *r.pick(&[1, 1, 2, 2, 3, 4]));
    pl.set("throughput", *r.pick(&[1, 2, 3, 5, 10, 50]));
    pl.set("prio", *r.pick(&[10, 34, 50, 50, 66, 90]));
    pl.set("sched", *r.pick(&[0, 1, 1, 2, 2, 3]));
    pl.set("points", *r.pick(&[0, 1, 3, 10]));
    pl.set("dedicated", if r.chance(1, 2) { 0 } else { r.range(0, (1 << comps) - 1) });
    pl.set("start", if r.chance(3, 4) { 255 } else { r.range(0, 255) });
    pl.set("hooks", if r.chance(1, 2) { 0 } else { r.range(1, 1 << 40) });
    pl.set("restart", r.range(0, 1));
    pl.set("startall", 1);
    pl.set("shutdown", *r.pick(&[0, 0, 1, 2]));
    pl.set("keep_refs", r.range(0, 1));
    pl.set("chans", r.range(1, 1 << 40));
    pl.set("nchans", r.range(0, comps * 2));
    let n = if thorough && r.chance(1, 4) { r.range(m.n_ops.1, m.n_ops.1 * 3) } else { r.range(m.n_ops.0, m.n_ops.1) };
    let ow: Vec<u32> = m.ops.iter().map(|x| x.1).collect();
    let aw: Vec<u32> = m.acts.iter().map(|x| x.1).collect();
    // swarm: switch some of the action kinds off in each run
    let aw: Vec<u32> = aw.iter().enumerate().map(|(i, w)| if i > 0 && r.chance(1, 4) { 0 } else { *w }).collect();
    let ow: Vec<u32> = ow.iter().enumerate().map(|(i, w)| if i > 0 && r.chance(1, 5) { 0 } else { *w }).collect();
    for _ in 0..n {
        let k = m.ops[r.weighted(&ow)].0;
        let act = m.acts[r.weighted(&aw)].0;
        let (x, y) = match act {
            A_ONCE | A_CANCEL_NEW => (*r.pick(&[0, 1, 300, 1000, 1500, 3000, 10000, 30000, 70000, 150000]), 0),
            A_PERIODIC => (*r.pick(&[0, 1000, 5000]), *r.pick(&[1000, 2000, 7000])),
            A_ASK_B | A_ASK_S => (r.range(0, 7), r.range(0, 4)),
            A_SELF => (r.range(1, 40), 0),
            A_FUT_ERR | A_SPAWN_E => (r.range(0, 4), 0),
            _ => (r.range(0, 5), r.range(0, 3)),
        };
        let (th, t) = (r.range(0, 2), r.range(0, comps - 1));
        match k {
            O_SEND => pl.op(k, &[th, t, act, x, y]),
            O_BURST => pl.op(k, &[th, t, r.range(2, 60), act, x]),
            O_ASK => pl.op(k, &[th, t, r.range(0, 4), *r.pick(&[0, 100, 1000, 20000])]),
            O_START | O_STOP | O_KILL => pl.op(k, &[0, t, *r.pick(&[0, 0, 1, 1, 2, 50])]),
            O_SLEEP => pl.op(k, &[th, *r.pick(&[5, 30, 200, 1000, 4000])]),
            O_ONDEF => pl.op(k, &[th, t, r.range(1, 20)]),
            O_CONN => pl.op(k, &[th, t, r.range(0, comps - 1)]),
            O_TRIG => pl.op(k, &[th, t, r.range(0, 1), act]),
            _ => pl.op(k, &[th, r.range(0, 50)]),
        }
    }
    p.p_epoll_subset = 0;
    pl.set("slack_us", 3000 + if p.p_stall > 0 { p.stall_max_us as i64 * 2 } else { 0 });
    pl
}
const BASE_OPS: &[(u16, u32)] = &[(O_SEND, 40), (O_BURST, 8), (O_SLEEP, 8), (O_COMPLETE, 6), (O_POKE, 3), (O_REPLY, 3)];
fn mixture(extra_ops: &[(u16, u32)], acts: &[(i64, u32)], lo: i64, hi: i64) -> Mixture {
    let mut ops = BASE_OPS.to_vec(); ops.extend_from_slice(extra_ops);
    Mixture { ops, acts: acts.to_vec(), n_ops: (lo, hi) }
}
const BENIGN_ACTS: &[(i64, u32)] = &[(A_NOP, 20), (A_FWD, 12), (A_SELF, 3), (A_BLOCK_P, 4), (A_BLOCK_Y, 4), (A_SPAWN_P, 4), (A_SPAWN_Y, 3), (A_TRIG_I, 4), (A_TRIG_R, 4), (A_ASK_B, 3), (A_ASK_S, 3), (A_ONCE, 2), (A_WAKER, 2), (A_BLOCK_W, 2), (A_OFF, 2), (A_ASK_OFF, 1), (A_BENIGN, 1)];
const ALL_ACTS: &[(i64, u32)] = &[(A_NOP, 20), (A_FWD, 10), (A_SELF, 3), (A_BLOCK_P, 4), (A_BLOCK_Y, 4), (A_SPAWN_P, 4), (A_SPAWN_Y, 3), (A_TRIG_I, 4), (A_TRIG_R, 4), (A_ASK_B, 3), (A_ASK_S, 3), (A_ONCE, 3), (A_PERIODIC, 1), (A_WAKER, 2), (A_BLOCK_W, 2), (A_OFF, 2), (A_ASK_OFF, 1), (A_SPAWN_B, 2), (A_BENIGN, 2), (A_SHUT, 1), (A_SUICIDE, 1), (A_PANIC, 1), (A_RECOV, 1), (A_UNREC, 1)];
const END_ACTS: &[(i64, u32)] = &[(A_NOP, 20), (A_FWD, 10), (A_SELF, 4), (A_BLOCK_P, 3), (A_BLOCK_Y, 3), (A_SPAWN_P, 4), (A_SPAWN_Y, 3), (A_TRIG_I, 4), (A_TRIG_R, 4), (A_ASK_S, 3), (A_ONCE, 4), (A_PERIODIC, 3), (A_SHUT, 5), (A_SUICIDE, 6), (A_PANIC, 3), (A_RECOV, 3), (A_UNREC, 3), (A_FUT_ERR, 3), (A_SPAWN_E, 3)];
macro_rules! gen_fn { ($n:ident, $ops:expr, $acts:expr, $lo:expr, $hi:expr, $pl:ident, $r:ident, $tweak:block) => {
    fn $n($r: &mut Rng, p: &mut SimParams, th: bool) -> Plan { #[allow(unused_mut)] let mut $pl = gen_local($r, p, &mixture($ops, $acts, $lo, $hi), th); $tweak $pl } } }
gen_fn!(g_a01, &[(O_STOP, 4), (O_START, 5), (O_ASK, 3)], BENIGN_ACTS, 4, 40, pl, r, {});
gen_fn!(g_a02, &[(O_STOP, 5), (O_START, 6), (O_ONDEF, 14), (O_TRIG, 8), (O_KILL, 2), (O_CONN, 3), (O_DISC, 3)], ALL_ACTS, 4, 40, pl, r, { no_panics(&mut pl); });
gen_fn!(g_a03, &[(O_STOP, 3), (O_START, 4), (O_TRIG, 6), (O_SLEEP, 20)], &[(A_NOP, 30), (A_FWD, 12), (A_BLOCK_P, 6), (A_BLOCK_Y, 6), (A_ONCE, 6), (A_SPAWN_P, 4), (A_SPAWN_Y, 4), (A_TRIG_I, 4), (A_BLOCK_W, 3), (A_ASK_S, 3)], 2, 20, pl, r, { if r.chance(2, 3) { let c = pl.get("comps"); pl.set("dedicated", r.range(1, (1 << c) - 1)); } });
gen_fn!(g_a04, &[(O_TRIG, 20), (O_CONN, 8), (O_DISC, 8), (O_STOP, 3), (O_START, 4), (O_KILL, 1)], &[(A_NOP, 8), (A_TRIG_I, 30), (A_TRIG_R, 30), (A_BLOCK_Y, 4), (A_BLOCK_P, 3), (A_SELF, 2), (A_FWD, 4)], 6, 50, pl, r, { let c = pl.get("comps"); pl.set("nchans", r.range(1, c * 3)); });
gen_fn!(g_a05, &[(O_ASK, 40), (O_KILL, 2), (O_STOP, 3), (O_START, 4)], &[(A_NOP, 10), (A_ASK_B, 15), (A_ASK_S, 15), (A_BLOCK_P, 3), (A_BLOCK_Y, 3), (A_SHUT, 1), (A_SUICIDE, 1), (A_PANIC, 1), (A_RECOV, 1), (A_UNREC, 1), (A_FWD, 3), (A_SPAWN_P, 2)], 4, 40, pl, r, {});
gen_fn!(g_a06, &[(O_STOP, 4), (O_START, 5), (O_TRIG, 5), (O_POKE, 6), (O_KILL, 1)], &[(A_NOP, 10), (A_BLOCK_P, 15), (A_BLOCK_Y, 15), (A_BLOCK_W, 12), (A_NEST, 8), (A_SPAWN_B, 8), (A_ASK_B, 6), (A_ASK_OFF, 5), (A_FUT_ERR, 4), (A_SPAWN_P, 5), (A_SPAWN_Y, 4), (A_ONCE, 4), (A_TRIG_I, 4), (A_TRIG_R, 4), (A_SELF, 2)], 3, 30, pl, r, { if r.chance(2, 3) { pl.set("hooks", r.range(1, 1 << 40)); } });
gen_fn!(g_a07, &[(O_STOP, 4), (O_START, 5), (O_POKE, 12), (O_KILL, 1)], &[(A_NOP, 8), (A_SPAWN_P, 16), (A_SPAWN_Y, 16), (A_WAKER, 16), (A_OFF, 8), (A_SPAWN_B, 8), (A_SPAWN_E, 2), (A_ASK_S, 8), (A_BLOCK_P, 4), (A_BLOCK_Y, 4), (A_BLOCK_W, 3), (A_SUICIDE, 1), (A_SHUT, 1), (A_PANIC, 1)], 3, 30, pl, r, {});
gen_fn!(g_a09, &[(O_STOP, 10), (O_START, 5), (O_KILL, 3), (O_TRIG, 6), (O_POKE, 3), (O_ASK, 3)], ALL_ACTS, 3, 30, pl, r, { if r.chance(2, 3) { pl.set("startall", 0); } pl.set("start", r.range(0, 255)); });
gen_fn!(g_l01, &[(O_START, 20), (O_STOP, 20), (O_KILL, 3), (O_TRIG, 5)], ALL_ACTS, 4, 40, pl, r, { if r.chance(1, 2) { pl.set("hooks", r.range(1, 1 << 40)); } pl.set("start", r.range(0, 255)); });
gen_fn!(g_l02, &[(O_START, 20), (O_STOP, 20), (O_KILL, 8)], ALL_ACTS, 4, 30, pl, r, { if r.chance(2, 3) { pl.set("hooks", r.range(1, 1 << 40)); } pl.set("start", r.range(0, 255)); });
gen_fn!(g_l03, &[(O_KILL, 14), (O_START, 8), (O_STOP, 5), (O_TRIG, 6), (O_CONN, 2), (O_DISC, 2), (O_ASK, 3)], END_ACTS, 4, 40, pl, r, { if r.chance(1, 2) { pl.set("keep_refs", 0); } });
gen_fn!(g_l04, &[(O_START, 6), (O_STOP, 6), (O_KILL, 4), (O_TRIG, 5), (O_ASK, 3)], ALL_ACTS, 3, 30, pl, r, { pl.set("shutdown", r.range(0, 2)); if r.chance(1, 2) { pl.set("early_shutdown", *r.pick(&[1, 20, 100, 400, 1500, 5000])); } pl.set("startall", r.range(0, 1)); pl.set("ackstart", r.range(0, 1)); });
gen_fn!(g_l05, &[(O_KILL, 3), (O_START, 4), (O_STOP, 3), (O_TRIG, 6)], &[(A_NOP, 14), (A_PANIC, 8), (A_RECOV, 8), (A_UNREC, 3), (A_BENIGN, 8), (A_FUT_ERR, 8), (A_SPAWN_E, 8), (A_SHUT, 2), (A_SUICIDE, 2), (A_FWD, 10), (A_BLOCK_Y, 4), (A_SPAWN_Y, 4), (A_ASK_S, 3), (A_ASK_B, 3), (A_ONCE, 2)], 4, 40, pl, r, {});
gen_fn!(g_l06, &[(O_STOP, 5), (O_START, 6), (O_TRIG, 10), (O_ONDEF, 3), (O_KILL, 1)], &[(A_NOP, 10), (A_FWD, 8), (A_BLOCK_P, 6), (A_BLOCK_Y, 6), (A_BLOCK_W, 4), (A_SPAWN_P, 6), (A_WAKER, 4), (A_ONCE, 8), (A_PERIODIC, 4), (A_TRIG_I, 8), (A_TRIG_R, 8), (A_ASK_S, 4), (A_ASK_B, 4), (A_OFF, 2)], 3, 30, pl, r, { let c = pl.get("comps"); pl.set("dedicated", r.range(1, (1 << c) - 1)); });
gen_fn!(g_t01, &[(O_STOP, 4), (O_START, 5), (O_SLEEP, 8), (O_KILL, 1)], &[(A_NOP, 8), (A_ONCE, 40), (A_PERIODIC, 4), (A_CANCEL, 8), (A_BLOCK_P, 3), (A_BLOCK_Y, 3), (A_SELF, 4)], 3, 25, pl, r, {});
gen_fn!(g_t02, &[(O_STOP, 4), (O_START, 5), (O_SLEEP, 12), (O_KILL, 1)], &[(A_NOP, 8), (A_ONCE, 8), (A_PERIODIC, 30), (A_CANCEL, 12), (A_BLOCK_P, 3), (A_BLOCK_Y, 3), (A_SELF, 4)], 3, 25, pl, r, {});
gen_fn!(g_t03, &[(O_STOP, 4), (O_START, 5), (O_SLEEP, 8), (O_CANCEL_EXT, 4)], &[(A_NOP, 6), (A_ONCE, 20), (A_PERIODIC, 14), (A_CANCEL, 25), (A_CANCEL_NEW, 20), (A_BLOCK_P, 3), (A_BLOCK_Y, 3), (A_SELF, 6)], 3, 30, pl, r, {});

/// A panicking handler poisons the definition's mutex, so that locking the definition from outside panics as well.
fn no_panics(pl: &mut Plan) { for o in &mut pl.ops { for k in 2..4 { if o.a[k] == A_PANIC && matches!((o.k, k), (O_SEND, 2) | (O_BURST, 3) | (O_TRIG, 3)) { o.a[k] = A_RECOV; } } } }
const SIMPLE: &[(&str, i64)] = &[("hooks", 0), ("dedicated", 0), ("points", 0), ("nchans", 0), ("restart", 0), ("keep_refs", 0), ("shutdown", 0), ("sched", 1), ("prio", 50), ("throughput", 50), ("threads", 1), ("drivers", 1), ("start", 255)];

/// Workloads of several networked systems. `benign`: no fault that may lose anything is ever injected.
struct NetMix { ops: &'static [(u16, u32)], n_ops: (i64, i64), nodes: (i64, i64), benign: bool, eintr: bool }
fn gen_net(r: &mut Rng, p: &mut SimParams, m: &NetMix, thorough: bool) -> Plan {
    let mut pl = Plan::default();
    let nodes = r.range(m.nodes.0, m.nodes.1);
    let peers = r.range(1, 2);
    pl.set("nodes", nodes); pl.set("peers", peers);
    pl.set("threads", *r.pick(&[1, 1, 2])); pl.set("throughput", *r.pick(&[1, 5, 50])); pl.set("prio", 50); pl.set("sched", *r.pick(&[1, 1, 2, 3]));
    let chunk = *r.pick(&[128, 200, 512, 1000, 4096, 20000, 128000]);
    pl.set("chunk", chunk); pl.set("chunks0", r.range(1, 3)); pl.set("chunks1", 2000); pl.set("minfree", *r.pick(&[1, 10, 64, 100]));
    pl.set("maxsize", *r.pick(&[300, 3000, 9000, 30000]));
    pl.set("retry_ms", *r.pick(&[50, 200, 1000])); pl.set("attempts", *r.pick(&[3, 10]));
    pl.set("probe", r.range(1, 1000)); pl.set("shutdown", r.range(0, 1)); pl.set("udp", r.range(0, 1)); pl.set("udpdup", 1);
    if r.chance(1, 2) { pl.set("f_partial", *r.pick(&[2000, 10000, 40000])); }
    if r.chance(1, 2) { pl.set("f_again", *r.pick(&[1000, 6000])); }
    if m.eintr && r.chance(1, 3) { pl.set("f_eintr", *r.pick(&[500, 4000])); }
    pl.set("f_udrop", *r.pick(&[0, 2000])); pl.set("f_udup", *r.pick(&[0, 2000]));
    if !m.benign {
        if r.chance(1, 3) { pl.set("f_rst", *r.pick(&[200, 1000])); }
        if r.chance(1, 3) { pl.set("f_connfail", *r.pick(&[2000, 12000])); }
    }
    p.p_udp_delay = *r.pick(&[0, 4000]);
    p.sockbuf = *r.pick(&[1000, 4096, 65536, 200000]) as u32;
    let (lo, hi) = *r.pick(&[(10, 60), (10, 500), (200, 300), (1000, 20000)]);
    p.lat_min_us = lo; p.lat_max_us = hi;
    pl.set("sockbuf", p.sockbuf as i64); pl.set("lat_hi", hi as i64);
    // a handshake takes several round trips: an attempt must not be abandoned before it had a chance
    if pl.get("retry_ms") < 40 * hi as i64 / 1000 || m.benign { pl.set("retry_ms", *r.pick(&[1000, 3000])); }
    p.p_epoll_subset = *r.pick(&[0, 8000]);
    p.tick_ns = *r.pick(&[20, 50, 100, 400]);
    // each new chunk is searched for among all of those in use
    if pl.get("maxsize") > 20 * chunk { p.tick_ns = 20; }
    p.preempt_gap = *r.pick(&[10, 20, 40, 100, 300, 1000]);
    p.pct_span = *r.pick(&[8000, 20000, 60000]);
    p.slice = *r.pick(&[2000, 5000]);
    p.max_steps = 12_000_000; p.max_time_ns = 3_000_000_000_000;
    let n = if thorough && r.chance(1, 4) { r.range(m.n_ops.1, m.n_ops.1 * 3) } else { r.range(m.n_ops.0, m.n_ops.1) };
    let ow: Vec<u32> = m.ops.iter().enumerate().map(|(i, w)| if i > 0 && r.chance(1, 4) { 0 } else { w.1 }).collect();
    let (apis, classes) = (r.range(0, 63), r.range(1, 255));
    for _ in 0..n {
        let k = m.ops[r.weighted(&ow)].0;
        let (a, b) = (r.range(0, nodes - 1), r.range(0, nodes - 1));
        let mut api = r.range(0, 5); if apis >> api & 1 == 0 { api = 0 }
        let mut class = r.range(0, 7); if classes >> class & 1 == 0 { class = 1 }
        let flags = api | r.range(0, 1) << 3 | (r.chance(1, 8) as i64) << 4 | class << 5 | r.range(0, 1) << 8 | (r.chance(1, 6) as i64) << 9;
        let (ka, kb) = (r.range(0, peers - 1), r.range(0, peers - 1));
        match k {
            N_SEND => pl.op(k, &[a, ka, b * 8 + kb, *r.pick(&[1, 1, 2, 3, 8, 30]), flags]),
            N_BOTH => pl.op(k, &[a, b, *r.pick(&[1, 2, 5]), flags & !16]),
            N_SLEEP => pl.op(k, &[*r.pick(&[20, 200, 1000, 5000, 30000, 200000, 1000000])]),
            N_WAIT => pl.op(k, &[*r.pick(&[5000, 200000])]),
            N_PART => pl.op(k, &[a, b, r.range(0, 1)]),
            N_CRASH => pl.op(k, &[a, r.range(0, 1)]),
            N_BLOCK | N_ALLOW => pl.op(k, &[a, b, r.range(0, 7)]),
            N_FWD => pl.op(k, &[a, ka, b * 8 + kb, r.range(0, nodes - 1) * 8 + r.range(0, peers - 1), flags & 1007 | *r.pick(&[1, 2, 5, 20]) << 10]),
            N_TEMP => pl.op(k, &[a, b * 8 + kb, *r.pick(&[1, 2, 5, 20]), flags & !7 | *r.pick(&[2, 2, 3, api]), r.range(0, 3)]),
            N_VAULT => pl.op(k, &[a, ka, (r.chance(3, 4)) as i64]),
            N_UNVAULT => pl.op(k, &[*r.pick(&[1, 3, 10, 100])]),
            N_GARBAGE => pl.op(k, &[a, r.range(0, 255), *r.pick(&[0, 1, 5, 9, 30, 300, 3000]), r.range(0, 1 << 30)]),
            _ => pl.op(k, &[a, b, ka, kb]),
        }
    }
    // The buffers are far from running out, whatever the network does, unless that is the point.
    let total: i64 = pl.ops.iter().map(|o| match o.k { N_TEMP => o.a[2], N_SEND => o.a[3], N_BOTH => 2 * o.a[2], N_FWD => 2 * (o.a[4] >> 10), _ => 0 }).sum();
    pl.set("maxsize", pl.get("maxsize").min(1500 * chunk / total.max(1)).max(300));
    pl.set("chunks1", 4000 + 4 * total);
    pl
}
const NET_SIMPLE: &[(&str, i64)] = &[("f_partial", 0), ("f_again", 0), ("f_eintr", 0), ("f_udrop", 0), ("f_udup", 0), ("f_rst", 0), ("f_connfail", 0), ("shutdown", 0), ("threads", 1), ("peers", 1), ("sched", 1), ("chunk", 4096), ("maxsize", 300), ("nodes", 2)];
macro_rules! net_gen { ($n:ident, $ops:expr, $lo:expr, $hi:expr, $nodes:expr, $benign:expr, $pl:ident, $r:ident, $p:ident, $tweak:block) => {
    fn $n($r: &mut Rng, $p: &mut SimParams, th: bool) -> Plan { #[allow(unused_mut)] let mut $pl = gen_net($r, $p, &NetMix { ops: $ops, n_ops: ($lo, $hi), nodes: $nodes, benign: $benign, eintr: true }, th); $tweak $pl } } }
net_gen!(g_n01, &[(N_SEND, 40), (N_SLEEP, 6), (N_BOTH, 4), (N_HOLD, 2), (N_RELEASE, 2)], 2, 14, (1, 3), true, pl, r, p, {});
net_gen!(g_n02, &[(N_SEND, 40), (N_SLEEP, 10), (N_BOTH, 6), (N_RESET, 5), (N_PART, 3), (N_HEAL, 4), (N_CRASH, 2), (N_RESTART, 4), (N_DISC, 2), (N_CONNECT, 2)], 3, 24, (2, 3), false, pl, r, p, {});
net_gen!(g_n03, &[(N_SEND, 30), (N_SLEEP, 8), (N_BOTH, 6), (N_WAIT, 4), (N_PART, 2), (N_HEAL, 3)], 2, 16, (2, 3), true, pl, r, p, { pl.set("retry_ms", *r.pick(&[3000, 6000])); });
net_gen!(g_n05, &[(N_SEND, 25), (N_SLEEP, 10), (N_BOTH, 8), (N_RESET, 5), (N_PART, 3), (N_HEAL, 4), (N_CRASH, 2), (N_RESTART, 4), (N_DISC, 4), (N_CONNECT, 4), (N_BLOCK, 1), (N_ALLOW, 1)], 3, 20, (2, 3), false, pl, r, p, {});
net_gen!(g_n04, &[(N_BOTH, 20), (N_SEND, 10), (N_SLEEP, 6), (N_CONNECT, 8), (N_WAIT, 3)], 2, 10, (2, 4), true, pl, r, p, { pl.set("retry_ms", *r.pick(&[3000, 6000])); if r.chance(1, 4) { pl.set("f_connfail", 6000); } });
net_gen!(g_n06, &[(N_SEND, 30), (N_SLEEP, 8), (N_BOTH, 8), (N_DISC, 10), (N_CONNECT, 3), (N_WAIT, 3)], 3, 20, (2, 3), true, pl, r, p, { pl.set("retry_ms", *r.pick(&[3000, 6000])); });
net_gen!(g_n07, &[(N_SEND, 30), (N_SLEEP, 10), (N_BOTH, 8), (N_BLOCK, 12), (N_ALLOW, 7), (N_WAIT, 4), (N_DISC, 1)], 4, 24, (2, 4), true, pl, r, p, { pl.set("retry_ms", *r.pick(&[3000, 6000])); if r.chance(1, 2) { pl.set("rules", r.range(1, 8)); pl.set("rulesseed", r.range(0, 1 << 30)); pl.set("retry_ms", *r.pick(&[300, 1000, 3000])); } });
net_gen!(g_n08, &[(N_SEND, 30), (N_SLEEP, 10), (N_BOTH, 8), (N_CONNECT, 6), (N_WAIT, 3), (N_RESET, 3), (N_DISC, 1)], 4, 24, (3, 5), true, pl, r, p, { pl.set("soft", r.range(1, 3)); pl.set("hard", pl.get("soft") + *r.pick(&[3, 6, 20])); if r.chance(1, 4) { pl.set("hard", r.range(1, 3)); pl.set("soft", r.range(1, pl.get("hard") + 1)); pl.set("probe", 0); } });
net_gen!(g_n09, &[(N_SEND, 40), (N_SLEEP, 6), (N_BOTH, 4), (N_HOLD, 2), (N_RELEASE, 2)], 2, 16, (2, 3), true, pl, r, p, { pl.set("udp", 1); let q = r.chance(1, 2); if q { pl.set("f_udup", 0); pl.set("udpdup", 0); } for o in pl.ops.iter_mut() { if o.k == N_SEND && r.chance(3, 4) { o.a[4] |= 16; } } });
net_gen!(g_n10, &[(N_SEND, 30), (N_SLEEP, 8), (N_BOTH, 6), (N_GARBAGE, 14), (N_WAIT, 4)], 3, 20, (2, 3), true, pl, r, p, { pl.set("retry_ms", *r.pick(&[3000, 6000])); });
net_gen!(g_n11, &[(N_SEND, 30), (N_SLEEP, 12), (N_BOTH, 6), (N_CRASH, 8), (N_RESTART, 10), (N_PART, 3), (N_HEAL, 5), (N_WAIT, 3)], 4, 24, (2, 4), false, pl, r, p, {
    // the others give up on a host which is down for long
    if r.chance(1, 2) {
        (p.lat_min_us, p.lat_max_us) = (10, 60);
        pl.set("lat_hi", 60); pl.set("retry_ms", *r.pick(&[50, 100, 200])); pl.set("attempts", r.range(1, 3));
        let (n, peers) = (pl.get("nodes"), pl.get("peers"));
        for _ in 0..r.range(1, 2) {
            let x = r.range(0, n - 1);
            pl.op(N_CRASH, &[x, r.range(0, 1)]);
            for _ in 0..r.range(1, 3) { let y = r.range(0, n - 1); if y != x { pl.op(N_SEND, &[y, 0, x * 8 + r.range(0, peers - 1), r.range(1, 3), 1 << 5]); } if r.chance(1, 2) { pl.op(N_SLEEP, &[*r.pick(&[1000, 100000, 300000])]); } }
            pl.op(N_SLEEP, &[*r.pick(&[200000, 1000000, 3000000])]);
            pl.op(N_RESTART, &[x]);
            if r.chance(1, 2) { pl.op(N_SLEEP, &[*r.pick(&[1000, 100000, 300000])]); }
        }
    }
});
net_gen!(g_n12, &[(N_SEND, 20), (N_FWD, 25), (N_SLEEP, 6), (N_BOTH, 4), (N_HOLD, 1), (N_RELEASE, 2), (N_WAIT, 3)], 2, 16, (1, 3), true, pl, r, p, { pl.set("retry_ms", *r.pick(&[3000, 6000])); });
net_gen!(g_n13, &[(N_SEND, 30), (N_SLEEP, 10), (N_BOTH, 6), (N_SHUT, 8), (N_RESTART, 8), (N_RESET, 2), (N_PART, 3), (N_HEAL, 3), (N_DISC, 2), (N_CONNECT, 2), (N_CRASH, 1), (N_GARBAGE, 2)], 4, 20, (2, 3), false, pl, r, p, { pl.set("shutdown", 1); });
net_gen!(g_b01, &[(N_SEND, 30), (N_TEMP, 12), (N_VAULT, 10), (N_UNVAULT, 8), (N_FWD, 6), (N_SLEEP, 10), (N_HOLD, 2), (N_RELEASE, 2), (N_DISC, 2), (N_RESET, 2), (N_SHUT, 4), (N_RESTART, 4)], 3, 24, (1, 3), true, pl, r, p, { pl.set("alloc", 1); pl.set("shutdown", 1); if r.chance(2, 3) { tight(&mut pl, r); } });
net_gen!(g_b02, &[(N_SEND, 30), (N_TEMP, 6), (N_VAULT, 12), (N_UNVAULT, 10), (N_FWD, 6), (N_BOTH, 6), (N_SLEEP, 12), (N_HOLD, 4), (N_RELEASE, 4), (N_RESET, 1)], 3, 24, (1, 3), true, pl, r, p, { pl.set("alloc", 1); pl.set("shutdown", 1); pl.set("nokeep", 1); tight(&mut pl, r); if r.chance(1, 2) { let c = pl.get("chunk"); pl.set("maxsize", 3 * c); } for o in &mut pl.ops { if o.k == N_SEND && r.chance(1, 3) { o.a[4] = o.a[4] & !0xe7 | 4 << 5 | 2; } } });
/// As few buffers as the connections need, and messages that are large in comparison.
fn tight(pl: &mut Plan, r: &mut Rng) {
    let (n, c) = (pl.get("nodes"), pl.get("chunk"));
    pl.set("tight", 1); pl.set("chunks1", 4 + 2 * n + r.range(0, 4)); pl.set("maxsize", *r.pick(&[c / 2, c, 2 * c, 3 * c])); pl.set("minfree", *r.pick(&[1, 2, 5, 8, 9, 30]));
}
/// Registrations, routing policies and messages by name.
fn gen_reg(r: &mut Rng, p: &mut SimParams, routing: bool, thorough: bool) -> Plan {
    let mut pl = Plan::default();
    let comps = r.range(1, 5);
    pl.set("comps", comps); pl.set("drivers", r.range(1, 3));
    pl.set("threads", *r.pick(&[1, 1, 2, 2, 3])); pl.set("throughput", *r.pick(&[1, 2, 5, 50])); pl.set("prio", 50); pl.set("sched", *r.pick(&[0, 1, 1, 2, 2, 3]));
    pl.set("net", r.chance(1, 3) as i64); pl.set("shutdown", r.range(0, 1)); pl.set("probes", r.range(0, 1 << 40));
    if r.chance(1, 3) { pl.set("f_partial", 10000); pl.set("f_again", 3000); pl.set("f_eintr", *r.pick(&[0, 2000])); }
    p.sockbuf = 65536; (p.lat_min_us, p.lat_max_us) = *r.pick(&[(10, 60), (10, 2000)]);
    p.tick_ns = *r.pick(&[50, 100, 400]); p.preempt_gap = *r.pick(&[10, 20, 40, 100, 300]); p.max_time_ns = 600_000_000_000; p.max_steps = 8_000_000;
    // few names, so that they are fought over
    let names: Vec<i64> = (0..r.range(1, 6)).map(|_| r.range(0, 11)).collect();
    let names: Vec<i64> = if routing { [1, 4, 5, 6, 7, 8, 9, 0, 2].iter().copied().take(r.range(2, 9) as usize).collect() } else { names };
    let ops: &[(u16, u32)] = if routing { &[(R_REG, 25), (R_POL, 14), (R_SEND, 30), (R_UNIQ, 1), (R_KILL, 2), (R_SLEEP, 5), (R_SETTLE, 5), (R_STOP, 1)] } else { &[(R_REG, 30), (R_POL, 3), (R_SEND, 25), (R_UNIQ, 4), (R_KILL, 3), (R_SLEEP, 5), (R_BAD, 3), (R_BAD_LOOKUP, 1), (R_SETTLE, 4), (R_STOP, 2)] };
    let ow: Vec<u32> = ops.iter().enumerate().map(|(i, w)| if i > 2 && r.chance(1, 3) { 0 } else { w.1 }).collect();
    let n = if thorough && r.chance(1, 4) { r.range(20, 60) } else { r.range(3, 24) };
    let updates = *r.pick(&[0u64, 3, 6]);
    for _ in 0..n {
        let th = r.range(0, 2);
        let name = *r.pick(&names);
        let mode = r.chance(updates, 10) as i64 | (r.chance(1, 2) as i64) << 1;
        match ops[r.weighted(&ow)].0 {
            R_REG => pl.op(R_REG, &[th, name, r.range(0, comps - 1), mode]),
            R_POL => pl.op(R_POL, &[th, if routing { *r.pick(&[1, 1, 7, 0]) } else { name }, r.range(0, 2), mode]),
            R_SEND => { let m = if routing { r.range(0, 2) } else { (r.chance(1, 8) as i64) * 2 }; let at = if routing { *r.pick(&[1, 1, 1, 7, 0, 12, name]) } else { name }; pl.op(R_SEND, &[th, r.range(0, 4), at | m << 8, *r.pick(&[1, 1, 2, 5]), r.range(0, 31)]) }
            R_UNIQ => pl.op(R_UNIQ, &[th, r.range(0, 3), r.range(0, comps - 1), *r.pick(&[1, 2]), r.range(0, 31)]),
            R_KILL => pl.op(R_KILL, &[th, r.range(0, comps - 1)]),
            R_BAD_LOOKUP => pl.op(R_BAD_LOOKUP, &[th, r.range(0, 63)]),
            R_BAD => pl.op(R_BAD, &[th, r.range(0, 63), r.range(0, comps), r.range(0, 1)]),
            R_STOP => pl.op(R_STOP, &[th, r.range(0, comps - 1), r.range(0, 1)]),
            R_SLEEP => pl.op(R_SLEEP, &[th, *r.pick(&[5, 30, 200, 1000, 30000, 700000])]),
            k => pl.op(k, &[th]),
        }
    }
    pl
}
fn g_r01(r: &mut Rng, p: &mut SimParams, th: bool) -> Plan { gen_reg(r, p, false, th) }
fn g_r03(r: &mut Rng, p: &mut SimParams, th: bool) -> Plan { let routing = r.chance(1, 2); let mut pl = gen_reg(r, p, routing, th); if r.chance(1, 2) { pl.set("net", 1); } pl }
fn g_r02(r: &mut Rng, p: &mut SimParams, th: bool) -> Plan { gen_reg(r, p, true, th) }
const REG_SIMPLE: &[(&str, i64)] = &[("net", 0), ("shutdown", 0), ("f_partial", 0), ("f_again", 0), ("f_eintr", 0), ("drivers", 1), ("threads", 1), ("sched", 1), ("throughput", 50)];
fn g_a08(r: &mut Rng, p: &mut SimParams, th: bool) -> Plan {
    let mut pl = Plan::default();
    let n = r.range(2, 4);
    pl.set("comps", n); pl.set("threads", *r.pick(&[1, 1, 2, 3])); pl.set("throughput", *r.pick(&[1, 2, 3, 10, 50])); pl.set("prio", *r.pick(&[10, 34, 50, 66, 90])); pl.set("sched", *r.pick(&[0, 1, 2, 3]));
    pl.set("dedicated", if r.chance(2, 3) { 0 } else { r.range(0, (1 << n) - 1) });
    pl.set("bound", 1000); pl.set("busy_shutdown", r.range(0, 1));
    // under the other strategies threads may be starved by the scheduler
    p.strategy = 0; p.preempt_gap = *r.pick(&[10, 40, 100, 300]); p.p_stall = 0;
    p.tick_ns = *r.pick(&[100, 200, 400]); p.late_max_us = *r.pick(&[0, 50, 200]);
    pl.set("slack_us", 3000 + p.late_max_us as i64);
    let w: Vec<u32> = (0..10).map(|_| if r.chance(1, 2) { 0 } else { r.range(1, 10) as u32 }).collect();
    let loads = r.range(1, if th { 8 } else { 5 });
    for _ in 0..loads { let k = if w.iter().all(|x| *x == 0) { 0 } else { r.weighted(&w) as i64 }; let t = if k == 4 || k == 5 { 1 } else { *r.pick(&[1, 1, 2, 3, 20]) }; pl.op(F_LOAD, &[r.range(0, n - 1), k, t]); }
    for _ in 0..r.range(1, if th { 15 } else { 8 }) {
        if r.chance(1, 3) { pl.op(F_SLEEP, &[*r.pick(&[20, 100, 1000])]); }
        pl.op(F_PROBE, &[r.range(0, n - 1), if r.chance(1, 12) { 7 } else { *r.pick(&[0, 0, 1, 2, 3, 4, 5, 6, 8]) }, *r.pick(&[0, 100, 1000, 3000])]);
    }
    pl
}
const FAIR_SIMPLE: &[(&str, i64)] = &[("dedicated", 0), ("busy_shutdown", 0), ("threads", 1), ("sched", 1), ("prio", 50), ("throughput", 50)];
fn gen_life(r: &mut Rng, p: &mut SimParams, th: bool, faulty: bool) -> Plan {
    let mut pl = Plan::default();
    pl.set("threads", *r.pick(&[1, 1, 2, 3])); pl.set("throughput", *r.pick(&[1, 10, 50])); pl.set("prio", 50); pl.set("sched", *r.pick(&[0, 1, 2, 3]));
    pl.set("units", r.range(0, 4)); pl.set("dedicated", if r.chance(1, 2) { 0 } else { r.range(0, 15) }); pl.set("hook_us", *r.pick(&[0, 0, 50, 500, 3000]));
    pl.set("again", r.range(0, 1)); pl.set("end_poisoned", r.range(0, 3));
    if !r.chance(1, 3) { p.p_stall = 0; }
    p.p_bindfail = 0;
    let n = if faulty { r.range(1, if th { 5 } else { 3 }) } else { r.range(1, 2) };
    let fp = if faulty { r.range(1, 4) } else { 0 };
    for _ in 0..n {
        let kind = r.range(0, 4);
        let mut fault = if r.chance(fp as u64, 5) { r.range(1, 7) } else { 0 };
        if fault == 7 && kind < 3 { fault = r.range(1, 6); }
        if (4..=6).contains(&fault) && kind >= 3 { fault = *r.pick(&[7, 7, 1, 2, 3]); }
        let m = if r.chance(1, 4) { 0 } else { r.range(0, 3) };
        pl.op(S_SYS, &[if faulty { m } else { pl.ops.len() as i64 }, kind, fault, r.range(0, 1), *r.pick(&[0, 0, 10, 200, 2000])]);
        if !faulty && r.chance(1, 5) { let k = pl.ops.len() as i64; let kind = r.range(1, 4); pl.op(S_SYS, &[k, kind, if kind < 3 { r.range(1, 6) } else { r.range(1, 3) }, 1, *r.pick(&[0, 0, 10, 200, 2000])]); }
    }
    let span = *r.pick(&[0, 20, 200, 1000, 5000]);
    for _ in 0..if faulty { r.range(0, 1) } else { r.range(1, if th { 8 } else { 5 }) } {
        if r.chance(1, 4) { pl.op(S_MORE, &[r.range(0, 3), r.range(0, span.max(20))]); }
        pl.op(S_END, &[r.range(0, 3), *r.pick(&[0, 0, 0, 1, 1, 2, 3, 4]), r.range(0, span)]);
    }
    pl
}
fn g_s01(r: &mut Rng, p: &mut SimParams, th: bool) -> Plan { gen_life(r, p, th, true) }
fn g_s02(r: &mut Rng, p: &mut SimParams, th: bool) -> Plan { gen_life(r, p, th, false) }
const LIFE_SIMPLE: &[(&str, i64)] = &[("dedicated", 0), ("hook_us", 0), ("units", 1), ("again", 0), ("end_poisoned", 0), ("threads", 1), ("sched", 1), ("throughput", 50)];
pub static PROPS: &[Prop] = &[
    Prop { id: "S01", gen_: g_s01, run: life::run, op_name: life::op_name, about: "life", probes: &[], simple: LIFE_SIMPLE },
    Prop { id: "S02", gen_: g_s02, run: life::run, op_name: life::op_name, about: "life", probes: &[], simple: LIFE_SIMPLE },
    Prop { id: "A08", gen_: g_a08, run: fair::run, op_name: fair::op_name, about: "fair", probes: &[], simple: FAIR_SIMPLE },
    Prop { id: "R01", gen_: g_r01, run: reg::run, op_name: reg::op_name, about: "reg", probes: &[], simple: REG_SIMPLE },
    Prop { id: "R03", gen_: g_r03, run: reg::run, op_name: reg::op_name, about: "reg", probes: &[], simple: REG_SIMPLE },
    Prop { id: "R02", gen_: g_r02, run: reg::run, op_name: reg::op_name, about: "reg", probes: &[], simple: REG_SIMPLE },
    Prop { id: "B01", gen_: g_b01, run: net::run, op_name: net::op_name, about: "net", probes: &[], simple: NET_SIMPLE },
    Prop { id: "B02", gen_: g_b02, run: net::run, op_name: net::op_name, about: "net", probes: &[], simple: NET_SIMPLE },
    Prop { id: "N01", gen_: g_n01, run: net::run, op_name: net::op_name, about: "net", probes: &[], simple: NET_SIMPLE },
    Prop { id: "N02", gen_: g_n02, run: net::run, op_name: net::op_name, about: "net", probes: &[], simple: NET_SIMPLE },
    Prop { id: "N03", gen_: g_n03, run: net::run, op_name: net::op_name, about: "net", probes: &[], simple: NET_SIMPLE },
    Prop { id: "N05", gen_: g_n05, run: net::run, op_name: net::op_name, about: "net", probes: &[], simple: NET_SIMPLE },
    Prop { id: "N04", gen_: g_n04, run: net::run, op_name: net::op_name, about: "net", probes: &[], simple: NET_SIMPLE },
    Prop { id: "N06", gen_: g_n06, run: net::run, op_name: net::op_name, about: "net", probes: &[], simple: NET_SIMPLE },
    Prop { id: "N07", gen_: g_n07, run: net::run, op_name: net::op_name, about: "net", probes: &[], simple: NET_SIMPLE },
    Prop { id: "N08", gen_: g_n08, run: net::run, op_name: net::op_name, about: "net", probes: &[], simple: NET_SIMPLE },
    Prop { id: "N09", gen_: g_n09, run: net::run, op_name: net::op_name, about: "net", probes: &[], simple: NET_SIMPLE },
    Prop { id: "N10", gen_: g_n10, run: net::run, op_name: net::op_name, about: "net", probes: &[], simple: NET_SIMPLE },
    Prop { id: "N11", gen_: g_n11, run: net::run, op_name: net::op_name, about: "net", probes: &[], simple: NET_SIMPLE },
    Prop { id: "N12", gen_: g_n12, run: net::run, op_name: net::op_name, about: "net", probes: &[], simple: NET_SIMPLE },
    Prop { id: "N13", gen_: g_n13, run: net::run, op_name: net::op_name, about: "net", probes: &[], simple: NET_SIMPLE },
    Prop { id: "A01", gen_: g_a01, run: local::run, op_name: local::op_name, about: "local", probes: &[], simple: SIMPLE },
    Prop { id: "A02", gen_: g_a02, run: local::run, op_name: local::op_name, about: "local", probes: &[], simple: SIMPLE },
    Prop { id: "A03", gen_: g_a03, run: local::run, op_name: local::op_name, about: "local", probes: &[], simple: SIMPLE },
    Prop { id: "A04", gen_: g_a04, run: local::run, op_name: local::op_name, about: "local", probes: &[], simple: SIMPLE },
    Prop { id: "A05", gen_: g_a05, run: local::run, op_name: local::op_name, about: "local", probes: &[], simple: SIMPLE },
    Prop { id: "A06", gen_: g_a06, run: local::run, op_name: local::op_name, about: "local", probes: &[], simple: SIMPLE },
    Prop { id: "A07", gen_: g_a07, run: local::run, op_name: local::op_name, about: "local", probes: &[], simple: SIMPLE },
    Prop { id: "A09", gen_: g_a09, run: local::run, op_name: local::op_name, about: "local", probes: &[], simple: SIMPLE },
    Prop { id: "L01", gen_: g_l01, run: local::run, op_name: local::op_name, about: "local", probes: &[], simple: SIMPLE },
    Prop { id: "L02", gen_: g_l02, run: local::run, op_name: local::op_name, about: "local", probes: &[], simple: SIMPLE },
    Prop { id: "L03", gen_: g_l03, run: local::run, op_name: local::op_name, about: "local", probes: &[], simple: SIMPLE },
    Prop { id: "L04", gen_: g_l04, run: local::run, op_name: local::op_name, about: "local", probes: &[], simple: SIMPLE },
    Prop { id: "L05", gen_: g_l05, run: local::run, op_name: local::op_name, about: "local", probes: &[], simple: SIMPLE },
    Prop { id: "L06", gen_: g_l06, run: local::run, op_name: local::op_name, about: "local", probes: &[], simple: SIMPLE },
    Prop { id: "T01", gen_: g_t01, run: local::run, op_name: local::op_name, about: "local", probes: &[], simple: SIMPLE },
    Prop { id: "T02", gen_: g_t02, run: local::run, op_name: local::op_name, about: "local", probes: &[], simple: SIMPLE },
    Prop { id: "T03", gen_: g_t03, run: local::run, op_name: local::op_name, about: "local", probes: &[], simple: SIMPLE },
];
pub fn find(id: &str) -> Option<&'static Prop> { PROPS.iter().find(|p| p.id == id) }
pub fn all() -> impl Iterator<Item = &'static Prop> { PROPS.iter() }
