//! Plans (workload + fault script of one run), the harness PRNG and their text form.
use crate::sim::{Decision, SimParams};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    /// Index chosen by weight.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(tot.max(1));
        for (i, x) in w.iter().enumerate() { if r < *x as u64 { return i; } r -= *x as u64; }
        0
    }
}
pub fn mix(a: u64, b: u64) -> u64 { Rng::new(a ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93)).next() }
pub fn hash_str(s: &str) -> u64 { let mut h = 0xcbf2_9ce4_8422_2325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3); } h }

#[derive(Clone, Debug, PartialEq)]
pub struct Op { pub k: u16, pub a: [i64; 5] }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan { pub cfg: Vec<(String, i64)>, pub ops: Vec<Op> }
impl Plan {
    pub fn get(&self, k: &str) -> i64 { self.cfg.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(0) }
    pub fn set(&mut self, k: &str, v: i64) { if let Some(c) = self.cfg.iter_mut().find(|c| c.0 == k) { c.1 = v } else { self.cfg.push((k.to_string(), v)) } }
    pub fn op(&mut self, k: u16, a: &[i64]) { let mut x = [0; 5]; x[..a.len()].copy_from_slice(a); self.ops.push(Op { k, a: x }); }
}

macro_rules! params_fields { ($m:ident) => { $m!(seed, strategy, preempt_gap, pct_depth, pct_span, slice, tick_ns, late_max_us, p_spurious,
    p_eintr, p_partial, p_wouldblock, p_epoll_subset, lat_min_us, lat_max_us, sockbuf, p_udp_drop, p_udp_dup, p_udp_delay, p_rst, p_connfail,
    p_bindfail, p_stall, stall_max_us, max_steps, max_time_ns) } }
pub fn params_text(p: &SimParams) -> String {
    let mut s = String::new();
    macro_rules! w { ($($f:ident),*) => { $( s.push_str(&format!(" {}={}", stringify!($f), p.$f)); )* } }
    params_fields!(w);
    s
}
pub fn params_parse(t: &str) -> SimParams {
    let mut p = SimParams::default();
    for kv in t.split_whitespace() {
        let (k, v) = kv.split_once('=').unwrap();
        macro_rules! r { ($($f:ident),*) => { match k { $( stringify!($f) => p.$f = v.parse().unwrap(), )* _ => panic!("bad param {k}") } } }
        params_fields!(r);
    }
    p
}

/// Everything needed to execute one run.
#[derive(Clone)]
pub struct Job { pub prop: String, pub params: SimParams, pub plan: Plan, pub dev: Option<Vec<Decision>> }
impl Job {
    pub fn to_text(&self, names: Option<&dyn Fn(u16) -> &'static str>) -> String {
        let mut s = format!("property {}\nparams{}\n", self.prop, params_text(&self.params));
        for (k, v) in &self.plan.cfg { s.push_str(&format!("cfg {k} {v}\n")); }
        for o in &self.plan.ops {
            s.push_str(&format!("op {} {} {} {} {} {}", o.k, o.a[0], o.a[1], o.a[2], o.a[3], o.a[4]));
            if let Some(f) = names { s.push_str(&format!(" # {}", f(o.k))); }
            s.push('\n');
        }
        if let Some(d) = &self.dev {
            s.push_str("replay\n");
            for d in d { s.push_str(&format!("dev {} {} {} {}", d.tid, d.kind, d.ctr, d.val));
                if names.is_some() { s.push_str(&format!(" # {}", crate::sim::KIND_NAMES[d.kind as usize])); } s.push('\n'); }
        }
        s
    }
    pub fn parse(t: &str) -> Job {
        let mut j = Job { prop: String::new(), params: SimParams::default(), plan: Plan::default(), dev: None };
        for l in t.lines() {
            let l = l.split('#').next().unwrap().trim();
            let mut w = l.splitn(2, ' ');
            let (k, rest) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
            let nums = || rest.split_whitespace().map(|x| x.parse::<i64>().unwrap()).collect::<Vec<_>>();
            match k {
                "property" => j.prop = rest.trim().to_string(),
                "params" => j.params = params_parse(rest),
                "cfg" => { let (a, b) = rest.split_once(' ').unwrap(); j.plan.cfg.push((a.to_string(), b.trim().parse().unwrap())) }
                "op" => { let n = nums(); j.plan.ops.push(Op { k: n[0] as u16, a: [n[1], n[2], n[3], n[4], n[5]] }) }
                "replay" => j.dev = Some(vec![]),
                "dev" => { let n = nums(); j.dev.as_mut().unwrap().push(Decision { tid: n[0] as u16, kind: n[1] as u16, ctr: n[2] as u32, val: n[3] as u32 }) }
                _ => (),
            }
        }
        j
    }
}
