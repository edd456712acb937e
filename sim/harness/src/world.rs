//! Helpers used inside a simulated run: un-synchronised global state (only one thread ever runs),
//! violation reporting and bounded waiting in virtual time.
#![allow(dead_code)]
use crate::sim;
use std::cell::UnsafeCell;

pub struct Global<T>(UnsafeCell<Option<T>>);
// SAFETY: the simulator runs exactly one thread at a time and never switches outside scheduling points.
unsafe impl<T> Sync for Global<T> {}
impl<T> Global<T> {
    pub const fn new() -> Self { Global(UnsafeCell::new(None)) }
    pub fn init(&self, v: T) { unsafe { *self.0.get() = Some(v) } }
    pub fn try_get(&self) -> Option<&T> { unsafe { (*self.0.get()).as_ref() } }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T { unsafe { (*self.0.get()).as_mut().unwrap() } }
}
static PROP: Global<String> = Global::new();
pub fn set_prop(p: &str) { PROP.init(p.to_string()) }
/// Is `id` the property this run decides?
pub fn on(id: &str) -> bool { PROP.get() == id }

pub fn violate(class: &str, msg: String) -> ! { sim::finish(sim::VIOLATION, &format!("{class}: {msg}")) }
/// Check an invariant that belongs to one property.
#[macro_export]
macro_rules! ensure {
    ($prop:expr, $c:expr, $class:expr, $($t:tt)*) => { if !($c) && $crate::world::on($prop) { $crate::world::violate($class, format!($($t)*)) } };
}
#[macro_export]
macro_rules! tr { ($($t:tt)*) => { if $crate::world::tracing() { $crate::sim::trace(&format!("[{:>9}us t{} s{}] {}", $crate::sim::now()/1000, $crate::sim::tid(), $crate::sim::step(), format!($($t)*))) } } }
static mut TRACING: bool = false;
pub fn tracing() -> bool { unsafe { TRACING } }
pub fn set_tracing(b: bool) { unsafe { TRACING = b } }

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
pub fn sleep_ns(n: u64) { std::thread::sleep(std::time::Duration::from_nanos(n)) }
/// Wait in virtual time; true if the condition became true within the bound.
pub fn wait_until(bound_ns: u64, mut f: impl FnMut() -> bool) -> bool {
    let end = sim::now() + bound_ns;
    let mut gap = 20_000;
    loop {
        if f() { return true; }
        if sim::now() >= end { return false; }
        sleep_ns(gap);
        if gap < 20 * MS { gap = gap * 3 / 2; }
    }
}

/// Run harness bookkeeping without scheduling points (cloning or dropping shared handles has atomics in it).
pub fn still<T>(f: impl FnOnce() -> T) -> T { sim::nopreempt(1); let r = f(); sim::nopreempt(-1); r }

static ALLOWED: Global<&'static [&'static str]> = Global::new();
/// Panics with these messages are answers to what the scenario does.
pub fn set_allowed(a: &'static [&'static str]) { ALLOWED.init(a) }
pub fn allowed(m: &str) -> bool { ALLOWED.try_get().is_some_and(|a| a.iter().any(|x| m.contains(x))) }
