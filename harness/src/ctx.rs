//! Verdicts, the boundary between harness and subject, and what a case leaves behind as evidence.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::SeqCst};

#[derive(Debug)]
pub struct Fail { pub msg: String, pub inputs: String }
impl Fail {
    pub fn v(msg: String) -> Fail { Fail { msg, inputs: String::new() } }
    pub fn with(mut self, f: impl FnOnce() -> String) -> Fail {
        if self.inputs.is_empty() { self.inputs = f(); } else { let s = f(); self.inputs = format!("{}\n{}", s, self.inputs); }
        self
    }
}
pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::ctx::Fail::v(format!($($a)*))); } };
}

#[macro_export]
macro_rules! fail { ($($a:tt)*) => { return Err($crate::ctx::Fail::v(format!($($a)*))) }; }

/// Slot shared with the supervisor: [case + 1, subject depth].
pub static LOCAL: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
pub static SLOT: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());
pub fn slot(i: usize) -> &'static AtomicU64 {
    let p = SLOT.load(SeqCst);
    if p.is_null() { &LOCAL[i] } else { unsafe { &*p.add(i) } }
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| if let Ok(mut p) = p.try_borrow_mut() { *p = format!("{} ({})", m, l) });
    }));
}
pub fn forget_panic() { PANIC.with(|p| *p.borrow_mut() = String::new()) }
pub fn last_panic() -> String { PANIC.with(|p| p.borrow().clone()) }

/// Runs subject code. A panic in there, on input the property calls valid, is a violation.
pub fn subj<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    match quietly(f) { Ok(v) => Ok(v), Err(m) => Err(Fail::v(format!("{} panicked: {}", what, m))) }
}
/// Runs subject code and gives back a panic as a value.
pub fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let d = slot(1);
    d.fetch_add(1, SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    d.fetch_sub(1, SeqCst);
    r.map_err(|_| last_panic())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Ctx {
    pub rng: Rng,
    pub tier: Tier,
    pub seed: u64,
    pub idx: u64,
    pub evals: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub keys: Vec<u64>,
    pub samples: Vec<String>,
    pub want_sample: bool,
}
impl Ctx {
    pub fn new(rng: Rng, tier: Tier, seed: u64, idx: u64) -> Ctx {
        Ctx { rng, tier, seed, idx, evals: 0, counters: BTreeMap::new(), maxima: BTreeMap::new(), keys: vec![], samples: vec![], want_sample: false }
    }
    pub fn count(&mut self, k: &'static str, n: u64) { *self.counters.entry(k).or_insert(0) += n; }
    pub fn max(&mut self, k: &'static str, n: u64) { let e = self.maxima.entry(k).or_insert(0); if n > *e { *e = n } }
    /// One evaluation of the property; `key` identifies it if it was non-trivial.
    pub fn eval(&mut self, key: Option<u64>) { self.evals += 1; if let Some(k) = key { self.keys.push(k) } }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.samples.is_empty() {
            let mut s = f();
            if s.len() > 700 { s.truncate(700); s.push_str("..."); }
            self.samples.push(s);
        }
    }
    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }
}

/// Is any thread of the process (but the calling one) running, ready to, or in the middle of a system call that will end by itself?
pub fn runnable(pid: &str) -> bool {
    let me = if pid == "self" { std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|n| n.to_owned())) } else { None };
    let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", pid)) else { return true };
    for t in d.flatten() {
        if Some(t.file_name()) == me { continue; }
        let Ok(s) = std::fs::read_to_string(t.path().join("stat")) else { return true };
        if s.rsplit_once(") ").is_none_or(|x| !x.1.starts_with('S')) { return true; }
    }
    false
}
