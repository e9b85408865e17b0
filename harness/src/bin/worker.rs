//! Runs the cases of one property that belong to one shard.
//! worker PROP SEED quick|thorough SHARD SHARDS OUT SLOT SECONDS [CASE]
//! Exit: 0 done, 10 violation (described in OUT), 11 harness error, 12 memory limit, 13 work limit, 14 asleep forever.
use gmon::ctx::{self, Ctx, Tier};
use gmon::guided;
use gmon::mem;
use gmon::rng::{mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[global_allocator]
static A: mem::Counting = mem::Counting;

/// HashMap seeds of the standard library come from here, so that a case can be replayed.
static ENTROPY: AtomicU64 = AtomicU64::new(1);
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = 0;
    for i in 0..len {
        if i % 8 == 0 { x = mix(ENTROPY.fetch_add(1, SeqCst)); }
        unsafe { *buf.add(i) = (x >> (8 * (i % 8))) as u8; }
    }
    len as isize
}

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
}
/// Processor time of this process, in seconds.
fn cpu() -> i64 { let mut t = [0, 0]; unsafe { clock_gettime(2, &mut t); } t[0] }
/// No case of the unchanged library comes near: at most 2e8 regions and 10 s of processor time.
const WORK_LIMIT: u64 = 6_000_000_000;
const CPU_LIMIT: i64 = 240;
/// Code regions executed by one run of breeding.
const BREED: u64 = 2_000_000_000;
const STILL: u64 = 20;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn map(m: &BTreeMap<&'static str, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, tier) = (a[1].clone(), a[2].parse::<u64>().unwrap(), if a[3] == "thorough" { Tier::Thorough } else { Tier::Quick });
    let (shard, shards): (u64, u64) = (a[4].parse().unwrap(), a[5].parse().unwrap());
    let (out, slot, secs) = (a[6].clone(), a[7].clone(), a[8].parse::<u64>().unwrap());
    let only: Option<u64> = a.get(9).map(|s| s.parse().unwrap());
    let pnum: u64 = prop[1..3].parse().unwrap();
    {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(&slot).unwrap();
        f.set_len(4096).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1);
        ctx::SLOT.store(p as *mut AtomicU64, SeqCst);
    }
    ctx::install_panic_hook();
    mem::LIMIT.store(mem::LIVE.load(SeqCst) + (1 << 30), SeqCst);
    let (_, len, case) = gmon::props::table().into_iter().find(|x| x.0 == prop).expect("unknown property");
    if gmon::cov::ON {
        std::thread::spawn(|| {
            let (mut at, mut base, mut t0) = (u64::MAX, 0, 0);
            let mut seen = 0;
            let mut still = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(100));
                let (c, n) = (ctx::slot(0).load(SeqCst) << 40 | guided::ROUND.load(SeqCst), gmon::cov::regions());
                if c != at { at = c; base = n; t0 = cpu(); }
                // asleep inside the library: at every look the same case, and no thread running or ready to
                if c != seen || ctx::slot(1).load(SeqCst) == 0 || gmon::ctx::runnable("self") { seen = c; still = Instant::now(); }
                else if still.elapsed() > Duration::from_secs(STILL) { unsafe { mem::_exit(14) } }
                if n.wrapping_sub(base) > WORK_LIMIT || cpu() - t0 > CPU_LIMIT { unsafe { mem::_exit(13) } }
            }
        });
    }
    let start = Instant::now();
    // after the ordinary cases, a few that breed cases of their own
    let light = gmon::props::light(&prop, tier == Tier::Thorough);
    let light: &'static [u64] = Box::leak(light.into_boxed_slice());
    let ordinary = len(tier == Tier::Thorough);
    let first = ordinary.next_multiple_of(guided::RUNS);
    let breeding = gmon::cov::ON && !light.is_empty();
    let total = if breeding { first + guided::RUNS } else { ordinary };
    let budget = std::env::var("GMON_BREED").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Thorough { 40 * BREED } else { BREED });
    let _ = guided::UNTIL.set(start + Duration::from_secs(if only.is_some() { 3600 } else { secs }));
    let (mut cases, mut evals) = (0u64, 0u64);
    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut samples: Vec<(u64, String)> = vec![];
    let mut verdict = String::from("\"status\":\"ok\"");
    let mut code = 0;
    // every block of `shards` cases is dealt out anew, so that rare heavy cases do not meet in one shard
    let deal = |block: u64| block * shards + (shard + mix(block) % shards) % shards;
    let mut block = 0;
    let mut i = only.unwrap_or_else(|| deal(0));
    while block * shards < total || only.is_some() {
        if only.is_none() && i >= total { break; }
        if only.is_none() && start.elapsed() > Duration::from_secs(secs) { counters.insert("stopped_by_time_limit", 1); break; }
        ctx::slot(1).store(0, SeqCst);
        ctx::slot(0).store(i + 1, SeqCst);
        ENTROPY.store(mix(seed ^ mix(pnum) ^ mix(i)), SeqCst);
        let nth = block;
        let want = only.is_some() || matches!(nth, 0 | 60 | 700) || i + 3 * shards >= total;
        let before = if nth % 16 == 0 { gmon::cov::regions() } else { 0 };
        let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            let mut c = Ctx::new(Rng::new(seed, pnum, i), tier, seed, i);
            c.want_sample = want;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if i < ordinary { case(&mut c) } else if i < first { Ok(()) } else { guided::run(&mut c, case, light, budget) }));
            (c, r.map_err(|_| ctx::last_panic()))
        }).expect("thread");
        let (c, r) = h.join().expect("case thread");
        if nth % 16 == 0 { let d = gmon::cov::regions().wrapping_sub(before); let e = maxima.entry("regions_executed_in_a_case").or_insert(0); *e = (*e).max(d); }
        cases += 1;
        evals += c.evals;
        for (k, v) in &c.counters { *counters.entry(k).or_insert(0) += v; }
        for (k, v) in &c.maxima { let e = maxima.entry(k).or_insert(0); *e = (*e).max(*v); }
        keys.extend(&c.keys);
        for s in c.samples { if samples.len() < 8 { samples.push((i, s)); } }
        match r {
            Err(m) => { verdict = format!("\"status\":\"error\",\"case\":{},\"message\":{}", i, esc(&m)); code = 11; break; }
            Ok(Err(f)) => { verdict = format!("\"status\":\"violation\",\"case\":{},\"message\":{},\"inputs\":{}", i, esc(&f.msg), esc(&f.inputs)); code = 10; break; }
            Ok(Ok(())) => {}
        }
        if only.is_some() { break; }
        block += 1;
        i = deal(block);
    }
    let mut f = std::fs::File::create(&out).unwrap();
    let s = samples.iter().map(|(i, s)| format!("{{\"case\":{},\"text\":{}}}", i, esc(s))).collect::<Vec<_>>().join(",");
    maxima.insert("peak_live_bytes", mem::PEAK.load(SeqCst) as u64);
    write!(f, "{{{},\"planned\":{},\"cases\":{},\"evaluations\":{},\"counters\":{},\"maxima\":{},\"samples\":[{}]}}\n", verdict, total, cases, evals, map(&counters), map(&maxima), s).unwrap();
    let mut kb = Vec::with_capacity(keys.len() * 8);
    for k in &keys { kb.extend_from_slice(&k.to_le_bytes()); }
    std::fs::write(format!("{}.keys", out), kb).unwrap();
    std::process::exit(code);
}
