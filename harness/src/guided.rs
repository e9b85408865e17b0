//! Cases bred for what they make the library execute. A case is the list of choices its generator made;
//! lists that made a code region of the library run, or run about as often (or a function's regions run in
//! a combination), as none before did are kept, and changed in many ways to get the next ones. The verdict
//! is that of the property's own monitor.
use crate::cov;
use crate::ctx::{Ctx, R};
use crate::props::Case;
use crate::rng::{self, Rng};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::OnceLock;
use std::time::Instant;

/// Counts the cases within a case, for whoever watches its work.
pub static ROUND: AtomicU64 = AtomicU64::new(0);
/// When to stop even if the work is not done.
pub static UNTIL: OnceLock<Instant> = OnceLock::new();
/// How many of these there are.
pub const RUNS: u64 = 8;

struct Kept { draws: Vec<u64>, cost: u64, idx: u64, ran: Vec<bool> }

fn bucket(n: u64) -> u32 { if n < 4 { n as u32 } else { (64 - n.leading_zeros() + 1).min(15) } }

fn mutate(r: &mut Rng, kept: &[Kept], t: &mut Vec<u64>) {
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3, 5]) {
        let n = t.len();
        if n == 0 { return; }
        let at = r.below(n);
        let most = 1 << r.below(7);
        let len = (1 + r.below(most)).min(n - at);
        match r.below(12) {
            0 => t.truncate(at),
            1 | 2 => t[at] = r.u64(),
            3 => { let v = *r.pick(&[0, u64::MAX, 1 << 63, 1 << 32, u64::MAX >> 1]); t[at] = v; }
            4 => { let b = 1 << (32 + r.below(32)); t[at] = if r.pct(50) { t[at].wrapping_add(b) } else { t[at].wrapping_sub(b) }; }
            5 => t[at] = *r.pick(&t[..]),
            6 => for x in &mut t[at..at + len] { *x = r.u64(); },
            7 => { t.drain(at..at + len); }
            8 => { let v: Vec<u64> = (0..len).map(|_| r.u64()).collect(); t.splice(at..at, v); }
            9 => { let v = t[at..at + len].to_vec(); let to = r.below(n); t.splice(to..to, v); }
            10 => { let o = &r.pick(kept).draws; if at < o.len() { t.truncate(at); t.extend_from_slice(&o[at..]); } }
            _ => { let o = &r.pick(kept).draws; if !o.is_empty() { let from = r.below(o.len()); let l = len.min(o.len() - from); let v = o[from..from + l].to_vec(); if r.pct(50) { t.splice(at..(at + l).min(n), v); } else { t.splice(at..at, v); } } }
        }
    }
}

/// One run of breeding, from nothing; `light` are the ordinary cases to vary.
pub fn run(c: &mut Ctx, case: Case, light: &[u64], budget: u64) -> R {
    let mut r = c.rng.clone();
    let mut watch = cov::Watch::start();
    watch.share();
    let at = watch.functions();
    let mut ran = vec![];
    let n: usize = at.iter().map(|x| x.1 - x.0).sum();
    let mut single = vec![false; n * 16];
    let mut joint = vec![false; 1 << 20];
    let mut kept: Vec<Kept> = vec![];
    let (mut spent, mut round, mut made) = (0u64, 0u64, 0u64);
    let (mut runs, mut rare) = (vec![0u64; n], vec![]);
    let combined = c.idx % 2 == 1;
    while spent < budget {
        if UNTIL.get().is_some_and(|t| Instant::now() > *t) { c.count("stopped_by_time_limit", 1); break; }
        let mut idx = *r.pick(light);
        let mut t = vec![];
        if kept.len() >= 20 && r.pct(95) {
            let mut k = r.below(kept.len());
            // those that run what hardly any does; rather late ones, rather cheap ones
            let x = if rare.is_empty() { 0 } else { *r.pick(&rare) };
            let with: Vec<usize> = if !rare.is_empty() && r.pct(60) { (0..kept.len()).filter(|&k| kept[k].ran[x]).collect() } else { vec![] };
            if !with.is_empty() { k = *r.pick(&with); }
            else if r.pct(40) { k = kept.len() - 1 - r.below((kept.len() + 3) / 4); }
            let j = r.below(kept.len());
            if with.is_empty() && r.pct(70) && kept[j].cost * 2 < kept[k].cost { k = j; }
            t = kept[k].draws.clone();
            idx = kept[k].idx;
            mutate(&mut r, &kept, &mut t);
        }
        ROUND.fetch_add(1, SeqCst);
        round += 1;
        let total = cov::regions();
        watch.lap(&mut ran);
        rng::load(&t, r.u64());
        let mut inner = Ctx::new(Rng::taped(), c.tier, c.seed, idx);
        let res = case(&mut inner);
        let draws = rng::unload();
        watch.lap(&mut ran);
        let cost = cov::regions().wrapping_sub(total);
        spent += cost.min(budget) + 2000 + 800_000 * inner.counters.get("fresh_processes").copied().unwrap_or(0);
        c.evals += inner.evals;
        for (k, v) in &inner.counters { c.count(k, *v); }
        for (k, v) in &inner.maxima { c.max(k, *v); }
        if c.keys.len() < 2_000_000 { c.keys.append(&mut inner.keys); }
        if let Err(f) = res { return Err(f.with(|| format!("round {} of breeding (a variation of case {})", round, idx))); }
        for (i, x) in ran.iter().enumerate() { if *x > 0 { runs[i] += 1; } }
        if round % 64 == 0 {
            rare = (0..n).filter(|&i| runs[i] > 0 && runs[i] < round / 8).collect::<Vec<usize>>();
            rare.sort_by_key(|&i| runs[i]);
            rare.truncate(10);
        }
        let (mut new, mut i) = (false, 0);
        for (f, &(a, b)) in at.iter().enumerate() {
            let mut h = f as u64;
            let mut any = false;
            for _ in a..b {
                let x = bucket(ran[i]);
                if x > 0 { any = true; let s = &mut single[i * 16 + x as usize]; if !*s { *s = true; new = true; } }
                h = rng::mix(h ^ x.min(3) as u64);
                i += 1;
            }
            if any && combined && b - a > 2 { let s = &mut joint[h as usize & ((1 << 20) - 1)]; if !*s { *s = true; new = true; } }
        }
        if new { made += 1; if draws.len() < 20_000 { kept.push(Kept { draws, cost, idx, ran: ran.iter().map(|x| *x > 0).collect() }); } }
    }
    c.count("bred_cases", round);
    c.count("bred_cases_kept", made);
    c.count("bred_region_counts_seen", single.iter().filter(|x| **x).count() as u64);
    c.count("bred_combinations_seen", joint.iter().filter(|x| **x).count() as u64);
    c.max("regions_of_the_library_watched", n as u64);
    Ok(())
}
