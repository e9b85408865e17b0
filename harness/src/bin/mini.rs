//! Small programs for builds under Miri, AddressSanitizer and ThreadSanitizer; judged by the sanitizer.
//! mini api|race SEED FIRST COUNT [MAX]; mini play|duet PROGRAM...
use gmon::props::{memory, pure};
use gmon::rng::Rng;
use gmon::script;
use std::collections::HashSet;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    gmon::ctx::install_panic_hook();
    if a[1] == "api" {
        let mut t = memory::Did::default();
        for i in n(3)..n(3) + n(4) {
            let mut r = Rng::new(n(2), 24_000, i);
            let max = a.get(5).map(|m| m.parse().unwrap()).unwrap_or(if i % 50 == 49 { 80 } else if i % 3 == 0 { 24 } else { 8 });
            let d = memory::program(&mut r, max);
            t.ops += d.ops; t.refused += d.refused; t.abandoned += d.abandoned; t.matchings += d.matchings; t.panics += d.panics; t.consumed += d.consumed;
            gmon::ctx::forget_panic();
        }
        println!("mini-done programs={} operations={} refused={} abandoned={} matchings={} panics={} consumed={}", n(4), t.ops, t.refused, t.abandoned, t.matchings, t.panics, t.consumed);
    } else if a[1] == "play" || a[1] == "duet" {
        let mut t = script::Played::default();
        for s in &a[2..] {
            let s: Vec<usize> = s.split(',').map(|w| w.parse().unwrap()).collect();
            if a[1] == "play" { script::play(&s, &mut t) } else { script::duet(&s, &mut t) }
        }
        println!("mini-done programs={} operations={} panics={}", a.len() - 2, t.operations, t.panics);
    } else {
        let (mut obs, mut sigs) = (0, HashSet::new());
        for i in n(3)..n(3) + n(4) { let (o, s) = pure::races(n(2), i); obs += o; sigs.insert(s); }
        println!("mini-done programs={} observations={} interleavings={}", n(4), obs, sigs.len());
    }
}
